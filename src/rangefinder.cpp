// SensorRangeFinder: every history of samples, silences, tilts and qualities against a reference of the documented validity rules.
#include "mc.h"
#include <EKF/sensor_range_finder.hpp>
#include <cmath>

using estimator::sensor::SensorRangeFinder;

struct Ref {
	bool valid{false}, regular{false};
	double lpf{0};
	uint64_t sample_t{0}, last_valid{0}, bad_quality{0}, hyst{0};
	double rng{0};
	int quality{0};
	bool stuck{false};
	double smin{0}, smax{0};
	double mn{0}, mx{0}, cosmax{0.7071};
	double cost{0};
	bool unsure{false};   // a floating point comparison within rounding of its threshold: adopt the implementation's answer
	void check(uint64_t now, bool ready)
	{
		unsure = false;
		lpf = std::min(lpf * (1 - 0.005) + 0.005 * double(now - sample_t), 4e6);
		unsure = unsure || std::fabs(lpf - 2e6) < 20;

		if (now - sample_t > 400000 || lpf >= 2e6) { valid = regular = false; return; }

		regular = true;

		if (!ready) { return; }

		valid = false;

		if (quality == 0) { bad_quality = now; return; }

		if (now - bad_quality <= hyst) { return; }

		unsure = unsure || std::fabs(cost - cosmax) < 1e-6;

		if (!(cost > cosmax) || rng < mn || rng > mx) { return; }

		if (sample_t - last_valid > 10000000) {
			unsure = unsure || std::fabs(smax - smin - 0.1) < 1e-5;

			if (smax - smin > 0.1) { smin = smax = 0; stuck = false; }

			else {
				smax = std::max(smax, rng);

				if (smin < 0.1 || rng < smin) { smin = rng; }

				stuck = true;
			}
		}

		if (!stuck) { valid = true; last_valid = sample_t; }
	}
};

struct World {
	SensorRangeFinder rf;
	Ref r;
	uint64_t now{0};
	double pitch_offset{0};
	double roll{0}, pitch{0};
	matrix::Dcmf R;
	void attitude(double ro, double pi)
	{
		roll = ro; pitch = pi;
		R = matrix::Dcmf(matrix::Eulerf(float(ro), float(pi), 0.7f));
		// the sensor boresight in earth frame, down component: body z rotated by the pitch offset
		r.cost = -std::sin(pi) * std::sin(pitch_offset) + std::cos(pi) * std::cos(ro) * std::cos(pitch_offset);
	}
	void tick(bool fresh, float rng, int quality)
	{
		now += 10000;
		rf.setDataReadiness(false);

		if (fresh) {
			estimator::rangeSample s{};
			s.time_us = now - 5000;
			s.rng = rng;
			s.quality = int8_t(quality);
			rf.setSample(s);
			r.sample_t = s.time_us;
			r.rng = rng;
			r.quality = quality;
		}

		rf.runChecks(now, R);
		r.check(now, fresh);
		mc::transition();

		if (r.unsure) { mc::end_path(); }

		MC_CHECK(rf.isHealthy() == r.valid, "healthy", "t=%.2f s: isHealthy() is %d, the rules give %d (range %.3f quality %d cos(tilt) %.4f stuck %d)", now * 1e-6, rf.isHealthy(), r.valid, r.rng, r.quality, r.cost, r.stuck);
		MC_CHECK(rf.isDataHealthy() == (r.valid && fresh), "data-healthy", "t=%.2f s: isDataHealthy() is %d, expected %d", now * 1e-6, rf.isDataHealthy(), r.valid && fresh);
		MC_CHECK(rf.isRegularlySendingData() == r.regular, "regular", "t=%.2f s: isRegularlySendingData() is %d, expected %d", now * 1e-6, rf.isRegularlySendingData(), r.regular);
		MC_CHECK(std::fabs(rf.getCosTilt() - r.cost) < 2e-6, "tilt", "cos(tilt) %.6f, geometry gives %.6f", rf.getCosTilt(), r.cost);
		MC_CHECK(std::fabs(rf.getDistBottom() - r.rng * r.cost) < 1e-5 * (1 + r.rng), "distance", "vertical distance %.5f, range x cos(tilt) is %.5f", rf.getDistBottom(), r.rng * r.cost);
	}
};

int main(int argc, char **argv)
{
	mc::init(argc, argv, getenv("MC_PROPERTY"));
	const int depth = mc::thorough() ? 5 : 4;
	mc::rule("all sequences (quick 4, thorough 5) of phases from a menu of 13 (good data at 20/10/3 Hz, constant data, low, high, limit values, zero quality, one zero-quality sample, tilted, silence of 0.3/0.5/3/12 s, "
		 "long invalid periods), for 4 configurations of limits, mounting pitch and quality hysteresis and two start times; every 10 ms step is compared with the reference rules; "
		 "a state is the reference state at a phase end.");
	mc::explore("histories", mc::ODOMETER, [&]() {
		const int cfg = mc::choose(4), st = mc::choose(2);
		World w;
		static const double OFF[4] = {0, 0.3, -0.2, 0}, MN[4] = {0.2, 0.5, 0.1, 0.3}, MX[4] = {10, 5, 40, 8}, HY[4] = {0, 1.0, 0.25, 0}, CM[4] = {0.7071, 0.8, 0.5, 0.7071};
		w.pitch_offset = OFF[cfg];
		w.rf.setPitchOffset(float(OFF[cfg]));
		w.rf.setLimits(float(MN[cfg]), float(MX[cfg]));
		w.rf.setQualityHysteresis(float(HY[cfg]));
		w.rf.setCosMaxTilt(float(CM[cfg]));
		MC_CHECK(w.rf.getValidMinVal() == float(MN[cfg]) && w.rf.getValidMaxVal() == float(MX[cfg]), "limits", "limits %.3f %.3f", w.rf.getValidMinVal(), w.rf.getValidMaxVal());
		w.r.mn = float(MN[cfg]);
		w.r.mx = float(MX[cfg]);
		w.r.hyst = uint64_t(HY[cfg] * 1e6);
		w.r.cosmax = float(CM[cfg]);
		w.now = st ? 60000000 : 2000000;
		w.attitude(0, 0);
		double rng = 2.0;
		auto run = [&](int ticks, int every, double step, int quality, float fixed) {
			for (int k = 0; k < ticks; k++) {
				const bool fresh = every > 0 && k % every == 0;

				if (fresh) { rng += step; if (rng > 3.5) { rng = 1.5; } }

				w.tick(fresh, fixed >= 0 ? fixed : float(rng), quality);
			}
		};

		for (int k = 0; k < depth; k++) {
			const int c = mc::choose(13);

			switch (c) {
			case 0: mc::note("1 s of good data at 20 Hz"); run(100, 5, 0.03, 1, -1); break;

			case 1: mc::note("0.6 s of constant data at 10 Hz"); run(60, 10, 0, 100, 2.f); break;

			case 2: mc::note("0.2 s below the minimum"); run(20, 5, 0, 1, float(MN[cfg]) - 0.01f); break;

			case 3: mc::note("0.2 s above the maximum"); run(20, 5, 0, 1, float(MX[cfg]) + 0.01f); break;

			case 4: mc::note("at the limits"); run(5, 5, 0, 1, float(MN[cfg])); run(5, 5, 0, 1, float(MX[cfg])); break;

			case 5: mc::note("0.5 s of zero quality"); run(50, 5, 0.01, 0, -1); break;

			case 6: mc::note("one zero quality sample, then good data"); run(5, 5, 0.01, 0, -1); run(30, 5, 0.01, 50, -1); break;

			case 7: mc::note("0.3 s rolled by 50 degrees"); w.attitude(0.873, 0); run(30, 5, 0.02, 1, -1); w.attitude(0, 0); break;

			case 8: mc::note("0.3 s pitched by 30 degrees"); w.attitude(0.1, -0.52); run(30, 5, 0.02, 1, -1); w.attitude(0.05, 0.52); run(10, 5, 0.02, 1, -1); w.attitude(0, 0); break;

			case 9: mc::note("silence of 0.45 s"); run(45, 0, 0, 1, -1); break;

			case 10: mc::note("silence of 3 s"); run(300, 0, 0, 1, -1); break;

			case 11: mc::note("11 s beyond the maximum"); run(1100, 5, 0, 1, float(MX[cfg]) + 1.f); break;

			default: mc::note("1.2 s of good data at 3 Hz"); run(120, 33, 0.06, 1, -1); break;
			}

			uint64_t h = mc::mix(cfg * 2 + st, w.r.valid + 2 * w.r.regular + 4 * w.r.stuck);
			h = mc::hash_pod(h, w.r.lpf);
			h = mc::mix(h, w.now - w.r.last_valid);
			h = mc::mix(h, w.now - w.r.bad_quality);
			h = mc::hash_pod(h, w.r.smin);
			mc::visit(mc::hash_pod(h, w.r.smax));
		}

		mc::outcome(w.r.valid + 2 * w.r.regular + 4 * w.r.stuck);

		if (w.r.stuck && w.r.regular) { mc::sample("configuration %d start %d: ends stuck after %.1f s, last valid %.1f s ago", cfg, st, w.now * 1e-6, (w.now - w.r.last_valid) * 1e-6); }
	}, 3);
	return mc::finish();
}

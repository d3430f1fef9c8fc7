// ImuDownSampler: every sequence of IMU samples from a small alphabet against an exact reference in double precision.
#include "mc.h"
#include <EKF/imu_down_sampler.hpp>
#include <cmath>

struct Q { double w{1}, x{0}, y{0}, z{0}; };
static Q mul(Q a, Q b) { return {a.w *b.w - a.x *b.x - a.y *b.y - a.z * b.z, a.w *b.x + a.x *b.w + a.y *b.z - a.z * b.y, a.w *b.y - a.x *b.z + a.y *b.w + a.z * b.x, a.w *b.z + a.x *b.y - a.y *b.x + a.z * b.w}; }
static Q rotvec(const double v[3])
{
	const double n = std::sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]);

	if (n < 1e-12) { return {1, v[0] / 2, v[1] / 2, v[2] / 2}; }

	const double s = std::sin(n / 2) / n;
	return {std::cos(n / 2), v[0] *s, v[1] *s, v[2] *s};
}
static void tovec(Q q, double v[3])
{
	if (q.w < 0) { q = { -q.w, -q.x, -q.y, -q.z}; }

	const double s = std::sqrt(q.x * q.x + q.y * q.y + q.z * q.z);
	const double k = s < 1e-12 ? 2 : 2 * std::atan2(s, q.w) / s;
	v[0] = q.x * k; v[1] = q.y * k; v[2] = q.z * k;
}
static void rot(Q q, const double v[3], double o[3])   // q v q*
{
	const Q p = mul(mul(q, {0, v[0], v[1], v[2]}), {q.w, -q.x, -q.y, -q.z});
	o[0] = p.x; o[1] = p.y; o[2] = p.z;
}

struct Ref {
	Q q;
	double dv[3] {}, adt{0}, vdt{0};
	uint64_t t{0};
	bool clip[3] {};
	double adj{0};
	bool fresh{true};
	void clear() { const double a = adj; *this = Ref(); adj = a; }
	void add(const imuSample &s)
	{
		if (fresh) { clear(); fresh = false; }

		adt += s.delta_ang_dt;
		vdt += s.delta_vel_dt;
		t = s.time_us;
		const double da[3] = {s.delta_ang(0), s.delta_ang(1), s.delta_ang(2)}, v[3] = {s.delta_vel(0), s.delta_vel(1), s.delta_vel(2)};
		const Q d = rotvec(da), di{d.w, -d.x, -d.y, -d.z};
		q = mul(q, d);
		double a[3], b[3];
		rot(di, dv, a);
		rot(di, v, b);

		for (int i = 0; i < 3; i++) { dv[i] = a[i] + 0.5 * (v[i] + b[i]); clip[i] = clip[i] || s.delta_vel_clipping[i]; }
	}
};

static imuSample mk(uint64_t &t, int dti, int rotc, int velc, int clip)
{
	static const int DT[4] = {2500, 4000, 7000, 12500};
	imuSample s{};
	t += DT[dti];
	s.time_us = t;
	s.delta_ang_dt = DT[dti] * 1e-6f;
	s.delta_vel_dt = DT[dti] * 1.02e-6f;
	static const float A[6][3] = {{0, 0, 0}, {0.3f, 0, 0}, {0, -0.5f, 0.1f}, {0.001f, 0.002f, 1.0f}, {1e-5f, 0, 0}, {2.0f, -1.f, 0.5f}};
	static const float W[3][3] = {{0, 0, -0.1f}, {1.5f, -2.f, 0.25f}, {0, 0, 0}};
	s.delta_ang = Vector3f(A[rotc]);
	s.delta_vel = Vector3f(W[velc]);
	s.delta_vel_clipping[0] = clip & 1;
	s.delta_vel_clipping[1] = clip & 2;
	s.delta_vel_clipping[2] = clip & 4;
	return s;
}

int main(int argc, char **argv)
{
	mc::init(argc, argv, getenv("MC_PROPERTY"));
	const int depth = mc::thorough() ? 7 : 5;
	mc::rule("histories: all sequences (quick 5, thorough 7) of samples from an alphabet of 11 (4 intervals, 6 rotations up to 2.3 rad, 3 velocity increments, 4 clipping patterns combined to cover each "
		 "pair of kinds), for target intervals 8, 10 and 20 ms, taking the result as soon as it is ready or one sample late; rate: 9 input intervals x 3 targets for 3000 outputs; the reference "
		 "composes the rotations in double precision; non-trivial: an output was produced.");
	mc::explore("histories", mc::ODOMETER, [&]() {
		static const float TGT[3] = {0.010f, 0.008f, 0.020f};
		const int ti = mc::choose(3);
		const bool late = mc::choose(2);
		const float target = TGT[ti];
		ImuDownSampler ds(target), other(0.010f);
		Ref r;
		uint64_t t = 1000000;
		int outputs = 0, pending = 0;

		for (int k = 0; k < depth; k++) {
			static const int AL[11][4] = {{0, 0, 0, 0}, {1, 1, 1, 0}, {2, 2, 1, 1}, {3, 3, 0, 2}, {1, 4, 2, 4}, {0, 5, 1, 0}, {2, 0, 0, 0}, {1, 5, 0, 7}, {3, 1, 1, 0}, {0, 2, 2, 2}, {2, 3, 1, 4}};
			const int c = mc::choose(11);
			mc::transition();
			const imuSample s = mk(t, AL[c][0], AL[c][1], AL[c][2], AL[c][3]);
			r.add(s);
			imuSample so = s;
			so.delta_vel *= 3.f;
			other.update(so);
			const bool ready = ds.update(s);
			const double thr = double(target) - r.adj;
			mc::note("sample dt %.1f ms rotation %d velocity %d clipping %d -> ready %d (collected %.4f s, threshold %.6f s)", s.delta_ang_dt * 1e3, AL[c][1], AL[c][2], AL[c][3], ready, r.adt, thr);

			if (std::fabs(r.adt - thr) > 2e-7) {
				MC_CHECK(ready == (r.adt >= thr), "ready", "%.6f s collected, threshold %.6f s: update returned %d", r.adt, thr, ready);
			}

			if (ready) {
				r.adj += 0.01 * (r.adt - double(target));
				r.adj = std::min(std::max(r.adj, -0.5 * target), 0.5 * target);
				pending++;

				if (late && pending < 2) { continue; }

				pending = 0;
				outputs++;
				const imuSample o = ds.getDownSampledImuAndTriggerReset();
				double v[3];
				tovec(r.q, v);
				MC_CHECK(o.time_us == r.t, "time", "time stamp %llu, last sample %llu", (unsigned long long)o.time_us, (unsigned long long)r.t);
				MC_CHECK(std::fabs(o.delta_ang_dt - r.adt) < 1e-7 && std::fabs(o.delta_vel_dt - r.vdt) < 1e-7, "dt", "intervals %.7f %.7f, collected %.7f %.7f", o.delta_ang_dt, o.delta_vel_dt, r.adt, r.vdt);
				// compared as rotations: a turn by more than half a revolution may come out as its equivalent
				const double ov[3] = {o.delta_ang(0), o.delta_ang(1), o.delta_ang(2)};
				const Q oq = rotvec(ov), e = mul({r.q.w, -r.q.x, -r.q.y, -r.q.z}, oq);
				const double off = 2 * std::sqrt(e.x * e.x + e.y * e.y + e.z * e.z);
				MC_CHECK(off < 1e-5 + 1e-5 * std::sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]), "rotation", "delta angle (%.6f %.6f %.6f), composing the samples gives (%.6f %.6f %.6f)", o.delta_ang(0), o.delta_ang(1), o.delta_ang(2), v[0], v[1], v[2]);

				for (int i = 0; i < 3; i++) {
					MC_CHECK(std::fabs(o.delta_vel(i) - r.dv[i]) < 2e-5, "velocity", "delta velocity [%d] %.6f, expected %.6f", i, o.delta_vel(i), r.dv[i]);
					MC_CHECK(o.delta_vel_clipping[i] == r.clip[i], "clipping", "clipping flag %d is %d, expected %d", i, o.delta_vel_clipping[i], r.clip[i]);
				}

				r.fresh = true;
				mc::visit(mc::hash_bytes(mc::hash_pod(1, outputs), &o.delta_vel, 12));
			}

			mc::visit(mc::hash_bytes(mc::hash_pod(2, r.adj), &r.dv, sizeof(r.dv)));
		}

		mc::evaluation(outputs > 0);
		mc::outcome(outputs);

		if (outputs == 3) { mc::sample("target %.0f ms, %d samples, %d outputs, adjustment %.6f s", target * 1e3f, depth, outputs, r.adj); }
	}, 3);
	mc::for_all("rate", 9 * 3, [&](uint64_t k) {
		static const float IN[9] = {0.001f, 0.0025f, 0.003f, 0.004f, 0.005f, 0.006f, 0.007f, 0.008f, 0.0095f}, TGT[3] = {0.010f, 0.012f, 0.020f};
		const float target = TGT[k / 9], in = IN[k % 9];
		ImuDownSampler ds(target);
		double total_in = 0, total_out = 0;
		const int N = 3000;
		int n = 0;
		double half = 0;
		uint64_t t = 0;

		while (n < N) {
			imuSample s{};
			t += uint64_t(in * 1e6f + 0.5f);
			s.time_us = t;
			s.delta_ang_dt = s.delta_vel_dt = in;
			total_in += in;
			mc::transition();

			if (ds.update(s)) {
				const imuSample o = ds.getDownSampledImuAndTriggerReset();
				total_out += o.delta_ang_dt;
				n++;

				if (n == N / 2) { half = total_out; }

				MC_CHECK(o.delta_ang_dt <= target * 1.5f + in + 1e-6f && o.delta_ang_dt >= target * 0.5f - 1e-6f, "interval", "input %.4f s, target %.3f s: output interval %.5f s", in, target, o.delta_ang_dt);
			}

			if (total_in > N * 0.1) { MC_FAIL("stall", "input %.4f s, target %.3f s: only %d outputs in %.1f s", in, target, n, total_in); break; }
		}

		mc::evaluation();
		mc::visit(mc::hash_pod(9, total_out));
		const double mean = (total_out - half) / (N - N / 2);
		MC_CHECK(std::fabs(mean - target) < 0.01 * target, "mean-rate", "input %.4f s, target %.3f s: mean output interval %.6f s", in, target, mean);
		MC_CHECK(std::fabs(total_in - total_out) < 1e-3 * total_in, "no-loss", "%.4f s of samples went in, %.4f s came out", total_in, total_out);
	});
	return mc::finish();
}

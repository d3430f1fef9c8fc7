// E14: the terrain estimator. The real filter flies every sequence of range finder / optical flow / terrain / motion
// events up to a depth; every filter update is compared with one step of a reference one-state Kalman filter that starts
// from the published estimate before the step, and the published terrain with the true ground.
#include "ekfsim.h"
#include <memory>
#include <string>
#include <deque>

using namespace sim;

enum Cfg { T_RANGE, T_FLOW, T_BOTH, T_MAINFLOW, T_RNGHGT, T_NONE, T_AIRSTART, T_AIRFLOW, T_AIRLATE, NCFG };
static const char *cfg_name[NCFG] = {"gps, terrain from range", "gps, terrain from flow", "gps, terrain from range and flow", "flow navigation, terrain from range", "range height, terrain from range and flow", "gps, terrain not estimated", "gps, started in the air", "gps, started in the air, flow later", "gps, started in the air, range later"};
enum Ev { NOTHING, RANGE, RNGBAD, RNGWRONG, RNGJUMP, FLOW, FLOWBAD, STEPUP, STEPDOWN, SPEED, CLIMB, TILT, LAND, GPSOFF, NEV };
static const char *ev_name[NEV] = {"nothing", "range finder on/off", "range quality bad/good", "range finder stuck at 0.9 m", "range finder reads 2.5 m more", "flow on/off", "flow quality bad/good", "ground 1.5 m higher", "ground 3 m lower", "cruise/hover", "above/in range of the range finder", "leans 50 deg on/off", "land/take off", "GPS on/off"};

struct Snap {
	St s;
	double T, V, P99, hi, hv, hr;
	float fi[2], fv[2], fr;
	filter_control_status_u c;
	bool valid;
	unsigned bits;
	uint8_t posd;
};

struct Ter {
	World w;
	int cfg{0}, var{0};
	std::string log;
	Snap a, b;
	bool have{false};
	bool flying{false}, fast{false}, high{false}, lean{false}, landing{false};
	bool user_air{false};
	uint64_t flow_start{0};
	double kf_t{0};
	// reference
	uint64_t last_hagl{0}, last_flow{0}, last_fake{0}, last_pop{0}, last_fpop{0};
	uint64_t bad_q{0}, last_ok_rng{0}, last_ok_try{0}, last_change{0}, ok_since{0}, rng_on_since{0}, flow_on_since{0}, gps_on_since{0}, state_change{0};
	bool init{false}, stuck{false};
	double stuck_lo{0}, stuck_hi{0};
	uint64_t t_init{0};
	double min_r{0.05}, max_r{9};
	struct Sent { uint64_t t; double rng; int q; };
	std::deque<Sent> sent;
	struct SentF { uint64_t t; double x, y, dt; int q; };
	std::deque<SentF> sentf;
	int last_fq{255};
	uint64_t nf{0}, nr{0}, nreset{0}, nrej{0};

	Ekf &e() { return *w.ekf; }
	const parameters &p() { return w.par(); }
	const char *where() { static char t[300]; snprintf(t, sizeof(t), "[%s/%d t=%.3f%s]", cfg_name[cfg], var, (w.t - w.t0) * 1e-6, log.c_str()); return t; }
	double since(uint64_t x) const { return (double(w.t) - double(x)) * 1e-6; }

	void control()
	{
		const double t = (w.t - w.t0) * 1e-6;
		V3 vd;
		Q4 qd;

		if (flying) {
			const double z = high ? -16 : -3.5;
			vd = {fast ? 4.0 + std::sin(0.4 * t) : 0.3 * std::sin(t), fast ? -2.0 + std::cos(0.3 * t) : 0.2, std::min(std::max(0.8 * (z - w.x.p.z), -3.0), 3.0)};
			qd = q_euler(lean ? 50 * DEG : 0.06 * std::sin(1.1 * t), 0.08 * std::cos(0.9 * t), 0.2 * std::sin(0.2 * t));

		} else {
			vd = {0, 0, landing ? std::min(0.7, 1.5 * (w.ground - 0.1 - w.x.p.z)) : 0};
			qd = q_euler(0, 0, w.x.q.yaw());
		}

		const V3 err = vd - w.x.v;
		w.cmd_a = err * std::min(3.0, 4.0 / std::max(err.norm(), 1e-6));
		const Q4 dq = (w.x.q.conj() * qd).normalized();
		const double sg = dq.w < 0 ? -1 : 1;
		w.cmd_w = V3{dq.x, dq.y, dq.z} *(4.0 * sg);
	}
	Snap snap()
	{
		Snap n;
		n.s = state_of(e());
		n.T = e().getTerrainVertPos();
		n.V = e().get_terrain_var();
		n.P99 = e().covariances()(9, 9);
		float x;
		e().getHaglInnov(x); n.hi = x;
		e().getHaglInnovVar(x); n.hv = x;
		e().getHaglInnovRatio(x); n.hr = x;
		e().getFlowInnov(n.fi);
		e().getFlowInnovVar(n.fv);
		e().getFlowInnovRatio(n.fr);
		n.c = e().control_status();
		n.valid = e().isTerrainEstimateValid();
		n.bits = e().getTerrainEstimateSensorBitfield();
		float d;
		e().get_posD_reset(&d, &n.posd);
		return n;
	}
	void tick()
	{
		control();
		const imuSample s = w.advance(w.imu_dt);
		e().setIMUData(s);

		if (w.range.on && w.t >= w.range.next) {
			const rangeSample r = w.range_for(w.at(w.t - w.range.delay), w.t);
			sent.push_back({w.t - w.range.delay - 5000, r.rng, r.quality});
		}

		if (w.flow.on && w.t >= w.flow.next) {
			const flowSample f = w.flow_for(w.at(w.t - w.flow.delay), w.t);
			sentf.push_back({w.t - w.flow.delay - 5000, double(f.flow_xy_rad(0)) - f.gyro_xyz(0), double(f.flow_xy_rad(1)) - f.gyro_xyz(1), f.dt, f.quality});
		}

		while (sent.size() > 8) { sent.pop_front(); }

		while (sentf.size() > 12) { sentf.pop_front(); }

		w.sensors();
		const bool u = e().update();
		w.updates += u;
		mc::transition();

		if (u) { b = snap(); judge(); a = b; have = true; }
	}
	void run(double sec) { const uint64_t end = w.t + uint64_t(sec * 1e6); while (w.t < end) { tick(); } }

	void judge()
	{
		const uint64_t hor = e().get_imu_sample_delayed().time_us;
		const bool air = b.c.flags.in_air;
		// the samples that fell behind the horizon now
		const Sent *r = nullptr;
		const SentF *f = nullptr;

		for (auto &k : sent) { if (k.t <= hor && k.t > last_pop) { r = &k; } }

		for (auto &k : sentf) { if (k.t <= hor && k.t > last_fpop) { f = &k; } }

		if (r) { last_pop = r->t; }

		if (f) { last_fpop = f->t; last_fq = f->q; }

		const Q4 q = b.s.q();
		const double pit = p().rng_sens_pitch, ct = q.rot({std::sin(pit), 0, std::cos(pit)}).z;
		bool usable = false, maybe = false;

		if (r) {
			if (r->q == 0) { bad_q = hor; }

			const bool fine = r->rng >= min_r && r->rng <= max_r && ct > p().range_cos_max_tilt;
			const bool border = std::fabs(ct - p().range_cos_max_tilt) < 0.01 || std::fabs(r->rng - min_r) < 0.01 || std::fabs(r->rng - max_r) < 0.01;
			const double q_age = (double(hor) - double(bad_q)) * 1e-6 - p().range_valid_quality_s;
			const bool cont = since(rng_on_since) > 2.0;
			maybe = r->q != 0 && (fine || border) && q_age > -0.06;
			// after ten seconds without a valid sample the readings must vary first
			if (maybe && (double(r->t) - double(last_ok_try)) * 1e-6 > 9.8 && !stuck) { stuck = true; stuck_lo = 1e9; stuck_hi = 0; }

			if (maybe) { last_ok_try = r->t; }

			if (stuck && maybe && fine && !border && q_age > 0.06 && cont && r->rng > 0.1) {
				stuck_lo = std::min(stuck_lo, r->rng);
				stuck_hi = std::max(stuck_hi, r->rng);

				if (stuck_hi - stuck_lo > 0.15) { stuck = false; last_change = w.t; }
			}

			usable = maybe && fine && !border && q_age > 0.06 && cont && !stuck && since(last_change) > 0.3;
		}

		if (!have || !init) {
			init = b.valid || b.V < 9e3;

			if (!have) { return; }

			if (init && air && a.V > 9e3) { start(r, maybe, ct); return; }
		}

		mc::evaluation(flying);
		const double clr = p().rng_gnd_clearance;
		MC_CHECK(std::isfinite(b.T) && std::isfinite(b.V) && b.V >= 0 && b.V <= 1e4 * 1.0001, "finite", "%s terrain %g variance %g", where(), b.T, b.V);

		if (!air) {
			MC_CHECK(std::fabs(b.T - (b.s.s[9] + clr)) < 1e-4, "ground", "%s on the ground the terrain is %.4f below the vehicle instead of the clearance %.3f", where(), b.T - b.s.s[9], clr);
			MC_CHECK(std::fabs(b.V - clr * clr) < 1e-6, "ground", "%s on the ground the terrain variance is %g", where(), b.V);
			last_hagl = last_fake = w.t;
			init = true;

		} else if (init) {
			step(r, f, usable, maybe, ct, clr);
		}

		// validity
		const bool rr = since(last_hagl) < 5.0, rf = last_flow && since(last_flow) < 5.0;
		const bool edge = std::fabs(since(last_hagl) - 5.0) < 0.02 || (last_flow && std::fabs(since(last_flow) - 5.0) < 0.02);

		// (starting the filter counts as a flow correction)
		if (!t_init) { t_init = w.t; }

		if (!edge && init && since(t_init) > 6) {
			MC_CHECK(b.valid == (rr || rf), "validity", "%s terrain validity is %d, last corrected by range %.2f s and by flow %.2f s ago", where(), b.valid, since(last_hagl), last_flow ? since(last_flow) : -1.0);
			const bool br = (p().terrain_fusion_mode & TerrainFuseRangeFinder) && rr && last_hagl != last_fake, bf = (p().terrain_fusion_mode & TerrainFuseOpticalFlow) && rf;
			MC_CHECK((b.bits & 1) == br && (b.bits >> 1 & 1) == bf, "source", "%s terrain sources are reported as range %d flow %d, they are %d %d", where(), b.bits & 1, b.bits >> 1 & 1, br, bf);
		}

		honest(air);
	}

	// the first estimate, in the air
	void start(const Sent *r, bool maybe, double ct)
	{
		const double z = b.s.s[9];
		t_init = last_hagl = w.t;

		if ((p().terrain_fusion_mode & TerrainFuseRangeFinder) && r && maybe) {
			const double meas = r->rng * ct + b.s.q().rot(q_off(p().rng_pos_body, p().imu_pos_body)).z;
			MC_CHECK(std::fabs(b.T - (z + meas)) < 0.01 + 0.005 * std::fabs(meas), "start", "%s the first terrain from range is %.3f, expected %.3f", where(), b.T, z + meas);
			MC_CHECK(std::fabs(b.V - sqd(p().range_noise)) < 1e-4, "start", "%s the first terrain from range has the variance %.4f", where(), b.V);

		} else {
			MC_CHECK(p().terrain_fusion_mode & TerrainFuseOpticalFlow, "start", "%s the terrain is estimated without a source", where());
			MC_CHECK(std::fabs(b.T - std::max(0.0, z)) < 1e-3, "start", "%s the first terrain without range is %.3f, the vehicle at %.3f", where(), b.T, z);
			MC_CHECK(std::fabs(b.V - 100) < 1e-3, "start", "%s the first terrain without range has the variance %.3f", where(), b.V);
			flow_start = w.t;
		}
	}

	void step(const Sent *r, const SentF *f, bool usable, bool maybe, double ct, double clr)
	{
		const double dt = e().get_imu_sample_delayed().delta_vel_dt;
		const double z = b.s.s[9];

		// the sample that started the estimate is used once more, right on the ground
		if (flow_start && w.t - flow_start < 15000) {
			MC_CHECK(b.T - z > clr - 1e-4 && b.V <= a.V, "start", "%s after the start by flow the terrain is %.3f below the vehicle, variance %.3f", where(), b.T - z, b.V);
			last_flow = w.t;
			return;
		}

		double T = a.T, V = a.V;
		const uint64_t hagl0 = last_hagl;
		V += dt * dt * p().terrain_p_noise * p().terrain_p_noise;
		V += dt * dt * p().terrain_gradient * p().terrain_gradient * (b.s.s[4] * double(b.s.s[4]) + b.s.s[5] * double(b.s.s[5]));
		V = std::min(std::max(V, 0.0), 1e4);
		// (two consecutive innovations may be identical: then the variance tells)
		const bool by_rng = b.hi != a.hi || b.hv != a.hv || b.hr != a.hr || ((p().terrain_fusion_mode & TerrainFuseRangeFinder) && r && maybe && b.V < 0.9 * V && b.fv[0] == a.fv[0] && b.fi[0] == a.fi[0]);
		const bool want = p().terrain_fusion_mode & TerrainFuseRangeFinder;

		if (by_rng) {
			MC_CHECK(want, "range/selected", "%s range corrects the terrain although it is not selected", where());
			MC_CHECK(r && maybe, "range/valid", "%s a range sample corrects the terrain although %s", where(), r ? "it is not valid" : "none is due");
		}

		if (want && usable) { MC_CHECK(by_rng, "range/missing", "%s a good range sample (%.2f m) is not used for the terrain", where(), r->rng); }

		if (by_rng && r) {
			nr++;
			const V3 off = q_off(p().rng_pos_body, p().imu_pos_body);
			const double rng = r->rng + b.s.q().rot(off).z / ct, meas = rng * ct;
			const double R = std::max(b.P99 * p().vehicle_variance_scaler, 0.0) + sqd(p().range_noise) + sqd(p().range_noise_scaler * rng);
			MC_CHECK(std::fabs(b.hi - (T - z - meas)) < 0.01 + 0.005 * std::fabs(meas), "range/innovation", "%s range innovation %.4f, expected %.4f (sample %.3f)", where(), b.hi, T - z - meas, r->rng);
			MC_CHECK(std::fabs(b.hv - (V + R)) < 1e-4 + 0.02 * R + 1e-4 * V, "range/innovation variance", "%s range innovation variance %.5g, expected %.5g", where(), b.hv, V + R);
			const double g = std::max(double(p().range_innov_gate), 1.0), ratio = b.hi * b.hi / (g * g * b.hv);
			MC_CHECK(std::fabs(b.hr - ratio) < 1e-4 + 1e-3 * ratio, "range/ratio", "%s range test ratio %.5g, expected %.5g", where(), b.hr, ratio);

			if (b.hr <= 1) {
				const double K = V / b.hv;
				T -= K * b.hi;
				V = std::max(V * (1 - K), 0.0);
				last_hagl = w.t;
				MC_CHECK(!e().innov_check_fail_status_flags().reject_hagl, "range/flag", "%s an accepted range sample is reported as rejected", where());

			} else if (since(last_hagl) > 10.0) {
				nreset++;
				T = z + meas;
				V = R;

			} else {
				nrej++;
				MC_CHECK(e().innov_check_fail_status_flags().reject_hagl, "range/flag", "%s a rejected range sample is not reported", where());
			}
		}

		// flow is used only while range does not help, GPS navigates and the main filter does not use flow itself
		const bool by_flow = !b.c.flags.opt_flow && !a.c.flags.opt_flow && (b.fi[0] != a.fi[0] || b.fi[1] != a.fi[1] || b.fv[0] != a.fv[0]);
		const bool fsel = p().terrain_fusion_mode & TerrainFuseOpticalFlow;
		const bool rng_silent = since(hagl0) > 5.0 - 1e-6;
		const double gate = std::max(double(p().flow_innov_gate), 1.0);

		if (by_flow) {
			MC_CHECK(fsel && since(hagl0) > 4.9, "flow/selected", "%s flow corrects the terrain: selected %d, last range %.2f s ago", where(), fsel, since(hagl0));
			nf++;
		}

		const bool fgood = f && f->q >= p().flow_qual_min && b.s.q().rot({0, 0, 1}).z > p().range_cos_max_tilt + 0.02;

		if (fsel && fgood && rng_silent && since(hagl0) > 5.1 && b.c.flags.gps && a.c.flags.gps && !b.c.flags.opt_flow && since(flow_on_since) > 1.2) { MC_CHECK(by_flow, "flow/missing", "%s flow is not used for the terrain although range is silent for %.1f s", where(), since(last_hagl)); }

		if (by_flow) {
			// the line of sight rates measured, predicted from speed and height
			T = std::max(T, clr + z);
			const Vector2f comp = e().getFlowCompensated();
			const double R = sqd(flow_noise());
			const V3 vb = b.s.q().inv(b.s.v() + b.s.q().rot(v3(e().getFlowGyro() * (-1.f / 0.02f)).cross(q_off(p().flow_pos_body, p().imu_pos_body))));
			const double h = T - z, c = b.s.q().rot({0, 0, 1}).z;
			const double m[2] = {comp(0) / 0.02, comp(1) / 0.02};
			const double pr[2] = {vb.y *c / h, -vb.x *c / h};
			const double H[2] = {vb.y *c / h / h, -vb.x *c / h / h};

			if (f && fgood) { MC_CHECK(std::fabs(comp(0) - f->x) < 1e-5 && std::fabs(comp(1) - f->y) < 1e-5, "flow/sample", "%s motion compensated flow %.5f %.5f, measured %.5f %.5f", where(), double(comp(0)), double(comp(1)), f->x, f->y); }

			for (int i = 0; i < 2; i++) {
				MC_CHECK(std::fabs(b.fi[i] - (pr[i] - m[i])) < 0.02 + 0.01 * std::fabs(pr[i]), "flow/innovation", "%s flow innovation %d is %.4f, expected %.4f", where(), i, double(b.fi[i]), pr[i] - m[i]);
				const double iv = H[i] * H[i] * V + R;
				MC_CHECK(std::fabs(b.fv[i] - iv) < 1e-5 + 0.02 * iv, "flow/innovation variance", "%s flow innovation variance %d is %.5g, expected %.5g", where(), i, double(b.fv[i]), iv);
				const double K = V * H[i] / iv, in = b.fi[i];

				if (in * in / (gate * gate * iv) <= 1) {
					T += K * in;
					V = std::max(V - K * H[i] * V, 0.0);
					last_flow = w.t;
				}
			}
		}

		if (T - z < clr) { T = z + clr; }

		const double tolT = 2e-3 + 2e-6 * std::fabs(T) + 0.02 * std::fabs(T - a.T), tolV = 1e-5 + 0.03 * (V + std::fabs(V - a.V) * 0.05);
		MC_CHECK(std::fabs(b.T - T) < tolT, "estimate", "%s terrain %.4f, expected %.4f (before %.4f, range %d flow %d)", where(), b.T, T, a.T, by_rng, by_flow);
		MC_CHECK(std::fabs(b.V - V) < tolV, "variance", "%s terrain variance %.6g, expected %.6g (before %.6g, range %d flow %d)", where(), b.V, V, a.V, by_rng, by_flow);
		MC_CHECK(b.T - z > clr - 1e-4, "clearance", "%s the terrain is %.3f below the vehicle, the minimum is %.3f", where(), b.T - z, clr);
	}
	double flow_noise()
	{
		const double best = std::max(double(p().flow_noise), 0.05), worst = std::max(double(p().flow_noise_qual_min), 0.05);
		double wgt = 255.0 - p().flow_qual_min;
		wgt = wgt >= 1 ? std::min(std::max((last_fq - double(p().flow_qual_min)) / wgt, 0.0), 1.0) : 0;
		return best * wgt + worst * (1 - wgt);
	}
	
	static double sqd(double x) { return x * x; }
	static V3 q_off(const Vector3f &x, const Vector3f &y) { return {double(x(0)) - y(0), double(x(1)) - y(1), double(x(2)) - y(2)}; }

	uint64_t honest_since{0};
	void honest(bool air)
	{
		// with a working range finder and undisturbed motion, height above ground is right
		const Truth d = w.delayed_truth();
		const double h = w.ground - d.p.z, est = b.T - b.s.s[9];
		const bool good = air && (p().terrain_fusion_mode & TerrainFuseRangeFinder) && w.range.on && w.range_quality > 0 && std::isnan(w.range_fixed) && w.range_off == 0 && !lean && h > 0.5 && h < max_r * 0.9 && since(last_change) > 1;
		honest_since = good ? (honest_since ? honest_since : w.t) : 0;

		// an outlier is tolerated for ten seconds, then the estimate is reset
		if (good && since(std::max(honest_since, state_change)) > 11.5) { MC_CHECK(std::fabs(est - h) < 0.35, "truth", "%s height above ground is %.2f, really %.2f", where(), est, h); }
	}

	void event(int k)
	{
		switch (k) {
		case RANGE: if (w.range.on) { w.range.stop(); } else { w.range.start(w.t, 7000); rng_on_since = w.t; } break;

		case RNGBAD: w.range_quality = w.range_quality ? 0 : 100; break;

		case RNGWRONG: w.range_fixed = std::isnan(w.range_fixed) ? 0.9f : NAN; break;

		case RNGJUMP: w.range_off = w.range_off != 0 ? 0 : 2.5; break;

		case FLOW: if (w.flow.on) { w.flow.stop(); } else { w.flow.start(w.t, 9000); flow_on_since = w.t; } break;

		case FLOWBAD: w.flow_quality = w.flow_quality < 50 ? 255 : 0; break;

		case STEPUP: w.ground -= 1.5; break;

		case STEPDOWN: w.ground += 3; break;

		case SPEED: fast = !fast; break;

		case CLIMB: high = !high; break;

		case TILT: lean = !lean; break;

		case LAND:
			if (flying) { flying = false; landing = true; break; }

			flying = true;
			landing = false;
			e().set_in_air_status(true);
			break;

		case GPSOFF: if (w.gps.on) { w.gps.stop(); } else { w.gps.start(w.t, 5000); gps_on_since = w.t; } break;

		default: return;
		}

		state_change = w.t;
	}
	void go(double sec)
	{
		const uint64_t end = w.t + uint64_t(sec * 1e6);

		while (w.t < end) {
			if (landing && std::fabs(w.ground - 0.1 - w.x.p.z) < 0.03 && w.x.v.norm() < 0.05) { landing = false; e().set_in_air_status(false); }

			tick();
		}
	}
};

int main(int argc, char **argv)
{
	mc::init(argc, argv, "E14");

	if (!mc::replaying() && getenv("MC_RESULT")) { if (!freopen("/dev/null", "w", stdout)) { return 3; } }

	static const double durs[3] = {0.7, 3.1, 12.3};
	const bool th = mc::thorough();
	mc::rule("all sequences of two (thorough three) of 14 sensor, terrain and motion events with durations 0.7 / 3.1 / 12.3 s for 7 configurations and 2 parameter sets; every filter update is an evaluation: one step of a one-state reference filter "
		 "from the published estimate before it; non-trivial after take-off; states are the distinct end states");
	mc::explore("terrain", mc::FORK, [&] {
		std::unique_ptr<Ter> o(new Ter);
		World &w = o->w;
		parameters &P = w.make(0, 20000000);
		o->cfg = mc::choose(NCFG);
		o->var = mc::choose(2);
		// the accelerometer has its own interval
		w.dv_skew = o->var ? 0.06 : 0;
		w.imu_dt = 10000;
		w.x.p = {0, 0, -0.1};
		w.range_dither = 0.08;
		w.ekf->set_min_required_gps_health_time(1000000);
		w.ekf->set_rangefinder_limits(float(o->min_r), float(o->max_r));
		w.ekf->set_optical_flow_limits(8.f, 0.05f, 40.f);
		bool rng = true, flow = true, gps = true;

		switch (o->cfg)
		{
		case T_RANGE: P.terrain_fusion_mode = TerrainFuseRangeFinder; break;

		case T_FLOW: P.terrain_fusion_mode = TerrainFuseOpticalFlow; break;

		case T_BOTH: P.terrain_fusion_mode = TerrainFuseRangeFinder | TerrainFuseOpticalFlow; break;

		case T_MAINFLOW: P.fusion_mode = MASK_USE_OF; gps = false; break;

		case T_RNGHGT: P.vdist_sensor_type = VDIST_SENSOR_RANGE; break;

		case T_NONE: P.terrain_fusion_mode = 0; break;

		case T_AIRFLOW: P.terrain_fusion_mode = TerrainFuseOpticalFlow; flow = false; break;

		case T_AIRLATE: P.terrain_fusion_mode = TerrainFuseRangeFinder; rng = false; break;

		case T_AIRSTART: break;
		}

		if (o->var == 1)
		{
			P.range_noise = 0.2f; P.range_noise_scaler = 0.05f; P.vehicle_variance_scaler = 0.5f; P.range_innov_gate = 3.f; P.terrain_p_noise = 2.f; P.terrain_gradient = 1.5f;
			P.rng_pos_body = Vector3f(0.3f, -0.1f, 0.15f); P.imu_pos_body = Vector3f(-0.1f, 0.05f, 0.02f); P.rng_gnd_clearance = 0.25f; P.flow_pos_body = Vector3f(0.2f, 0.1f, 0.1f);
			P.flow_noise = 0.2f; P.flow_noise_qual_min = 0.6f; P.flow_qual_min = 20; P.rng_sens_pitch = 0.1f;
			w.range_pos = o->q_off(P.rng_pos_body, P.imu_pos_body); w.range_pitch = 0.1;
			w.flow_quality = 180;
		}

		w.begin();
		w.baro.start(w.t, 3000);
		w.mag.start(w.t, 1000);

		if (rng) { w.range.start(w.t, 7000); o->rng_on_since = w.t; }

		if (flow) { w.flow.start(w.t, 9000); o->flow_on_since = w.t; }

		if (gps) { w.gps.start(w.t, 5000); }

		if (o->cfg >= T_AIRSTART) { w.x.p = {0, 0, o->cfg == T_AIRSTART ? -3.0 : -6.0}; o->tick(); w.ekf->set_in_air_status(true); }

		o->go(9);
		o->flying = true;
		o->e().set_in_air_status(true);
		o->go(5);

		if (o->cfg == T_AIRFLOW) { MC_CHECK(!o->b.valid, "start", "the terrain is valid without any source"); w.flow.start(w.t, 9000); o->flow_on_since = w.t; o->go(3); }

		if (o->cfg == T_AIRLATE) { MC_CHECK(!o->b.valid, "start", "the terrain is valid without any source"); w.range.start(w.t, 7000); o->rng_on_since = w.t; o->go(5); }

		if (o->cfg >= T_AIRFLOW) { MC_CHECK(o->b.valid, "start", "%s the terrain is not valid", o->where()); }

		o->state_change = w.t;
		const int depth = th ? 3 : 2;

		for (int k = 0; k < depth; k++)
		{
			const int ev = mc::choose(NEV), d = mc::choose(th && k == 2 ? 1 : 3);
			const double T = th && k == 2 ? durs[1] : durs[d];
			char t[100];
			snprintf(t, sizeof(t), "; %s for %.1f s", ev_name[ev], T);
			o->log += t;
			mc::note("%s", t + 2);
			o->event(ev);
			o->go(T);
		}

		if (mc::replaying()) { fprintf(stderr, "range %llu resets %llu rejections %llu flow %llu\n", (unsigned long long)o->nr, (unsigned long long)o->nreset, (unsigned long long)o->nrej, (unsigned long long)o->nf); }

		mc::visit(mc::hash_pod(mc::hash_pod(uint64_t(o->cfg) * 2 + o->var, float(o->b.T)), state_of(o->e())));

		if (mc::hash_pod(7, state_of(o->e())) % 501 == 0) { mc::sample("configuration %d set %d%s: terrain %.3f", o->cfg, o->var, o->log.c_str(), double(o->b.T)); }
	}, 2);
	mc::finish();
	return 0;
}

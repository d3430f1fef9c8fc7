// E22: at-rest detection, vibration metrics and ground effect compensation against a reference in double precision, for all
// sequences of motion phases and of ground effect commands and baro errors.
#include "ekfsim.h"
#include <memory>
#include <string>

using namespace sim;

// ------------------------------------------------------------------ motion
struct Motion {
	World w;
	double scale{1};
	int n{0};                            // samples in this phase
	int phase{0}, axis{0};
	std::string log;
	// reference
	V3 da, dv;
	double m[3] {};
	uint64_t last{0};
	uint64_t moved_sure{0}, moved_maybe{0}; // last motion: certain, possible
	bool air{false};

	const char *where() { static char t[400]; snprintf(t, sizeof(t), "[%s t=%.4f]", log.c_str(), (w.t - w.t0) * 1e-6); return t; }

	static V3 axis_of(int i, double a) { return i == 0 ? V3{a, 0, 0} : i == 1 ? V3{0, a, 0} : V3{0, 0, a}; }
	void tick(uint32_t dt_us)
	{
		const double dt = dt_us * 1e-6;
		const double sg = (n & 1) ? 0.5 : -0.5;
		imuSample s = w.advance(dt_us);
		V3 ga, va;

		switch (phase) {
		case 3: ga = axis_of(axis, sg * 2.5e-5 * scale * 0.8); break;

		case 4: ga = axis_of(axis, sg * 2.5e-5 * scale * 1.5); break;

		case 5: va = axis_of(axis, sg * scale / 210 * 0.8); break;

		case 6: va = axis_of(axis, sg * scale / 210 * 1.5); break;

		case 7: if (n == 3) { ga = axis_of(axis, 0.06 * scale * dt); } break;

		case 8: if (n == 3) { va = axis_of(axis, scale / 210 * 70); } break;

		case 11: { const int k = n & 3; ga = axis_of((axis + (k & 1)) % 3, (k < 2 ? 1 : -1) * 1.4e-5 * scale); break; }

		case 15: ga = axis_of(axis, sg * 2.5e-5 * scale * 0.6); va = axis_of((axis + 1) % 3, sg * scale / 210 * 0.6); break;
		}

		s.delta_ang += f3(ga);
		s.delta_vel += f3(va);
		n++;
		w.ekf->setIMUData(s);
		judge(s);
		w.sensors();
		w.ekf->update();
		const filter_control_status_u c = w.ekf->control_status();
		MC_CHECK(c.flags.vehicle_at_rest == w.ekf->isVehicleAtRest(), "agree", "%s the status word and the at-rest output differ", where());
	}
	void judge(const imuSample &s)
	{
		const V3 a = v3(s.delta_ang), v = v3(s.delta_vel);
		const double in[3] = {a.cross(da).norm(), (a - da).norm(), (v - dv).norm()};
		const double dt = last ? (s.time_us - last) * 1e-6 : 0.02;
		da = a; dv = v; last = s.time_us;
		const Vector3f &got = w.ekf->getImuVibrationMetrics();
		bool sure = false, maybe = false;

		for (int i = 0; i < 3; i++) {
			m[i] = 0.99 * m[i] + 0.01 * in[i];
			MC_CHECK(std::fabs(got(i) - m[i]) <= 1e-4 * m[i] + (i == 0 ? 1e-12 : 1e-9), "metric", "%s vibration metric %d is %.6g, expected %.6g", where(), i, got(i), m[i]);
		}

		const double r[3] = {m[1] * 4e4 / scale, m[2] * 210 / scale, a.norm() / dt / 0.05 / scale};

		for (double x : r) { sure |= x > 1.0005; maybe |= x > 0.9995; }

		if (air) { sure = maybe = true; }

		if (sure) { moved_sure = s.time_us; }

		if (maybe) { moved_maybe = s.time_us; }

		const bool rest = w.ekf->isVehicleAtRest();
		const bool must = s.time_us - moved_maybe > 1000000, mustnot = s.time_us - moved_sure <= 1000000;
		mc::evaluation(must || (mustnot && moved_sure));
		MC_CHECK(!must || rest, "rest", "%s the vehicle has been at rest for %.3f s but this is not reported", where(), (s.time_us - moved_maybe) * 1e-6);
		MC_CHECK(!(mustnot && moved_sure) || !rest, "moving", "%s the vehicle has moved %.3f s ago but is reported at rest", where(), (s.time_us - moved_sure) * 1e-6);
	}
};

static void motion_body()
{
	static const uint32_t dts[] = {5000, 8000, 2500, 10000};
	static const double scales[] = {1, 0.4, 5};
	static const char *names[] = {"still", "slow turn", "turn", "weak gyro vibration", "gyro vibration", "weak accelerometer vibration", "accelerometer vibration", "turned by a jerk", "knock", "in the air",
				      "on the ground", "coning", "uneven samples", "push", "slow turn about all axes", "weak vibration of both", "gap in the samples"
				     };
	static const int N = 17;
	static const double durs[] = {0.26, 1.04, 2.2};
	std::unique_ptr<Motion> o(new Motion);
	World &w = o->w;
	const int id = mc::choose(4), is = mc::choose(3);
	o->scale = scales[is];
	w.imu_dt = dts[id];
	parameters &P = w.make(0, is == 1 ? 20000000000ull : 2000000);
	P.is_moving_scaler = float(o->scale);
	w.begin();
	w.x.q = q_euler(0.02, -0.03, 1.0);
	w.mag.start(w.t, 1000);
	w.baro.start(w.t, 3000);
	char t[100];
	snprintf(t, sizeof(t), "samples every %u us, scale %.1f", w.imu_dt, o->scale);
	o->log = t;
	mc::note("%s", t);
	mc::Count tr;

	for (int k = 0; k < 120; k++) { o->tick(w.imu_dt); tr.tr++; }

	const int depth = mc::thorough() ? 3 : 2;

	for (int d = 0; d < depth; d++) {
		o->phase = mc::choose(N);
		const double dur = durs[mc::choose(3)];
		o->axis = (d + id + is) % 3;
		o->n = 0;
		snprintf(t, sizeof(t), ", %s %.2f s", names[o->phase], dur);
		o->log += t;
		mc::note("%s for %.2f s", names[o->phase], dur);
		w.cmd_w = V3{};
		w.cmd_a = V3{};

		if (o->phase == 1) { w.cmd_w = Motion::axis_of(o->axis, 0.04 * o->scale); }

		if (o->phase == 2) { w.cmd_w = Motion::axis_of(o->axis, -0.06 * o->scale); }

		if (o->phase == 14) { w.cmd_w = V3{0.04, -0.04, 0.04} *o->scale; }

		if (o->phase == 13) { w.cmd_a = V3{0.5, 0.2, 0}; }

		if (o->phase == 9) { w.ekf->set_in_air_status(true); o->air = true; }

		if (o->phase == 10) { w.ekf->set_in_air_status(false); o->air = false; }

		if (o->phase == 16) { o->tick(20000); }

		const uint64_t end = w.t + uint64_t(dur * 1e6);

		while (w.t < end) {
			o->tick(o->phase == 12 ? (o->n & 1 ? w.imu_dt / 2 : w.imu_dt * 3 / 2) : w.imu_dt);
			tr.tr++;
		}

		uint64_t h = mc::mix(id * 3 + is, d * 1000 + o->phase);
		h = mc::mix(h, uint64_t(w.t - o->moved_sure) / 50000 < 21 ? (w.t - o->moved_sure) / 50000 : 21);
		h = mc::mix(h, uint64_t(std::log2(1e-12 + o->m[1]) * 2 + 1000));
		h = mc::mix(h, uint64_t(std::log2(1e-12 + o->m[2]) * 2 + 1000) * 2 + o->air);
		mc::visit(h);
	}
}

// ------------------------------------------------------------------ ground effect
struct Gnd {
	World w;
	std::string log;
	double dz{5};
	bool on{false}, keep{false};
	uint64_t call{0};
	bool called{false};
	uint64_t next_call{0};
	uint8_t resets{0};
	uint64_t same_since{0};               // last change of the baro or its treatment

	const char *where() { static char t[400]; snprintf(t, sizeof(t), "[%s t=%.3f]", log.c_str(), (w.t - w.t0) * 1e-6); return t; }
	void set(bool v) { w.ekf->set_gnd_effect_flag(v); on = v; call = w.t; called = true; }
	void tick()
	{
		if (keep && w.t >= next_call) { set(true); next_call = w.t + 100000; }

		const bool before = w.ekf->control_status().flags.gnd_effect;
		const bool u = w.tick();
		const filter_control_status_u c = w.ekf->control_status();
		const bool f = c.flags.gnd_effect;
		const uint64_t age = w.t - call;
		mc::evaluation(called && u);

		if (on && called && age <= 9980000) { MC_CHECK(f, "lost", "%s ground effect was declared %.3f s ago and is no longer reported", where(), age * 1e-6); }

		if (!on || (age > 10000000 + 120000 && c.flags.baro_hgt && w.baro.on)) { MC_CHECK(!f, "kept", "%s ground effect is still reported %.3f s after the last declaration", where(), age * 1e-6); }

		MC_CHECK(!(f && !before), "appeared", "%s ground effect is reported without having been declared", where());

		float dz_reset;
		uint8_t count;
		w.ekf->get_posD_reset(&dz_reset, &count);

		if (before != f || count != resets) { demand(); resets = count; }

		if (!c.flags.baro_hgt || !u) { return; }

		if (!w.baro.on || w.t - same_since < 400000) { return; }

		// the baro as seen by the estimate of the delayed time, positive when the baro is too high
		float in[1];
		w.ekf->getBaroHgtInnov(in[0]);
		const double raw = w.baro_off + (double)(state_of(*w.ekf).s[9] - w.delayed_truth().p.z);
		const double want = !f || raw > 0 ? raw : raw < -dz ? raw + dz : 0;
		mc::evaluation(f && raw < 0);

		if (f && raw < -0.3 && raw > -dz + 0.3) { MC_CHECK(in[0] == 0, "dead zone", "%s the baro is lower than the estimate by %.2f m, within the dead zone, but has an innovation of %.3f", where(), -raw, in[0]); }

		MC_CHECK(std::fabs(in[0] - want) < 0.25 + 0.15 * std::fabs(want), "innovation", "%s the baro differs by %.2f m from the estimate, ground effect %d, the innovation is %.2f instead of %.2f", where(), raw, f, in[0], want);
	}
	// the baro or its treatment has changed; the innovation follows with the delay of the filter
	void demand()
	{
		same_since = w.t;
	}
};

static void ground_body()
{
	static const char *names[] = {"declared", "taken back", "declared again and again", "baro low", "baro very low", "baro high", "baro right", "baro silent for one second"};
	static const int N = 8;
	static const double durs[] = {0.7, 5.3, 11.1};
	std::unique_ptr<Gnd> o(new Gnd);
	World &w = o->w;
	const int cfg = mc::choose(4);
	static const double zones[] = {5, 2.5, 5, 1.0};
	o->dz = zones[cfg];
	parameters &P = w.make(0, cfg == 1 ? 30000000000ull : 2000000);
	P.gnd_effect_deadzone = float(o->dz);
	P.fusion_mode = cfg == 2 ? MASK_USE_GPS : 0;
	w.imu_dt = 10000;
	w.ekf->set_min_required_gps_health_time(1000000);
	w.begin();
	w.mag.start(w.t, 1000);
	w.baro.start(w.t, 3000);

	if (cfg == 2) { w.gps.start(w.t, 7000); }

	w.run(10);
	w.x.p.z = 0;
	w.ekf->set_in_air_status(true);
	w.run(6);
	char t[100];
	snprintf(t, sizeof(t), "dead zone %.1f m%s", o->dz, cfg == 2 ? ", GPS" : "");
	o->log = t;
	mc::note("%s", t);
	o->demand();

	const int depth = mc::thorough() ? 4 : 3;
	mc::Count tr;

	for (int d = 0; d < depth; d++) {
		const int ev = mc::choose(N);
		const double dur = mc::thorough() ? durs[mc::choose(3)] : durs[mc::choose(2) * 2];
		snprintf(t, sizeof(t), ", %s, %.1f s", names[ev], dur);
		o->log += t;
		mc::note("%s, %.1f s", names[ev], dur);
		bool back = false;

		switch (ev) {
		case 0: o->keep = false; o->set(true); break;

		case 1: o->keep = false; o->set(false); break;

		case 2: o->keep = true; o->next_call = 0; o->set(true); break;

		case 3: w.baro_off = -0.6 * o->dz; break;

		case 4: w.baro_off = -1.5 * o->dz; break;

		case 5: w.baro_off = 1.2; break;

		case 6: w.baro_off = 0; break;

		case 7: w.baro.stop(); back = true; break;
		}

		o->demand();
		const uint64_t end = w.t + uint64_t(dur * 1e6), resume = w.t + 1000000;

		while (w.t < end) {
			if (back && w.t >= resume) { w.baro.start(w.t, 3000); back = false; o->demand(); }

			o->tick();
			tr.tr++;
		}

		if (back) { w.baro.start(w.t, 3000); o->demand(); }

		uint64_t h = mc::mix(cfg, ev);
		h = mc::mix(h, o->on * 2 + o->keep);
		h = mc::mix(h, uint64_t(w.baro_off * 10 + 1000));
		h = mc::mix(h, uint64_t(int64_t(std::floor(-w.ekf->getPosition()(2) * 5)) + 1000));
		mc::visit(h);
	}
}

int main(int argc, char **argv)
{
	mc::init(argc, argv, "E22");

	if (!mc::replaying() && getenv("MC_RESULT")) { if (!freopen("/dev/null", "w", stdout)) { return 3; } }

	mc::rule("all sequences of 2 (thorough 3) of 17 kinds of motion on the ground and in the air with 3 durations, for 4 sample intervals and 3 sensitivities; every inertial sample is an evaluation of the vibration metrics and the at-rest report against a "
		 "reference in double precision, non-trivial once the reference determines the answer");
	mc::explore("motion", mc::FORK, motion_body, 3);
	mc::rule("all sequences of 3 (thorough 4) of 8 ground effect declarations and baro errors with 2 (3) durations, for 4 configurations; every update is an evaluation of the reported ground effect and of the published baro innovation, non-trivial after the first declaration");
	mc::explore("ground effect", mc::FORK, ground_body, 3);
	mc::finish();
	return 0;
}

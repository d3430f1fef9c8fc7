// E15: the filter's result depends only on the data it is given. The same mission is flown by several instances in lockstep:
// on storage with other contents, three days later, with the sensors of one instant delivered in another order, next to an
// unrelated instance. All must agree bit by bit.
// E17: data of sensors that the configuration does not select has no influence. One instance receives streams of nonsense
// from every sensor that is not selected; it must agree bit by bit with the one that does not.
#include "ekfsim.h"
#include <memory>
#include <string>
#include <cstring>

using namespace sim;

static bool E17;

enum Cfg { C_GPS, C_GPSH, C_FLOW, C_FLOWR, C_EVALL, C_EVVEL, C_PLANE, C_NONE, C_DRAG, C_GPSYAW, C_GPSFLOW, C_EVROT, NCFG };
static const char *cfg_name[NCFG] = {"gps+baro", "gps height", "flow+baro", "flow+range height", "vision pos/yaw/height", "vision velocity", "fixed wing gps+air data", "no horizontal aiding", "gps+drag+range aid", "gps heading", "gps+flow", "rotated vision"};
enum Ev { NOTHING, GPS, GPSJUMP, BARO, BAROJUMP, MAG, MAGDIST, LAND, RNG, FLOW, VIS, VISJUMP, AIR, ACC, TURN, ORIGIN, BIASRST, NEV };
static const char *ev_name[NEV] = {"nothing", "GPS on/off", "GPS jump", "baro on/off", "baro jump", "mag on/off", "mag disturbed on/off", "land/take off", "range on/off", "flow on/off", "vision on/off", "vision jump", "airspeed and auxiliary velocity on/off", "bad vertical acceleration on/off", "turn/straight", "user origin", "bias reset and clock of commands"};

struct Out {
	float f[24 + 24 * 25 / 2 + 140];
	uint32_t u[24];
	int nf, nu;
};

static void collect(Ekf &e, Out &o)
{
	memset(&o, 0, sizeof(o));
	float *f = o.f;
	auto V = [&](auto & v, int n) { for (int i = 0; i < n; i++) { *f++ = v(i); } };
	auto A = [&](float * v, int n) { for (int i = 0; i < n; i++) { *f++ = v[i]; } };
	const auto s = e.getStateAtFusionHorizonAsVector();
	V(s, 24);
	const auto &P = e.covariances();

	for (int i = 0; i < 24; i++) { for (int j = 0; j <= i; j++) { *f++ = P(i, j); } }

	const Quatf q = e.getQuaternion();
	const Vector3f v = e.getVelocity(), p = e.getPosition(), ad = e.getVelocityDerivative(), te = e.getOutputTrackingError(), vib = e.getImuVibrationMetrics();
	V(q, 4); V(v, 3); V(p, 3); V(ad, 3); V(te, 3); V(vib, 3);
	*f++ = e.getVerticalPositionDerivative();
	float h[2], v1, hp, vp;
	auto five = [&](void (Ekf::*g)(float *, float &, float *, float &) const) { float a = 0, b = 0; float x[2] = {}, y[2] = {}; (e.*g)(x, a, y, b); A(x, 2); A(y, 2); *f++ = a; *f++ = b; };
	five(&Ekf::getGpsVelPosInnov); five(&Ekf::getGpsVelPosInnovVar);
	five(&Ekf::getEvVelPosInnov); five(&Ekf::getEvVelPosInnovVar);
	e.getGpsVelPosInnovRatio(v1, h[0], hp, vp); *f++ = v1; *f++ = h[0]; *f++ = hp; *f++ = vp;
	e.getEvVelPosInnovRatio(v1, h[0], hp, vp); *f++ = v1; *f++ = h[0]; *f++ = hp; *f++ = vp;
	auto one = [&](void (Ekf::*g)(float &) const) { float x = 0; (e.*g)(x); *f++ = x; };
	one(&Ekf::getBaroHgtInnov); one(&Ekf::getBaroHgtInnovVar); one(&Ekf::getBaroHgtInnovRatio);
	one(&Ekf::getRngHgtInnov); one(&Ekf::getRngHgtInnovVar); one(&Ekf::getRngHgtInnovRatio);
	one(&Ekf::getHeadingInnov); one(&Ekf::getHeadingInnovVar); one(&Ekf::getHeadingInnovRatio);
	one(&Ekf::getAirspeedInnov); one(&Ekf::getAirspeedInnovVar); one(&Ekf::getAirspeedInnovRatio);
	one(&Ekf::getBetaInnov); one(&Ekf::getBetaInnovVar); one(&Ekf::getBetaInnovRatio);
	float t[3];
	e.getMagInnov(t); A(t, 3); e.getMagInnovVar(t); A(t, 3); one(&Ekf::getMagInnovRatio);
	e.getAuxVelInnov(h); A(h, 2); e.getAuxVelInnovVar(h); A(h, 2); one(&Ekf::getAuxVelInnovRatio);
	e.getDragInnov(h); A(h, 2); e.getDragInnovVar(h); A(h, 2);
	one(&Ekf::getFlowInnovRatio);

	if (!E17) {
		e.getFlowInnov(h); A(h, 2); e.getFlowInnovVar(h); A(h, 2);
		one(&Ekf::getHaglInnov); one(&Ekf::getHaglInnovVar); one(&Ekf::getHaglInnovRatio);
		*f++ = e.getTerrainVertPos(); *f++ = e.get_terrain_var();
	}

	const Vector3f gb = e.getGyroBias(), ab = e.getAccelBias();
	V(gb, 3); V(ab, 3);
	e.get_ekf_gpos_accuracy(&h[0], &h[1]); A(h, 2);
	e.get_ekf_lpos_accuracy(&h[0], &h[1]); A(h, 2);
	e.get_ekf_vel_accuracy(&h[0], &h[1]); A(h, 2);
	float lim[4];
	e.get_ekf_ctrl_limits(&lim[0], &lim[1], &lim[2], &lim[3]); A(lim, E17 ? 2 : 4);
	float yaw_c = 0, yaw_v = 0, ys[5] = {}, iv[5] = {}, ie[5] = {}, wt[5] = {};
	e.getDataEKFGSF(&yaw_c, &yaw_v, ys, iv, ie, wt); *f++ = yaw_c; *f++ = yaw_v; A(ys, 5); A(iv, 5); A(ie, 5); A(wt, 5);
	double la = 0, lo = 0;
	uint64_t ot = 0;
	float al = 0;
	const bool og = e.getEkfGlobalOrigin(ot, la, lo, al);
	*f++ = float(la); *f++ = float(lo); *f++ = al;
	o.nf = f - o.f;

	if (o.nf > int(sizeof(o.f) / 4)) { abort(); }

	uint32_t *u = o.u;
	*u++ = uint32_t(e.control_status().value); *u++ = uint32_t(uint64_t(e.control_status().value) >> 32);
	*u++ = e.fault_status().value & 0xffffu;
	*u++ = E17 ? e.innov_check_fail_status().value & ~0x1c00u : e.innov_check_fail_status().value;   // terrain and flow bits
	*u++ = e.warning_event_status().value; *u++ = e.information_event_status().value;
	uint16_t g, c, nu;
	float m, ve, po, hg, ta, hagl, be;
	e.get_gps_check_status(&g); *u++ = g;
	e.get_ekf_soln_status(&c); *u++ = c;
	e.get_innovation_test_status(nu, m, ve, po, hg, ta, hagl, be); *u++ = E17 ? 0 : nu;
	uint8_t k;
	float d2[2], d1, q4_[4];
	e.get_posNE_reset(d2, &k); *u++ = k; e.get_velNE_reset(d2, &k); *u++ = k; e.get_posD_reset(&d1, &k); *u++ = k; e.get_velD_reset(&d1, &k); *u++ = k; e.get_quat_reset(q4_, &k); *u++ = k;
	*u++ = e.local_position_is_valid() | e.global_position_is_valid() << 1 | e.inertial_dead_reckoning() << 2 | og << 3 | e.attitude_valid() << 4 | e.global_origin_valid() << 5;

	if (!E17) { *u++ = e.isTerrainEstimateValid() | e.getTerrainEstimateSensorBitfield() << 1; }

	o.nu = u - o.u;
}

struct Inst {
	World w;
	int cfg{0};
	bool flying{false}, landing{false}, straight{false}, plane{false}, reverse{false}, noise{false};
	Out out;

	void setup(int c, int fill, uint64_t start)
	{
		cfg = c;
		parameters &P = w.make(fill, start);
		w.imu_dt = 8000;
		w.wind = {2, -1, 0};
		w.ekf->set_rangefinder_limits(0.05f, 40.f);
		w.ekf->set_optical_flow_limits(8.f, 0.05f, 40.f);
		w.ekf->set_min_required_gps_health_time(1000000);
		w.range_dither = 0.08;
		w.x.p = {0, 0, -0.1};
		w.x.q = q_euler(0, 0, 0.7);
		bool gps = true, mag = true, rng = false, flow = false, ev = false, tas = false, aux = false;

		switch (cfg) {
		case C_GPS: break;

		case C_GPSH: P.vdist_sensor_type = VDIST_SENSOR_GPS; P.check_mag_strength = 1; break;

		case C_FLOW: P.fusion_mode = MASK_USE_OF; gps = false; rng = flow = true; break;

		case C_FLOWR: P.fusion_mode = MASK_USE_OF; P.vdist_sensor_type = VDIST_SENSOR_RANGE; P.mag_fusion_type = MAG_FUSE_TYPE_INDOOR; gps = false; rng = flow = true; break;

		case C_EVALL: P.fusion_mode = MASK_USE_EVPOS | MASK_USE_EVYAW | MASK_USE_EVVEL; P.vdist_sensor_type = VDIST_SENSOR_EV; gps = false; ev = true; break;

		case C_EVVEL: P.fusion_mode = MASK_USE_EVVEL; P.mag_fusion_type = MAG_FUSE_TYPE_HEADING; gps = false; ev = true; break;

		case C_PLANE: tas = true; plane = true; break;

		case C_NONE: P.fusion_mode = 0; gps = false; break;

		case C_DRAG: P.fusion_mode = MASK_USE_GPS | MASK_USE_DRAG; P.range_aid = 1; rng = true; P.mag_fusion_type = MAG_FUSE_TYPE_3D; w.wind = {0, 0, 0}; break;

		case C_GPSYAW: P.fusion_mode = MASK_USE_GPS | MASK_USE_GPSYAW; P.mag_fusion_type = MAG_FUSE_TYPE_NONE; P.vdist_sensor_type = VDIST_SENSOR_GPS; mag = false; w.gps_yaw = true; break;

		case C_GPSFLOW: P.fusion_mode = MASK_USE_GPS | MASK_USE_OF; rng = flow = true; break;

		case C_EVROT: P.fusion_mode = MASK_USE_EVPOS | MASK_ROTATE_EV; gps = false; ev = true; w.ev_yaw_off = 0.6; break;
		}

		if (cfg == C_EVVEL || cfg == C_GPSFLOW) { aux = true; }


		if (E17) { P.terrain_fusion_mode = (P.fusion_mode & MASK_USE_OF) || P.vdist_sensor_type == VDIST_SENSOR_RANGE || P.range_aid ? P.terrain_fusion_mode & TerrainFuseRangeFinder : 0; }

		w.begin();
		w.baro.start(w.t, 3000);
		w.mag.period = 24000;

		if (mag) { w.mag.start(w.t, 1000); }

		if (gps) { w.gps.start(w.t, 5000); }

		if (rng) { w.range.start(w.t, 7000); }

		if (flow) { w.flow.start(w.t, 9000); }

		if (ev) { w.ev.start(w.t, 11000); }

		if (tas) { w.airspeed.start(w.t, 13000); }

		if (aux) { w.auxvel.start(w.t, 15000); }

		sel[0] = mag; sel[1] = gps; sel[2] = rng; sel[3] = flow; sel[4] = ev; sel[5] = tas;
	}
	bool sel[6];

	void control()
	{
		const double t = (w.t - w.t0) * 1e-6;
		V3 vd;
		Q4 qd;

		if (flying && plane) {
			const double psi = straight ? 0.7 : 0.7 + 0.35 * (t - 9);
			const double sp = std::min(14.0, 2.5 * std::max(t - 9, 0.0) + 1);
			vd = {sp *std::cos(psi), sp *std::sin(psi), std::min(std::max(0.8 * (-12 - w.x.p.z), -2.5), 2.5)};
			qd = q_euler(straight ? 0 : 0.3, 0.05, psi);

		} else if (flying) {
			vd = {straight ? 1.0 : 2 * std::sin(0.7 * t), straight ? 0.5 : 1.5 * std::cos(0.5 * t), std::min(std::max(0.8 * (-3.2 - w.x.p.z), -2.0), 2.0)};
			qd = q_euler(0.06 * std::sin(1.1 * t), 0.08 * std::cos(0.9 * t), straight ? 0.7 : 0.7 + 0.6 * std::sin(0.4 * t));

		} else {
			vd = {0, 0, landing ? std::min(0.8, 1.5 * (-0.1 - w.x.p.z)) : 0};
			qd = q_euler(0, 0, w.x.q.yaw());
		}

		const V3 err = vd - w.x.v;
		w.cmd_a = err * std::min(3.0, 4.0 / std::max(err.norm(), 1e-6));
		const Q4 dq = (w.x.q.conj() * qd).normalized();
		const double sg = dq.w < 0 ? -1 : 1;
		w.cmd_w = V3{dq.x, dq.y, dq.z} *(4.0 * sg);

		if (landing && std::fabs(-0.1 - w.x.p.z) < 0.03 && w.x.v.norm() < 0.06) { landing = false; w.ekf->set_in_air_status(false); if (plane) { w.ekf->set_fuse_beta_flag(false); } }
	}
	// sensors that are not selected tell nonsense
	void nonsense()
	{
		const uint64_t k = w.ticks;
		const float r = float(int(k * 7919 % 101) - 50);

		if (!sel[0] && k % 3 == 0) { magSample m; m.time_us = w.t; m.mag = Vector3f(0.01f * r, 0.3f, -0.2f); w.ekf->setMagData(m); }

		if (!sel[1] && k % 12 == 0) { gps_message m = w.gps_message_for(w.x, w.t); m.lat += int(r * 1000); m.vel_ned(0) += r; m.yaw = 0.1f * r; w.ekf->setGpsData(m); }

		if (!sel[2] && k % 5 == 0) { rangeSample s; s.time_us = w.t; s.rng = 3 + 0.05f * r; s.quality = 100; w.ekf->setRangeData(s); }

		if (!sel[3] && k % 3 == 1) { flowSample s = w.flow_for(w.x, w.t); s.flow_xy_rad(0) += 0.002f * r; s.quality = 255; w.ekf->setOpticalFlowData(s); }

		if (!sel[4] && k % 4 == 2) { extVisionSample s = w.ev_for(w.x, w.t); s.pos(0) += r; s.vel(1) -= r; s.quat = Quatf(0.6f, 0, 0, 0.8f); w.ekf->setExtVisionData(s); }
	}
	void deliver()
	{
		if (!reverse) { w.sensors(); return; }

		if (w.auxvel.due(w.t)) { w.ekf->setAuxVelData(w.aux_for(w.at(w.t - w.auxvel.delay), w.t)); }

		if (w.ev.due(w.t)) { w.ekf->setExtVisionData(w.ev_for(w.at(w.t - w.ev.delay), w.t)); }

		if (w.range.due(w.t)) { w.ekf->setRangeData(w.range_for(w.at(w.t - w.range.delay), w.t)); }

		if (w.flow.due(w.t)) { w.ekf->setOpticalFlowData(w.flow_for(w.at(w.t - w.flow.delay), w.t)); }

		if (w.airspeed.due(w.t)) { w.ekf->setAirspeedData(w.airspeed_for(w.at(w.t - w.airspeed.delay), w.t)); }

		if (w.gps.due(w.t)) { w.ekf->setGpsData(w.gps_message_for(w.at(w.t - w.gps.delay), w.t)); }

		if (w.baro.due(w.t)) { w.ekf->setBaroData(w.baro_for(w.at(w.t - w.baro.delay), w.t)); }

		if (w.mag.due(w.t)) { w.ekf->setMagData(w.mag_for(w.at(w.t - w.mag.delay), w.t)); }
	}
	bool tick()
	{
		control();
		const imuSample s = w.advance(w.imu_dt);
		w.ekf->setIMUData(s);

		if (noise) { nonsense(); }

		deliver();
		const bool u = w.ekf->update();
		w.updates += u;
		mc::transition();
		return u;
	}
	void toggle(Sensor &s, uint64_t ph) { if (s.on) { s.stop(); } else { s.start(w.t, ph); } }

	void event(int k)
	{
		switch (k) {
		case GPS: if (sel[1]) { toggle(w.gps, 5000); } break;

		case GPSJUMP: w.gps_pos_err = w.gps_pos_err + V3{25, 0, -12}; w.gps_vel_err = w.gps_vel_err.norm() > 0 ? V3{} : V3{0, 6, 0}; break;

		case BARO: toggle(w.baro, 3000); break;

		case BAROJUMP: w.baro_off += 15; break;

		case MAG: if (sel[0]) { toggle(w.mag, 1000); } break;

		case MAGDIST: w.mag_bias = w.mag_bias.norm() > 0 ? V3{} : V3{0.2, -0.25, 0.1}; break;

		case LAND:
			if (flying) { flying = false; landing = true; break; }

			takeoff();
			break;

		case RNG: if (sel[2]) { toggle(w.range, 7000); } break;

		case FLOW: if (sel[3]) { toggle(w.flow, 9000); } break;

		case VIS: if (sel[4]) { toggle(w.ev, 11000); } break;

		case VISJUMP: w.ev_pos_off = w.ev_pos_off + V3{6, -3, 2}; w.ev_yaw_off += 0.5; break;

		case AIR: if (sel[5]) { toggle(w.airspeed, 13000); } break;

		case ACC: w.imu_force = w.imu_force.norm() > 0 ? V3{} : V3{0, 0, -8}; break;

		case TURN: straight = !straight; break;

		case ORIGIN: w.ekf->setEkfGlobalOrigin(w.lat0 + 0.001, w.lon0 - 0.002, float(w.alt0 + 10)); break;

		case BIASRST: w.ekf->resetImuBias(); w.ekf->set_air_density(1.1f); break;

		default: break;
		}
	}
	void takeoff()
	{
		flying = true;
		landing = false;
		w.ekf->set_in_air_status(true);

		if (plane) { w.ekf->set_is_fixed_wing(true); w.ekf->set_fuse_beta_flag(true); }
	}
};

struct Case {
	std::unique_ptr<Inst> a, b, c, d;
	std::string log;
	int cfg;

	void same(Inst &x, const char *what)
	{
		collect(*x.w.ekf, x.out);
		mc::evaluation(!log.empty());

		if (memcmp(&a->out, &x.out, sizeof(Out)) == 0) { return; }

		for (int i = 0; i < a->out.nf; i++) {
			MC_CHECK(memcmp(&a->out.f[i], &x.out.f[i], 4) == 0, what, "[%s t=%.3f%s] %s: value %d is %.9g instead of %.9g", cfg_name[cfg], (a->w.t - a->w.t0) * 1e-6, log.c_str(), what, i, double(x.out.f[i]), double(a->out.f[i]));
		}

		for (int i = 0; i < a->out.nu; i++) {
			MC_CHECK(a->out.u[i] == x.out.u[i], what, "[%s t=%.3f%s] %s: status %d is 0x%x instead of 0x%x", cfg_name[cfg], (a->w.t - a->w.t0) * 1e-6, log.c_str(), what, i, x.out.u[i], a->out.u[i]);
		}
	}
	void go(double sec)
	{
		const uint64_t n = uint64_t(sec * 1e6 / a->w.imu_dt);

		for (uint64_t i = 0; i < n; i++) {
			const bool u = a->tick(), ub = b->tick();

			if (c) { c->tick(); }

			const bool ud = d ? d->tick() : u;
			MC_CHECK(u == ub && u == ud, "update", "[%s t=%.3f%s] the instances do not update at the same time", cfg_name[cfg], (a->w.t - a->w.t0) * 1e-6, log.c_str());

			if (!u) { continue; }

			collect(*a->w.ekf, a->out);
			same(*b, E17 ? "data of sensors that are not selected" : "other storage contents, delivery order and neighbour");

			if (d) { same(*d, "three days later"); }
		}
	}
	void event(int e)
	{
		a->event(e);
		b->event(e);

		if (d) { d->event(e); }
	}
};

int main(int argc, char **argv)
{

	mc::init(argc, argv, "E15");
	E17 = mc::mode("E17");

	if (!mc::replaying() && getenv("MC_RESULT")) { if (!freopen("/dev/null", "w", stdout)) { return 3; } }

	const bool th = mc::thorough();
	mc::rule("all sequences of two (thorough three) of 17 events with two durations for 12 aiding configurations, flown by several instances in lockstep; an evaluation is the bit-by-bit comparison of every published quantity of one update "
		 "of two instances, non-trivial after the first event; states are the distinct end states");
	mc::explore("lockstep", mc::FORK, [&] {
		Case k;
		k.cfg = mc::choose(NCFG);
		const uint64_t start = 20000000;
		k.a.reset(new Inst);
		k.a->setup(k.cfg, 0, start);
		k.b.reset(new Inst);
		k.b->setup(k.cfg, E17 ? 0 : 0xA5, start);

		if (E17) {
			k.b->noise = true;

		} else {
			k.b->reverse = true;
			k.c.reset(new Inst);
			k.c->setup((k.cfg + 5) % NCFG, 0x5A, start / 2);
			k.d.reset(new Inst);
			k.d->setup(k.cfg, 0, start + 259200000000ull);
		}

		k.go(9);
		k.a->takeoff();
		k.b->takeoff();

		if (k.c) { k.c->takeoff(); k.d->takeoff(); }

		k.go(4);
		const int depth = th ? 3 : 2;
		static const double durs[2] = {1.1, 8.3};

		for (int i = 0; i < depth; i++)
		{
			const int ev = mc::choose(NEV), d = i == 0 || th ? mc::choose(2) : 0;
			const double T = i == 0 || th ? durs[d] : 4.1;
			char t[100];
			snprintf(t, sizeof(t), "; %s for %.1f s", ev_name[ev], T);
			k.log += t;
			mc::note("%s", t + 2);
			k.event(ev);
			k.go(T);
		}

		mc::visit(mc::hash_pod(uint64_t(k.cfg), state_of(*k.a->w.ekf)));

		if (mc::hash_pod(7, state_of(*k.a->w.ekf)) % 201 == 0) { mc::sample("configuration %d%s", k.cfg, k.log.c_str()); }
	}, 2);
	mc::finish();
	return 0;
}

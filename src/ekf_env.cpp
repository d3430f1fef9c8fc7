// E01, E05, E06, E07, E09, E10, E11, E12: the whole filter flies a mission while the explorer switches sensors,
// faults, commands and flight phases in every order. FORK engine: every branch continues from a byte-exact
// snapshot of the process. Monitors use only the public interface and know nothing of the filter's internals.
#include "ekfsim.h"
#include <deque>
#include <memory>
#include <string>
#include <vector>

using namespace sim;

static bool P_E01, P_E05, P_E06, P_E07, P_E09, P_E10, P_E11, P_E12, P_E18, P_E19;

// ------------------------------------------------------------------ mission
enum Cfg { C_GPS, C_GPSH, C_FLOW, C_FLOWR, C_EVALL, C_EVVEL, C_PLANE, C_GPSEV, C_NONE, C_DRAG, C_GPSYAW, C_GPSFLOW, C_EVROT, NCFG,
// further ones for the decisions only
	   D_RNG = NCFG, D_AID, D_AIDGPS, D_EVYAW, D_EVPOS, D_INDOOR, D_TAS, D_GSF, D_EVGPS, D_EVFLOW, D_QUICK, D_HEAD, D_EVHGT, NALL };
static const char *cfg_name[NALL] = {"gps+baro", "gps height", "flow+baro", "flow+range height", "vision pos/yaw/height", "vision velocity", "fixed wing gps+air data",
				     "gps+vision odometry", "no aiding", "gps+drag+range aid", "gps yaw, no mag", "gps+flow", "vision pos rotated frame",
				     "gps+range height", "flow+range aid", "gps height+range aid", "vision yaw+flow", "vision position without heading", "gps+flow indoor", "fixed wing gps+airspeed", "gps without mag", "gps+vision all", "vision velocity+flow+range height", "gps height late and quick", "gps, compass wrong", "gps with vision height"
				    };

struct Reset {
	uint8_t cnt[5];
	float vNE[2], vD, pNE[2], pD, q[4];
	void read(const Ekf &e)
	{
		e.get_velNE_reset(vNE, &cnt[0]);
		e.get_velD_reset(&vD, &cnt[1]);
		e.get_posNE_reset(pNE, &cnt[2]);
		e.get_posD_reset(&pD, &cnt[3]);
		e.get_quat_reset(q, &cnt[4]);
	}
};

// innovations as published, used to notice that a measurement was processed
struct Inn {
	float gv[3], gp[3], gvv[3], gpv[3], ev[3], ep[3], evv[3], epv[3], fl[2], flv[2], tas, tasv, beta, betav, baro, barov, rng, rngv, mag[3], magv[3], hdg, hdgv, aux[2], auxv[2], drag[2], dragv[2], hagl, haglv;
	float gvr[2], gpr[2], evr[2], epr[2], flr, tasr, betar, baror, rngr, magr, hdgr, auxr, dragr[2], haglr;
	void read(const Ekf &e)
	{
		e.getGpsVelPosInnov(gv, gv[2], gp, gp[2]);
		e.getGpsVelPosInnovVar(gvv, gvv[2], gpv, gpv[2]);
		e.getGpsVelPosInnovRatio(gvr[0], gvr[1], gpr[0], gpr[1]);
		e.getEvVelPosInnov(ev, ev[2], ep, ep[2]);
		e.getEvVelPosInnovVar(evv, evv[2], epv, epv[2]);
		e.getEvVelPosInnovRatio(evr[0], evr[1], epr[0], epr[1]);
		e.getFlowInnov(fl); e.getFlowInnovVar(flv); e.getFlowInnovRatio(flr);
		e.getAirspeedInnov(tas); e.getAirspeedInnovVar(tasv); e.getAirspeedInnovRatio(tasr);
		e.getBetaInnov(beta); e.getBetaInnovVar(betav); e.getBetaInnovRatio(betar);
		e.getBaroHgtInnov(baro); e.getBaroHgtInnovVar(barov); e.getBaroHgtInnovRatio(baror);
		e.getRngHgtInnov(rng); e.getRngHgtInnovVar(rngv); e.getRngHgtInnovRatio(rngr);
		e.getMagInnov(mag); e.getMagInnovVar(magv); e.getMagInnovRatio(magr);
		e.getHeadingInnov(hdg); e.getHeadingInnovVar(hdgv); e.getHeadingInnovRatio(hdgr);
		e.getAuxVelInnov(aux); e.getAuxVelInnovVar(auxv); e.getAuxVelInnovRatio(auxr);
		e.getDragInnov(drag); e.getDragInnovVar(dragv); e.getDragInnovRatio(dragr);
		e.getHaglInnov(hagl); e.getHaglInnovVar(haglv); e.getHaglInnovRatio(haglr);
	}
};
static bool differ(const float *a, const float *b, int n) { return memcmp(a, b, n * sizeof(float)) != 0; }

// everything a monitor looks at after an update
struct Snap {
	uint64_t now{0}, delayed{0};
	St s;
	float P[24][24];
	Reset r;
	Inn i;
	filter_control_status_u c{};
	fault_status_u fault{};
	innovation_fault_status_u rej{};
	bool dr, loc, glob, origin, terrain;
	uint32_t info, warn;
	float tvp;
	bool gsf_valid;
	float gsf_var;
	void read(const Ekf &e, uint64_t t)
	{
		now = t;
		delayed = e.get_imu_sample_delayed().time_us;
		s = state_of(e);
		const auto &m = e.covariances();

		for (int a = 0; a < 24; a++) { for (int b = 0; b < 24; b++) { P[a][b] = m(a, b); } }

		r.read(e);
		i.read(e);
		c = e.control_status();
		fault = e.fault_status();
		rej = e.innov_check_fail_status();
		dr = e.inertial_dead_reckoning();
		loc = e.local_position_is_valid();
		glob = e.global_position_is_valid();
		origin = e.global_origin_valid();
		terrain = e.isTerrainEstimateValid();
		info = e.information_event_status().value;
		warn = e.warning_event_status().value;
		tvp = e.getTerrainVertPos();
		float yc, ya[N_MODELS_EKFGSF], vn[N_MODELS_EKFGSF], ve[N_MODELS_EKFGSF], wt[N_MODELS_EKFGSF];
		gsf_valid = const_cast<Ekf &>(e).getDataEKFGSF(&yc, &gsf_var, ya, vn, ve, wt);
	}
};
static float sq_(float v) { return v * v; }

#include "refctl.h"

struct Env {
	World w;
	int cfg{0};
	// mission
	enum Phase { GROUND, CLIMB, CRUISE, DESCEND } phase{GROUND};
	uint64_t phase_since{0};
	double cruise_h{4};
	bool turning{false}, plane{false}, fast{false}, shaking{false};
	uint64_t clip_end{0};
	bool with_beta{true};
	double u0{0};
	// faults
	bool gps_on{true}, gps_bad{false};
	uint64_t user_mode_change{0};
	uint64_t user_origin{0};
	Snap a, b;                 // previous and current update
	bool have{false};
	uint64_t n_upd{0};
	std::string log;
	// ---- when measurements were given to the filter (time of call)
	uint64_t gps_cont{0}, ev_cont{0}, rng_cont{0}, flow_cont{0}, mag_cont{0};   // delivering without a gap since
	uint64_t last_sure{0};
	uint64_t last_gps{0}, gps_bad_last{0}, gps_first{0}, gps_good_since{0}, last_ev{0}, last_flow{0}, last_tas{0}, last_baro{0}, last_mag{0}, last_rng{0};

	Ekf &e() { return *w.ekf; }
	double since(uint64_t x) const { return x == 0 ? 1e9 : (double(w.t) - double(x)) * 1e-6; }
	double ev_run() const { return since(last_ev) < 0.1 ? since(ev_cont) : 0; }
	double gps_run() const { return since(last_gps) < 0.3 ? since(gps_cont) : 0; }
	double rng_run() const { return since(last_rng) < 0.15 ? since(rng_cont) : 0; }
	double flow_run() const { return since(last_flow) < 0.1 ? since(flow_cont) : 0; }
	double mag_run() const { return since(last_mag) < 0.1 ? since(mag_cont) : 0; }
	parameters &p() { return w.par(); }

	void configure();
	void apply(int ev);
	void toggle(Sensor &s);
	void apply_origin();
	bool silent{false};           // only note when resets happen
	uint64_t cmd_at{0};
	std::vector<uint64_t> reset_at;
	double bad_run() const { return gps_bad_since ? since(gps_bad_since) : 0; }
	// the synthetic position is an exact copy of the estimate (nothing moves): its innovation cannot be seen to change
	bool pinned() const { return std::fabs(b.i.gp[0]) < 1e-6f && std::fabs(b.i.gp[1]) < 1e-6f; }
	void control();
	void tick();
	void run(double sec);
	void mon_tick_output(bool upd, const imuSample &imu);
	void mon_update();
	void mon_sanity();
	void mon_height();
	void mon_reset();
	void mon_aiding();
	void mon_validity();
	void mon_report();
	void mon_yaw();
	void mon_idle();
	Ctl ctl;
	Tri pr_H[4];
	bool hgt_fused{false};
	int64_t health{1000000};
	bool lockstep() const { return P_E05 || P_E06 || P_E09 || P_E12 || P_E18 || P_E19; }
	void ctl_deliver();
	void ctl_step();
	void ctl_resets(bool gps_fresh, bool gps_stale, bool gps_ready);
	float e_alt() { uint64_t t; double la, lo; float al = 0; e().getEkfGlobalOrigin(t, la, lo, al); return al; }
	const char *where()
	{
		static char t[200];
		snprintf(t, sizeof(t), "[%s t=%.3f%s]", cfg_name[cfg], (w.t - w.t0) * 1e-6, log.c_str());
		return t;
	}

	// processed in this update and accepted
	bool f_gpsv, f_gpsp, f_evv, f_evp, f_flow, f_tas, f_beta, f_baro, f_rng, f_gpsh, f_evh;
	uint64_t ok_hor[8] {};        // last accepted: gps vel, gps pos, ev vel, ev pos, flow, tas, beta, aux
	uint64_t prev_ok[2] {};       // the same before this update
	uint64_t maybe_hor{0};        // last time something that may count as aiding happened (start, reset)
	uint64_t hvel_any{0};

	// validity
	uint64_t last_aid{0};         // last update where dead reckoning was certainly not the case
	// output predictor reference
	struct Out { Q4 q; V3 v, p; double vv{0}, vi{0}, vdt{0}; };
	std::deque<Out> obuf;
	Out out;
	V3 dacorr, vint, pint_;
	bool out_ready{false};
	Reset out_r;
	V3 imu_vel_rel;
	uint64_t fault_since{0}, rng_good_since{0}, force_last{0};
	int over_lim[6] {};
	uint64_t flow_q_since{0};
	uint64_t stale_until{0};
	bool acc_fault_seen{false};  // the estimated tilt may be wrong, a range finder on the ground counts as stuck after that
	bool aux_f{false};
	// height
	uint64_t hgt_ok{0}, baro_gap_start{0};
	uint64_t hgt_src_since{0};
	int hgt_src{0};
	float origin_eph{0}, origin_epv{0};
	bool origin_seen{false};
	// aiding
	uint64_t aligned_since{0}, origin_since{0}, other_since{0}, flow_ready_since{0}, flow_rest_since{0}, fake_seen{0}, idle_since{0}, gps_bad_since{0};
	// output
	int olen{0};
	double dt_avg{0.01}, dt_imu_avg{0.005};
	bool uneven{false};          // inertial samples of unequal length
	uint32_t next_dt() const { return w.imu_dt + (uneven ? (w.ticks % 2 ? 1000 : -1000) : 0); }
	uint64_t oskip{0};
	// yaw
	uint64_t ground_since{0}, mag_free_since{0}, mag3d_gps_since{0}, nogps_since{0}, mag_change{0}, emergency_last{0}, climb_since{0};
	bool mag_bad_now{false};
	int emergency_n{0};
	uint64_t mag_dist_since{0}, mag_ok_since{0}, cruise_since{0};
};

void Env::configure()
{
	const bool late = cfg == D_INDOOR || cfg == D_EVFLOW;
	parameters &P = w.make(0, late ? 100000000 : 1000000);
	w.wind = {2.0, -1.0, 0};
	w.ev_pos_var = 0.01f;
	w.ekf->set_rangefinder_limits(0.05f, 40.f);
	w.ekf->set_optical_flow_limits(8.f, 0.05f, 40.f);
	w.ekf->set_min_required_gps_health_time(1000000);
	bool gps = true, mag = true, rng = false, flow = false, ev = false, tas = false;

	switch (cfg) {
	case C_GPS: break;

	case C_GPSH: P.vdist_sensor_type = VDIST_SENSOR_GPS; P.check_mag_strength = 1; break;

	case C_FLOW: P.fusion_mode = MASK_USE_OF; gps = false; rng = flow = true; break;

	case C_FLOWR: P.fusion_mode = MASK_USE_OF; P.vdist_sensor_type = VDIST_SENSOR_RANGE; P.mag_fusion_type = MAG_FUSE_TYPE_INDOOR; gps = false; rng = flow = true; break;

	case C_EVALL: P.fusion_mode = MASK_USE_EVPOS | MASK_USE_EVYAW | MASK_USE_EVVEL; P.vdist_sensor_type = VDIST_SENSOR_EV; gps = false; ev = true; break;

	case C_EVVEL: P.fusion_mode = MASK_USE_EVVEL; P.mag_fusion_type = MAG_FUSE_TYPE_HEADING; gps = false; ev = true; break;

	case C_PLANE: tas = true; plane = true; cruise_h = 12; P.check_mag_strength = 1; break;

	case C_GPSEV:
		P.fusion_mode = MASK_USE_GPS | MASK_USE_EVPOS; ev = true;
		// everything sits at the same place away from the centre of the body
		P.imu_pos_body = P.gps_pos_body = P.ev_pos_body = P.rng_pos_body = P.flow_pos_body = Vector3f(0.4f, -0.2f, 0.1f);
		break;


	case C_NONE: P.fusion_mode = 0; gps = false; break;

	case C_DRAG: P.fusion_mode = MASK_USE_GPS | MASK_USE_DRAG; P.range_aid = 1; rng = true; P.mag_fusion_type = MAG_FUSE_TYPE_3D; w.wind = {0, 0, 0}; break;

	case C_GPSYAW: P.fusion_mode = MASK_USE_GPS | MASK_USE_GPSYAW; P.mag_fusion_type = MAG_FUSE_TYPE_NONE; P.vdist_sensor_type = VDIST_SENSOR_GPS; mag = false; w.gps_yaw = true; break;

	case C_GPSFLOW: P.fusion_mode = MASK_USE_GPS | MASK_USE_OF; rng = flow = true; break;

	case C_EVROT: P.fusion_mode = MASK_USE_EVPOS | MASK_ROTATE_EV; gps = false; ev = true; w.ev_yaw_off = 0.6; break;

	case D_RNG: P.vdist_sensor_type = VDIST_SENSOR_RANGE; rng = true; break;

	case D_AID: P.fusion_mode = MASK_USE_OF; P.range_aid = 1; gps = false; rng = flow = true; break;

	case D_AIDGPS: P.vdist_sensor_type = VDIST_SENSOR_GPS; P.range_aid = 1; rng = true; break;

	case D_EVYAW: P.fusion_mode = MASK_USE_EVYAW | MASK_USE_OF; P.mag_fusion_type = MAG_FUSE_TYPE_NONE; gps = mag = false; rng = flow = ev = true; break;

	case D_EVPOS: P.fusion_mode = MASK_USE_EVPOS | MASK_USE_EVVEL; P.vdist_sensor_type = VDIST_SENSOR_EV; P.mag_fusion_type = MAG_FUSE_TYPE_NONE; gps = mag = false; ev = true; break;

	case D_INDOOR: P.fusion_mode = MASK_USE_GPS | MASK_USE_OF; P.mag_fusion_type = MAG_FUSE_TYPE_INDOOR; P.terrain_fusion_mode = TerrainFusionMask::TerrainFuseRangeFinder; rng = flow = true; break;

	case D_TAS: tas = true; plane = true; cruise_h = 12; break;

	case D_GSF: P.mag_fusion_type = MAG_FUSE_TYPE_NONE; P.EKFGSF_reset_count_limit = 1; P.vdist_sensor_type = VDIST_SENSOR_GPS; mag = false; break;

	case D_EVGPS: P.fusion_mode = MASK_USE_GPS | MASK_USE_EVPOS | MASK_USE_EVVEL | MASK_USE_EVYAW; P.vdist_sensor_type = VDIST_SENSOR_EV; ev = true; break;

	case D_EVFLOW: P.fusion_mode = MASK_USE_EVVEL | MASK_USE_OF; P.vdist_sensor_type = VDIST_SENSOR_RANGE; gps = false; ev = rng = flow = true; break;

	case D_HEAD: P.EKFGSF_reset_count_limit = 1; fast = true; break;

	case D_EVHGT: P.vdist_sensor_type = VDIST_SENSOR_EV; ev = true; break;

	case D_QUICK:
		P.vdist_sensor_type = VDIST_SENSOR_GPS; P.fusion_mode = MASK_USE_GPS | MASK_USE_EVVEL; P.ev_delay_ms = 300; P.gps_delay_ms = 20; gps = false;
		w.ekf->set_min_required_gps_health_time(health = 100000);
		break;
	}

	w.begin();

	uneven = cfg < NCFG && cfg % 3 == 1;

	// the two inertial sensors integrate over intervals that differ
	if (cfg < NCFG && cfg % 3 == 2) { w.dv_skew = 0.06; }

	// limits of the accelerometer bias other than the default
	if (cfg % 2) { P.acc_bias_lim = cfg % 4 == 1 ? 0.15f : 0.6f; }

	// and a bias beyond it
	if (cfg == C_GPSH || cfg == C_DRAG) { w.accel_bias = {0.05, 0, 0.5}; }

	if (cfg == D_HEAD) { w.mag_ned_err = q_exp({0, 0, 110 * DEG}).rot(w.mag_ned) - w.mag_ned; }

	w.x.q = q_euler(0, 0, 0.9);
	w.x.p = {0, 0, -0.12};
	w.range_dither = 0.01;
	w.baro.start(w.t, 3000);

	if (mag) { w.mag.start(w.t, 1000); }

	if (gps) { w.gps.start(w.t, 11000); }

	if (rng) { w.range.start(w.t, 7000); }

	if (flow) { w.flow.start(w.t, 9000); }

	if (ev) { w.ev.start(w.t, 5000); }

	if (tas) { w.airspeed.start(w.t, 13000); }

	gps_on = gps;
}

// the vehicle follows a velocity demand; on the ground it stands still
void Env::control()
{
	const double t = (w.t - phase_since) * 1e-6;
	const double u = (w.t - w.t0) * 1e-6;
	V3 vd{0, 0, 0};
	V3 rate{0, 0, 0};
	const double yaw = w.x.q.yaw();
	const V3 fwd{std::cos(yaw), std::sin(yaw), 0};

	switch (phase) {
	case GROUND:
		if (shaking) { rate = {0, 0, 10 * std::sin(60 * u)}; }

		// the flight controller keeps reporting that it is on the ground
		w.ekf->set_in_air_status(false);

		if (n_upd) { ctl.ground.set(w.t); }

		break;

	case CLIMB:
		vd = V3{0, 0, -2.2} + (plane ? fwd * std::min(14.0, 6 * t) : V3{});

		if (-w.x.p.z > cruise_h) { phase = CRUISE; phase_since = w.t; cruise_since = w.t; }

		break;

	case CRUISE:
		if (plane) {
			vd = fwd * 14 + V3{0, 0, 0.2 * std::sin(0.7 * u) + 0.5 * (-cruise_h - w.x.p.z)};
			rate = {0, 0, turning ? 0.35 : 0.05 * std::sin(0.6 * u)};

		} else {
			vd = V3{1.5 * std::sin(0.9 * u), 1.2 * std::cos(0.7 * u), 0.3 * std::sin(0.5 * u) + 0.5 * (-cruise_h - w.x.p.z)} + (fast ? V3{5 * std::cos(0.5 * u), 5 * std::sin(0.5 * u), 0} : V3{});
			rate = {0.08 * std::sin(2 * u), 0.06 * std::cos(1.7 * u), turning ? 0.6 : 0.1 * std::sin(0.5 * u)};
		}

		break;

	case DESCEND:
		vd = {0, 0, std::min(2.2, 0.4 + 1.5 * std::max(0.0, -w.x.p.z - 0.3))};

		if (w.x.p.z >= -0.12) { vd.z = 0; phase = GROUND; phase_since = w.t; w.ekf->set_in_air_status(false); }

		break;
	}

	V3 err = vd - w.x.v;
	const double dt = next_dt() * 1e-6;

	if (phase == GROUND && w.x.v.norm() < 0.03) {
		w.cmd_a = w.x.v * (-1 / dt);

	} else {
		V3 acc = err * 4.0;
		const double lim = plane ? 5.0 : 3.0, n = acc.norm();
		w.cmd_a = n > lim ? acc * (lim / n) : acc;
	}

	if (plane && phase == CRUISE) {
		// coordinated: the velocity vector turns with the nose
		w.cmd_a = w.cmd_a + V3{-fwd.y, fwd.x, 0} * (14 * rate.z);
	}

	// hold the vehicle level: small commanded oscillation plus a restoring rate
	const double roll = w.x.q.roll(), pitch = w.x.q.pitch();
	w.cmd_w = phase == GROUND ? rate : V3{rate.x - 1.0 * roll, rate.y - 1.0 * pitch, rate.z};
}

void Env::tick()
{
	control();

	// what the sensors will deliver in this tick (the world keeps its own clock of each)
	const uint32_t imu_dt = next_dt();
	const uint64_t tn = w.t + imu_dt;
	auto due = [&](const Sensor &s) { return s.on && tn >= s.next; };

	auto cont = [&](uint64_t &c, uint64_t last, uint64_t gap) { if (last == 0 || tn - last > gap) { c = tn; } };

	if (due(w.gps)) {
		cont(gps_cont, last_gps, 600000);
		last_gps = tn;
		const bool bad = w.gps_tmpl.nsats < p().req_nsats || w.gps_tmpl.fix_type < 3 || w.gps_tmpl.eph > p().req_hacc || w.gps_tmpl.sacc > p().req_sacc;

		if (bad) { gps_bad_last = tn; gps_good_since = 0; if (!gps_bad_since) { gps_bad_since = tn; } }

		else { gps_bad_since = 0; if (!gps_good_since) { gps_good_since = tn; } }
	}

	if (due(w.ev)) { cont(ev_cont, last_ev, 100000); last_ev = tn; }

	if (due(w.flow)) { cont(flow_cont, last_flow, 100000); last_flow = tn; }

	if (due(w.airspeed)) { last_tas = tn; }

	if (due(w.baro)) { last_baro = tn; }

	if (due(w.mag)) {
		const bool bad = w.mag_scale > 1.1;

		if (bad != mag_bad_now || !mag_change) { mag_bad_now = bad; mag_change = tn; }

		cont(mag_cont, last_mag, 100000); last_mag = tn; }

	if (due(w.range)) {
		rng_good_since = w.range_quality > 0 ? (rng_good_since ? rng_good_since : tn) : 0; cont(rng_cont, last_rng, 150000); last_rng = tn; }

	if (clip_end && w.t > clip_end) { clip_end = 0; w.clip[0] = false; }

	const imuSample s = w.advance(imu_dt);
	dt_imu_avg = 0.8 * dt_imu_avg + 0.2 * imu_dt * 1e-6;

	if (cmd_at && w.t == cmd_at) { apply_origin(); }

	e().setIMUData(s);
	w.sensors();
	if (lockstep()) { ctl_deliver(); }

	const bool u = e().update();
	w.updates += u;

	if (P_E07 && cfg < NCFG) { mon_tick_output(u, s); }

	if (u) {
		n_upd++;
		a = b;
		b.read(e(), w.t);

		if (n_upd > 1) {
			if (silent) { if (w.t > w.t0 + 13000000 && (a.r.cnt[2] != b.r.cnt[2] || a.r.cnt[3] != b.r.cnt[3]) && reset_at.size() < 4) { reset_at.push_back(w.t); } }

			else { mon_update(); }
		}
	}

	mc::transition();
}

void Env::run(double sec)
{
	const uint64_t end = w.t + uint64_t(sec * 1e6);

	while (w.t < end) { tick(); }
}

// ------------------------------------------------------------------ observation of what was fused
void Env::mon_update()
{
	const Inn &x = a.i, &y = b.i;
	auto &c = b.c.flags;
	f_gpsv = c.gps && (differ(x.gv, y.gv, 3) || differ(x.gvv, y.gvv, 3));
	f_gpsp = c.gps && (differ(x.gp, y.gp, 2) || differ(x.gpv, y.gpv, 2));
	f_evv = c.ev_vel && (differ(x.ev, y.ev, 3) || differ(x.evv, y.evv, 3));
	f_evp = c.ev_pos && (differ(x.ep, y.ep, 2) || differ(x.epv, y.epv, 2));
	f_flow = c.opt_flow && (differ(x.fl, y.fl, 2) || differ(x.flv, y.flv, 2));
	f_tas = x.tas != y.tas || x.tasv != y.tasv;
	f_beta = x.beta != y.beta || x.betav != y.betav;
	f_baro = c.baro_hgt && y.barov > 0 && (x.baro != y.baro || x.barov != y.barov);
	f_rng = c.rng_hgt && (x.rng != y.rng || x.rngv != y.rngv);
	f_gpsh = c.gps_hgt && y.gpv[2] > 0 && (x.gp[2] != y.gp[2] || x.gpv[2] != y.gpv[2]);
	aux_f = differ(x.aux, y.aux, 2);
	f_evh = c.ev_hgt && y.epv[2] > 0 && (x.ep[2] != y.ep[2] || x.epv[2] != y.epv[2]);
	const uint64_t t = w.t;

	prev_ok[0] = ok_hor[0]; prev_ok[1] = ok_hor[1];

	if (f_gpsv && y.gvr[0] <= 1) { ok_hor[0] = t; }

	if (f_gpsp && y.gpr[0] <= 1) { ok_hor[1] = t; }

	if (f_evv && y.evr[0] <= 1) { ok_hor[2] = t; }

	if (f_evp && y.epr[0] <= 1) { ok_hor[3] = t; }

	if (f_flow && y.flr <= 1) { ok_hor[4] = t; }

	if (f_tas && y.tasr <= 1) { ok_hor[5] = t; }

	if (f_beta && y.betar <= 1) { ok_hor[6] = t; }

	if (b.c.value != a.c.value || a.r.cnt[0] != b.r.cnt[0] || a.r.cnt[2] != b.r.cnt[2]) { maybe_hor = t; }

	if (b.origin && !origin_seen) {
		// the origin was taken from the GPS: its reported accuracy at that time
		origin_seen = true;
		origin_eph = w.gps_tmpl.eph;
		origin_epv = w.gps_tmpl.epv;
	}

	if (mc::replaying()) {
		if (b.c.value != a.c.value) {
			mc::note("t=%.3f flags: tilt %d yaw %d air %d | gps %d flow %d evp %d evv %d tas %d beta %d wind %d | hgt baro %d gps %d rng %d ev %d | yaw hdg %d 3D %d dec %d ev %d gps %d al %d flt %d dist %d", (t - w.t0) * 1e-6, int(c.tilt_align), int(c.yaw_align), int(c.in_air),
				 int(c.gps), int(c.opt_flow), int(c.ev_pos), int(c.ev_vel), int(c.fuse_aspd), int(c.fuse_beta), int(c.wind), int(c.baro_hgt), int(c.gps_hgt), int(c.rng_hgt), int(c.ev_hgt), int(c.mag_hdg), int(c.mag_3D), int(c.mag_dec), int(c.ev_yaw), int(c.gps_yaw), int(c.mag_aligned_in_flight), int(c.mag_fault), int(c.mag_field_disturbed));
		}

		if (memcmp(a.r.cnt, b.r.cnt, 5)) {
			mc::note("t=%.3f resets: vel %d (%.3f %.3f) velD %d (%.3f) pos %d (%.3f %.3f) posD %d (%.3f) quat %d  info 0x%x warn 0x%x; state v %.2f %.2f %.2f p %.2f %.2f %.2f", (t - w.t0) * 1e-6, uint8_t(b.r.cnt[0] - a.r.cnt[0]), double(b.r.vNE[0]), double(b.r.vNE[1]), uint8_t(b.r.cnt[1] - a.r.cnt[1]), double(b.r.vD), uint8_t(b.r.cnt[2] - a.r.cnt[2]), double(b.r.pNE[0]), double(b.r.pNE[1]), uint8_t(b.r.cnt[3] - a.r.cnt[3]), double(b.r.pD), uint8_t(b.r.cnt[4] - a.r.cnt[4]), b.info, b.warn,
				 b.s.v().x, b.s.v().y, b.s.v().z, b.s.p().x, b.s.p().y, b.s.p().z);
		}

		if (b.fault.value != a.fault.value) { mc::note("t=%.3f fault 0x%x", (t - w.t0) * 1e-6, unsigned(b.fault.value)); }
	}

	mc::evaluation(!log.empty());

	if (lockstep()) { ctl_step(); }

	if (cfg >= NCFG) { return; }

	if (P_E01) { mon_sanity(); }

	if (P_E05) { mon_height(); }

	if (P_E06) { mon_reset(); }

	if (P_E09) { mon_aiding(); }

	if (P_E10) { mon_validity(); }

	if (P_E11) { mon_report(); }

	if (P_E12) { mon_yaw(); }
}

// ------------------------------------------------------------------ E01
void Env::mon_sanity()
{
	for (int k = 0; k < 24; k++) { MC_CHECK(std::isfinite(b.s.s[k]), "not finite", "%s state %d is %g", where(), k, double(b.s.s[k])); }

	const double n = std::sqrt(b.s.q().n2());
	MC_CHECK(std::fabs(n - 1) < 2e-5, "quaternion", "%s the attitude quaternion has length %.7f", where(), n);

	for (int i = 0; i < 24; i++) {
		MC_CHECK(std::isfinite(b.P[i][i]) && b.P[i][i] >= 0, "variance", "%s variance of state %d is %g", where(), i, double(b.P[i][i]));

		for (int j = 0; j < i; j++) {
			const double s = std::sqrt(double(b.P[i][i]) * b.P[j][j]);
			MC_CHECK(std::fabs(double(b.P[i][j]) - b.P[j][i]) <= 1e-5 * s + 1e-9, "symmetry", "%s covariance of states %d and %d is %g and %g", where(), i, j, double(b.P[i][j]), double(b.P[j][i]));
			MC_CHECK(std::isfinite(b.P[i][j]), "not finite", "%s covariance of states %d and %d is not finite", where(), i, j);
		}
	}

	// configured limits of the estimated errors
	const Vector3f gb = e().getGyroBias(), ab = e().getAccelBias(), mb = e().getMagBias();

	// the recorded finding fuses an old vision height on every update, it distorts the bias estimates
	const bool stale = b.c.flags.ev_hgt && since(last_ev) > 0.3;
	stale_until = stale ? w.t + 1000000 : stale_until;

	for (int k = 0; k < 3 && w.t >= stale_until; k++) {
		// a correction may exceed the limit until the next prediction step
		over_lim[k] = std::fabs(gb(k)) <= 20 * DEG * 1.02 ? 0 : over_lim[k] + 1;
		over_lim[3 + k] = std::fabs(ab(k)) <= p().acc_bias_lim * 1.02f ? 0 : over_lim[3 + k] + 1;
		MC_CHECK(over_lim[k] < 20 && std::fabs(gb(k)) <= 80 * DEG, "gyro bias", "%s gyro bias %g exceeds its limit", where(), double(gb(k)));
		MC_CHECK(over_lim[3 + k] < 20 && std::fabs(ab(k)) <= 4 * p().acc_bias_lim, "accel bias", "%s accelerometer bias %g exceeds its limit", where(), double(ab(k)));
		MC_CHECK(std::fabs(mb(k)) <= 0.52f, "mag bias", "%s magnetometer bias %g exceeds its limit", where(), double(mb(k)));
	}

	const Quatf qo = e().getQuaternion();
	const Vector3f vo = e().getVelocity(), po = e().getPosition(), ad = e().getVelocityDerivative(), te = e().getOutputTrackingError();
	MC_CHECK(std::fabs(std::sqrt(q4(qo).n2()) - 1) < 2e-5, "quaternion", "%s the published quaternion has length %.7f", where(), std::sqrt(q4(qo).n2()));

	for (int k = 0; k < 3; k++) {
		MC_CHECK(std::isfinite(vo(k)) && std::isfinite(po(k)) && std::isfinite(ad(k)) && std::isfinite(te(k)), "not finite", "%s an output is not finite", where());
	}

	MC_CHECK(std::isfinite(e().getVerticalPositionDerivative()), "not finite", "%s the vertical rate is not finite", where());
	MC_CHECK(e().attitude_valid() == bool(b.c.flags.tilt_align), "attitude valid", "%s attitude validity is %d with tilt alignment %d", where(), e().attitude_valid(), int(b.c.flags.tilt_align));
	// an ill-conditioned update is refused and the covariance repaired, so that the fault does not last
	if (w.imu_force.norm() > 0) { force_last = w.t; }

	fault_since = (b.fault.value & 0x7fffu) ? (fault_since ? fault_since : w.t) : 0;
	MC_CHECK(!fault_since || since(fault_since) < 1.0 || (force_last && since(force_last) < 10), "numerical fault", "%s numerical fault status 0x%x for a second", where(), unsigned(b.fault.value));
	float x1, x2;
	e().get_ekf_gpos_accuracy(&x1, &x2);
	MC_CHECK(std::isfinite(x1) && std::isfinite(x2) && x1 >= 0 && x2 >= 0, "accuracy", "%s global accuracy %g %g", where(), double(x1), double(x2));
	e().get_ekf_lpos_accuracy(&x1, &x2);
	MC_CHECK(std::isfinite(x1) && std::isfinite(x2) && x1 >= 0 && x2 >= 0, "accuracy", "%s local accuracy %g %g", where(), double(x1), double(x2));
	e().get_ekf_vel_accuracy(&x1, &x2);
	MC_CHECK(std::isfinite(x1) && std::isfinite(x2) && x1 >= 0 && x2 >= 0, "accuracy", "%s velocity accuracy %g %g", where(), double(x1), double(x2));
	MC_CHECK(std::isfinite(e().getTerrainVertPos()) && std::isfinite(e().get_terrain_var()) && e().get_terrain_var() >= 0, "terrain", "%s terrain %g variance %g", where(), double(e().getTerrainVertPos()), double(e().get_terrain_var()));
	uint16_t st;
	float r[7];
	e().get_innovation_test_status(st, r[0], r[1], r[2], r[3], r[4], r[5], r[6]);

	for (int k = 0; k < 7; k++) { MC_CHECK((k == 3 && std::isnan(r[3]) && !(b.c.flags.baro_hgt || b.c.flags.gps_hgt || b.c.flags.rng_hgt || b.c.flags.ev_hgt)) || (std::isfinite(r[k]) && r[k] >= 0), "test ratio", "%s innovation test ratio %d is %g", where(), k, double(r[k])); }

	float yc, yv, ya[N_MODELS_EKFGSF], vn[N_MODELS_EKFGSF], ve[N_MODELS_EKFGSF], wt[N_MODELS_EKFGSF];

	if (e().getDataEKFGSF(&yc, &yv, ya, vn, ve, wt)) {
		double sum = 0;

		for (int k = 0; k < N_MODELS_EKFGSF; k++) { sum += wt[k]; MC_CHECK(std::isfinite(ya[k]) && wt[k] >= 0 && std::fabs(ya[k]) < 4.5f, "yaw bank", "%s yaw bank model %d: yaw %g weight %g", where(), k, double(ya[k]), double(wt[k])); }

		MC_CHECK(std::isfinite(yc) && std::fabs(yc) < 3.15f && yv >= 0 && std::isfinite(yv) && std::fabs(sum - 1) < 1e-3, "yaw bank", "%s yaw bank %g variance %g weights %g", where(), double(yc), double(yv), sum);
	}

	float tas;
	e().get_true_airspeed(&tas);
	MC_CHECK(std::isfinite(tas) && tas >= 0, "airspeed", "%s true airspeed %g", where(), double(tas));
}

// ------------------------------------------------------------------ E10
void Env::mon_validity()
{
	auto &c = b.c.flags;
	const uint64_t t = w.t;
	const double NO_AID = p().no_aid_timeout_max * 1e-6, VALID = p().valid_timeout_max * 1e-6, S = 0.03;
	// sources that constrain horizontal drift now
	const bool posvel = c.gps || c.ev_pos || c.ev_vel;
	const double tv = std::min(std::min(since(ok_hor[0]), since(ok_hor[1])), std::min(since(ok_hor[2]), since(ok_hor[3])));
	const bool recent = (posvel && tv < NO_AID - S) || (c.opt_flow && since(ok_hor[4]) < NO_AID - S) || (c.wind && since(ok_hor[5]) < NO_AID - S && since(ok_hor[6]) < NO_AID - S);
	const bool maybe = (posvel && tv < NO_AID + S) || (c.opt_flow && since(ok_hor[4]) < NO_AID + S) || (c.wind && since(ok_hor[5]) < NO_AID + S && since(ok_hor[6]) < NO_AID + S)
			   || since(maybe_hor) < NO_AID + S;

	if (recent) { MC_CHECK(!b.dr, "dead reckoning/false", "%s inertial dead reckoning is reported although aiding was fused within the last second", where()); }

	if (!maybe) { MC_CHECK(b.dr, "dead reckoning/missed", "%s inertial dead reckoning is not reported although nothing that constrains drift was fused for more than a second", where()); }

	if (maybe) { last_aid = t; }

	const bool aiding = posvel || c.opt_flow || (c.fuse_aspd && c.fuse_beta);
	if (recent) { last_sure = t; }

	if (recent && aiding) { MC_CHECK(b.loc, "local/false", "%s the local position is reported invalid although aiding is being fused", where()); }

	// validity outlasts the last fusion by the configured time as long as a source is selected
	if (aiding && last_sure && since(last_sure) < VALID - NO_AID - 0.1) { MC_CHECK(b.loc, "local/early", "%s the local position is reported invalid only %.2f s after aiding was last fused", where(), since(last_sure) + NO_AID); }

	if (!aiding) { MC_CHECK(!b.loc, "local/synthetic", "%s the local position is reported valid while it is only held by synthetic position observations", where()); }

	if (!last_aid || since(last_aid) > VALID - NO_AID + S) { MC_CHECK(!b.loc, "local/late", "%s the local position is still reported valid %.2f s after the last aiding", where(), last_aid ? since(last_aid) + NO_AID : -1.0); }

	MC_CHECK(b.glob == (b.loc && b.origin), "global", "%s global validity %d, local %d, origin %d", where(), b.glob, b.loc, b.origin);
}

#include "refctl_step.h"

// ------------------------------------------------------------------ E11
void Env::mon_report()
{
	auto &c = b.c.flags;
	Ekf &k = e();
	const int n = int(c.gps) + int(c.opt_flow) + int(c.ev_pos) + int(c.ev_vel) + int(c.fuse_aspd && c.fuse_beta);
	MC_CHECK(k.getNumberOfActiveHorizontalAidingSources() == n && k.isHorizontalAidingActive() == (n > 0), "aiding count", "%s %d aiding sources are reported, %d active", where(), k.getNumberOfActiveHorizontalAidingSources(), n);
	const bool fl[4] = {bool(c.gps), bool(c.opt_flow), bool(c.ev_pos), bool(c.ev_vel)};

	for (int i = 0; i < 4; i++) {
		MC_CHECK(k.isOnlyActiveSourceOfHorizontalAiding(fl[i]) == (fl[i] && n == 1) && k.isOtherSourceOfHorizontalAidingThan(fl[i]) == (n - (fl[i] ? 1 : 0) > 0), "aiding query", "%s only/other queries of source %d wrong with %d sources active", where(), i, n);
	}

	const bool hgt = c.baro_hgt || c.ev_hgt || c.gps_hgt || c.rng_hgt;
	const auto &fa_ = b.fault.flags;
	const bool ok = b.fault.value == 0 && !fa_.bad_acc_vertical && !fa_.bad_acc_clipping;
	uint16_t st, want = 0;
	k.get_ekf_soln_status(&st);

	if (c.tilt_align && c.yaw_align && ok) { want |= 1; }

	const bool vh = (n > 0 || (c.fuse_beta && c.fuse_aspd)) && ok;

	if (vh) { want |= 2; }

	if (hgt && ok) { want |= 4 | 32; }

	if ((c.gps || c.ev_pos || c.opt_flow) && ok) { want |= 8 | 256; }

	if ((c.gps || c.ev_pos) && ok) { want |= 16 | 512; }

	if (b.terrain) { want |= 64; }

	if (!vh) { want |= 128; }

	const Inn &i = b.i;
	const bool magok = i.magr < 1 && i.hdgr < 1;

	if ((i.gvr[0] > 1 || i.gvr[1] > 1 || i.gpr[0] > 1) && magok) { want |= 1024; }

	if (b.fault.flags.bad_acc_vertical) { want |= 2048; }

	MC_CHECK((st & 0xfff) == want, "solution status", "%s solution status is 0x%x, the state of the filter implies 0x%x", where(), st & 0xfff, want);

	// accuracies
	auto &P = b.P;
	float h, v;
	auto close = [](float x, float y) { return std::fabs(x - y) <= 1e-4f * (1 + std::fabs(y)); };
	k.get_ekf_lpos_accuracy(&h, &v);
	const float hp = std::sqrt(P[7][7] + P[8][8]), gpi = std::hypot(i.gp[0], i.gp[1]), epi = std::hypot(i.ep[0], i.ep[1]);
	MC_CHECK(close(v, std::sqrt(P[9][9])), "accuracy/vertical", "%s local vertical accuracy %g, variance %g", where(), double(v), double(P[9][9]));
	MC_CHECK(close(h, hp) || (!b.loc && c.gps && close(h, std::max(hp, gpi))), "accuracy/local", "%s local horizontal accuracy %g, covariance says %g", where(), double(h), double(hp));

	if (!b.loc && c.gps && !close(hp, std::max(hp, gpi))) {
		// invalid for dead reckoning too long (GPS is selected, so there are no synthetic observations)
		MC_CHECK(close(h, gpi), "accuracy/local", "%s after dead reckoning for too long the local accuracy %g does not include the position innovation %g", where(), double(h), double(gpi));
	}

	k.get_ekf_gpos_accuracy(&h, &v);
	{
		const bool def = b.dr && (c.gps || c.ev_pos);
		const float in = c.gps ? gpi : epi;
		const float oh = origin_eph, ov = origin_epv;
		float g = std::sqrt(P[7][7] + P[8][8] + sq_(oh));

		if (def) { g = std::max(g, in); }

		MC_CHECK(close(h, g) && close(v, std::sqrt(P[9][9] + sq_(ov))), "accuracy/global", "%s global accuracy %g/%g, expected %g/%g (origin %g/%g)", where(), double(h), double(v), double(g), double(std::sqrt(P[9][9] + sq_(ov))), double(oh), double(ov));
	}
	k.get_ekf_vel_accuracy(&h, &v);
	{
		float g = std::sqrt(P[4][4] + P[5][5]);

		if (!b.loc && (n > 0)) {
			float alt = 0;

			if (c.opt_flow) { alt = std::max(k.getTerrainVertPos() - b.s.s[9], std::max(p().rng_gnd_clearance, 0.1f)) * std::hypot(i.fl[0], i.fl[1]); }

			if (c.gps) { alt = std::max(alt, gpi); }

			else if (c.ev_pos) { alt = std::max(alt, epi); }

			if (c.ev_vel) { alt = std::max(alt, float(std::hypot(i.ev[0], i.ev[1]))); }

			g = std::max(g, alt);
		}

		MC_CHECK(close(h, g) && close(v, std::sqrt(P[6][6])), "accuracy/velocity", "%s velocity accuracy %g/%g, expected %g/%g", where(), double(h), double(v), double(g), double(std::sqrt(P[6][6])));
	}
	// innovation test status
	float m, ve, po, hg, ta, ha, be;
	k.get_innovation_test_status(st, m, ve, po, hg, ta, ha, be);
	MC_CHECK(st == b.rej.value, "test status bits", "%s test status 0x%x, rejection flags 0x%x", where(), st, b.rej.value);
	const float hgr = c.baro_hgt ? i.baror : c.gps_hgt ? i.gpr[1] : c.rng_hgt ? i.rngr : c.ev_hgt ? i.epr[1] : NAN;
	MC_CHECK(close(m, std::sqrt(std::max(i.magr, i.hdgr))) && close(ve, std::sqrt(std::max(std::max(i.gvr[0], i.gvr[1]), std::max(i.evr[0], i.evr[1])))) && close(po, std::sqrt(std::max(i.gpr[0], i.epr[0])))
		 && (std::isnan(hgr) ? std::isnan(hg) : close(hg, std::sqrt(hgr))) && close(ta, std::sqrt(i.tasr)) && close(ha, std::sqrt(i.haglr)) && close(be, std::sqrt(i.betar)), "test ratios",
		 "%s published test ratios %g %g %g %g %g %g %g are not the roots of the largest ratios of the sensors", where(), double(m), double(ve), double(po), double(hg), double(ta), double(ha), double(be));
	// rejection bits and ratios of what was processed just now
	const Inn &o = a.i;
	auto ratio = [](float in, float var, float gate) { return sq_(in) / (sq_(std::max(gate, 1.f)) * var); };
	const bool aux = differ(o.aux, i.aux, 2);

	if (f_gpsv) { MC_CHECK(close(i.gvr[0], std::max(ratio(i.gv[0], i.gvv[0], p().gps_vel_innov_gate), ratio(i.gv[1], i.gvv[1], p().gps_vel_innov_gate))), "ratio/gps velocity", "%s GPS velocity test ratio %g, innovations %g %g variances %g %g", where(), double(i.gvr[0]), double(i.gv[0]), double(i.gv[1]), double(i.gvv[0]), double(i.gvv[1])); }

	if (f_gpsp) { MC_CHECK(close(i.gpr[0], std::max(ratio(i.gp[0], i.gpv[0], p().gps_pos_innov_gate), ratio(i.gp[1], i.gpv[1], p().gps_pos_innov_gate))), "ratio/gps position", "%s GPS position test ratio %g, innovations %g %g variances %g %g", where(), double(i.gpr[0]), double(i.gp[0]), double(i.gp[1]), double(i.gpv[0]), double(i.gpv[1])); }

	if (f_evv) { MC_CHECK(close(i.evr[0], std::max(ratio(i.ev[0], i.evv[0], p().ev_vel_innov_gate), ratio(i.ev[1], i.evv[1], p().ev_vel_innov_gate))), "ratio/vision velocity", "%s vision velocity test ratio %g", where(), double(i.evr[0])); }

	if (f_evp) { MC_CHECK(close(i.epr[0], std::max(ratio(i.ep[0], i.epv[0], p().ev_pos_innov_gate), ratio(i.ep[1], i.epv[1], p().ev_pos_innov_gate))), "ratio/vision position", "%s vision position test ratio %g", where(), double(i.epr[0])); }

	if (f_tas) { MC_CHECK(close(i.tasr, ratio(i.tas, i.tasv, p().tas_innov_gate)) && bool(b.rej.flags.reject_airspeed) == (i.tasr > 1), "ratio/airspeed", "%s airspeed test ratio %g innovation %g variance %g rejected %d", where(), double(i.tasr), double(i.tas), double(i.tasv), int(b.rej.flags.reject_airspeed)); }

	if (f_beta) { MC_CHECK(close(i.betar, ratio(i.beta, i.betav, p().beta_innov_gate)) && bool(b.rej.flags.reject_sideslip) == (i.betar > 1), "ratio/sideslip", "%s sideslip test ratio %g innovation %g variance %g rejected %d", where(), double(i.betar), double(i.beta), double(i.betav), int(b.rej.flags.reject_sideslip)); }

	if (f_gpsv + f_evv + aux == 1) {
		const bool bad = f_gpsv ? i.gvr[0] > 1 : f_evv ? i.evr[0] > 1 : i.auxr > 1;
		MC_CHECK(bool(b.rej.flags.reject_hor_vel) == bad, "rejection/velocity", "%s horizontal velocity rejection flag %d, test ratio says %d", where(), int(b.rej.flags.reject_hor_vel), bad);
	}

	if (f_gpsv + f_evv == 1) {
		const bool bad = f_gpsv ? i.gvr[1] > 1 : i.evr[1] > 1;
		MC_CHECK(bool(b.rej.flags.reject_ver_vel) == bad || b.fault.flags.bad_acc_vertical, "rejection/vertical velocity", "%s vertical velocity rejection flag %d, test ratio says %d", where(), int(b.rej.flags.reject_ver_vel), bad);
	}

	if (f_gpsp + f_evp == 1) {
		const bool bad = f_gpsp ? i.gpr[0] > 1 : i.epr[0] > 1;
		MC_CHECK(bool(b.rej.flags.reject_hor_pos) == bad, "rejection/position", "%s horizontal position rejection flag %d, test ratio says %d", where(), int(b.rej.flags.reject_hor_pos), bad);
	}

	if (f_baro + f_rng + f_gpsh + f_evh == 1) {
		const float r = f_baro ? i.baror : f_rng ? i.rngr : f_gpsh ? i.gpr[1] : i.epr[1];
		MC_CHECK(bool(b.rej.flags.reject_ver_pos) == (r > 1) || b.fault.flags.bad_acc_vertical, "rejection/height", "%s height rejection flag %d, test ratio %g", where(), int(b.rej.flags.reject_ver_pos), double(r));
		const float in = f_baro ? i.baro : f_rng ? i.rng : f_gpsh ? i.gp[2] : i.ep[2], var = f_baro ? i.barov : f_rng ? i.rngv : f_gpsh ? i.gpv[2] : i.epv[2];
		const float gate = f_rng ? p().range_innov_gate : f_evh ? p().ev_pos_innov_gate : p().baro_innov_gate;
		MC_CHECK(close(r, ratio(in, var, gate)), "ratio/height", "%s height test ratio %g, innovation %g variance %g gate %g", where(), double(r), double(in), double(var), double(gate));
	}

	// single axes
	if (c.mag_3D && differ(o.mag, i.mag, 3) && !(a.c.flags.mag_3D == 0)) {
		const bool bits[3] = {bool(b.rej.flags.reject_mag_x), bool(b.rej.flags.reject_mag_y), bool(b.rej.flags.reject_mag_z)};

		for (int x = 0; x < 3; x++) {
			// the variances are recomputed while the axes are fused, so they belong to the test only when it failed
			const float r = ratio(i.mag[x], i.magv[x], p().mag_innov_gate);
			const bool bad = i.magr > 1 && r > 1;
			MC_CHECK(bits[x] == bad || (i.magr > 1 && std::fabs(r - 1) < 1e-3f), "rejection/magnetometer axis", "%s magnetometer axis %d: rejection flag %d, test ratio %g (largest of all axes %g)", where(), x, bits[x], double(r), double(i.magr));
		}
	}

	// (the terrain estimator publishes its own flow innovations in the same place)
	if (f_flow && !(k.getTerrainEstimateSensorBitfield() & 2)) {
		const bool bits[2] = {bool(b.rej.flags.reject_optflow_X), bool(b.rej.flags.reject_optflow_Y)};
		float m = 0;

		for (int x = 0; x < 2; x++) {
			const float r = ratio(i.fl[x], i.flv[x], p().flow_innov_gate);
			m = std::max(m, r);
			MC_CHECK(bits[x] == (r > 1) || std::fabs(r - 1) < 1e-3f, "rejection/flow axis", "%s flow axis %d: rejection flag %d, test ratio %g", where(), x, bits[x], double(r));
		}

		MC_CHECK(close(i.flr, m), "ratio/flow", "%s flow test ratio %g, axes say %g", where(), double(i.flr), double(m));
	}

	if ((o.hdg != i.hdg || o.hdgv != i.hdgv) && !b.rej.flags.reject_yaw != !(i.hdgr > 1)) {
		MC_FAIL("rejection/yaw", "%s yaw rejection flag %d, test ratio %g", where(), int(b.rej.flags.reject_yaw), double(i.hdgr));
	}

	// the status words are the sum of their flags
	const auto &ff = b.fault.flags;
	MC_CHECK((b.fault.value != 0) == (ff.bad_mag_x || ff.bad_mag_y || ff.bad_mag_z || ff.bad_hdg || ff.bad_mag_decl || ff.bad_airspeed || ff.bad_sideslip || ff.bad_optflow_X || ff.bad_optflow_Y || ff.bad_vel_N || ff.bad_vel_E || ff.bad_vel_D || ff.bad_pos_N || ff.bad_pos_E || ff.bad_pos_D || ff.bad_acc_bias || ff.bad_acc_vertical || ff.bad_acc_clipping), "fault word", "%s the fault status word is 0x%x, its flags say otherwise (bad vertical acceleration %d, clipping %d)", where(), unsigned(b.fault.value), int(ff.bad_acc_vertical), int(ff.bad_acc_clipping));

	// control limits
	float vx, vz, h0, h1;
	k.get_ekf_ctrl_limits(&vx, &vz, &h0, &h1);
	const bool rr = c.rng_hgt && !p().range_aid, rf = c.opt_flow && n == 1;
	const float rmin = 0.05f, rmax = 0.75f * 40.f;
	float wx = NAN, w0 = NAN, w1 = NAN;

	if (rr) { w0 = rmin; w1 = rmax; }

	if (rf) { wx = std::max(0.5f * 8.f * (k.getTerrainVertPos() - b.s.s[9]), 0.f); w0 = std::max(rmin, 0.05f); w1 = std::min(rmax, 40.f); }

	auto eqn = [&](float x, float y) { return std::isnan(x) ? std::isnan(y) : close(x, y); };
	MC_CHECK(eqn(wx, vx) && std::isnan(vz) && eqn(w0, h0) && eqn(w1, h1), "control limits", "%s control limits %g %g %g %g, expected %g nan %g %g", where(), double(vx), double(vz), double(h0), double(h1), double(wx), double(w0), double(w1));
	// variances and estimates are views of the same covariance and state
	const Vector3f pv = k.getPositionVariance(), vv = k.getVelocityVariance(), gb = k.getGyroBiasVariance(), ab = k.getAccelBiasVariance(), mb = k.getMagBiasVariance();
	const Vector2f wv = k.getWindVelocityVariance(), ws = k.getWindVelocity();
	const auto dg = k.covariances_diagonal();
	const auto qc = k.orientation_covariances();
	const auto vc = k.velocity_covariances();
	const auto pc = k.position_covariances();
	const Vector3f gy = k.getGyroBias(), ac = k.getAccelBias(), mg = k.getMagBias();
	bool same = true;
	// the bias states are per filter step; the step length is a slow average near 10 ms
	auto ratio_ok = [](float x, float y, double lo, double hi) { return std::fabs(y) < 1e-12f ? std::fabs(x) < 1e-6f : (x / y > lo && x / y < hi); };

	for (int x = 0; x < 3; x++) {
		same = same && pv(x) == P[7 + x][7 + x] && vv(x) == P[4 + x][4 + x] && mb(x) == P[19 + x][19 + x] && mg(x) == b.s.s[19 + x];
		same = same && ratio_ok(gb(x), P[10 + x][10 + x], 8e3, 1.2e4) && ratio_ok(ab(x), P[13 + x][13 + x], 8e3, 1.2e4);
		same = same && ratio_ok(gy(x), b.s.s[10 + x], 90, 110) && ratio_ok(ac(x), b.s.s[13 + x], 90, 110);

		for (int y = 0; y < 3; y++) { same = same && vc(x, y) == P[4 + x][4 + y] && pc(x, y) == P[7 + x][7 + y]; }
	}

	for (int x = 0; x < 2; x++) { same = same && wv(x) == P[22 + x][22 + x] && ws(x) == b.s.s[22 + x]; }

	for (int x = 0; x < 24; x++) { same = same && dg(x) == P[x][x]; }

	for (int x = 0; x < 4; x++) { for (int y = 0; y < 4; y++) { same = same && qc(x, y) == P[x][y]; } }

	MC_CHECK(same, "views", "%s a published state or variance is not the corresponding element of the state vector or covariance", where());
	// true airspeed
	k.get_true_airspeed(&h);
	const float ta_w = std::sqrt(sq_(b.s.s[4] - b.s.s[22]) + sq_(b.s.s[5] - b.s.s[23]) + sq_(b.s.s[6]));
	MC_CHECK(close(h, ta_w), "airspeed", "%s true airspeed %g, states say %g", where(), double(h), double(ta_w));
	MC_CHECK(k.get_in_air_status() == bool(c.in_air) && k.get_wind_status() == bool(c.wind) && k.isVehicleAtRest() == bool(c.vehicle_at_rest), "flags", "%s a status query disagrees with the status flags", where());
}

// before the filter runs the reports do not depend on what the caller's variables held
void Env::mon_idle()
{
	float x[2][7];
	uint16_t st[2];

	for (int k = 0; k < 2; k++) {
		for (float &v : x[k]) { v = k ? 3.5f : 0.25f; }

		st[k] = uint16_t(k ? 0xffff : 0);
		e().get_innovation_test_status(st[k], x[k][0], x[k][1], x[k][2], x[k][3], x[k][4], x[k][5], x[k][6]);
	}

	for (int i = 0; i < 7; i++) {
		MC_CHECK((std::isnan(x[0][i]) && std::isnan(x[1][i])) || x[0][i] == x[1][i], "idle/test ratio", "%s before the filter runs test ratio %d is left as the caller had it", where(), i);
	}

	MC_CHECK(std::isnan(x[0][3]), "idle/height ratio", "%s a height test ratio of %g is reported without a height source", where(), double(x[0][3]));
	MC_CHECK(st[0] == 0 && st[1] == 0, "idle/test status", "%s test status 0x%x, 0x%x before the filter runs", where(), st[0], st[1]);
	uint16_t s0 = 0, s1 = 0xffff;
	e().get_ekf_soln_status(&s0);
	e().get_ekf_soln_status(&s1);
	MC_CHECK(s0 == s1 && (s0 & 0x3f) == 0, "idle/solution status", "%s solution status 0x%x, 0x%x before the filter runs", where(), s0, s1);
}

// ------------------------------------------------------------------ E06
static double norm3(const V3 &v) { return v.norm(); }
void Env::mon_reset()
{
	Ekf &k = e();
	int d[5];

	for (int i = 0; i < 5; i++) { d[i] = uint8_t(b.r.cnt[i] - a.r.cnt[i]); }

	// what strapdown mechanics alone would have done to the state
	const imuSample m = k.get_imu_sample_delayed();
	const Q4 q0 = a.s.q();
	const V3 dang = v3(m.delta_ang) - a.s.dab();
	const Q4 qp = (q0 * q_exp(dang)).normalized();
	const V3 dv = qp.rot(v3(m.delta_vel) - a.s.dvb()) + V3{0, 0, G * m.delta_vel_dt};
	const V3 vp = a.s.v() + dv;
	const V3 pp = a.s.p() + (a.s.v() + vp) * (0.5 * m.delta_vel_dt);
	const V3 jv = b.s.v() - vp, jp = b.s.p() - pp;
	auto sd = [](const Snap &s, int i) { return std::sqrt(double(s.P[i][i])); };
	auto sd2 = [&](int i) { return std::max(sd(a, i), sd(b, i)); };
	constexpr double G1 = 6;       // innovation gates are at most 5 standard deviations
	const double svh = std::hypot(sd2(4), sd2(5)), sph = std::hypot(sd2(7), sd2(8));
	// unannounced: bounded by what gated measurements can do
	const int two = 2;             // independent sensors that may be fused in one update

	if (n_upd == 2) { k.clear_information_events(); k.clear_warning_events(); return; }

	if (!d[0]) { MC_CHECK(jv.hnorm() <= 0.01 + two * G1 * svh, "unannounced/horizontal velocity", "%s the horizontal velocity jumped by %.3f m/s (sigma %.3f) without a reset being reported", where(), jv.hnorm(), svh); }

	if (!d[1]) { MC_CHECK(std::fabs(jv.z) <= 0.01 + two * G1 * sd2(6), "unannounced/vertical velocity", "%s the vertical velocity jumped by %.3f m/s (sigma %.3f) without a reset being reported", where(), jv.z, sd2(6)); }

	if (!d[2]) { MC_CHECK(jp.hnorm() <= 0.01 + two * G1 * sph, "unannounced/horizontal position", "%s the horizontal position jumped by %.3f m (sigma %.3f) without a reset being reported", where(), jp.hnorm(), sph); }

	if (!d[3]) { MC_CHECK(std::fabs(jp.z) <= 0.01 + two * G1 * sd2(9), "unannounced/height", "%s the height jumped by %.3f m (sigma %.3f) without a reset being reported", where(), jp.z, sd2(9)); }

	const double sq0 = 2 * std::sqrt(std::max(double(a.P[0][0]) + a.P[1][1] + a.P[2][2] + a.P[3][3], double(b.P[0][0]) + b.P[1][1] + b.P[2][2] + b.P[3][3]));
	const double jq = q_angle(qp, b.s.q());

	if (!d[4]) { MC_CHECK(jq <= 0.002 + two * G1 * sq0, "unannounced/attitude", "%s the attitude jumped by %.4f rad (sigma %.4f) without a reset being reported", where(), jq, sq0); }

	// announced: the reported change is the change of the estimate; measurements fused after it in the same update
	// only add what the uncertainty after the reset allows
	const V3 chv{b.r.vNE[0], b.r.vNE[1], b.r.vD}, chp{b.r.pNE[0], b.r.pNE[1], b.r.pD};
	constexpr double AFTER = 2.0;
	// a measurement processed in the same update adds its own correction: bounded by its gate when it came before the
	// reset, by its innovation when it came after (the states are uncorrelated by the reset)
	const Inn &y = b.i;
	const bool mv = f_gpsv || f_evv || aux_f || f_gpsp || f_evp || f_flow || f_tas || f_beta, mz = f_gpsv || f_evv || f_baro || f_gpsh || f_rng || f_evh;
	auto hyp = [](bool on, const float * v) { return on ? std::hypot(v[0], v[1]) : 0.0f; };
	const double speed = std::hypot(b.s.s[4], b.s.s[5]) + 10, range = std::fabs(k.getTerrainVertPos() - b.s.s[9]) + 1;
	const double av = hyp(f_gpsv, y.gv) + hyp(f_evv, y.ev) + hyp(aux_f, y.aux) + (f_tas ? std::fabs(y.tas) : 0) + (f_beta ? std::fabs(y.beta) * speed : 0) + hyp(f_flow, y.fl) * range;
	const double ap = hyp(f_gpsp, y.gp) + hyp(f_evp, y.ep);
	const double avz = (f_gpsv ? std::fabs(y.gv[2]) : 0) + (f_evv ? std::fabs(y.ev[2]) : 0);
	const double apz = (f_baro ? std::fabs(y.baro) : 0) + (f_rng ? std::fabs(y.rng) : 0) + (f_gpsh ? std::fabs(y.gp[2]) : 0) + (f_evh ? std::fabs(y.ep[2]) : 0);
	const double tv = AFTER * std::hypot(sd(b, 4), sd(b, 5)) + (mv ? 2 * G1 * std::hypot(sd(a, 4), sd(a, 5)) + av : 0), tp = AFTER * std::hypot(sd(b, 7), sd(b, 8)) + (mv ? 2 * G1 * std::hypot(sd(a, 7), sd(a, 8)) + ap : 0);
	const double tvz = AFTER * sd(b, 6) + (mz ? 2 * G1 * sd(a, 6) + avz : 0), tpz = AFTER * sd(b, 9) + (mz ? 2 * G1 * sd(a, 9) + apz : 0);

	if (d[0]) { MC_CHECK((jv - chv).hnorm() <= 0.05 + tv, "amount/horizontal velocity", "%s the horizontal velocity changed by %.3f %.3f m/s, reported %.3f %.3f", where(), jv.x, jv.y, chv.x, chv.y); }

	if (d[1]) { MC_CHECK(std::fabs(jv.z - chv.z) <= 0.05 + tvz, "amount/vertical velocity", "%s the vertical velocity changed by %.3f m/s, reported %.3f", where(), jv.z, chv.z); }

	if (d[2]) { MC_CHECK((jp - chp).hnorm() <= 0.05 + tp, "amount/horizontal position", "%s the horizontal position changed by %.3f %.3f m, reported %.3f %.3f", where(), jp.x, jp.y, chp.x, chp.y); }

	if (d[3]) { MC_CHECK(std::fabs(jp.z - chp.z) <= 0.05 + tpz, "amount/height", "%s the height changed by %.3f m, reported %.3f", where(), jp.z, chp.z); }

	if (d[4]) {
		const Q4 ch{b.r.q[0], b.r.q[1], b.r.q[2], b.r.q[3]};
		const double sq1 = 2 * std::sqrt(double(b.P[0][0]) + b.P[1][1] + b.P[2][2] + b.P[3][3]);
		MC_CHECK(std::fabs(ch.n2() - 1) < 1e-4 && q_angle(ch * qp, b.s.q()) <= 0.02 + AFTER * sq1, "amount/attitude", "%s the attitude changed by %.4f rad, the reported change is %.4f rad and leaves %.4f", where(), jq, q_angle(Q4{}, ch), q_angle(ch * qp, b.s.q()));
		// a yaw reset is a rotation about the vertical
		MC_CHECK(std::fabs(ch.x) < 2e-3 && std::fabs(ch.y) < 2e-3, "amount/yaw axis", "%s the reported yaw change tilts the vehicle: %.4f %.4f %.4f %.4f", where(), ch.w, ch.x, ch.y, ch.z);
	}

	// the reported reason comes with the reported change, and the estimate is what the reason says
	const unsigned inf = b.info, vel_ev = inf & 0x1e, pos_ev = inf & 0xe0;

	if (user_origin != n_upd) {
		MC_CHECK((d[0] > 0) == (vel_ev != 0), "reason/velocity", "%s %d horizontal velocity resets, events 0x%x", where(), d[0], inf);
		MC_CHECK((d[2] > 0) == (pos_ev != 0), "reason/position", "%s %d horizontal position resets, events 0x%x", where(), d[2], inf);
	}

	// a source that is being used and accepted is not reset to (unless the heading is corrected with it, or another source starts)
	if (a.c.flags.gps && b.c.flags.gps && !d[4] && a.c.flags.yaw_align && a.c.flags.ev_pos == b.c.flags.ev_pos && a.c.flags.ev_vel == b.c.flags.ev_vel && a.c.flags.opt_flow == b.c.flags.opt_flow) {
		MC_CHECK(!(pos_ev & 64) || since(prev_ok[1]) > 0.9, "needless/position gps", "%s the position was reset to GPS although a GPS position was accepted %.2f s before", where(), since(prev_ok[1]));
		MC_CHECK(!(vel_ev & 2) || since(prev_ok[0]) > 0.9 || d[1] > 0, "needless/velocity gps", "%s the velocity was reset to GPS although a GPS velocity was accepted %.2f s before", where(), since(prev_ok[0]));
	}

	double la, lo;
	float al;
	uint64_t ot;
	V3 off;                        // filter origin in the frame of the world

	if (k.getEkfGlobalOrigin(ot, la, lo, al)) {
		off = {(la - w.lat0) *DEG * EARTH_R, (lo - w.lon0) *DEG * EARTH_R * std::cos(w.lat0 * DEG), 0};
	}

	const Truth tr = w.at(b.delayed);
	const double fast = tr.v.hnorm() * 0.03 + 0.05;
	constexpr double LATE = 0.03;  // the measurement may be up to this much older than the horizon

	// a GPS deselected a moment ago still counts for up to a second
	const bool gps_old = user_mode_change && since(user_mode_change) < 1.3 && !(p().fusion_mode & MASK_USE_GPS);

	if (vel_ev == 2 && !gps_old) { const V3 x = b.s.v() - (tr.v + w.gps_vel_err); MC_CHECK(norm3(x) < 0.2 + fast + 3 * LATE + AFTER * svh, "value/velocity gps", "%s velocity reset to GPS gives %.2f %.2f %.2f, GPS reports %.2f %.2f %.2f", where(), b.s.v().x, b.s.v().y, b.s.v().z, tr.v.x, tr.v.y, tr.v.z); }

	if (vel_ev == 8 && (p().fusion_mode & MASK_USE_EVVEL)) { const V3 x = b.s.v() - (tr.v + w.ev_vel_off); MC_CHECK(norm3(x) < 0.2 + fast + 3 * LATE + AFTER * svh, "value/velocity vision", "%s velocity reset to vision gives %.2f %.2f %.2f, vision reports %.2f %.2f %.2f", where(), b.s.v().x, b.s.v().y, b.s.v().z, tr.v.x, tr.v.y, tr.v.z); }

	if (vel_ev == 16 && !mv) { MC_CHECK(b.s.v().hnorm() < 0.05 + 0.2 * std::hypot(sd(b, 4), sd(b, 5)), "value/velocity zero", "%s velocity reset to zero gives %.2f %.2f", where(), b.s.v().x, b.s.v().y); }

	if (pos_ev == 64 && !gps_old) { const V3 x = b.s.p() - (tr.p + w.gps_pos_err - off); MC_CHECK(x.hnorm() < 0.25 + tr.v.hnorm() * LATE + AFTER * std::hypot(sd(b, 7), sd(b, 8)), "value/position gps", "%s position reset to GPS gives %.2f %.2f, off by %.2f %.2f", where(), b.s.p().x, b.s.p().y, x.x, x.y); }

	if (pos_ev == 128 && !(p().fusion_mode & MASK_ROTATE_EV)) { const V3 x = b.s.p() - (tr.p + w.ev_pos_off); MC_CHECK(x.hnorm() < 0.1 + tr.v.hnorm() * LATE + AFTER * std::hypot(sd(b, 7), sd(b, 8)), "value/position vision", "%s position reset to vision gives %.2f %.2f, off by %.2f %.2f", where(), b.s.p().x, b.s.p().y, x.x, x.y); }

	k.clear_information_events();
	k.clear_warning_events();
	b.info = 0;
}

// ------------------------------------------------------------------ E05
void Env::mon_height()
{
	auto &c = b.c.flags;
	const uint64_t t = w.t;
	const int n = int(c.baro_hgt) + int(c.gps_hgt) + int(c.rng_hgt) + int(c.ev_hgt);
	MC_CHECK(n == 1, "one source", "%s %d height sources are selected (baro %d gps %d range %d vision %d)", where(), n, int(c.baro_hgt), int(c.gps_hgt), int(c.rng_hgt), int(c.ev_hgt));
	const int prim = p().vdist_sensor_type;
	const bool aid = p().range_aid == 1;
	MC_CHECK(!c.ev_hgt || prim == VDIST_SENSOR_EV, "permitted", "%s vision height is used although the configured source is %d", where(), prim);
	MC_CHECK(!c.rng_hgt || prim == VDIST_SENSOR_RANGE || (aid && (prim == VDIST_SENSOR_BARO || prim == VDIST_SENSOR_GPS)), "permitted", "%s range height is used although the configured source is %d", where(), prim);
	MC_CHECK(!c.gps_hgt || prim == VDIST_SENSOR_GPS || (p().fusion_mode & MASK_USE_GPS) || user_mode_change, "permitted", "%s GPS height is used although GPS is not selected", where());
	// range aid only close to the ground, slow, and in the air
	const int src = c.baro_hgt ? 0 : c.gps_hgt ? 1 : c.rng_hgt ? 2 : 3;

	if (src != hgt_src) { hgt_src = src; hgt_src_since = t; }

	if ((f_baro && b.i.baror <= 1) || (f_gpsh && b.i.gpr[1] <= 1) || (f_rng && b.i.rngr <= 1) || (f_evh && b.i.epr[1] <= 1) || ((f_baro || f_gpsh || f_rng || f_evh) && b.fault.flags.bad_acc_vertical) || a.r.cnt[3] != b.r.cnt[3]) { hgt_ok = t; }

	// availability of the sensors, as delivered
	const bool baro_silent = since(last_baro) > 0.45 + 0.1;
	if (baro_silent || !w.baro.on) { baro_gap_start = t; }

	const bool baro_good = since(baro_gap_start) > 0.3;                 // continuously delivering
	const bool gps_ok_now = since(last_gps) < 0.5 && since(gps_bad_last) > 3;
	const double TO = 5.0;

	// a usable measurement of height is never ignored for longer than the timeout: it is fused or the height is reset to it
	if (hgt_ok && baro_good) { MC_CHECK(since(hgt_ok) < TO + 0.3, "starved", "%s no height was fused and the height was not reset for %.2f s although the barometer works", where(), since(hgt_ok)); }

	if (hgt_ok && gps_ok_now && (c.gps_hgt || c.baro_hgt) && ((p().fusion_mode & MASK_USE_GPS) || p().vdist_sensor_type == VDIST_SENSOR_GPS) && (!user_mode_change || since(user_mode_change) > TO + 1) && since(hgt_src_since) > 0.5) { MC_CHECK(since(hgt_ok) < TO + 0.5, "starved", "%s no height was fused and the height was not reset for %.2f s although GPS works", where(), since(hgt_ok)); }

	// a silent source is given up for the barometer (or GPS when the barometer is the silent one)
	if (baro_good) {
		if (c.gps_hgt) { MC_CHECK(since(last_gps) < TO + 1.2, "silent source", "%s GPS height is still selected %.2f s after the last GPS data", where(), since(last_gps)); }

		if (c.rng_hgt && c.in_air) { MC_CHECK(since(last_rng) < TO + 0.5, "silent source", "%s range height is still selected %.2f s after the last range data", where(), since(last_rng)); }

		if (c.ev_hgt) { MC_CHECK(since(last_ev) < TO + 1.2, "stale vision height", "%s vision height is still selected %.2f s after the last vision data", where(), since(last_ev)); }

	} else if (c.baro_hgt && gps_ok_now && (p().fusion_mode & MASK_USE_GPS) && (!user_mode_change || since(user_mode_change) > TO + 1) && b.origin) {
		MC_CHECK(std::min(since(last_baro), since(hgt_src_since)) < TO + 1.2, "silent source", "%s barometer height is still selected %.2f s after the last barometer data although GPS height works", where(), since(last_baro));
	}

	// the configured source is taken (back) when it delivers
	if (prim == VDIST_SENSOR_BARO && !aid && baro_good && since(baro_gap_start) > 0.6) { MC_CHECK(c.baro_hgt || since(hgt_src_since) < 0.2, "primary", "%s the barometer works but height source %d is used", where(), src); }

	if (prim == VDIST_SENSOR_EV && since(last_ev) < 0.1 && ev_run() > 0.6) { MC_CHECK(c.ev_hgt, "primary", "%s vision height is available but height source %d is used", where(), src); }

	if (prim == VDIST_SENSOR_GPS && !aid && gps_good_since && since(gps_good_since) > 4.5 && gps_run() > 4.5 && b.origin) { MC_CHECK(c.gps_hgt || since(hgt_src_since) < 0.5, "primary", "%s GPS height is good but height source %d is used", where(), src); }

	if (prim == VDIST_SENSOR_RANGE && rng_run() > 3.0 && rng_good_since && since(rng_good_since) > 3.0 && std::isnan(w.range_fixed) && w.range_quality > 0 && c.tilt_align && !acc_fault_seen) { MC_CHECK(c.rng_hgt, "primary", "%s the range finder works but height source %d is used", where(), src); }
}

// ------------------------------------------------------------------ E09
void Env::mon_aiding()
{
	auto &c = b.c.flags;
	auto &o = a.c.flags;
	const int mask = p().fusion_mode;
	const bool aligned = c.tilt_align && c.yaw_align;
	const bool fresh_mode = since(user_mode_change) > 10.3;    // a deselected source stops delivering and times out
	const int n = int(c.gps) + int(c.opt_flow) + int(c.ev_pos) + int(c.ev_vel) + int(c.fuse_aspd && c.fuse_beta);

	// nothing is used that was not selected
	if (fresh_mode && gps_run() > 1) { MC_CHECK(!c.gps || (mask & MASK_USE_GPS), "permitted/gps", "%s GPS is used although it is not selected", where()); }

	flow_q_since = w.flow_quality >= p().flow_qual_min ? (flow_q_since ? flow_q_since : w.t) : 0;

	if (fresh_mode && flow_run() > 1 && flow_q_since && since(flow_q_since) > 0.5) { MC_CHECK(!c.opt_flow || (mask & MASK_USE_OF), "permitted/flow", "%s flow is used although it is not selected", where()); }

	if (!user_mode_change) {
		MC_CHECK(!c.ev_pos || (mask & MASK_USE_EVPOS), "permitted/vision position", "%s vision position is used although it is not selected", where());
		MC_CHECK(!c.ev_vel || (mask & MASK_USE_EVVEL), "permitted/vision velocity", "%s vision velocity is used although it is not selected", where());
		MC_CHECK(!c.ev_yaw || (mask & MASK_USE_EVYAW), "permitted/vision yaw", "%s vision yaw is used although it is not selected", where());
		MC_CHECK(!c.gps_yaw || (mask & MASK_USE_GPSYAW), "permitted/gps yaw", "%s GPS yaw is used although it is not selected", where());
		MC_CHECK(!c.gps || (mask & MASK_USE_GPS), "permitted/gps", "%s GPS is used although it is not selected", where());
		MC_CHECK(!c.opt_flow || (mask & MASK_USE_OF), "permitted/flow", "%s flow is used although it is not selected", where());
	}

	// ---- GPS
	if (c.gps && !o.gps) {
		MC_CHECK(c.tilt_align && c.yaw_align && b.origin, "gps/start", "%s GPS fusion started with tilt %d yaw %d origin %d", where(), int(c.tilt_align), int(c.yaw_align), b.origin);
		MC_CHECK(since(gps_bad_last) > 4.8, "gps/start", "%s GPS fusion started %.2f s after bad GPS quality", where(), since(gps_bad_last));
		MC_CHECK(since(last_gps) < 0.5, "gps/start", "%s GPS fusion started without GPS data", where());
	}

	const bool gps_wanted = (mask & MASK_USE_GPS) && since(user_mode_change) > 0.6;
	const double good = gps_good_since ? std::min(since(gps_good_since), gps_run()) : 0;
	aligned_since = aligned ? (aligned_since ? aligned_since : w.t) : 0;
	origin_since = b.origin ? (origin_since ? origin_since : w.t) : 0;

	if (gps_wanted && aligned_since && since(aligned_since) > 0.6 && origin_since && since(origin_since) > 0.6 && good > 5.6) { MC_CHECK(c.gps, "gps/not started", "%s GPS is not used although it has been good for %.1f s", where(), good); }

	if (o.gps && !c.gps) {
		const bool silent = since(last_gps) > 9.7 || (since(last_gps) > 0.8 && n > 0);
		const bool failing = since(gps_good_since) > 1e8 && n > 0 && bad_run() > 4.5;
		MC_CHECK(silent || failing || !(mask & MASK_USE_GPS), "gps/dropped", "%s GPS was dropped although its last data is %.2f s old and good (%d other sources)", where(), since(last_gps), n);
	}

	other_since = n > 1 ? (other_since ? other_since : w.t) : 0;

	if (c.gps) {
		MC_CHECK(since(last_gps) < 10.3, "gps/silent", "%s GPS is still used %.2f s after its last data", where(), since(last_gps));

		if (n > 1) { MC_CHECK(since(last_gps) < 1.3 || since(other_since) < 0.3, "gps/silent with alternative", "%s GPS is still used %.2f s after its last data although another source is active", where(), since(last_gps)); }

		if (n > 1 && bad_run() > 5.8 && gps_run() > 5.8) { MC_CHECK(since(other_since) < 0.5, "gps/bad with alternative", "%s GPS is still used after %.2f s of bad quality although another source is active", where(), bad_run()); }
	}

	// ---- vision
	const bool ev_started = ev_run() > 0.8;

	if (!user_mode_change && aligned_since && since(aligned_since) > 0.5 && ev_started) {
		MC_CHECK(c.ev_pos || !(mask & MASK_USE_EVPOS), "vision/not started", "%s vision position is not used", where());
		MC_CHECK(c.ev_vel || !(mask & MASK_USE_EVVEL), "vision/not started", "%s vision velocity is not used", where());
	}

	if (!user_mode_change && (mask & MASK_USE_EVYAW) && !(mask & MASK_USE_GPS) && c.tilt_align && aligned_since && since(aligned_since) > 0.5 && ev_started) { MC_CHECK(c.ev_yaw, "vision/not started", "%s vision yaw is not used", where()); }

	if (c.ev_pos || c.ev_vel || c.ev_yaw) { MC_CHECK(since(last_ev) < 7.3, "vision/silent", "%s vision is still used %.2f s after its last data", where(), since(last_ev)); }

	if ((o.ev_pos && !c.ev_pos) || (o.ev_vel && !c.ev_vel) || (o.ev_yaw && !c.ev_yaw && !c.gps)) { MC_CHECK(since(last_ev) > 6.7, "vision/dropped", "%s vision was dropped %.2f s after its last data", where(), since(last_ev)); }

	// ---- optical flow
	const bool fgood = w.flow_quality >= p().flow_qual_min;

	if (c.opt_flow) { MC_CHECK(since(last_flow) < 10.4, "flow/silent", "%s flow is still used %.2f s after its last data", where(), since(last_flow)); }

	if (!o.opt_flow && c.opt_flow) { MC_CHECK(c.tilt_align && c.yaw_align && since(last_flow) < 0.4 && (b.terrain || !c.in_air || n == 1), "flow/start", "%s flow fusion started with tilt %d yaw %d terrain %d", where(), int(c.tilt_align), int(c.yaw_align), b.terrain); }

	if (o.opt_flow && !c.opt_flow && (mask & MASK_USE_OF) && c.tilt_align) {
		const bool silent = since(last_flow) > 9.6;
		MC_CHECK(silent || !c.in_air || (!b.terrain && n > 0) , "flow/dropped", "%s flow was dropped in the air although it has data, terrain %d, %d other sources", where(), b.terrain, n);
	}

	flow_ready_since = (mask & MASK_USE_OF) && aligned && c.in_air && b.terrain && fgood && flow_run() > 0.5 && w.x.q.rot({0, 0, 1}).z > 0.8 ? (flow_ready_since ? flow_ready_since : w.t) : 0;

	if (flow_ready_since && since(flow_ready_since) > 0.6) { MC_CHECK(c.opt_flow, "flow/not started", "%s flow is not used in the air although it is good and the terrain is known", where()); }

	flow_rest_since = (mask & MASK_USE_OF) && aligned && !c.in_air && phase == GROUND && flow_run() > 0.5 && w.imu_force.norm() < 0.1 ? (flow_rest_since ? flow_rest_since : w.t) : 0;

	if (flow_rest_since && since(flow_rest_since) > 6.5) { MC_CHECK(c.opt_flow, "flow/not started", "%s flow is not used although the vehicle has been at rest", where()); }

	// ---- air data
	MC_CHECK(!c.fuse_aspd || since(ok_hor[5]) < 10.2, "airspeed/silent", "%s airspeed is still used although none was fused for %.1f s", where(), since(ok_hor[5]));

	if (f_tas && b.i.tasr <= 1 && c.in_air) { MC_CHECK(c.fuse_aspd && c.wind, "airspeed/not used", "%s airspeed was accepted but is not reported as used", where()); }

	if (f_beta) { MC_CHECK(c.fuse_beta && c.in_air, "sideslip/not selected", "%s sideslip was fused although it is off", where()); }

	if (f_tas) { MC_CHECK(c.in_air, "airspeed/ground", "%s airspeed was fused on the ground", where()); }

	// ---- the fall-back
	const bool synth = b.i.gp[0] != a.i.gp[0] && !c.gps;

	if (synth && !o.gps) { MC_CHECK(n == 0, "synthetic", "%s synthetic position observations are fused although %d sources are active", where(), n); }

	// its innovation changes, or the variance of the position falls
	fake_seen = synth || b.P[7][7] < a.P[7][7] || b.P[8][8] < a.P[8][8] ? w.t : fake_seen;
	idle_since = (n == 0 && !(c.fuse_aspd && c.fuse_beta)) ? (idle_since ? idle_since : w.t) : 0;

	if (idle_since && since(idle_since) > 0.45) { MC_CHECK(since(fake_seen) < 0.45 || pinned(), "synthetic/missing", "%s nothing constrains the drift: no aiding and no synthetic position for %.2f s", where(), since(fake_seen)); }
}

// ------------------------------------------------------------------ E12
void Env::mon_yaw()
{
	auto &c = b.c.flags;
	Ekf &k = e();
	const int type = p().mag_fusion_type;
	const int n = int(c.mag_hdg) + int(c.mag_3D) + int(c.ev_yaw) + int(c.gps_yaw);
	MC_CHECK(n <= 1, "exclusive", "%s %d yaw sources are active (heading %d field %d vision %d gps %d)", where(), n, int(c.mag_hdg), int(c.mag_3D), int(c.ev_yaw), int(c.gps_yaw));
	MC_CHECK(!c.mag_dec || c.mag_3D, "declination", "%s declination is fused without the magnetic field", where());

	if (type == MAG_FUSE_TYPE_NONE) { MC_CHECK(!c.mag_hdg && !c.mag_3D && !c.mag_dec, "permitted", "%s the magnetometer is used although it is not selected", where()); }

	if (type == MAG_FUSE_TYPE_HEADING || type == MAG_FUSE_TYPE_INDOOR) { MC_CHECK(!c.mag_3D, "permitted", "%s the magnetic field is fused although only heading is selected", where()); }

	if (type == MAG_FUSE_TYPE_3D) { MC_CHECK(!c.mag_hdg, "permitted", "%s heading is fused although the magnetic field is selected", where()); }

	ground_since = !c.in_air ? (ground_since ? ground_since : w.t) : 0;

	if (type == MAG_FUSE_TYPE_AUTO && ground_since && since(ground_since) > 0.3 && mag_run() > 0.3) { MC_CHECK(!c.mag_3D, "ground", "%s the magnetic field is fused on the ground", where()); }

	if (c.mag_fault && a.c.flags.mag_fault) { MC_CHECK(!c.mag_hdg && !c.mag_3D, "fault", "%s the magnetometer is used although it is declared faulty", where()); }

	if (c.mag_3D && type == MAG_FUSE_TYPE_AUTO && c.in_air && mag_run() > 0.3) { MC_CHECK(c.mag_aligned_in_flight, "alignment", "%s the magnetic field is fused before the in-flight alignment", where()); }

	mag_free_since = type != MAG_FUSE_TYPE_NONE && c.yaw_align && !c.mag_fault && !c.ev_yaw && !c.gps_yaw && mag_run() > 0.3 ? (mag_free_since ? mag_free_since : w.t) : 0;

	if (mag_free_since && since(mag_free_since) > 0.2) { MC_CHECK(c.mag_hdg || c.mag_3D, "unused", "%s the magnetometer delivers and nothing else gives the heading, but it is not used", where()); }

	if (!mag_free_since || !c.mag_3D || !c.gps) { mag3d_gps_since = 0; }

	else if (!mag3d_gps_since) { mag3d_gps_since = w.t; }

	// declination is needed whenever nothing else fixes true north
	if (mag_free_since && since(mag_free_since) > 0.2 && c.mag_3D && !c.gps && since(nogps_since) > 0.2) { MC_CHECK(c.mag_dec, "declination", "%s the magnetic field is fused without GPS and without declination", where()); }

	nogps_since = !c.gps ? (nogps_since ? nogps_since : w.t) : 0;

	// disturbance
	if (p().check_mag_strength && type != MAG_FUSE_TYPE_NONE) {
		origin_since = b.origin ? (origin_since ? origin_since : w.t) : 0;

		if (origin_since && since(origin_since) > 0.4 && mag_change && since(mag_change) > 0.3) { MC_CHECK(bool(c.mag_field_disturbed) == mag_bad_now, "disturbance", "%s a disturbed magnetic field is reported as %d, it is %d", where(), int(c.mag_field_disturbed), mag_bad_now); }

	} else {
		MC_CHECK(!c.mag_field_disturbed, "disturbance", "%s a disturbed magnetic field is reported although the check is off", where());
	}

	// resets of the heading
	const int dq = uint8_t(b.r.cnt[4] - a.r.cnt[4]);
	const bool emergency = (b.info >> 12 & 1) || (b.warn >> 10 & 1);
	const bool course = b.warn >> 7 & 1;

	if (dq && c.mag_field_disturbed && a.c.flags.mag_field_disturbed) {
		MC_CHECK(emergency || course || c.ev_yaw || c.gps_yaw, "reset while disturbed", "%s the heading was reset to the magnetometer although its field is disturbed", where());
	}

	if (emergency) {
		MC_CHECK(dq > 0, "emergency", "%s an emergency heading reset is reported but the heading was not reset", where());
		MC_CHECK(type == MAG_FUSE_TYPE_NONE || c.mag_fault, "emergency", "%s the magnetometer is not given up after an emergency heading reset", where());
		MC_CHECK(!emergency_last || since(emergency_last) > 4.95, "emergency interval", "%s emergency heading resets %.2f s apart", where(), since(emergency_last));
		emergency_last = w.t;
		emergency_n++;
		MC_CHECK(emergency_n <= int(p().EKFGSF_reset_count_limit) + 1, "emergency count", "%s %d emergency heading resets", where(), emergency_n);
	}

	// a fresh alignment after leaving the ground
	const bool above = b.s.s[9] + 1.7f < k.getTerrainVertPos();
	climb_since = c.in_air && above && mag_free_since && since(mag_free_since) > 0.2 && (type != MAG_FUSE_TYPE_INDOOR || c.gps || c.ev_pos || c.ev_vel) && !c.mag_field_disturbed && !mag_bad_now ? (climb_since ? climb_since : w.t) : 0;

	if (climb_since && since(climb_since) > 0.5) { MC_CHECK(c.mag_aligned_in_flight, "in-flight alignment", "%s no heading alignment in flight although the vehicle is well above the ground", where()); }

	MC_CHECK(!c.mag_aligned_in_flight || c.in_air || type == MAG_FUSE_TYPE_NONE, "in-flight alignment", "%s in-flight alignment is still reported on the ground", where());

	if (c.mag_aligned_in_flight && !a.c.flags.mag_aligned_in_flight) { MC_CHECK(dq > 0 || c.fixed_wing, "in-flight alignment", "%s in-flight alignment is reported without a heading reset", where()); }

	// once aligned the heading stays aligned unless a fault of the estimate is declared
	if (a.c.flags.yaw_align && !c.yaw_align) { MC_CHECK(mag_bad_now || since(last_mag) > 0.1, "lost", "%s the heading alignment was lost with a working magnetometer", where()); }

	k.clear_information_events();
	k.clear_warning_events();
	b.info = b.warn = 0;
}

// ------------------------------------------------------------------ E07
void Env::mon_tick_output(bool upd, const imuSample &m)
{
	Ekf &k = e();
	Reset r;
	r.read(k);
	const uint64_t delayed = k.get_imu_sample_delayed().time_us;
	const St s = state_of(k);

	if (!out_ready) {
		if (!upd) { return; }

		// filter just initialised: everything starts from the estimate
		out_ready = true;
		olen = int(std::lround(double(w.t - delayed) * 1e-4)) + 1;
		out.q = s.q(); out.v = s.v(); out.p = s.p();
		out.vv = out.vi = out.vdt = 0;
		obuf.assign(olen, out);
		out_r = r;
		dt_avg = 0.01;
		oskip = w.t + 9000000;
		return;
	}

	// corrections that were announced shift the past and the present alike
	int d[5];

	for (int i = 0; i < 5; i++) { d[i] = uint8_t(r.cnt[i] - out_r.cnt[i]); }

	out_r = r;
	const Q4 dq{r.q[0], r.q[1], r.q[2], r.q[3]};
	auto shift = [&](Out & o) {
		if (d[0]) { o.v.x += r.vNE[0]; o.v.y += r.vNE[1]; }

		if (d[1]) { o.v.z += r.vD; o.vv += r.vD; }

		if (d[2]) { o.p.x += r.pNE[0]; o.p.y += r.pNE[1]; }

		if (d[3]) { o.p.z += r.pD; o.vi += r.pD; }

		if (d[4]) { o.q = dq * o.q; }
	};

	for (auto &o : obuf) { shift(o); }

	shift(out);

	const double dt = m.delta_vel_dt;

	if (upd) {
		const imuSample dm = k.get_imu_sample_delayed();
		const double in = std::min(std::max(0.5 * (double(dm.delta_vel_dt) + dm.delta_ang_dt), 0.005), 0.02);
		dt_avg = 0.99 * dt_avg + 0.01 * in;
	}

	const double dt_imu = dt_imu_avg;
	const V3 dang = v3(m.delta_ang) - s.dab() * (dt_imu / dt_avg) + dacorr;
	out.q = (out.q * q_exp(dang)).normalized();
	V3 dv = out.q.rot(v3(m.delta_vel) - s.dvb() * (dt_imu / dt_avg));
	dv.z += G * dt;
	const V3 acc = dv * (1 / dt);
	const V3 v0 = out.v;
	out.v = out.v + dv;
	out.vv += dv.z;
	const V3 dp = (v0 + out.v) * (0.5 * dt);
	out.p = out.p + dp;
	out.vi += dp.z;
	out.vdt += dt;
	const V3 lever = v3(p().imu_pos_body);
	imu_vel_rel = out.q.rot(v3(m.delta_ang) * (1.0 / m.delta_ang_dt)).cross(out.q.rot(lever));
	const V3 pos_rel = out.q.rot(lever);
	V3 te{NAN, NAN, NAN};

	if (upd) {
		obuf.push_back(out);

		if (int(obuf.size()) > olen) { obuf.pop_front(); }

		const Out od = obuf.front();
		const Q4 qe = (s.q().conj() * od.q).normalized();
		const double sc = qe.w >= 0 ? -2 : 2;
		const V3 da{sc *qe.x, sc *qe.y, sc *qe.z};
		const double delay = std::max(double(w.t - delayed) * 1e-6, dt_imu);
		dacorr = da * (0.5 * dt_imu / delay);
		const double vg = dt_avg / std::min(std::max(double(p().vel_Tau), dt_avg), 10.0);
		const double pg = dt_avg / std::min(std::max(double(p().pos_Tau), dt_avg), 10.0);
		const double vc = (s.p().z - od.vi) * pg + (s.v().z - od.vv) * vg * 1.1;

		for (size_t i = 0; i + 1 < obuf.size(); i++) {
			if (i == 0) { obuf[0].vv += vc; }

			obuf[i + 1].vv += vc;
			obuf[i + 1].vi = obuf[i].vi + (obuf[i].vv + obuf[i + 1].vv) * 0.5 * obuf[i + 1].vdt;
		}

		const V3 ve = s.v() - od.v, pe = s.p() - od.p;
		vint = vint + ve;
		pint_ = pint_ + pe;
		const V3 vcor = ve * vg + vint * (vg * vg * 0.1), pcor = pe * pg + pint_ * (pg * pg * 0.1);

		for (auto &o : obuf) { o.v = o.v + vcor; o.p = o.p + pcor; }

		out = obuf.back();
		out.vdt = 0;
		te = {da.norm(), ve.norm(), pe.norm()};
	}

	if (w.t < oskip) { return; }

	mc::evaluation(!log.empty());
	// compare
	const Quatf fq = k.getQuaternion();
	const V3 fv = v3(k.getVelocity()), fp = v3(k.getPosition()), fa = v3(k.getVelocityDerivative());
	const double fz = k.getVerticalPositionDerivative();
	MC_CHECK(q_angle(q4(fq), out.q) < 2e-4, "attitude", "%s the published attitude is %.6f rad from the complementary prediction", where(), q_angle(q4(fq), out.q));
	const V3 ev = fv - (out.v - imu_vel_rel), ep = fp - (out.p - pos_rel), ea = fa - acc;
	MC_CHECK(ev.norm() < (1e-3 + 1e-5 * fv.norm()), "velocity", "%s the published velocity %.4f %.4f %.4f differs from the complementary prediction by %.5f", where(), fv.x, fv.y, fv.z, ev.norm());
	MC_CHECK(ep.norm() < (2e-3 + 2e-6 * fp.norm()), "position", "%s the published position %.4f %.4f %.4f differs from the complementary prediction by %.5f", where(), fp.x, fp.y, fp.z, ep.norm());
	MC_CHECK(ea.norm() < 1e-2, "acceleration", "%s the published acceleration %.4f %.4f %.4f differs from the complementary prediction by %.5f", where(), fa.x, fa.y, fa.z, ea.norm());
	MC_CHECK(std::fabs(fz - (out.vv - imu_vel_rel.z)) < (1e-3 + 1e-5 * std::fabs(fz)), "vertical rate", "%s the published vertical rate %.4f differs from the complementary prediction %.4f", where(), fz, out.vv - imu_vel_rel.z);

	if (upd) {
		const V3 ft = v3(k.getOutputTrackingError());
		MC_CHECK((ft - te).norm() < 2e-3, "tracking error", "%s the published tracking error %.5f %.5f %.5f, expected %.5f %.5f %.5f", where(), ft.x, ft.y, ft.z, te.x, te.y, te.z);
	}

	// the purpose of it all: the newest output follows the delayed estimate carried forward over the delay. An undisturbed
	// loop keeps the oldest entry close to the estimate
}

// ------------------------------------------------------------------ events
enum Ev { NOTHING, GPS, GPSBAD, GPSJUMP, BARO, BAROJUMP, MAG, MAGDIST, LAND, RNG, RNGBAD, FLOW, FLOWBAD, VIS, VISJUMP, ACC, TAS, TURN, MODE, ORIGIN, BIASRST, CLIP, YAWROT, SHAKE, EPV, EPH, BETA, BIGBARO, HIGH, FAST, CLIPPULSE, GPSPOS, GPSALT, SLOW, STUCK, EVYAWJUMP, GPSROT, NEV };
static const char *ev_name[NEV] = {"nothing", "GPS on/off", "GPS quality bad/good", "GPS jump", "baro on/off", "baro jump", "mag on/off", "mag disturbed on/off", "land/take off", "range on/off", "range quality bad/good", "flow on/off", "flow quality bad/good",
				   "vision on/off", "vision jump", "bad vertical acceleration on/off", "airspeed on/off", "turn on/off", "selection changed", "origin set by user", "IMU bias reset", "clipping on/off", "heading sensor wrong by 80 deg on/off",
				   "shaking on the ground on/off", "GPS vertical accuracy poor/good", "GPS horizontal accuracy worse/good", "sideslip on/off", "baro jump of 5000 m", "higher/lower", "faster/slower", "clipping for a moment", "GPS position jump", "GPS height off by 400 m with poor accuracy on/off", "slow sensors on/off", "range stuck on/off", "vision heading jump", "GPS world turned by 110 deg on/off"
				  };

void Env::toggle(Sensor &s) { if (s.on) { s.stop(); } else { s.start(w.t, 3000); } }

void Env::apply_origin()
{
	double la, lo;
	w.to_global({-40, 30, 0}, la, lo);
	w.ekf->setEkfGlobalOrigin(la, lo, float(w.alt0 + 5));
	user_origin = n_upd + 1;
}

void Env::apply(int ev)
{
	switch (ev) {
	case GPS: toggle(w.gps); break;

	case GPSBAD: w.gps_tmpl.nsats = w.gps_tmpl.nsats > 10 ? 3 : 16; break;

	case GPSJUMP: w.gps_pos_err = w.gps_pos_err + V3{25, 0, -12}; w.gps_vel_err = w.gps_vel_err.norm() > 0 ? V3{} : V3{0, 6, 0}; break;

	case BARO: toggle(w.baro); break;

	case BAROJUMP: w.baro_off += 25; break;

	case MAG: toggle(w.mag); break;

	case MAGDIST: w.mag_scale = w.mag_scale > 1 ? 1 : 1.6; break;

	case LAND:
		if (phase == GROUND) {
			phase = CLIMB; phase_since = w.t;
			w.ekf->set_in_air_status(true);

			if (plane) { w.ekf->set_is_fixed_wing(true); w.ekf->set_fuse_beta_flag(with_beta && cfg != D_TAS); }

		} else {
			phase = DESCEND; phase_since = w.t;
		}

		break;

	case RNG: toggle(w.range); break;

	case RNGBAD: w.range_quality = w.range_quality ? 0 : 100; break;

	case FLOW: toggle(w.flow); break;

	case FLOWBAD: w.flow_quality = w.flow_quality ? 0 : 255; break;

	case VIS: toggle(w.ev); break;

	case VISJUMP: w.ev_pos_off = w.ev_pos_off + V3{4, -3, 3}; break;

	case ACC: acc_fault_seen = true; w.imu_force = w.imu_force.norm() > 0 ? V3{} : V3{0, 0, 14}; w.clip[2] = !w.clip[2]; break;

	case TAS: toggle(w.airspeed); break;

	case TURN: turning = !turning; break;

	case MODE: {
			static const int bit[NALL] = {MASK_USE_GPS, MASK_USE_GPS, MASK_USE_OF, MASK_USE_OF, 0, 0, MASK_USE_GPS, MASK_USE_GPS, 0, MASK_USE_GPS, MASK_USE_GPS, MASK_USE_OF, 0,
				MASK_USE_GPS, MASK_USE_OF, MASK_USE_GPS, MASK_USE_EVYAW, MASK_USE_EVYAW, MASK_USE_OF, MASK_USE_GPS, MASK_USE_GPS, MASK_USE_GPS, MASK_USE_EVVEL, MASK_USE_GPS, MASK_USE_GPS, MASK_USE_GPS};
			p().fusion_mode ^= bit[cfg];
			user_mode_change = w.t;
			break;
		}

	case ORIGIN: apply_origin(); break;

	case BIASRST: w.ekf->resetImuBias(); break;

	case CLIP: w.clip[0] = !w.clip[0]; break;

	case YAWROT:
		if (w.mag_ned_err.norm() > 0) { w.mag_ned_err = {}; w.gps_yaw_err = 0; }

		else { w.mag_ned_err = q_exp({0, 0, 80 * DEG}).rot(w.mag_ned) - w.mag_ned; w.gps_yaw_err = 80 * DEG; }

		break;

	case GPSROT: w.gps_rot = w.gps_rot != 0 ? 0 : 110 * DEG; w.gps_piv = w.x.p; break;

	case SHAKE: shaking = !shaking; break;

	case EPV: w.gps_tmpl.epv = w.gps_tmpl.epv < 5 ? 10.f : 0.8f; break;

	case EPH: w.gps_tmpl.eph = w.gps_tmpl.eph < 2 ? 4.2f : w.gps_tmpl.eph < 5 ? 6.f : 0.5f; break;

	case BETA: with_beta = !with_beta; w.ekf->set_fuse_beta_flag(!e().control_status().flags.fuse_beta); break;

	case BIGBARO: w.baro_off += 5000; break;

	case HIGH: cruise_h = cruise_h < 5 ? 8 : 4; break;

	case FAST: fast = !fast; break;

	case CLIPPULSE: w.clip[0] = true; clip_end = w.t + 300000; break;

	case GPSPOS: w.gps_pos_err = w.gps_pos_err + V3{60, 40, 0}; break;

	case GPSALT:
		if (w.gps_tmpl.epv < 5) { w.gps_tmpl.epv = 10.f; w.gps_pos_err.z -= 400; } else { w.gps_tmpl.epv = 0.8f; w.gps_pos_err.z += 400; }

		break;

	case SLOW: {
			const bool slow = w.ev.period > 300000;
			w.ev.period = slow ? 40000 : 430000;
			w.gps.period = slow ? 200000 : 1050000;
			w.baro.period = slow ? 50000 : 430000;
			w.range.period = slow ? 50000 : 430000;
			break;
		}

	case STUCK: w.range_fixed = std::isnan(w.range_fixed) ? 2.f : NAN; break;

	case EVYAWJUMP: w.ev_yaw_off += 1.0; break;

	default: break;
	}
}

static const std::vector<int> menu(int cfg)
{
	switch (cfg) {
	case C_GPS: return {NOTHING, GPS, GPSBAD, GPSJUMP, BARO, BAROJUMP, MAG, LAND, ACC, TURN, MODE, ORIGIN, BIASRST, CLIP, YAWROT};

	case C_GPSH: return {NOTHING, GPS, GPSBAD, GPSJUMP, BARO, BAROJUMP, MAG, MAGDIST, LAND, ACC, TURN, MODE, ORIGIN};

	case C_FLOW: return {NOTHING, FLOW, FLOWBAD, RNG, RNGBAD, BARO, BAROJUMP, MAG, LAND, ACC, TURN, MODE, ORIGIN, BIASRST};

	case C_FLOWR: return {NOTHING, FLOW, FLOWBAD, RNG, RNGBAD, BARO, BAROJUMP, MAG, LAND, ACC, TURN, MODE, CLIP};

	case C_EVALL: return {NOTHING, VIS, VISJUMP, BARO, BAROJUMP, MAG, LAND, ACC, TURN, BIASRST, ORIGIN};

	case C_EVVEL: return {NOTHING, VIS, VISJUMP, BARO, BAROJUMP, MAG, LAND, ACC, TURN};

	case C_PLANE: return {NOTHING, GPS, GPSBAD, GPSJUMP, BARO, MAG, MAGDIST, LAND, TAS, TURN, MODE, ACC, YAWROT, ORIGIN};

	case C_GPSEV: return {NOTHING, GPS, GPSBAD, GPSJUMP, VIS, VISJUMP, BARO, MAG, LAND, TURN, MODE};

	case C_NONE: return {NOTHING, BARO, BAROJUMP, MAG, LAND, ACC, TURN};

	case C_DRAG: return {NOTHING, GPS, GPSBAD, GPSJUMP, RNG, RNGBAD, BARO, BAROJUMP, MAG, LAND, TURN, MODE};

	case C_GPSYAW: return {NOTHING, GPS, GPSBAD, GPSJUMP, BARO, BAROJUMP, LAND, TURN, YAWROT, ACC};

	case C_GPSFLOW: return {NOTHING, GPS, GPSBAD, GPSJUMP, FLOW, FLOWBAD, RNG, RNGBAD, BARO, MAG, LAND, TURN, MODE};

	case C_EVROT: return {NOTHING, VIS, VISJUMP, BARO, MAG, LAND, TURN};

	case D_RNG: return {NOTHING, GPS, RNG, RNGBAD, BARO, BIGBARO, LAND, STUCK, HIGH, SLOW, ACC, EPH, GPSPOS};

	case D_AID: return {NOTHING, RNG, RNGBAD, BARO, BAROJUMP, LAND, HIGH, FAST, FLOW, SHAKE, CLIPPULSE, ORIGIN};

	case D_AIDGPS: return {NOTHING, GPS, GPSBAD, RNG, RNGBAD, BARO, BIGBARO, LAND, HIGH, FAST, GPSALT, EPV, SLOW};

	case D_EVYAW: return {NOTHING, VIS, EVYAWJUMP, FLOW, RNG, LAND, MODE, SHAKE, SLOW, BAROJUMP, CLIPPULSE};

	case D_EVPOS: return {NOTHING, VIS, VISJUMP, BARO, LAND, MODE, SLOW, EVYAWJUMP, BIGBARO};

	case D_INDOOR: return {NOTHING, GPS, GPSBAD, EPH, FLOW, FLOWBAD, RNG, MAG, LAND, SHAKE, MODE, GPSPOS};

	case D_TAS: return {NOTHING, GPS, GPSJUMP, GPSPOS, TAS, BETA, LAND, TURN, MODE};

	case D_GSF: return {NOTHING, GPS, GPSBAD, GPSJUMP, GPSPOS, FAST, GPSALT, BIGBARO, BARO, EPV, LAND, TURN, MODE};

	case D_EVGPS: return {NOTHING, GPS, GPSBAD, GPSJUMP, GPSPOS, VIS, VISJUMP, EVYAWJUMP, MAG, MODE, SLOW, BARO, LAND};

	case D_QUICK: return {NOTHING, GPS, GPSBAD, EPV, BARO, BAROJUMP, LAND};

	case D_EVHGT: return {NOTHING, ACC, CLIP, CLIPPULSE, GPS, GPSBAD, VIS, VISJUMP, BARO, BAROJUMP, LAND, SLOW};

	case D_HEAD: return {NOTHING, GPSROT, GPS, GPSBAD, FAST, TURN, LAND, YAWROT, ORIGIN, MODE};

	default: return {NOTHING, VIS, VISJUMP, FLOW, FLOWBAD, RNG, STUCK, BIGBARO, MODE, LAND, SHAKE, SLOW};
	}
}

static bool quiet;

int main(int argc, char **argv)
{
	const char *a = getenv("MC_ARGS");
	const std::string id = a ? a : "E01";
	P_E01 = id == "E01"; P_E05 = id == "E05"; P_E06 = id == "E06"; P_E07 = id == "E07";
	P_E09 = id == "E09"; P_E10 = id == "E10"; P_E11 = id == "E11"; P_E12 = id == "E12"; P_E18 = id == "E18"; P_E19 = id == "E19";

	if (id == "ALL") { P_E01 = P_E05 = P_E06 = P_E07 = P_E09 = P_E10 = P_E11 = P_E12 = P_E18 = P_E19 = true; }

	if (id == "LOCK") { P_E05 = P_E06 = P_E09 = P_E12 = P_E18 = P_E19 = true; }

	mc::init(argc, argv, id.c_str());

	if (!mc::replaying() && getenv("MC_RESULT")) { quiet = freopen("/dev/null", "w", stdout) != nullptr; }

	static const double dur[3] = {0.5, 2.6, 11.3};
	const int depth = mc::thorough() ? 3 : 2;
	mc::rule("all sequences (quick 2, thorough 3) of events from a menu of 23 (sensor silence, bad quality, jumps, disturbed field, IMU faults, landing, take-off, turns, mode bits, origin and bias commands; restricted to those "
		 "that can matter) and durations 0.5 / 2.6 / 11.3 s for each of 13 aiding configurations; all but E07 also of a second menu of 37 events for each of 13 more configurations (decisions), there and in the missions in "
		 "lockstep with a reference of the decisions; the monitor judges every filter update (E07: every inertial sample), an evaluation is one judged update, "
		 "non-trivial when it comes after the first event; states are the distinct end states (state vector) of the missions");
	const auto missions = [&](int first, int last) {
		std::unique_ptr<Env> E(new Env);
		E->cfg = first + mc::choose(last - first);
		E->configure();
		mc::note("configuration: %s", cfg_name[E->cfg]);
		if (P_E11) { E->mon_idle(); }

		E->run(14);
		E->apply(LAND);
		E->run(4);
		const std::vector<int> m = menu(E->cfg);

		for (int k = 0; k < depth; k++)
		{
			const int ev = m[mc::choose(int(m.size()))];
			E->apply(ev);
			const int nd = k == 2 ? 1 : 3;
			const double T = dur[nd == 1 ? 1 : mc::choose(nd)];
			char t[100];
			snprintf(t, sizeof(t), "; %s for %.1f s", ev_name[ev], T);
			E->log += t;
			mc::note("%s", t + 2);
			E->run(T);
		}

		mc::visit(mc::hash_pod(uint64_t(E->cfg) + 1, state_of(E->e())));

		if (mc::hash_pod(7, state_of(E->e())) % 401 == 0) { mc::sample("%s%s: ends at (%.2f, %.2f, %.2f)", cfg_name[E->cfg], E->log.c_str(), E->b.s.p().x, E->b.s.p().y, E->b.s.p().z); }
	};
	mc::explore("missions", mc::FORK, [&] { missions(0, NCFG); }, 2);

	if (P_E05 || P_E06 || P_E09 || P_E10 || P_E11 || P_E12 || P_E18 || P_E19 || P_E01) { mc::explore("decisions", mc::FORK, [&] { missions(NCFG, NALL); }, 2); }

	if (P_E06) {
		// every reset that follows an event happens together with a command that moves the origin: the command is given
		// in the gap before the update that makes the reset, known from a run without the command
		mc::explore("coincidence", mc::FORK, [&] {
			const int cfg = mc::choose(NCFG);
			const std::vector<int> m = menu(cfg);
			const int ev = m[mc::choose(int(m.size()))];
			std::vector<uint64_t> when;

			for (int pass = 0; pass < 2; pass++)
			{
				std::unique_ptr<Env> E(new Env);
				E->cfg = cfg;
				E->silent = pass == 0;
				E->configure();

				if (pass) {
					if (when.empty()) { return; }

					E->cmd_at = when[mc::choose(int(when.size()))];
					E->log = std::string("; ") + ev_name[ev] + ", origin set just before a reset";
					mc::note("configuration: %s; %s", cfg_name[cfg], E->log.c_str());
				}

				E->run(14);
				E->apply(LAND);
				E->run(4);
				E->apply(ev);
				E->run(12);

				if (!pass) { when = E->reset_at; }

				mc::visit(mc::hash_pod(uint64_t(cfg) + 100, state_of(E->e())));
			}
		}, 2);
	}

	mc::finish();
	return 0;
}

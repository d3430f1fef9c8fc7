// E20 and E21: the estimate against the truth. E20: alignment from every attitude of a grid, however the start looks like.
// E21: flights at places all over the globe, in every direction, with every sequence of manoeuvres, for every kind of aiding;
// sensors are ideal apart from constant biases, so that every deviation is the filter's.
#include "ekfsim.h"
#include <memory>
#include <string>

using namespace sim;

static bool P_E20, P_E21;
static bool stat;

struct Max {
	double v{0};
	std::string at;
};
static Max mx[16][12];

static void note_max(int cfg, int what, double v, const std::string &at)
{
	if (!stat) { return; }

	if (v > mx[cfg][what].v) { mx[cfg][what].v = v; mx[cfg][what].at = at; }
}

// development aid: the largest deviations seen (TRUTH_STAT names a file)
static void dump()
{
	FILE *f = fopen(getenv("TRUTH_STAT"), "a");

	for (int i = 0; f && i < 16; i++) {
		for (int j = 0; j < 12; j++) {
			if (mx[i][j].v > 0) { fprintf(f, "%d %d %.4f %s\n", i, j, mx[i][j].v, mx[i][j].at.c_str()); mx[i][j] = Max(); }
		}
	}

	if (f) { fclose(f); }
}

struct Place { double lat, lon, alt; const char *name; };
static const Place places[] = {{47.3566, 8.519, 422, "mid latitude"}, {0.0001, -0.0001, 3, "equator"}, {-35.3, 149.16, 600, "south"}, {64.8, 179.9998, 120, "date line"}, {78.2, 15.6, 20, "far north"}, {-67.5, -68.1, 15, "far south"}};
static const int NPLACE = 6;

// ------------------------------------------------------------------ E20
enum Align { A_COMPASS, A_GPS, A_3D, A_GPSYAW, A_EVYAW, A_NOHEADING, NALIGN };
static const char *align_name[NALIGN] = {"compass", "compass and GPS", "three axis magnetometer", "GPS heading", "vision heading", "no heading sensor"};
enum Start { S_REST, S_TURNING, S_FALLING, S_PUSHED, S_INAIR, NSTART };
static const char *start_name[NSTART] = {"at rest", "turning at first", "falling at first", "accelerated at first", "at rest, in the air"};

struct Aln {
	World w;
	int cfg{0}, start{0};
	std::string log;
	uint64_t rest_since{0};
	bool tilt{false}, yaw{false};
	uint64_t first_update{0};

	Ekf &e() { return *w.ekf; }
	const char *where() { static char t[300]; snprintf(t, sizeof(t), "[%s, %s, %s t=%.3f]", align_name[cfg], start_name[start], log.c_str(), (w.t - w.t0) * 1e-6); return t; }

	void tick()
	{
		const double t = (w.t - w.t0) * 1e-6;
		w.cmd_w = {};
		w.cmd_a = {};

		if (t < 3) {
			if (start == S_TURNING) { w.cmd_w = {0.1, 0.6, -0.35}; }

			if (start == S_FALLING) { w.cmd_a = {0, 0, 9.0}; }

			if (start == S_PUSHED) { w.cmd_a = {8.0, 0, 0}; }
		}

		if (t >= 3 && !rest_since) {
			rest_since = w.t;
			w.x.v = {};
			w.x.p = {};
		}

		e().setIMUData(w.advance(w.imu_dt));
		w.sensors();
		const bool u = e().update();
		mc::transition();

		if (u) { judge(t); }
	}
	void judge(double t)
	{
		const filter_control_status_u c = e().control_status();
		const Truth d = w.at(e().get_imu_sample_delayed().time_us);
		const St s = state_of(e());
		const bool alive = std::fabs(s.q().n2() - 1) < 0.01 && c.flags.tilt_align + c.flags.yaw_align + c.flags.baro_hgt + c.flags.gps_hgt + c.flags.ev_hgt > 0;
		mc::evaluation(alive);

		// nothing starts before the inertial data allow it
		if (start == S_TURNING || start == S_FALLING || start == S_PUSHED) { MC_CHECK(!alive || t > 3.0, "early start", "%s the filter has started although the vehicle has not been at rest yet", where()); }

		if (!alive) {
			MC_CHECK(t < 3 + 1.5, "no start", "%s the filter has not started %.1f s after coming to rest", where(), t - 3);
			return;
		}

		if (!first_update) { first_update = w.t; }

		const double te = tilt_angle(s.q(), d.q), ye = q_angle(s.q(), d.q);
		const double age = (w.t - first_update) * 1e-6;
		note_max(cfg, 0, te, where());
		// the start values are filtered, a motion that has just ended is still in them
		const bool moved = start == S_TURNING || start == S_PUSHED;

		if (moved) {
			// the start values are filtered, a motion that has just ended is still in them
			MC_CHECK(t < 12 || te < (mc::thorough() ? 60 : 15) * DEG || std::fabs(d.q.pitch()) > 70 * DEG, "tilt after motion", "%s the tilt is wrong by %.2f deg", where(), te / DEG);
			return;
		}

		// in the air the velocity is not taken to be zero: the alignment takes longer, and the heading follows the tilt
		const bool flying = start == S_INAIR;
		const double tl = (flying ? (mc::thorough() ? 10 : 5) : 1.4) * DEG;
		MC_CHECK(te < tl, "tilt", "%s the tilt is wrong by %.2f deg", where(), te / DEG);

		if (c.flags.tilt_align && !tilt) { tilt = true; note_max(cfg, 5 + start, age, where()); }

		if (c.flags.tilt_align) { note_max(cfg, 1, te, where()); MC_CHECK(te < tl, "aligned tilt", "%s the tilt is reported as aligned but wrong by %.2f deg", where(), te / DEG); }

		if (age > (flying ? 11 : 8.5) && cfg != A_3D) { MC_CHECK(c.flags.tilt_align || d.q.rot(V3{0, 0, 1}).z < 0.6, "tilt alignment", "%s the tilt is not aligned after %.1f s", where(), age); }

		if (cfg == A_NOHEADING || (flying && cfg == A_GPSYAW && std::fabs(d.q.pitch()) > 0.8)) { return; }

		if (flying) {
			if (c.flags.yaw_align && t > 6) { note_max(cfg, 10, ye, where()); MC_CHECK(ye < (mc::thorough() ? 50 : 25) * DEG, "heading", "%s the heading is reported as aligned in the air but the attitude is wrong by %.2f deg", where(), ye / DEG); }

			if (t > 12.5) { MC_CHECK(c.flags.yaw_align, "heading alignment", "%s the heading is not aligned", where()); }

			return;
		}

		if (c.flags.yaw_align) {
			note_max(cfg, 2, ye, where());
			MC_CHECK(ye < (mc::thorough() ? 6 : 4) * DEG || t < 6, "heading", "%s the heading is reported as aligned but the attitude is wrong by %.2f deg", where(), ye / DEG);
		}

		if (t > 12) {
			note_max(cfg, 3, ye, where());
			MC_CHECK(c.flags.yaw_align, "heading alignment", "%s the heading is not aligned", where());
			MC_CHECK(ye < (mc::thorough() ? 5 : 2.8) * DEG, "attitude", "%s the attitude is wrong by %.2f deg", where(), ye / DEG);
			const V3 v = v3(e().getVelocity());
			note_max(cfg, 4, v.norm(), where());
			MC_CHECK(v.norm() < 0.4, "velocity", "%s the velocity at rest is %.2f %.2f %.2f", where(), v.x, v.y, v.z);
		}
	}
};

static void align_body()
{
	std::unique_ptr<Aln> o(new Aln);
	World &w = o->w;
	o->cfg = mc::choose(NALIGN);
	o->start = mc::choose(NSTART);
	const int NR = mc::thorough() ? 24 : 12, NY = mc::thorough() ? 12 : 4;
	static const double pitches[] = {0, 30, -30, 60, -60, 80, -80, 15, -45, 88, -88};
	const int ir = mc::choose(NR), ip = mc::choose(mc::thorough() ? 11 : 7), iy = mc::choose(NY);
	const Place &pl = places[(ir + ip + iy + o->cfg) % NPLACE];
	parameters &P = w.make(0);
	w.lat0 = pl.lat; w.lon0 = pl.lon; w.alt0 = pl.alt;
	w.imu_dt = 10000;
	// the heading of an antenna pair is taken for the heading of a vehicle that is not tilted about both axes
	const bool external = o->cfg == A_GPSYAW;

	if (external && o->start == S_TURNING) { return; }

	if (external && !((ip == 0 && std::abs(ir - NR / 2) * 360 <= 60 * NR) || (ir == NR / 2 && ip < 5))) { return; }

	char t[100];
	const double roll = -180 + 360.0 / NR * ir, pitch = pitches[ip], yaw = wrap((20 + 360.0 / NY * iy) * DEG) / DEG;
	snprintf(t, sizeof(t), "roll %.0f pitch %.0f heading %.0f, %s", roll, pitch, yaw, pl.name);
	o->log = t;
	mc::note("%s, %s, %s", align_name[o->cfg], start_name[o->start], t);
	w.ekf->set_min_required_gps_health_time(1000000);
	bool gps = false, mag = true, ev = false;
	P.fusion_mode = 0;
	// without a position the declination has to be given
	P.mag_declination_source = 0;
	P.mag_declination_deg = float(get_mag_declination_degrees(float(pl.lat), float(pl.lon)));

	switch (o->cfg) {
	case A_COMPASS: P.mag_fusion_type = MAG_FUSE_TYPE_HEADING; break;

	case A_GPS: P.fusion_mode = MASK_USE_GPS; P.mag_declination_source = 7; P.mag_declination_deg = 0; gps = true; break;

	case A_3D: P.mag_fusion_type = MAG_FUSE_TYPE_3D; break;

	case A_GPSYAW: P.fusion_mode = MASK_USE_GPS | MASK_USE_GPSYAW; P.mag_fusion_type = MAG_FUSE_TYPE_NONE; gps = true; mag = false; w.gps_yaw = true; break;

	case A_EVYAW: P.fusion_mode = MASK_USE_EVYAW; P.mag_fusion_type = MAG_FUSE_TYPE_NONE; ev = true; mag = false; break;

	case A_NOHEADING: P.mag_fusion_type = MAG_FUSE_TYPE_NONE; mag = false; break;
	}

	w.begin();
	w.x.q = q_euler(roll * DEG, pitch * DEG, yaw * DEG);
	w.baro.start(w.t, 3000);

	if (mag) { w.mag.start(w.t, 1000); }

	if (gps) { w.gps.start(w.t, 11000); }

	if (ev) { w.ev.start(w.t, 5000); }

	if (o->start == S_INAIR) { o->tick(); w.ekf->set_in_air_status(true); }

	while (w.t < w.t0 + 13000000) { o->tick(); }

	if (stat) { dump(); }

	mc::visit(mc::hash_pod(uint64_t(o->cfg) * 16 + o->start, state_of(o->e())));
}

// ------------------------------------------------------------------ E21
enum Cfg { F_GPS, F_GPSH, F_3D, F_GPSYAW, F_NOMAG, F_FLOW, F_EVALL, F_EVVEL, F_PLANE, F_GPSEV, F_EVROT, NCFG };
static const char *cfg_name[NCFG] = {"gps", "gps height, heading only", "gps, three axis magnetometer", "gps heading", "gps without magnetometer", "flow", "vision", "vision velocity", "fixed wing", "gps and vision", "rotated vision"};
enum Man { M_HOVER, M_FORWARD, M_BRAKE, M_SIDE, M_CLIMB, M_DESCEND, M_LEFT, M_RIGHT, M_CIRCLE, M_WIGGLE, NMAN };
static const char *man_name[NMAN] = {"hover", "forward", "brake", "sideways", "climb", "descend", "turn left", "turn right", "circle", "wiggle"};

struct Fly {
	World w;
	int cfg{0}, man{0};
	bool plane{false}, flying{false}, biased{false};
	std::string log;
	uint64_t man_since{0}, aided_since{0};
	V3 p0;                      // drift reference for velocity aiding
	bool p0_set{false};
	double way{0};
	double yaw_d{0};
	V3 vd;
	uint8_t cnt[5] {};
	uint64_t reset_at{0};

	Ekf &e() { return *w.ekf; }
	const char *where() { static char t[300]; snprintf(t, sizeof(t), "[%s, %s t=%.3f]", cfg_name[cfg], log.c_str(), (w.t - w.t0) * 1e-6); return t; }

	void control()
	{
		const double u = (w.t - man_since) * 1e-6, yaw = w.x.q.yaw();
		const V3 fwd{std::cos(yaw), std::sin(yaw), 0}, rgt{-std::sin(yaw), std::cos(yaw), 0};

		if (!flying) { w.cmd_a = {}; w.cmd_w = {}; return; }

		const double lim = cfg == F_FLOW ? 2.0 : cfg == F_EVROT ? 1.5 : 5.0;
		double yr = 0, roll = 0, pitch = 0;
		const double base = plane ? 15 : 0;

		switch (man) {
		case M_HOVER: vd = fwd * base; break;

		case M_FORWARD: vd = fwd * (plane ? 20 : lim); break;

		case M_BRAKE: vd = fwd * (plane ? 12 : -0.5 * lim); break;

		case M_SIDE: vd = plane ? fwd * base : rgt * lim; break;

		case M_CLIMB: vd = fwd * base + V3{0, 0, -2}; break;

		case M_DESCEND: vd = fwd * base + V3{0, 0, w.x.p.z > -3 ? 0 : 1.0}; break;

		case M_LEFT: vd = fwd * base; yr = -0.5; break;

		case M_RIGHT: vd = fwd * base; yr = 0.8; break;

		case M_CIRCLE: if (cfg == F_EVROT) { break; } vd = fwd * std::max(base, 0.8 * lim); yr = 0.4; break;

		case M_WIGGLE: vd = fwd * base; if (cfg == F_EVROT) { break; } roll = 25 * DEG * std::sin(1.3 * u); pitch = 20 * DEG * std::sin(1.7 * u); break;
		}

		const V3 err = vd - w.x.v;
		w.cmd_a = err * std::min(2.0, 3.0 / std::max(err.norm(), 1e-6));

		if (plane) { w.cmd_a = w.cmd_a + rgt * (w.x.v.hnorm() * yr); }

		const V3 rate{0, 0, yr};
		w.cmd_w = rate + V3{3 * (roll - w.x.q.roll()), 3 * (pitch - w.x.q.pitch()), 0};
	}
	void tick()
	{
		control();
		e().setIMUData(w.advance(w.imu_dt));
		w.sensors();
		way += w.x.v.hnorm() * w.imu_dt * 1e-6;
		const bool u = e().update();
		mc::transition();

		if (u) { judge(); }
	}
	void run(double sec) { const uint64_t end = w.t + uint64_t(sec * 1e6); while (w.t < end) { tick(); } }

	void judge();
};

struct Tol { double tilt, yaw, vh, vz, ph, pz; };

void Fly::judge()
{
	const filter_control_status_u c = e().control_status();
	const double t = (w.t - w.t0) * 1e-6;
	Ekf &k = e();

	if (t < 12) { return; }

	if (!(c.flags.yaw_align && c.flags.gps)) { aided_since = w.t; }

	const bool settled = flying && (cfg != F_NOMAG || (w.t - aided_since) > 3000000);
	mc::evaluation(settled);
	static const Tol tol[NCFG] = {
		{1.1, 3, 0.25, 0.12, 0.2, 0.15}, {2.7, 8.5, 0.6, 0.15, 0.35, 0.15}, {1, 4.5, 0.25, 0.12, 0.2, 0.15}, {1, 1.5, 0.2, 0.12, 0.2, 0.15}, {4.5, 30, 2.3, 0.4, 1.7, 0.45}, {1, 4.5, 0.4, 0.12, 0, 0},
		{1, 1, 0.1, 0.06, 0.1, 0.06}, {1, 8, 0.6, 0.1, 0, 0}, {1.9, 3.8, 0.35, 0.3, 0.2, 0.2}, {1.6, 5.5, 0.6, 0.15, 0.9, 0.2}, {1.8, 4.5, 0.8, 0.1, 1.3, 0.3}
	};
	// longer sequences and more headings lead to larger deviations
	static const double scale = getenv("TRUTH_SCALE") ? atof(getenv("TRUTH_SCALE")) : mc::thorough() ? 2 : 1;
	Tol T = tol[cfg];

	// the rotated vision frame adds its own unknown rotation, which the longer histories stretch further
	const double more = mc::thorough() && cfg == F_EVROT ? 2.5 * scale : scale;

	for (double *x : {&T.tilt, &T.yaw, &T.vh, &T.vz, &T.ph, &T.pz}) { *x *= more; }

	const Q4 q = q4(k.getQuaternion());
	const double te = tilt_angle(q, w.x.q) / DEG, ye = q_angle(q, w.x.q) / DEG;
	const V3 v = v3(k.getVelocity()), p = v3(k.getPosition());
	const V3 ve = v - w.x.v;
	const std::string at = stat ? where() : "";
	note_max(cfg, 0, te, at);
	MC_CHECK(te < T.tilt, "tilt", "%s the tilt is wrong by %.2f deg", where(), te);
	MC_CHECK(c.flags.tilt_align, "flags", "%s the tilt is not aligned", where());

	if (!settled) { return; }

	note_max(cfg, 1, ye, at);
	MC_CHECK(c.flags.yaw_align, "flags", "%s the heading is not aligned", where());
	MC_CHECK(ye < T.yaw, "attitude", "%s the attitude is wrong by %.2f deg", where(), ye);
	MC_CHECK(c.flags.gps || c.flags.opt_flow || c.flags.ev_pos || c.flags.ev_vel, "flags", "%s the velocity is not aided", where());
	note_max(cfg, 2, ve.hnorm(), at);
	note_max(cfg, 3, std::fabs(ve.z), at);
	MC_CHECK(ve.hnorm() < T.vh && std::fabs(ve.z) < T.vz, "velocity", "%s the velocity is %.2f %.2f %.2f, truth %.2f %.2f %.2f", where(), v.x, v.y, v.z, w.x.v.x, w.x.v.y, w.x.v.z);

	if (cfg == F_FLOW || cfg == F_EVVEL) {
		if (!p0_set) { p0_set = true; p0 = p - w.x.p; way = 0; }

		const V3 d = p - w.x.p - p0;
		note_max(cfg, 4, d.hnorm() / (1 + 0.05 * way), at);
		MC_CHECK(d.hnorm() < 1 + 0.05 * way, "drift", "%s the position has drifted by %.2f %.2f over %.1f m", where(), d.x, d.y, way);

	} else if (c.flags.gps) {
		double la, lo, ta, to;
		uint64_t ot;
		float oa;
		MC_CHECK(k.getEkfGlobalOrigin(ot, la, lo, oa), "origin", "%s there is no origin", where());
		// the position on the globe
		const double n = p.x / EARTH_R, ea = p.y / EARTH_R, cc = std::hypot(n, ea);
		double gla = la, glo = lo;

		if (cc > 1e-14) {
			gla = std::asin(std::cos(cc) * std::sin(la * DEG) + n * std::sin(cc) * std::cos(la * DEG) / cc) / DEG;
			glo = lo + std::atan2(ea * std::sin(cc), cc * std::cos(la * DEG) * std::cos(cc) - n * std::sin(la * DEG) * std::sin(cc)) / DEG;
		}

		w.to_global(w.x.p, ta, to);
		const double dn = (gla - ta) * DEG * EARTH_R, de = wrap((glo - to) * DEG) * EARTH_R * std::cos(ta * DEG);
		const double dz = (double(oa) - p.z) - (w.alt0 - w.x.p.z);
		note_max(cfg, 4, std::hypot(dn, de), at);
		note_max(cfg, 5, std::fabs(dz), at);
		MC_CHECK(std::hypot(dn, de) < T.ph, "global position", "%s the position on the globe is wrong by %.2f m north, %.2f m east", where(), dn, de);
		MC_CHECK(std::fabs(dz) < T.pz, "altitude", "%s the altitude is wrong by %.2f m", where(), dz);
		MC_CHECK(k.global_position_is_valid(), "flags", "%s the global position is not valid", where());

	} else {
		const V3 pe = (cfg == F_EVROT ? p - w.x.p : p - w.x.p);
		note_max(cfg, 4, pe.hnorm(), at);
		note_max(cfg, 5, std::fabs(pe.z), at);
		MC_CHECK(pe.hnorm() < T.ph + (cfg == F_EVROT ? 0.07 * w.x.p.hnorm() : 0) && std::fabs(pe.z) < T.pz, "position", "%s the position is %.2f %.2f %.2f, truth %.2f %.2f %.2f", where(), p.x, p.y, p.z, w.x.p.x, w.x.p.y, w.x.p.z);
	}

	// the reported uncertainty covers the error
	const auto P = k.covariances_diagonal();
	const double sv = std::sqrt(std::max(P(4), P(5)));
	note_max(cfg, 6, ve.hnorm() / (3 * sv + 0.1), at);
	const bool modelled = cfg != F_GPSH && cfg != F_NOMAG && cfg != F_EVVEL && cfg != F_EVROT;
	MC_CHECK(!modelled || ve.hnorm() < 3 * sv + 0.1, "uncertainty", "%s the velocity is wrong by %.2f m/s, its reported standard deviation is %.2f m/s", where(), ve.hnorm(), sv);

	if (t > 25) {
		const V3 gb = v3(k.getGyroBias()), ab = v3(k.getAccelBias());
		note_max(cfg, 7, std::max(std::fabs(gb.x - w.gyro_bias.x), std::fabs(gb.y - w.gyro_bias.y)), at);
		note_max(cfg, 8, std::fabs(gb.z - w.gyro_bias.z), at);
		note_max(cfg, 9, std::fabs(ab.z - w.accel_bias.z), at);
		const double xy = std::max(std::fabs(gb.x - w.gyro_bias.x), std::fabs(gb.y - w.gyro_bias.y));
		MC_CHECK(xy < (cfg == F_NOMAG ? 0.007 : 0.004) && std::fabs(gb.z - w.gyro_bias.z) < 0.01, "gyro bias", "%s the gyro bias is %.4f %.4f %.4f, truth %.4f %.4f %.4f", where(), gb.x, gb.y, gb.z,
			 w.gyro_bias.x, w.gyro_bias.y, w.gyro_bias.z);
		MC_CHECK(std::fabs(ab.z - w.accel_bias.z) < (cfg == F_NOMAG ? 0.05 : 0.025), "accel bias", "%s the vertical accelerometer bias is %.3f, truth %.3f", where(), ab.z, w.accel_bias.z);

		if (c.flags.wind) {
			const Vector2f wd = k.getWindVelocity();
			note_max(cfg, 10, std::hypot(wd(0) - w.wind.x, wd(1) - w.wind.y), at);
		}
	}
}

static void fly_body()
{
	std::unique_ptr<Fly> o(new Fly);
	World &w = o->w;
	o->cfg = mc::choose(NCFG);
	const int NH = mc::thorough() ? 6 : 3;
	const int ip = mc::choose(NPLACE), iy = mc::choose(NH);
	const Place &pl = places[ip];
	parameters &P = w.make(0);
	w.lat0 = pl.lat; w.lon0 = pl.lon; w.alt0 = pl.alt;
	w.imu_dt = 10000;
	const double yaw = wrap((10 + 25.0 * ip + 360.0 / NH * iy) * DEG);
	char t[100];
	snprintf(t, sizeof(t), "%s, heading %.0f", pl.name, yaw / DEG);
	o->log = t;
	mc::note("%s, %s", cfg_name[o->cfg], t);
	w.ekf->set_min_required_gps_health_time(1000000);
	w.ekf->set_rangefinder_limits(0.05f, 60.f);
	w.ekf->set_optical_flow_limits(8.f, 0.05f, 60.f);
	bool gps = true, mag = true, ev = false, flow = false;
	w.wind = {2.0, -1.5, 0};
	o->biased = (ip + iy + o->cfg) % 2;

	if (o->biased) { w.gyro_bias = {0.01, -0.008, 0.005}; w.accel_bias = {0.05, -0.04, 0.08}; }

	switch (o->cfg) {
	case F_GPS: break;

	case F_GPSH: P.vdist_sensor_type = VDIST_SENSOR_GPS; P.mag_fusion_type = MAG_FUSE_TYPE_HEADING; break;

	case F_3D: P.mag_fusion_type = MAG_FUSE_TYPE_3D; break;

	case F_GPSYAW: P.fusion_mode = MASK_USE_GPS | MASK_USE_GPSYAW; P.mag_fusion_type = MAG_FUSE_TYPE_NONE; mag = false; w.gps_yaw = true; break;

	case F_NOMAG: P.mag_fusion_type = MAG_FUSE_TYPE_NONE; mag = false; break;

	case F_FLOW: P.fusion_mode = MASK_USE_OF; gps = false; flow = true; break;

	case F_EVALL: P.fusion_mode = MASK_USE_EVPOS | MASK_USE_EVYAW | MASK_USE_EVVEL; P.vdist_sensor_type = VDIST_SENSOR_EV; gps = false; ev = true; break;

	case F_EVVEL: P.fusion_mode = MASK_USE_EVVEL; gps = false; ev = true; w.ev_vel_frame = velocity_frame_t::BODY_FRAME_FRD; break;

	case F_PLANE: o->plane = true; break;

	case F_GPSEV: P.fusion_mode = MASK_USE_GPS | MASK_USE_EVPOS; ev = true; break;

	case F_EVROT: P.fusion_mode = MASK_USE_EVPOS | MASK_ROTATE_EV; gps = false; ev = true; w.ev_yaw_off = 1.1; break;
	}

	if (!gps) {
		P.mag_declination_source = 0;
		P.mag_declination_deg = float(get_mag_declination_degrees(float(pl.lat), float(pl.lon)));
	}

	w.begin();
	w.x.q = q_euler(0, 0, yaw);
	w.x.p = {0, 0, -0.12};
	w.range_dither = 0.01;
	w.baro.start(w.t, 3000);

	if (mag) { w.mag.start(w.t, 1000); }

	if (gps) { w.gps.start(w.t, 11000); }

	if (flow) { w.flow.start(w.t, 9000); w.range.start(w.t, 7000); }

	if (ev) { w.ev.start(w.t, 5000); }

	if (o->plane) { w.airspeed.start(w.t, 13000); }

	o->run(12.5);
	// take off
	o->flying = true;
	w.ekf->set_in_air_status(true);

	if (o->plane) { w.ekf->set_is_fixed_wing(true); w.ekf->set_fuse_beta_flag(true); }

	o->man = M_CLIMB;
	o->man_since = w.t;
	o->run(4);

	if (o->cfg == F_NOMAG) { o->man = M_FORWARD; o->man_since = w.t; o->run(4); }

	const int depth = mc::thorough() ? 3 : 2;

	for (int i = 0; i < depth; i++) {
		o->man = mc::choose(NMAN);
		o->man_since = w.t;
		o->log += std::string("; ") + man_name[o->man];
		mc::note("%s", man_name[o->man]);
		o->run(5);
	}

	if (stat) { dump(); }

	mc::visit(mc::hash_pod(uint64_t(o->cfg) * 64 + ip * 4 + iy, state_of(o->e())));

	if (mc::hash_pod(7, state_of(o->e())) % 401 == 0) { mc::sample("%s, %s: ends at (%.2f, %.2f, %.2f)", cfg_name[o->cfg], o->log.c_str(), w.x.p.x, w.x.p.y, w.x.p.z); }
}

int main(int argc, char **argv)
{
	const char *a = getenv("MC_ARGS");
	const std::string id = a ? a : "E21";
	P_E20 = id == "E20"; P_E21 = id == "E21";
	stat = getenv("TRUTH_STAT") != nullptr;
	mc::init(argc, argv, id.c_str());

	if (!mc::replaying() && getenv("MC_RESULT")) { if (!freopen("/dev/null", "w", stdout)) { return 3; } }

	if (P_E20) {
		mc::rule("all combinations of 6 heading sensors, 5 starts (at rest, turning, falling, accelerated, in the air), 12 (thorough 24) roll angles, 7 (11) pitch angles and 4 (12) headings, spread over 6 places on the globe; every filter update is an evaluation "
			 "of the attitude against the truth, non-trivial once the filter has started");
		mc::explore("alignment", mc::FORK, align_body, 2);
	}

	if (P_E21) {
		mc::rule("all sequences of 2 (thorough 3) of 10 manoeuvres for 11 kinds of aiding, 6 places on the globe and 3 (thorough 6) headings; every filter update is an evaluation of attitude, velocity, position, altitude and place on the globe against the truth, non-trivial in flight");
		mc::explore("flights", mc::FORK, fly_body, 3);
	}

	if (stat) { dump(); }

	mc::finish();
	return 0;
}

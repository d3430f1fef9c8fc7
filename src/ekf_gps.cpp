// E08 (GPS quality checks) and E13 (origin): the real filter is given every sequence of GPS quality events / origin
// commands up to a depth; a reference of the documented rules predicts every check bit, drift figure and decision.
#include "ekfsim.h"
#include <memory>
#include <string>
#include <vector>

using namespace sim;

// ------------------------------------------------------------------ E08
enum Ev8 { GOOD, EDGE, FIX2, FIX4, NSATS, PDOP, HACC, VACC, SACC, HDRIFT, VDRIFT, HSPEED, VSPEED, SILENT, SHAKE, AIR, NEV8 };
static const char *n8[NEV8] = {"all good", "exactly at the limits", "2D fix", "RTK fix", "too few satellites", "PDOP high", "horizontal accuracy bad", "vertical accuracy bad", "speed accuracy bad",
			       "horizontal drift", "vertical drift", "horizontal speed", "vertical speed", "no GPS data", "vehicle shaken", "in-air flag toggles"
			      };

struct Gps8 {
	World w;
	bool direct{false};
	int mask{21};
	uint32_t health{2000000};
	std::string log;
	// the GPS as it behaves now
	bool silent{true}, shake{false}, air{false};
	V3 drift, vel;
	uint64_t next{0};
	// reference
	uint64_t prev_t{0}, fail{0}, pass{0};
	double plat{0}, plon{0}, palt{0};
	double dN{0}, dE{0}, dD{0}, vN{0}, vE{0}, vzf{0};
	double met[3] {0, 0, 0};
	bool drift_fail[3] {false, false, false};
	bool upd{false};
	unsigned bits{0};
	bool origin{false};
	uint64_t origin_t{0}, last_msg{0}, first_msg{0}, aligned{0};
	int32_t olat{0}, olon{0};
	double oalt{0};

	Ekf &e() { return *w.ekf; }
	const parameters &p() { return w.par(); }
	const char *where() { static char t[300]; snprintf(t, sizeof(t), "[mask 0x%x health %u%s t=%.2f%s]", mask, health, direct ? " direct" : "", (w.t - w.t0) * 1e-6, log.c_str()); return t; }

	void message()
	{
		gps_message m = w.gps_tmpl;
		m.time_usec = w.t;
		const double s = (w.t - w.t0) * 1e-6;
		(void)s;
		pos = pos + drift * ((w.t - pos_t) * 1e-6);
		pos_t = w.t;
		double la, lo;
		w.to_global(pos, la, lo);
		m.lat = int32_t(std::lround(la * 1e7));
		m.lon = int32_t(std::lround(lo * 1e7));
		m.alt = int32_t(std::lround((w.alt0 - pos.z) * 1e3));
		m.vel_ned = f3(vel);
		const bool rest = e().isVehicleAtRest(), flying = e().control_status_flags().in_air;
		const double vz = state_of(e()).s[6], pz = state_of(e()).s[9];
		const bool ready = e().attitude_valid() || first_update;   // the filter has been initialised
		const uint64_t t = w.t;      // the newest inertial sample
		bool ret = false, seen = true;

		if (direct) { ret = e().collect_gps(m); }

		else { seen = m.fix_type > 2; e().setGpsData(m); }

		if (!seen) { return; }

		last_msg = t;
		if (!first_msg) { first_msg = t; }

		// ---- reference
		unsigned b = 0;
		b |= (m.fix_type < 3) << 0;
		b |= (m.nsats < p().req_nsats) << 1;
		b |= (m.pdop > p().req_pdop) << 2;
		b |= (m.eph > p().req_hacc) << 3;
		b |= (m.epv > p().req_vacc) << 4;
		b |= (m.sacc > p().req_sacc) << 5;
		const double dt = std::min(std::max((double(t) - double(prev_t)) * 1e-6, 0.001), 10.0), k = dt / 10.0;
		const double lat = m.lat * 1e-7, lon = m.lon * 1e-7, alt = m.alt * 1e-3;
		auto lim = [](double v, double l) { return std::min(std::max(v, -l), l); };
		unsigned unsure = 0;
		auto over = [&](double v, double thr, int bit) { if (std::fabs(v - thr) < 2e-3 * (1 + thr)) { unsure |= 1u << bit; } return v > thr; };

		if (!flying && rest) {
			double n = 0, ea = 0, d = 0;

			if (prev_t) {
				n = (lat - plat) * DEG * EARTH_R;
				ea = wrap((lon - plon) * DEG) * EARTH_R * std::cos(lat * DEG);
				d = palt - alt;
			}

			const double hl = 10.0 * p().req_hdrift, vl = 10.0 * p().req_vdrift;
			dN += k * (lim(n / dt, hl) - dN);
			dE += k * (lim(ea / dt, hl) - dE);
			dD += k * (lim(d / dt, vl) - dD);
			vN += k * (lim(m.vel_ned(0), hl) - vN);
			vE += k * (lim(m.vel_ned(1), hl) - vE);
			met[0] = std::hypot(dN, dE);
			met[1] = std::fabs(dD);
			met[2] = std::hypot(vN, vE);
			drift_fail[0] = over(met[0], p().req_hdrift, 6);
			drift_fail[1] = over(met[1], p().req_vdrift, 7);
			drift_fail[2] = over(met[2], p().req_hdrift, 8);
			upd = true;

		} else {
			dN = dE = dD = vN = vE = 0;
			upd = !flying;

			if (flying) { drift_fail[0] = drift_fail[1] = drift_fail[2] = false; }
		}

		prev_t = t; plat = lat; plon = lon; palt = alt;
		vzf += k * (lim(m.vel_ned(2) - vz, 10.0 * p().req_vdrift) - vzf);
		const bool vs = over(std::fabs(vzf), p().req_vdrift, 9);
		b |= unsigned(drift_fail[0]) << 6 | unsigned(drift_fail[1]) << 7 | unsigned(drift_fail[2]) << 8 | unsigned(vs) << 9;
		uint16_t st;
		e().get_gps_check_status(&st);
		MC_CHECK(((st ^ b) & ~unsure) == 0, "check bits", "%s check status 0x%x, the rules give 0x%x (fix sats pdop hacc vacc sacc hdrift vdrift hspeed vspeed)", where(), st, b);
		bits = st;

		for (int i = 0; i < 3; i++) { drift_fail[i] = st >> (6 + i) & 1; }

		float met_f[3];
		bool blocked;
		const bool up = e().get_gps_drift_metrics(met_f, &blocked);
		MC_CHECK(up == upd && blocked == !rest, "drift report", "%s drift figures updated %d blocked %d, expected %d %d", where(), up, blocked, upd, !rest);
		bool again = e().get_gps_drift_metrics(met_f, &blocked);
		MC_CHECK(!again, "drift report", "%s the same drift figures are reported as new twice", where());
		MC_CHECK(std::fabs(met_f[0] - met[0]) < 1e-3 && std::fabs(met_f[1] - met[1]) < 1e-3 && std::fabs(met_f[2] - met[2]) < 1e-3, "drift figures", "%s drift %.4f %.4f %.4f, expected %.4f %.4f %.4f", where(), double(met_f[0]), double(met_f[1]), double(met_f[2]), met[0], met[1], met[2]);

		// ---- the verdict
		if (!fail) { fail = t; }

		const unsigned used = 1u | unsigned(mask & 0x1ff) << 1;

		if (st & used) { fail = t; }

		else { pass = t; }

		const bool ok = t > fail + health;

		if (!origin && ready && ok) {
			origin = true;
			origin_t = t; olat = m.lat; olon = m.lon; oalt = alt + pz;
			MC_CHECK(e().information_event_status().flags.gps_checks_passed, "event", "%s the origin is set but not announced", where());
		}

		MC_CHECK(e().global_origin_valid() == origin, "origin", "%s the origin is %s although GPS was good for %.2f s", where(), origin ? "not set" : "set", (t - fail) * 1e-6);
		MC_CHECK(!direct || ret == (origin && m.fix_type >= 3), "accepted", "%s the fix is %s", where(), ret ? "accepted" : "refused");
		check_origin();
		mc::evaluation(true);
	}

	void check_origin()
	{
		if (!origin) { return; }

		uint64_t ot;
		double la, lo;
		float al;
		MC_CHECK(e().getEkfGlobalOrigin(ot, la, lo, al), "origin", "%s no origin", where());
		MC_CHECK(std::fabs(la - olat * 1e-7) < 2e-9 && std::fabs(lo - olon * 1e-7) < 2e-9 && std::fabs(al - oalt) < 1e-3 && ot == origin_t, "origin value", "%s origin %.8f %.8f %.3f at %llu, expected %.8f %.8f %.3f at %llu", where(), la, lo, double(al), (unsigned long long)ot, olat * 1e-7, olon * 1e-7, oalt, (unsigned long long)origin_t);
	}

	V3 pos;
	uint64_t pos_t{0};
	bool first_update{false};

	void tick()
	{
		// the vehicle stands still, possibly shaken by hand
		w.gyro_dither = shake ? 0.2 : 0;
		const imuSample s = w.advance(w.imu_dt);
		e().setIMUData(s);
		w.sensors();

		if (!silent && w.t >= next) { next = w.t + 200000; message(); }

		const bool was = e().control_status_flags().gps;
		const bool u = e().update();
		w.updates += u;
		first_update = first_update || u;
		mc::transition();

		if (!u) { return; }

		const auto &c = e().control_status_flags();

		if (c.tilt_align && c.yaw_align && !aligned) { aligned = w.t; }

		if (direct) { MC_CHECK(!c.gps, "gps flag", "%s GPS is used without data", where()); return; }

		const double good = fail ? (double(w.t) - double(fail)) * 1e-6 : 0;

		if (c.gps && !was) {
			MC_CHECK(aligned && origin && good > 5.0, "start", "%s GPS use started after %.2f s of good quality (aligned %d origin %d)", where(), good, bool(aligned), origin);
		}

		const bool flowing = last_msg && w.t - last_msg < 250000;

		if (flowing && aligned && w.t - aligned > 500000 && origin && w.t - origin_t > 500000 && good > 5.3 && w.t - first_msg > 500000) { MC_CHECK(c.gps, "start", "%s GPS is not used after %.2f s of good quality", where(), good); }

		if (was && !c.gps) { MC_CHECK((w.t - last_msg) * 1e-6 > 9.5, "stop", "%s GPS was dropped without an alternative", where()); }

		check_origin();
	}
	void run(double sec) { const uint64_t end = w.t + uint64_t(sec * 1e6); while (w.t < end) { tick(); } }

	void set(int ev)
	{
		gps_message &g = w.gps_tmpl;
		g.fix_type = 3; g.nsats = 12; g.pdop = 1.2f; g.eph = 1; g.epv = 1.5f; g.sacc = 0.3f;
		drift = vel = {};
		silent = false;
		shake = false;

		switch (ev) {
		case EDGE: g.nsats = uint8_t(p().req_nsats); g.pdop = p().req_pdop; g.eph = p().req_hacc; g.epv = p().req_vacc; g.sacc = p().req_sacc; break;

		case FIX2: g.fix_type = 2; break;

		case FIX4: g.fix_type = 6; break;

		case NSATS: g.nsats = uint8_t(p().req_nsats - 1); break;

		case PDOP: g.pdop = p().req_pdop * 1.01f; break;

		case HACC: g.eph = p().req_hacc * 1.01f; break;

		case VACC: g.epv = p().req_vacc * 1.01f; break;

		case SACC: g.sacc = p().req_sacc * 1.01f; break;

		case HDRIFT: drift = {1.5, -1.8, 0}; break;

		case VDRIFT: drift = {0, 0, 20}; break;

		case HSPEED: vel = {-2.0, 1.5, 0}; break;

		case VSPEED: vel = {0, 0, -20}; break;

		case SILENT: silent = true; break;

		case SHAKE: shake = true; break;

		case AIR: air = !air; e().set_in_air_status(air); break;

		default: break;
		}

		next = std::max(next, w.t);
	}
};

static void e08()
{
	static const int masks[12] = {21, 0, 0x1ff, 1, 2, 4, 8, 16, 32, 64, 128, 256};
	static const double durs[3] = {0.5, 2.6, 6.1};
	const bool th = mc::thorough();
	mc::rule("all sequences of GPS behaviours from a menu of 16 (fix type, satellites, dilution, accuracies, drift and speed at rest, each on either side of its limit) and durations 0.5 / 2.6 / 6.1 s, depth 2 to 3 (thorough 3 to 4), for 12 "
		 "selections of checks, 3 required times and both entry points; every message is an evaluation, judged against the documented rules; states are the distinct end states");
	mc::explore("gps quality", mc::FORK, [&] {
		std::unique_ptr<Gps8> g(new Gps8);
		parameters &P = g->w.make(0);
		const int cm = mc::choose(12);
		g->mask = P.gps_check_mask = masks[cm];
		g->direct = mc::choose(2);
		P.req_nsats = 7; P.req_hdrift = 0.2f; P.req_vdrift = 0.4f; P.req_hacc = 4.f; P.req_vacc = 7.f; P.req_sacc = 0.9f; P.req_pdop = 2.2f;
		g->health = cm == 0 ? 2000000 : 3500000;
		g->w.imu_dt = 10000;
		g->w.ekf->set_min_required_gps_health_time(g->health);
		g->w.begin();
		g->pos_t = g->w.t;
		g->w.baro.start(g->w.t, 3000);
		g->w.mag.start(g->w.t, 1000);
		// the GPS may come up before the filter or after it
		const bool early = mc::choose(2);

		if (early) { g->set(GOOD); }

		g->run(early ? 1.2 : 5.0);
		const int depth = (th ? 3 : 2) + (cm == 0 && !g->direct && !early ? 1 : 0);

		for (int k = 0; k < depth; k++)
		{
			const int ev = mc::choose(NEV8);
			// every duration for the default checks, one per position for a single check
			const bool fixed = depth > 2 ? k == depth - 1 : cm && !th;
			// (after motion it takes a while until the drift is judged again)
			const bool moved = g->shake || g->air;
			const double T = fixed && depth > 2 && moved ? durs[2] : durs[fixed ? (depth > 2 ? 1 : 1 + k) : mc::choose(3)];
			char t[100];
			snprintf(t, sizeof(t), "; %s for %.1f s", n8[ev], T);
			g->log += t;
			mc::note("%s", t + 2);
			g->set(ev);
			g->run(T);
		}

		mc::visit(mc::hash_pod(mc::hash_pod(uint64_t(g->mask) * 4 + g->direct, g->bits), state_of(g->e())));

		if (mc::hash_pod(7, state_of(g->e())) % 301 == 0) { mc::sample("%s", g->where()); }
	}, 2);
}

// ------------------------------------------------------------------ E13
enum Cfg13 { O_GPS, O_GPSH, O_FLOW, O_RANGE, O_EV, O_GPSRNG, O_NONE, NC13 };
static const char *c13[NC13] = {"gps+baro", "gps height", "flow+baro", "range height+flow", "vision", "gps + range aid", "no aiding"};
struct Place { double lat, lon, alt; const char *name; };
static const Place places[] = {{47.3566, 8.5190, 422, "mid latitude"}, {0.00001, 0.0, 10, "equator and Greenwich"}, {-33.9, 179.99995, 30, "date line"}, {71.2, -156.8, 5, "far north"}, {-54.8, -68.3, 2500, "far south, high"}};

struct Org {
	World w;
	int cfg{0};
	std::string log;
	bool have{false};                 // an origin is known (by user or GPS)
	double olat{0}, olon{0};
	double oalt{0};
	uint64_t t_org{0};
	bool by_gps{false};
	uint8_t cnt[5] {};
	int wander{0};

	Ekf &e() { return *w.ekf; }
	const char *where() { static char t[400]; snprintf(t, sizeof(t), "[%s %s t=%.2f%s]", c13[cfg], pl->name, (w.t - w.t0) * 1e-6, log.c_str()); return t; }
	const Place *pl{nullptr};

	// position of the estimate on the globe by its own origin
	bool global(double &lat, double &lon, double &alt)
	{
		uint64_t ot;
		double la, lo;
		float al;
		const bool v = e().getEkfGlobalOrigin(ot, la, lo, al);
		const V3 p = state_of(e()).p();
		World m;                       // only its projection is used
		m.lat0 = la; m.lon0 = lo;
		m.to_global(p, lat, lon);
		alt = al - p.z;
		return v;
	}
	void control()
	{
		// fly around slowly after take-off
		const double t = (w.t - w.t0) * 1e-6;
		V3 vd;

		if (flying) { vd = {1.2 * std::sin(0.5 * t), 1.0 * std::cos(0.4 * t), 0.6 * (-3.5 - w.x.p.z) + 0.2 * std::sin(t)}; if (vd.z < -1.5) { vd.z = -1.5; } }

		const V3 err = vd - w.x.v;
		w.cmd_a = flying ? err * std::min(4.0, 3.0 / std::max(err.norm(), 1e-6)) : V3{};
		w.cmd_w = flying ? V3{0.05 * std::sin(t) - w.x.q.roll(), 0.05 * std::cos(t) - w.x.q.pitch(), 0.1 * std::sin(0.3 * t)} : V3{};
	}
	bool flying{false};
	bool judged{false};
	double limit{0};
	uint64_t settle{0};

	void tick()
	{
		control();
		const imuSample s = w.advance(w.imu_dt);
		e().setIMUData(s);
		const uint8_t before = origin_valid();
		const double pz = state_of(e()).s[9];
		w.sensors();

		if (!before && e().global_origin_valid()) { gps_origin(pz); }

		const bool u = e().update();
		w.updates += u;
		mc::transition();

		if (u) { judge(); }
	}
	bool origin_valid() { return e().global_origin_valid(); }
	// the origin was just taken from the GPS message delivered in this tick
	void gps_origin(double pz)
	{
		uint64_t ot;
		double la, lo, lat, lon, alt;
		float al;
		e().getEkfGlobalOrigin(ot, la, lo, al);
		global(lat, lon, alt);
		const Truth d = w.at(w.t - w.gps.delay);
		double tl, to;
		w.to_global(d.p, tl, to);
		MC_CHECK(ot == w.t, "gps origin/time", "%s the origin carries time %llu, it was set at %llu", where(), (unsigned long long)ot, (unsigned long long)w.t);

		if (!have) {
			// no user origin: the place of the estimate (when it navigates) or of the zero of the frame is where the GPS is
			const double rl = aiding ? lat : la, ro = aiding ? lon : lo;
			MC_CHECK(std::fabs(rl - tl) * DEG * EARTH_R < 0.05 + d.v.hnorm() * 0.02 && std::fabs(wrap((ro - to) * DEG)) * EARTH_R * std::cos(tl * DEG) < 0.05, "gps origin/place", "%s the origin taken from GPS places the vehicle %.2f %.2f m from the GPS position", where(), (rl - tl) * DEG * EARTH_R, wrap((ro - to) * DEG) * EARTH_R * std::cos(tl * DEG));
			olat = la; olon = lo;

		} else {
			MC_CHECK(std::fabs(la - olat) < 1e-9 && std::fabs(wrap((lo - olon) * DEG)) < 1e-10, "gps origin/replaced", "%s the origin set by the user was moved by GPS from %.8f %.8f to %.8f %.8f", where(), olat, olon, la, lo);
		}

		MC_CHECK(std::fabs(al - (w.alt0 - d.p.z + pz)) < 0.02 + 1e-6 * std::fabs(al), "gps origin/height", "%s the origin height is %.3f, GPS height %.3f and estimate %.3f", where(), double(al), w.alt0 - d.p.z, pz);
		oalt = al;
		have = true;
		t_org = ot;
		by_gps = true;
	}
	bool aiding{false};
	void judge()
	{
		aiding = e().isHorizontalAidingActive();
		uint64_t ot;
		double la, lo;
		float al;
		const bool v = e().getEkfGlobalOrigin(ot, la, lo, al);
		MC_CHECK(v == e().global_origin_valid() && al == e().getEkfGlobalOriginAltitude(), "query", "%s the origin queries disagree", where());
		MC_CHECK(!v || have, "unknown", "%s an origin is reported although none was given", where());

		if (!have) { return; }

		mc::evaluation(true);
		MC_CHECK(std::fabs(la - olat) < 1e-9 && std::fabs(wrap((lo - olon) * DEG)) < 1e-10 && std::fabs(al - oalt) < 1e-3 && ot == t_org, "moved", "%s the origin is %.8f %.8f %.3f, it was set to %.8f %.8f %.3f", where(), la, lo, double(al), olat, olon, oalt);
		float r[4];
		uint8_t c[5];
		e().get_posNE_reset(r, &c[0]);
		e().get_posD_reset(r, &c[1]);

		if (limit > 0 && w.t > settle) {
			double lat, lon, alt;
			global(lat, lon, alt);
			const Truth d = w.at(e().get_imu_sample_delayed().time_us);
			double tl, to;
			w.to_global(d.p, tl, to);
			const double n = (lat - tl) * DEG * EARTH_R, ea = wrap((lon - to) * DEG) * EARTH_R * std::cos(tl * DEG), da = alt - (w.alt0 - d.p.z) - alt_bias;
			MC_CHECK(std::hypot(n, ea) < limit, "global position", "%s the estimate is %.2f m north %.2f m east of the vehicle", where(), n, ea);
			MC_CHECK(std::fabs(da) < limit, "global height", "%s the estimated altitude is %.2f m off", where(), da);
			float h;
			(void)h;
		}

		if (frozen) { MC_CHECK(c[0] == cnt[0] && c[1] == cnt[1], "reset", "%s the position was reset after the origin had been changed (%d %d)", where(), uint8_t(c[0] - cnt[0]), uint8_t(c[1] - cnt[1])); }

		cnt[0] = c[0]; cnt[1] = c[1];
	}
	bool frozen{false};
	double alt_bias{0};
	void run(double sec) { const uint64_t end = w.t + uint64_t(sec * 1e6); while (w.t < end) { tick(); } }

	void user(const V3 &move, double dalt)
	{
		double la, lo;
		w.to_global(move, la, lo);
		const double alt = w.alt0 + dalt;
		double lat0_, lon0_, alt0_, lat1, lon1, alt1;
		uint64_t ot;
		double a, b_;
		float c_;
		const bool known = e().getEkfGlobalOrigin(ot, a, b_, c_) || have;
		global(lat0_, lon0_, alt0_);
		const St s0 = state_of(e());
		const V3 out0 = v3(e().getPosition()), outv0 = v3(e().getVelocity());
		const double hagl0 = e().getTerrainVertPos() - s0.s[9];
		const Quatf q0 = e().getQuaternion();
		float r[4];
		uint8_t n0, n1, d0, d1, x;
		e().get_posNE_reset(r, &n0);
		e().get_posD_reset(r, &d0);
		const bool ok = e().setEkfGlobalOrigin(la, lo, float(alt));
		MC_CHECK(ok, "command", "%s a valid origin is refused", where());
		const bool was_have = have;
		have = true;
		olat = la; olon = lo; oalt = float(alt); t_org = w.t;
		uint64_t t2;
		e().getEkfGlobalOrigin(t2, a, b_, c_);
		t_org = t2;
		MC_CHECK(std::fabs(a - la) < 1e-9 && std::fabs(wrap((b_ - lo) * DEG)) < 1e-10 && std::fabs(c_ - float(alt)) < 1e-3, "command", "%s the origin was set to %.8f %.8f %.3f, it is %.8f %.8f %.3f", where(), la, lo, alt, a, b_, double(c_));
		const St s1 = state_of(e());
		const V3 out1 = v3(e().getPosition()), outv1 = v3(e().getVelocity());
		float pn[2], pd;
		e().get_posNE_reset(pn, &n1);
		e().get_posD_reset(&pd, &d1);
		(void)x;
		const V3 dp = s1.p() - s0.p();

		if (known && aiding && was_have) {
			global(lat1, lon1, alt1);
			MC_CHECK(std::fabs(lat1 - lat0_) * DEG * EARTH_R < 0.02 + 2e-7 * move.hnorm() && std::fabs(wrap((lon1 - lon0_) * DEG)) * EARTH_R * std::cos(la * DEG) < 0.02 + 2e-7 * move.hnorm() && std::fabs(alt1 - alt0_) < 0.01, "command/moved vehicle", "%s the command moved the vehicle on the globe by %.3f %.3f %.3f m", where(), (lat1 - lat0_) * DEG * EARTH_R, wrap((lon1 - lon0_) * DEG) * EARTH_R * std::cos(la * DEG), alt1 - alt0_);
			MC_CHECK(uint8_t(n1 - n0) == 1 && uint8_t(d1 - d0) == 1 && std::hypot(pn[0] - dp.x, pn[1] - dp.y) < 1e-2 + 1e-6 * move.hnorm() && std::fabs(pd - dp.z) < 1e-3, "command/announcement", "%s the local position changed by %.3f %.3f %.3f, announced %.3f %.3f %.3f", where(), dp.x, dp.y, dp.z, double(pn[0]), double(pn[1]), double(pd));
			MC_CHECK(std::fabs(e().getTerrainVertPos() - s1.s[9] - hagl0) < 0.01, "command/terrain", "%s the height above ground changed from %.3f to %.3f", where(), hagl0, double(e().getTerrainVertPos() - s1.s[9]));

		} else {
			MC_CHECK(n1 == n0 && d1 == d0 && dp.norm() == 0, "command/announcement", "%s the local position changed by %.3f %.3f %.3f without a known position on the globe", where(), dp.x, dp.y, dp.z);
		}

		// nothing else changes
		MC_CHECK((out1 - out0 - dp).norm() < 1e-2 + 1e-6 * move.hnorm() && (outv1 - outv0).norm() == 0, "command/output", "%s the output position moved by %.3f %.3f %.3f, the estimate by %.3f %.3f %.3f", where(), out1.x - out0.x, out1.y - out0.y, out1.z - out0.z, dp.x, dp.y, dp.z);
		bool same = true;

		for (int i = 0; i < 24; i++) { if (i < 7 || i > 9) { same = same && s0.s[i] == s1.s[i]; } }

		const Quatf q1 = e().getQuaternion();

		for (int i = 0; i < 4; i++) { same = same && q0(i) == q1(i); }

		MC_CHECK(same, "command/other", "%s the command changed more than the position", where());
		e().get_posNE_reset(r, &cnt[0]);
		e().get_posD_reset(r, &cnt[1]);
	}
};

static void e13()
{
	static const V3 moves[] = {{0, 0, 0}, {0.4, -0.3, 0}, {-40, 30, 0}, {2500, 1800, 0}};
	static const double dalts[] = {0, 0.5, -8};
	const bool th = mc::thorough();
	mc::rule("all sequences of up to three origin commands (4 distances x 3 heights) before, during and after alignment for 7 aiding configurations and 3 (thorough 5) places; every filter update after an origin is known is an evaluation "
		 "(origin, global position, published change, other states, height above ground against the true geometry); states are the distinct end states");
	mc::explore("origin", mc::FORK, [&] {
		std::unique_ptr<Org> o(new Org);
		World &w = o->w;
		parameters &P = w.make(0);
		o->cfg = mc::choose(NC13);
		o->pl = &places[mc::choose(th ? 5 : 3)];
		const Place &pl = *o->pl;
		w.lat0 = pl.lat; w.lon0 = pl.lon; w.alt0 = pl.alt;
		w.imu_dt = 10000;
		w.x.p = {0, 0, -0.1};
		w.range_dither = 0.01;
		w.ekf->set_min_required_gps_health_time(1000000);
		w.ekf->set_rangefinder_limits(0.05f, 40.f);
		w.ekf->set_optical_flow_limits(8.f, 0.05f, 40.f);
		bool gps = false, rng = false, flow = false, ev = false;

		switch (o->cfg)
		{
		case O_GPS: gps = true; break;

		case O_GPSH: gps = true; P.vdist_sensor_type = VDIST_SENSOR_GPS; break;

		case O_FLOW: rng = flow = true; P.fusion_mode = MASK_USE_OF; break;

		case O_RANGE: rng = flow = true; P.fusion_mode = MASK_USE_OF; P.vdist_sensor_type = VDIST_SENSOR_RANGE; break;

		case O_EV: ev = true; P.fusion_mode = MASK_USE_EVPOS; break;

		case O_GPSRNG: gps = rng = true; P.range_aid = 1; break;

		default: P.fusion_mode = 0;
		}

		w.begin();
		w.baro.start(w.t, 3000);
		w.mag.start(w.t, 1000);

		if (rng) { w.range.start(w.t, 7000); }

		if (flow) { w.flow.start(w.t, 9000); }

		if (ev) { w.ev.start(w.t, 5000); }

		// a user may give an origin before anything else
		o->run(4);
		char t[120];

		auto command = [&] {
			static const int few[6][2] = {{0, 0}, {1, 0}, {1, 1}, {2, 0}, {3, 2}, {4, 1}};
			const int f = th ? -1 : mc::choose(6);
			const int m = th ? mc::choose(5) : few[f][0];

			if (m == 0) { return false; }

			const int da = th ? mc::choose(3) : few[f][1];
			snprintf(t, sizeof(t), "; origin %.0f/%.0f/%.1f m away", moves[m - 1].x, moves[m - 1].y, dalts[da]);
			o->user(moves[m - 1], dalts[da]);
			o->log += t;
			mc::note("%s", t + 2);
			return true;
		};
		const bool first = command();
		o->run(0.5);

		if (gps) { w.gps.start(w.t, 5000); }

		o->run(7);
		o->e().set_in_air_status(true);
		o->flying = true;
		o->run(6);
		// now the estimate is known on the globe when GPS is used
		const bool track = gps;
		o->log += "; in flight";
		mc::note("%s", "in flight");

		if (track) { o->limit = 0.6; }

		(void)first;

		for (int k = 0; k < 2; k++)
		{
			const bool c = command();

			if (c) { o->frozen = !ev; if (!gps) { o->limit = 0; } }

			else if (k == 0) { break; }

			o->run(k == 0 ? 2 : 6);
		}

		mc::visit(mc::hash_pod(uint64_t(o->cfg) + 1, state_of(o->e())));

		if (mc::hash_pod(7, state_of(o->e())) % 101 == 0) { mc::sample("%s", o->where()); }
	}, 2);
}

int main(int argc, char **argv)
{
	const char *a = getenv("MC_ARGS");
	const std::string id = a ? a : "E08";
	mc::init(argc, argv, id.c_str());

	if (!mc::replaying() && getenv("MC_RESULT")) { if (!freopen("/dev/null", "w", stdout)) { return 3; } }

	if (id == "E13") { e13(); }

	else { e08(); }

	mc::finish();
	return 0;
}

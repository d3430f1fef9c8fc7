// One-step conformance of the full filter: along every environment of an enumerated menu, each update of the
// real filter is compared with a double precision reference filter that starts from the state and covariance
// the real filter had before that update, predicts with the inertial sample of the delayed horizon, and applies
// the measurements whose time has come, in the documented order.
#include "ekfref.h"
#include <deque>
#include <string>

using namespace sim;
using ref::Kf;
using ref::N;

static bool only_predict_x, only_predict_P, only_fusion;

struct Pub {
	const char *name; double ri, rv, gi, gv, itol;
	double vtol() const { return 2e-4 * std::fabs(rv) + 1e-9; }
	double tol() const { return itol + 2e-5 * std::fabs(ri); }
};

struct Cand {
	Kf k;
	Q4 re;                       // attitude the sensor corrections of this update are made with
	std::vector<Pub> pubs;
	std::string what;
	bool uncertain{false};       // a gate or a branch is too close to call
	bool stale_ev{false};
	bool fake{false}, beta{false}, drag{false}, rng{false}, flow{false}, aided{false}, full{false}, tas_in{false}, beta_in{false};
	double last_static{NAN};
	bool last_static321{false};
	double ev_pred[2] {0, 0}, fn{NAN}, fe{NAN};
	double learn_baro{NAN}, learn_hgt{NAN};  // height references taken over by this explanation
};

template<typename S> struct Fifo {
	std::deque<std::pair<uint64_t, S>> q;
	S cur{};
	uint64_t cur_t{0};
	void push(uint64_t t, const S &s) { q.emplace_back(t, s); if (q.size() > 64) { q.pop_front(); } }
	bool pop(uint64_t now)
	{
		bool got = false;

		while (!q.empty() && q.front().first <= now) {
			if (q.front().first + 100000 > now) { cur = q.front().second; cur_t = q.front().first; got = true; }

			q.pop_front();
		}

		return got;
	}
};

struct Gps { double n, e, hgt; V3 vel; double sacc, hacc, vacc, yaw, yaw_off; double lat, lon; };

struct Core {
	World w;
	Kf kp;                       // carries the filters of the prediction
	bool started{false};
	double cov_sum[24][24] {};
	int cov_n{0};
	V3 drift_sum, drift_v, drift_p;
	double drift_far{0};
	int drift_n{0};
	uint64_t n_upd{0}, n_cmp{0}, n_skip{0};
	// sensors
	bool s_mag{true}, s_baro{true}, s_gps{false}, s_range{false}, s_flow{false}, s_ev{false}, s_tas{false}, s_aux{false};
	uint32_t period{80000}, gps_period{160000};
	bool together{false};
	Fifo<V3> mag;
	Fifo<double> baro, range;
	Fifo<Gps> gps;
	Fifo<extVisionSample> ev;
	Fifo<flowSample> flow;
	Fifo<double> tas;
	Fifo<auxVelSample> aux;
	Fifo<V3> drag;
	// drag accumulation
	int drag_n{0};
	double drag_sum[2] {0, 0}, drag_dt{0};
	uint64_t drag_t{0};
	// inferred hidden quantities
	double last_alt_ref{NAN}, baro_off{NAN}, hgt_off{NAN}, fake_n{NAN}, fake_e{NAN};
	double last_static{NAN};
	bool last_static321{false};
	bool inhibited{false};
	uint64_t align_start{0};
	bool ev_prev{false};
	V3 ev_pos_prev; double ev_pred_prev[2] {0, 0};
	V3 of_ang; double of_dt{0}; V3 of_bias;
	uint64_t last_in_air{0};
	// occurrences
	uint64_t c_fake{0}, c_zero{0}, c_beta{0}, c_drag{0}, c_rng{0}, c_rng_due{0}, c_flow{0}, c_flow_due{0};
	uint64_t kinds[24] {};
	uint64_t t_fake{0}, t_beta{0};
	// the last time each periodic fusion happened or may have happened, or was not due
	uint64_t ok_fake{0}, ok_beta{0}, ok_drag{0}, ok_upright{0};
	bool stale_reported{false};
	uint64_t miss_rng{0}, miss_flow{0};
	bool drag_waiting{false};
	// when horizontal aiding was last surely and last possibly fused; the same for air data
	uint64_t aid_sure{0}, aid_maybe{0}, tas_sure{0}, tas_maybe{0}, beta_sure{0}, beta_maybe{0};

	parameters &par() { return w.par(); }
	Ekf &e() { return *w.ekf; }

	bool slot(uint64_t t, int s, double delay_ms, uint32_t per)
	{
		const uint64_t ph = uint64_t((together ? 0 : s) * 10000 + delay_ms * 1000 + 5000);
		return t >= ph && (t - ph) % per == 0;
	}
	void send()
	{
		const parameters &p = par();
		const uint64_t t = w.t;
		auto T = [&](double d) { return t - uint64_t(d * 1000) - 5000; };

		if (s_mag && slot(t, 0, p.mag_delay_ms, period)) {
			const magSample m = w.mag_for(w.at(t - w.mag.delay), t);
			e().setMagData(m);
			mag.push(T(p.mag_delay_ms), v3(m.mag));
		}

		if (s_baro && slot(t, 1, p.baro_delay_ms, period)) {
			const baroSample b = w.baro_for(w.at(t - w.baro.delay), t);
			e().setBaroData(b);
			baro.push(T(p.baro_delay_ms), b.hgt);
		}

		if (s_range && slot(t, 2, p.range_delay_ms, period)) {
			const rangeSample r = w.range_for(w.at(t - w.range.delay), t);
			e().setRangeData(r);
			range.push(T(p.range_delay_ms), r.rng);
		}

		if (s_flow && slot(t, 3, p.flow_delay_ms, period)) {
			flowSample f = w.flow_for(w.at(t - w.flow.delay), t);
			const float k = period * 1e-6f / f.dt;
			f.dt = period * 1e-6f;
			f.flow_xy_rad = f.flow_xy_rad * k;
			f.gyro_xyz = f.gyro_xyz * k;
			e().setOpticalFlowData(f);
			flow.push(T(p.flow_delay_ms), f);
		}

		if (s_ev && slot(t, 4, p.ev_delay_ms, period)) {
			extVisionSample s = w.ev_for(w.at(t - w.ev.delay), t);
			s.posVar = Vector3f(w.ev_pos_var, w.ev_pos_var * 1.5f, w.ev_pos_var * 2.f);
			s.velCov(0, 0) *= 1.3f;
			s.velCov(0, 1) = s.velCov(1, 0) = w.ev_vel_var * 0.2f;
			s.velCov(2, 2) *= 0.8f;
			e().setExtVisionData(s);
			ev.push(T(p.ev_delay_ms), s);
		}

		if (s_tas && slot(t, 5, p.airspeed_delay_ms, period)) {
			airspeedSample s = w.airspeed_for(w.at(t - w.airspeed.delay), t);
			s.eas2tas = 1.1f;
			e().setAirspeedData(s);
			tas.push(T(p.airspeed_delay_ms), s.true_airspeed);
		}

		if (s_aux && slot(t, 6, p.auxvel_delay_ms, period)) {
			auxVelSample s = w.aux_for(w.at(t - w.auxvel.delay), t);
			s.velVar = Vector3f(0.04f, 0.09f, 0.2f);
			e().setAuxVelData(s);
			aux.push(T(p.auxvel_delay_ms), s);
		}

		if (s_gps && slot(t, 7, p.gps_delay_ms, gps_period)) {
			const gps_message m = w.gps_message_for(w.at(t - w.gps.delay), t);

			// the field and the earth rate are those of the latest fix until there is an origin, then those of the origin
			if (!e().global_origin_valid()) { geo = true; gps_lat = m.lat * 1e-7; gps_lon = m.lon * 1e-7; }

			e().setGpsData(m);
			Gps g{};
			g.lat = m.lat / 1e7; g.lon = m.lon / 1e7;

			if (e().global_origin_valid()) {
				float n, ea;
				map_projection_project(&e().global_origin(), g.lat, g.lon, &n, &ea);
				g.n = n; g.e = ea;
			}

			g.hgt = m.alt * 1e-3f;
			g.vel = v3(m.vel_ned);
			g.sacc = m.sacc; g.hacc = m.eph; g.vacc = m.epv; g.yaw = m.yaw;
			g.yaw_off = std::isfinite(m.yaw_offset) ? m.yaw_offset : 0.0;
			gps.push(T(p.gps_delay_ms), g);
		}
	}
	// the specific force for drag is the one of the last inertial sample of every down-sampled one
	void drag_data(const imuSample &s, bool updated)
	{
		if (!updated || !(par().fusion_mode & MASK_USE_DRAG)) { return; }

		drag_n++;
		drag_sum[0] += s.delta_vel(0); drag_sum[1] += s.delta_vel(1);
		drag_dt += s.delta_vel_dt;
		drag_t += s.time_us;

		if (drag_n >= 5) {
			drag.push(drag_t / drag_n, V3{drag_sum[0] / drag_dt, drag_sum[1] / drag_dt, 0});
			drag_n = 0; drag_sum[0] = drag_sum[1] = drag_dt = 0; drag_t = 0;
		}
	}
	// variances that set the scale of what rounding may do: cancellation within a vector is relative to its largest
	static void scales(const Kf &k, double *v)
	{
		static const int grp[N] = {0, 0, 0, 0, 1, 1, 1, 2, 2, 2, 3, 3, 3, 4, 4, 4, 5, 5, 5, 6, 6, 6, 7, 7};
		double mx[8] {};

		for (int i = 0; i < N; i++) { mx[grp[i]] = std::max(mx[grp[i]], std::fabs(k.P[i][i])); }

		for (int i = 0; i < N; i++) { v[i] = std::max(std::fabs(k.P[i][i]), 1e-3 * mx[grp[i]]); }
	}
	V3 ev_corr;
	bool ev_unknown{false}, soft{false}, ev_first{false};
	double stat_max{0};
	uint64_t last_in_air_set{0};
	struct Pre {
		filter_control_status_u c;
		fault_status_u f;
		uint8_t cn[5];
		float terrain;
		bool origin, in_air, terrain_ok;
		double alt_ref{0};
		V3 lat;
	};
	static void counters(const Ekf &k, uint8_t *c)
	{
		const auto &r = k.state_reset_status();
		c[0] = r.velNE_counter; c[1] = r.velD_counter; c[2] = r.posNE_counter; c[3] = r.posD_counter; c[4] = r.quat_counter;
	}
	void tick()
	{
		const imuSample s = w.advance(w.imu_dt);
		e().setIMUData(s);
		send();
		Pre pre;
		pre.c = e().control_status();
		pre.f = e().fault_status();
		counters(e(), pre.cn);
		pre.terrain = e().getTerrainVertPos();
		pre.terrain_ok = e().isTerrainEstimateValid();
		pre.origin = e().global_origin_valid();
		pre.in_air = e().get_in_air_status();
		// the origin taken from GPS renews the height offset
		if (double(e().getEkfGlobalOriginAltitude()) != last_alt_ref) { hgt_off = NAN; }

		pre.alt_ref = last_alt_ref = e().getEkfGlobalOriginAltitude();
		Kf k = kp;
		k.set(e());
		const bool u = e().update();

		mc::transition();

		drag_data(s, u);

		if (u) { judge(pre, k); }
	}

	// ---------------------------------------------------------------- elementary fusions of the reference
	static double sq(double v) { return v * v; }
	void near(Cand &c, double ratio) { if (std::fabs(ratio - 1) < 0.02) { c.uncertain = true; } }
	static bool published_ok(const Cand &c)
	{
		for (const Pub &q : c.pubs) { if (!(std::fabs(q.ri - q.gi) <= q.tol()) || !(std::fabs(q.rv - q.gv) <= q.vtol())) { return false; } }

		return true;
	}
	void pub(Cand &c, const char *n, double ri, double rv, double gi, double gv, double itol) { c.pubs.push_back({n, ri, rv, gi, gv, itol}); }
	bool hpair(Cand &c, int idx, const double *innov, const double *R, double gate, bool inhibit = false)
	{
		c.k.eps = 2.4e-7 * std::max(1.0, std::hypot(c.k.x[idx], c.k.x[idx + 1]));
		const double S0 = c.k.P[idx][idx] + R[0], S1 = c.k.P[idx + 1][idx + 1] + R[1];
		const double ratio = std::max(sq(innov[0]) / (sq(gate) * S0), sq(innov[1]) / (sq(gate) * S1));

		if (!inhibit) { near(c, ratio); if (ratio > 1) { return false; } }

		else if (ratio > sq(100 / gate)) { return false; }

		if (!c.k.direct(idx, innov[0], R[0], S0)) { c.uncertain = true; }

		if (!c.k.direct(idx + 1, innov[1], R[1], S1)) { c.uncertain = true; }

		if (!inhibit) { c.aided = true; }

		return true;
	}
	bool vert(Cand &c, int idx, double innov, double R, double gate, bool bad_acc)
	{
		c.k.eps = 2.4e-7 * std::max(idx == 9 ? 600.0 : 1.0, std::fabs(c.k.x[idx]));
		const double S = c.k.P[idx][idx] + R;
		const double ratio = sq(innov) / (sq(gate) * S);
		near(c, ratio);

		if (ratio > 1) {
			if (!bad_acc) { return false; }

			innov = Kf::clampd(innov, -gate * std::sqrt(S), gate * std::sqrt(S));
		}

		if (!c.k.direct(idx, innov, R, S)) { c.uncertain = true; }

		return true;
	}
	static V3 V(const Vector3f &f) { return v3(f); }

	double declination(const Kf &k, const Pre &pre)
	{
		if (pre.c.flags.mag_aligned_in_flight) { return std::atan2(k.x[17], k.x[16]); }

		if ((par().mag_declination_source & MASK_USE_GEO_DECL) && geo) { return get_mag_declination_radians(float(gps_lat), float(gps_lon)); }

		return double(par().mag_declination_deg) * DEG;
	}
	double gps_lat{0}, gps_lon{0};
	bool geo{false};

	// returns 0 nothing fused, 1 fused
	int heading(Cand &c, double measured, double R, bool zero, const Pre &pre, bool at321)
	{
		double H[N];

		if (at321) {
			const double y0 = predicted_yaw(c.k, true);
			c.k.jac(H, [y0](const double *x) { return wrap(std::atan2(2 * (x[0] * x[3] + x[1] * x[2]), x[0] * x[0] + x[1] * x[1] - x[2] * x[2] - x[3] * x[3]) - y0); }, {0, 1, 2, 3});

		} else {
			const double y0 = predicted_yaw(c.k, false);
			c.k.jac(H, [y0](const double *x) { return wrap(std::atan2(-2 * (x[1] * x[2] - x[0] * x[3]), x[0] * x[0] - x[1] * x[1] + x[2] * x[2] - x[3] * x[3]) - y0); }, {0, 1, 2, 3});
		}

		R = std::max(R, 1e-4);
		const double gate = std::max(double(par().heading_innov_gate), 1.0);
		double innov = zero ? 0 : wrap(predicted_yaw(c.k, at321) - measured);
		const double S = c.k.S_of(H, R);
		const double ratio = sq(innov) / (sq(gate) * S);

		if (std::fabs(std::fabs(innov) - M_PI) < 1e-3) { c.uncertain = true; }

		near(c, ratio);
		float gi, gv;
		e().getHeadingInnov(gi);
		e().getHeadingInnovVar(gv);

		if (ratio > 1) {
			// on ground for a while: the innovation is limited
			const bool ground = !pre.in_air && w.t > last_in_air + 5000000;

			if (!pre.in_air && !ground && w.t + 20000 > last_in_air + 5000000) { c.uncertain = true; }

			if (!ground) { return 0; }

			const double l = gate * std::sqrt(S);
			innov = Kf::clampd(innov, -l, l);
		}

		c.k.eps = 6e-7;
		pub(c, "heading", innov, S, gi, gv, 3e-4);

		unsigned mask = 0x00ffff;

		if (c.k.f.wind) { mask |= 0xc00000; }

		// the heading update does not zero the gains of inhibited accelerometer biases explicitly; their covariances are zero
		if (!c.k.update(H, innov, R, mask)) { c.uncertain = true; }

		return 1;
	}
	static double predicted_yaw(const Kf &k, bool s321)
	{
		return s321 ? std::atan2(k.Rij(1, 0), k.Rij(0, 0)) : std::atan2(-k.Rij(0, 1), k.Rij(1, 1));
	}
	static bool use321(Cand &c)
	{
		const double a = std::fabs(c.k.Rij(2, 0)), b = std::fabs(c.k.Rij(2, 1));

		if (std::fabs(a - b) < 1e-5) { c.uncertain = true; }

		return a < b;
	}
	void fuse_heading(Cand &c, const Pre &pre, const filter_control_status_u &f, const Truth &)
	{
		c.re = c.k.q();
		double R = f.flags.mag_hdg ? sq(par().mag_heading_noise) : f.flags.ev_yaw ? ev.cur.angVar : 0.01;
		const bool s = use321(c);
		const double pred = predicted_yaw(c.k, s);
		double meas = pred;

		if (f.flags.mag_hdg) {
			// rotate the measurement with zero yaw
			const V3 m = mag.cur - V3{c.k.x[19], c.k.x[20], c.k.x[21]};
			const Q4 q = q_exp({0, 0, -pred}) * c.k.q();
			const V3 me = q.rot(m);
			meas = -std::atan2(me.y, me.x) + declination(c.k, pre);

		} else if (f.flags.ev_yaw) {
			const Q4 q = q4(ev.cur.quat);
			const V3 x = q.rot({1, 0, 0}), y = q.rot({0, 1, 0});
			meas = s ? std::atan2(x.y, x.x) : std::atan2(-y.x, y.y);
		}

		bool zero = false;
		const bool inh = f.flags.ev_yaw ? false : inhibited;

		if (inh) {
			if (!f.flags.vehicle_at_rest) {
				const double sum = c.k.P[0][0] + c.k.P[1][1] + c.k.P[2][2] + c.k.P[3][3];
				c.last_static = pred;
				c.last_static321 = s;

				if (std::fabs(sum - par().quat_max_variance) < 1e-3 * sum) { c.uncertain = true; }

				if (sum > par().quat_max_variance) { zero = true; R = 0.25; }

				else { c.what += "-"; return; }

			} else {
				if (!std::isfinite(c.last_static) || c.last_static321 != s) { c.last_static = pred; c.last_static321 = s; }

				meas = c.last_static;
			}

		} else { c.last_static = pred; c.last_static321 = s; }

		heading(c, meas, R, zero, pre, s);
	}
	void limit_decl(Cand &c, const Pre &pre)
	{
		double d = double(par().mag_declination_deg) * DEG, hmin = 0.001;

		if ((par().mag_declination_source & MASK_USE_GEO_DECL) && geo) {
			d = get_mag_declination_radians(float(gps_lat), float(gps_lon));
			hmin = std::max(hmin, 0.5 * get_mag_strength_gauss(float(gps_lat), float(gps_lon)) * std::cos(get_mag_inclination_radians(float(gps_lat), float(gps_lon))));
		}

		double &n = c.k.x[16], &ee = c.k.x[17];
		double h = std::hypot(n, ee);

		if (h < hmin) {
			if (h > 0.001 * hmin) { n *= hmin / h; ee *= hmin / h; }

			else { c.uncertain = true; }

			h = hmin;
		}

		const double x = wrap(std::atan2(ee, n) - d);

		if (std::fabs(x) > 0.5) { const double a = d + (x > 0 ? 0.5 : -0.5); n = h * std::cos(a); ee = h * std::sin(a); }
	}
	static V3 magI(const double *x) { return {x[16], x[17], x[18]}; }
	void mag_H(const Kf &k, int i, double *H)
	{
		k.jac(H, [i](const double *x) { return ref::rot_hT(x, magI(x))[i] + x[19 + i]; }, {0, 1, 2, 3, 16, 17, 18, 19, 20, 21});
	}
	void fuse_mag(Cand &c, const Pre &pre, const imuSample &imu)
	{
		const double R = sq(par().mag_noise);
		double H[3][N], S[3], in[3];
		const V3 p = ref::rot_hT(c.k.x, magI(c.k.x)) + V3{c.k.x[19], c.k.x[20], c.k.x[21]};
		float gi[3], gv[3];
		e().getMagInnov(gi);
		e().getMagInnovVar(gv);
		bool pass = true;
		c.k.eps = 2e-7;
		const double gate = std::max(double(par().mag_innov_gate), 1.0);

		for (int i = 0; i < 3; i++) {
			mag_H(c.k, i, H[i]);
			S[i] = c.k.S_of(H[i], R);
			in[i] = p[i] - mag.cur[i];
			const double r = sq(in[i]) / (sq(gate) * S[i]);
			near(c, r);

			if (r > 1) { pass = false; }
		}

		double Sp[3] = {S[0], S[1], S[2]};
		const uint64_t since = imu.time_us - align_start;
		const bool all = since > 5000000;

		if (std::llabs(int64_t(since) - 5000000) < 100000) { c.uncertain = true; }

		if (pass) {
			for (int i = 0; i < 3; i++) {
				mag_H(c.k, i, H[i]);
				Sp[i] = c.k.S_of(H[i], R);

				if (!c.k.update(H[i], in[i], R, all ? unsigned(Kf::ALL) : unsigned(Kf::MAG_ONLY))) { c.uncertain = true; }

				limit_decl(c, pre);
			}
		}

		for (int i = 0; i < 3; i++) { pub(c, "mag", in[i], Sp[i], gi[i], gv[i], 2e-5); }
	}
	void fuse_decl(Cand &c, const Pre &pre, double sigma)
	{
		double H[N];
		const double d0 = std::atan2(c.k.x[17], c.k.x[16]);
		c.k.jac(H, [d0](const double *x) { return wrap(std::atan2(x[17], x[16]) - d0); }, {16, 17});
		const double in = Kf::clampd(wrap(std::atan2(c.k.x[17], c.k.x[16]) - declination(c.k, pre)), -0.5, 0.5);

		c.k.eps = 4e-7;

		if (!c.k.update(H, in, sq(sigma))) { c.uncertain = true; }

		limit_decl(c, pre);
	}
	V3 off(const Vector3f &sensor) { return V(sensor) - V(par().imu_pos_body); }

	struct FlowComp { V3 gy; bool ok; double dtm; };
	FlowComp flow_comp(const ref::Imu &im, const double *bias, bool d_flow);
	void judge(const Pre &pre, Kf &k);
};

Core::FlowComp Core::flow_comp(const ref::Imu &im, const double *bias, bool d_flow)
{
	FlowComp r{};
	of_ang = of_ang + V3{im.da[0] - bias[0], im.da[1] - bias[1], im.da[2] - bias[2]};
	of_dt += im.dta;

	if (!d_flow) { return r; }

	const flowSample &fl = flow.cur;
	r.gy = V(fl.gyro_xyz);
	r.ok = of_dt <= 1.0;

	if (r.ok) {
		if (std::isfinite(fl.gyro_xyz(0))) {
			if (std::fabs(of_dt - fl.dt) < 0.1) {
				const V3 d = r.gy * (1.0 / fl.dt) + of_ang * (1.0 / of_dt);
				of_bias = of_bias * 0.99 + V3{Kf::clampd(d.x, -0.1, 0.1), Kf::clampd(d.y, -0.1, 0.1), Kf::clampd(d.z, -0.1, 0.1)} * 0.01;
			}

		} else { r.gy = of_ang * -1.0; of_bias = V3{}; }
	}

	r.dtm = of_dt;
	of_ang = V3{};
	of_dt = 0;
	return r;
}

void Core::judge(const Pre &pre, Kf &k)
{
	const imuSample imu = e().get_imu_sample_delayed();
	const ref::Imu im = ref::imu_of(imu);
	const parameters &p = par();
	const filter_control_status_u f = e().control_status();
	n_upd++;
	k.f.mag_3D = pre.c.flags.mag_3D;
	k.f.wind = pre.c.flags.wind;
	k.f.in_air = pre.in_air;
	k.f.bad_acc_vertical = pre.f.flags.bad_acc_vertical;
	k.earth_rate = {0, 0, 0};

	if (geo) {
		const double la = gps_lat * DEG;
		k.earth_rate = {7.292115e-5 * std::cos(la), 0, -7.292115e-5 * std::sin(la)};
	}

	k.predict_state(im, p);
	bool close = k.predict_cov(im, p);
	k.f.mag_3D = f.flags.mag_3D;
	k.f.wind = f.flags.wind;

	if (pre.in_air) { last_in_air = last_in_air_set; }

	// --- what has come due
	const bool d_mag = mag.pop(imu.time_us), d_baro = baro.pop(imu.time_us), d_range = range.pop(imu.time_us), d_gps = gps.pop(imu.time_us),
	    d_ev = ev.pop(imu.time_us), d_flow = flow.pop(imu.time_us), d_tas = tas.pop(imu.time_us), d_aux = aux.pop(imu.time_us);


	// carry
	kp.dt_avg = k.dt_avg; kp.ang_filt = k.ang_filt; kp.acc_filt = k.acc_filt; kp.ang_rate_raw = k.ang_rate_raw;
	kp.hrate_lpf = k.hrate_lpf;

	// vision sample, corrected for the sensor position with the attitude at its arrival
	if (d_ev) { ev_corr = V(ev.cur.pos) - k.q().rot(off(p.ev_pos_body)); ev_first = !started; }

	uint8_t cn[5];
	counters(e(), cn);

	// the heading a vehicle without heading sensor had when it came to rest; a reset makes it unknown until the next fusion
	auto note_static = [&]() {
		if (p.mag_fusion_type != MAG_FUSE_TYPE_NONE || f.flags.ev_yaw || f.flags.gps_yaw || (f.flags.vehicle_at_rest && std::isfinite(last_static))) { return; }

		Cand c;
		c.k = k;
		c.re = k.q();
		last_static321 = use321(c);
		last_static = predicted_yaw(k, last_static321);
	};

	if (cn[4] != pre.cn[4]) { last_static = NAN; }

	if (cn[4] != pre.cn[4] || f.flags.mag_aligned_in_flight != pre.c.flags.mag_aligned_in_flight) { align_start = imu.time_us; }

	if (!started) {
		started = true;
		const double nb[3] = {};
		flow_comp(im, nb, d_flow);
		const St s = state_of(e());
		kp.hrate_lpf = s.s[6] * 0.1 * 0.01;
		align_start = imu.time_us;
		note_static();
		return;
	}

	const bool reset = memcmp(cn, pre.cn, 5) != 0;
	const bool fault_change = e().fault_status().value != pre.f.value;
	filter_control_status_u fm = f;
	const bool wind_start = f.flags.wind && !pre.c.flags.wind;

	if (wind_start) { fm.flags.wind = false; fm.flags.fuse_aspd = pre.c.flags.fuse_aspd; }

	const bool pre_horiz = pre.c.flags.gps || pre.c.flags.opt_flow || pre.c.flags.ev_pos || pre.c.flags.ev_vel;
	const bool flag_change = fm.value != pre.c.value || (wind_start && !pre_horiz);
	bool skip = reset || fault_change || flag_change || close;

	if (cn[3] != pre.cn[3]) { baro_off = hgt_off = NAN; }

	if (cn[2] != pre.cn[2] || cn[4] != pre.cn[4]) { fake_n = fake_e = NAN; }

	if (f.flags.baro_hgt != pre.c.flags.baro_hgt || f.flags.gps_hgt != pre.c.flags.gps_hgt || f.flags.rng_hgt != pre.c.flags.rng_hgt) { baro_off = hgt_off = NAN; }

	soft = false;

	if (!f.flags.ev_pos || cn[2] != pre.cn[2]) { ev_prev = ev_unknown = false; }

	std::vector<Cand> cs(1);
	cs[0].k = k;
	cs[0].re = k.q();
	cs[0].last_static = last_static;
	cs[0].last_static321 = last_static321;
	const bool bad_acc = pre.f.flags.bad_acc_vertical;
	auto all = [&](const std::function<void(Cand &)> &fn) { for (auto &c : cs) { fn(c); } };
	auto alt = [&](const char *nm, const std::function<void(Cand &)> &fn) {
		const size_t n = cs.size();

		for (size_t i = 0; i < n; i++) { cs.push_back(cs[i]); cs.back().what += nm; fn(cs.back()); }
	};
	bool expect = false;

	// --- magnetometer
	if (p.mag_fusion_type == MAG_FUSE_TYPE_NONE) {
		if (!f.flags.ev_yaw && !f.flags.gps_yaw) {
			inhibited = true;
			expect = true;
			all([&](Cand & c) { c.what += " zeroyaw"; fuse_heading(c, pre, f, w.x); });
		}

	} else if (d_mag && f.flags.yaw_align && !f.flags.mag_fault && !f.flags.ev_yaw && !f.flags.gps_yaw) {
		inhibited = (p.mag_fusion_type == MAG_FUSE_TYPE_INDOOR && !f.flags.gps && !f.flags.ev_pos && !f.flags.ev_vel) || f.flags.mag_field_disturbed;

		if (f.flags.mag_3D) {
			expect = true;
			kinds[0]++;
			// right after the field variances were set to their initial value the declination goes first, with a small noise
			const bool fresh = std::fabs(k.P[16][16] - k.P[17][17]) < 1e-6 * k.P[16][16] && std::fabs(k.P[18][18] - k.P[17][17]) < 1e-6 * k.P[16][16];
			auto normal = [&](Cand & c) { c.what += " mag3d"; fuse_mag(c, pre, imu); if (f.flags.mag_dec) { c.what += " decl"; fuse_decl(c, pre, 0.5); } };

			if (fresh) { cs.push_back(cs[0]); cs[1].what += " firstdecl"; fuse_decl(cs[1], pre, 0.02); cs[1].what += " mag3d"; fuse_mag(cs[1], pre, imu); normal(cs[0]); }

			else { all(normal); }

		} else if (f.flags.mag_hdg) {
			expect = true;
			kinds[1]++;
			all([&](Cand & c) { c.what += " maghdg"; fuse_heading(c, pre, f, w.x); });
		}
	}

	bool due_flow = false;
	// --- optical flow; the bias used is the one after the magnetometer fusion of this update
	FlowComp fc = flow_comp(im, cs[0].k.x + 10, d_flow);

	if (d_flow) {
		const flowSample fl = flow.cur;
		const V3 gy = fc.gy;
		const bool ok_dt = fc.ok;
		const double dtm = fc.dtm;

		if (f.flags.opt_flow && pre.c.flags.opt_flow) {
			c_flow_due++;
			const bool good = ok_dt && fl.quality >= p.flow_qual_min && k.Rij(2, 2) > p.range_cos_max_tilt && fl.dt > 0.8 * dtm && fl.dt < 1.2 * dtm;
			const V3 comp = good ? V3{fl.flow_xy_rad(0) - gy.x, fl.flow_xy_rad(1) - gy.y, 0} : V3{};
			const double fdt = fl.dt;

			due_flow = good && pre.in_air && pre.terrain_ok;

			if (!good && pre.in_air) { /* not used */ }

			else {
				expect = true;
				alt(" flow", [&](Cand & c) {
					c.flow = true;
					const double *x = c.k.x;
					const V3 o = off(p.flow_pos_body);
					const V3 rate{comp.x / fdt + of_bias.x, comp.y / fdt + of_bias.y, 0};
					const V3 vrel = (gy * (-1.0 / fdt)).cross(o);
					const V3 vb = c.k.q().inv(c.k.vel() + c.re.rot(vrel));
					double h = pre.terrain - x[9] - c.re.rot(o).z;
					h = std::max(h, std::max(double(p.rng_gnd_clearance), 0.1));
					const double rg = h / c.k.Rij(2, 2);
					const double in[2] = {vb.y / rg - rate.x, -vb.x / rg - rate.y};
					double wt = 255.0 - p.flow_qual_min;
					wt = wt >= 1 ? Kf::clampd((double(fl.quality) - p.flow_qual_min) / wt, 0, 1) : 0;
					const double R = sq(std::max(double(p.flow_noise), 0.05) * wt + std::max(double(p.flow_noise_qual_min), 0.05) * (1 - wt));
					double H[2][N], S[2], PH[2][N], K[2][N];
					float gi[2], gv[2];
					e().getFlowInnov(gi);
					e().getFlowInnovVar(gv);
					bool pass = true;
					c.k.eps = 4e-7 * std::max(1.0, c.k.vel().norm() / rg);

					for (int a = 0; a < 2; a++) {
						c.k.jac(H[a], [a, rg](const double *s) { const V3 b = ref::rot_hT(s, {s[4], s[5], s[6]}); return (a ? -b.x : b.y) / rg; }, {0, 1, 2, 3, 4, 5, 6});
						S[a] = c.k.S_of(H[a], R);
						const double r = sq(in[a]) / (sq(std::max(double(p.flow_innov_gate), 1.0)) * S[a]);
						near(c, r);
						pass = pass && r <= 1;
						pub(c, "flow", in[a], S[a], gi[a], gv[a], 2e-4);
					}

					if (pass) {
						c.aided = true;
						// the second axis uses the innovation variance and the velocity and attitude gains of before the first was
						// fused, and the other gains of after
						for (int a = 0; a < 2; a++) {
							for (int i = 0; i < N; i++) { double s = 0; for (int j = 0; j < 7; j++) { s += c.k.P[i][j] * H[a][j]; } K[a][i] = s / S[a]; }
						}

						for (int a = 0; a < 2; a++) {
							for (int i = 0; i < N; i++) { double s = 0; for (int j = 0; j < 7; j++) { s += c.k.P[i][j] * H[a][j]; } PH[a][i] = s; if (i >= 7) { K[a][i] = s / S[a]; } }

							if (!c.k.apply(K[a], PH[a], in[a])) { c.uncertain = true; }
						}
					}
				});
			}
		}
	}

	// --- GPS
	const bool horiz = f.flags.gps || f.flags.opt_flow || f.flags.ev_pos || f.flags.ev_vel;
	double gps_hgt = gps.cur.hgt;

	if (d_gps && f.flags.gps_yaw && std::isfinite(gps.cur.yaw)) {
		expect = true;
		kinds[2]++;
		all([&](Cand & c) {
			c.what += " gpsyaw";
			const double o = gps.cur.yaw_off;
			const V3 a{std::cos(o), std::sin(o), 0};
			const V3 ae = c.re.rot(a);

			if (std::fabs(std::fabs(ae.z) - std::cos(30 * DEG)) < 1e-4) { c.uncertain = true; }

			if (std::fabs(ae.z) > std::cos(30 * DEG)) { return; }

			// the observation is left out when the antenna points east or west
			if (std::fabs(ae.x) < 2e-3) { c.uncertain = true; }

			const double R = sq(std::max(double(p.mag_heading_noise), 0.01));
			double H[N];
			const double y0 = std::atan2(ae.y, ae.x);
			c.k.jac(H, [a, y0](const double *x) { const V3 v = ref::rot_h(x, a); return wrap(std::atan2(v.y, v.x) - y0); }, {0, 1, 2, 3});
			double in = wrap(std::atan2(ae.y, ae.x) - wrap(gps.cur.yaw + o));
			const double S = c.k.S_of(H, R), gate = std::max(double(p.heading_innov_gate), 1.0);
			const double r = sq(in) / (sq(gate) * S);
			near(c, r);
			bool use = true;

			if (r > 1) { if (pre.in_air) { use = false; } else { in = Kf::clampd(in, -gate * std::sqrt(S), gate * std::sqrt(S)); } }

			float gi, gv;
			e().getHeadingInnov(gi);
			e().getHeadingInnovVar(gv);
			pub(c, "gpsyaw", in, S, gi, gv, 3e-4);

			c.k.eps = 6e-7;

			if (use && !c.k.update(H, in, R)) { c.uncertain = true; }
		});
	}

	if (d_gps && f.flags.gps) {
		expect = true;
		kinds[3]++;
		const V3 o = off(p.gps_pos_body);
		float hv[2], vv, hp[2], vp, hvv[2], vvv, hpv[2], vpv;
		e().getGpsVelPosInnov(hv, vv, hp, vp);
		e().getGpsVelPosInnovVar(hvv, vvv, hpv, vpv);
		const bool other = f.flags.opt_flow || f.flags.ev_pos || f.flags.ev_vel;
		all([&](Cand & c) {
			c.what += " gps";
			const V3 vo = c.re.rot(k.ang_rate_raw.cross(o)), po = c.re.rot(o);
			gps_hgt = gps.cur.hgt + po.z;
			const V3 v = gps.cur.vel - vo;
			const double inv[3] = {c.k.x[4] - v.x, c.k.x[5] - v.y, c.k.x[6] - v.z};
			const double inp[2] = {c.k.x[7] - (gps.cur.n - po.x), c.k.x[8] - (gps.cur.e - po.y)};
			const double lo = std::max(double(p.gps_pos_noise), 0.01);
			const double rp = sq(other ? std::max(gps.cur.hacc, lo) : Kf::clampd(gps.cur.hacc, lo, std::max(double(p.pos_noaid_noise), lo)));
			const double rv = sq(std::max(gps.cur.sacc, double(p.gps_vel_noise)));
			const double Rv[2] = {rv, rv}, Rp[2] = {rp, rp};
			const double gv = std::max(double(p.gps_vel_innov_gate), 1.0), gp = std::max(double(p.gps_pos_innov_gate), 1.0);
			pub(c, "gps_hvel", inv[0], c.k.P[4][4] + rv, hv[0], hvv[0], 1e-4);
			pub(c, "gps_hvel", inv[1], c.k.P[5][5] + rv, hv[1], hvv[1], 1e-4);
			hpair(c, 4, inv, Rv, gv);
			pub(c, "gps_vvel", inv[2], c.k.P[6][6] + rv * 2.25, vv, vvv, 1e-4);
			vert(c, 6, inv[2], rv * 2.25, gv, bad_acc);
			pub(c, "gps_hpos", inp[0], c.k.P[7][7] + rp, hp[0], hpv[0], 1e-3);
			pub(c, "gps_hpos", inp[1], c.k.P[8][8] + rp, hp[1], hpv[1], 1e-3);
			hpair(c, 7, inp, Rp, gp);
		});
	}

	// --- air data
	const bool synth = !horiz && !(f.flags.fuse_aspd && f.flags.fuse_beta);
	const unsigned wmask = Kf::WIND_ONLY;
	// air data corrects all states when nothing else constrains the drift; decided at the end of the previous update
	const uint64_t to = p.no_aid_timeout_max, eps = 25000;
	const bool horiz_pre = pre.c.flags.gps || pre.c.flags.opt_flow || pre.c.flags.ev_pos || pre.c.flags.ev_vel;
	const bool full_ok = (!horiz_pre || w.t > aid_sure + to - eps) && w.t < tas_maybe + to + eps && w.t < beta_maybe + to + eps;
	const bool only_wind_ok = (horiz_pre && w.t < aid_maybe + to + eps) || w.t > tas_sure + to - eps || w.t > beta_sure + to - eps;

	// the wind states start from the airspeed when there is one, from calm otherwise
	if (wind_start && !skip) {
		kinds[12]++;
		all([&](Cand & c) {
			c.what += " windstart";
			double *x = c.k.x;
			auto &P = c.k.P;

			for (int i = 22; i < 24; i++) { for (int j = 0; j < N; j++) { P[i][j] = P[j][i] = 0; } }

			if (d_tas) {
				const double yaw = std::atan2(c.k.Rij(1, 0), c.k.Rij(0, 0)), cy = std::cos(yaw), sy = std::sin(yaw), V = tas.cur;
				x[22] = x[4] - V * cy; x[23] = x[5] - V * sy;
				const double rt = sq(Kf::clampd(p.eas_noise, 0.5, 5) * Kf::clampd(1.1f, 0.9, 10)), ry = sq(10 * DEG), rb = sq(V * std::sin(15 * DEG));
				const double Wx = x[22] * cy + x[23] * sy, Wy = -x[22] * sy + x[23] * cy;
				const double jn = -Wx * sy - Wy * cy, je = Wx * cy - Wy * sy;
				P[22][22] = rt * cy * cy + ry * jn * jn + rb * sy * sy + P[4][4];
				P[22][23] = P[23][22] = rt * sy * cy + ry * jn * je - rb * sy * cy;
				P[23][23] = rt * sy * sy + ry * je * je + rb * cy * cy + P[5][5];

			} else {
				x[22] = x[23] = 0;
				P[22][22] = P[23][23] = sq(p.initial_wind_uncertainty);
			}
		});
	}

	if (d_tas && f.flags.wind && pre.in_air && !synth) {
		expect = true;
		kinds[4]++;
		auto tasf = [&](Cand & c, unsigned mask) {
			c.k.eps = 4e-6;
			const double *x = c.k.x;
			const double vt = std::sqrt(sq(x[4] - x[22]) + sq(x[5] - x[23]) + sq(x[6]));

			if (std::fabs(vt - 1) < 1e-3) { c.uncertain = true; }

			if (vt < 1) { return; }

			double H[N];
			c.k.jac(H, [](const double *s) { return std::sqrt(sq(s[4] - s[22]) + sq(s[5] - s[23]) + sq(s[6])); }, {4, 5, 6, 22, 23});
			const double R = sq(Kf::clampd(p.eas_noise, 0.5, 5) * Kf::clampd(1.1f, 0.9, 10));
			const double in = vt - tas.cur, S = c.k.S_of(H, R), r = sq(in) / (sq(std::max(double(p.tas_innov_gate), 1.0)) * S);
			near(c, r);
			float gi, gv;
			e().getAirspeedInnov(gi);
			e().getAirspeedInnovVar(gv);
			pub(c, "airspeed", in, S, gi, gv, 1e-4);

			c.tas_in = r <= 1;

			if (r <= 1 && !c.k.update(H, in, R, mask)) { c.uncertain = true; }
		};

		const size_t n = cs.size();

		for (size_t i = 0; i < n; i++) {
			if (full_ok && only_wind_ok) { cs.push_back(cs[i]); cs.back().what += " tas-full"; cs.back().full = true; tasf(cs.back(), Kf::ALL); }

			cs[i].full = full_ok && !only_wind_ok;
			cs[i].what += cs[i].full ? " tas-full" : " tas";
			tasf(cs[i], cs[i].full ? unsigned(Kf::ALL) : wmask);
		}
	}

	if (f.flags.fuse_beta && f.flags.wind && pre.in_air && !synth) {
		auto betaf = [&](Cand & c, unsigned mask) {
			c.beta = true;
			c.k.eps = 1e-6;
			const V3 rw{c.k.x[4] - c.k.x[22], c.k.x[5] - c.k.x[23], c.k.x[6]};

			if (rw.norm() <= 7) { return; }

			// close to a right angle of sideslip the measurement is singular
			if (std::fabs(c.k.q().inv(rw).x) < 0.1 * rw.norm()) { c.uncertain = true; }

			double H[N];
			auto h = [](const double *s) { const V3 b = ref::rot_hT(s, {s[4] - s[22], s[5] - s[23], s[6]}); return b.y / b.x; };
			c.k.jac(H, h, {0, 1, 2, 3, 4, 5, 6, 22, 23});
			const double R = sq(p.beta_noise), in = h(c.k.x), S = c.k.S_of(H, R);
			const double r = sq(in) / (sq(std::max(double(p.beta_innov_gate), 1.0)) * S);
			near(c, r);
			float gi, gv;
			e().getBetaInnov(gi);
			e().getBetaInnovVar(gv);
			pub(c, "beta", in, S, gi, gv, 1e-4);

			c.beta_in = r <= 1;

			if (r <= 1 && !c.k.update(H, in, R, mask)) { c.uncertain = true; }
		};
		const size_t n = cs.size();

		for (size_t i = 0; i < n; i++) {
			// both air data fusions of one update are of the same kind
			const bool decided = d_tas && cs[i].what.find(" tas") != std::string::npos;

			if (decided ? !cs[i].full : only_wind_ok) { cs.push_back(cs[i]); cs.back().what += " beta"; betaf(cs.back(), wmask); }

			if (decided ? cs[i].full : full_ok) { cs.push_back(cs[i]); cs.back().what += " beta-full"; betaf(cs.back(), Kf::ALL); }
		}
	}

	// a sample waits while drag is not fused
	if (drag.pop(imu.time_us)) { drag_waiting = true; }

	const bool d_drag = drag_waiting && drag.cur_t + 100000 > imu.time_us;

	if (d_drag && f.flags.wind && pre.in_air && !synth && p.bcoef_x >= 1 && p.bcoef_y >= 1) {
		alt(" drag", [&](Cand & c) {
			c.drag = true;
			c.k.eps = 4e-6;
			const double rho = std::max(1.225, 0.1);
			float gi[2], gv[2];
			e().getDragInnov(gi);
			e().getDragInnovVar(gv);
			double q0[4] = {c.k.x[0], c.k.x[1], c.k.x[2], c.k.x[3]};
			(void)q0;
			const double ib[2] = {1.0 / p.bcoef_x, 1.0 / p.bcoef_y};
			// relative wind is evaluated once, before the first axis
			const V3 vb = ref::rot_hT(c.k.x, {c.k.x[4] - c.k.x[22], c.k.x[5] - c.k.x[23], c.k.x[6]});
			double xl[N];
			memcpy(xl, c.k.x, sizeof(xl));

			for (int a = 0; a < 2; a++) {
				const double ma = drag.cur[a] - c.k.x[13 + a] / c.k.dt_avg;
				const double asp = std::sqrt(2 * std::fabs(ma) / (ib[a] * rho));
				const double Ka = std::max(0.1, rho * ib[a] * asp);
				double H[N];
				c.k.jac(H, [a, Ka](const double *s) { const V3 b = ref::rot_hT(s, {s[4] - s[22], s[5] - s[23], s[6]}); return -Ka * b[a]; }, {0, 1, 2, 3, 4, 5, 6, 22, 23});
				const double R = std::max(double(p.drag_noise), 0.5), S = c.k.S_of(H, R);
				const double pa = -0.5 * ib[a] * rho * sq(vb[a]) * (vb[a] >= 0 ? 1 : -1);
				const double in = pa - ma, r = sq(in) / (25 * S);
				near(c, r);
				pub(c, "drag", in, S, gi[a], gv[a], 3e-4);

				if (r <= 1 && !c.k.update(H, in, R, wmask)) { c.uncertain = true; }
			}
		});
	}

	// --- height
	if (f.flags.baro_hgt && d_baro) {
		expect = true;
		kinds[5]++;
		float gi, gv;
		e().getBaroHgtInnov(gi);
		e().getBaroHgtInnovVar(gv);
		all([&](Cand & c) {
			c.what += " baro";

			double bo = baro_off;

			if (std::isnan(bo)) { if (!f.flags.gnd_effect && !skip) { bo = c.learn_baro = c.k.x[9] + baro.cur - gi; } else { c.uncertain = true; return; } }

			double in = c.k.x[9] + baro.cur - bo;

			if (f.flags.gnd_effect && in < 0) { in = in <= -double(p.gnd_effect_deadzone) ? in + p.gnd_effect_deadzone : 0; }

			const double R = sq(std::max(double(p.baro_noise), 0.01));
			pub(c, "baro", in, c.k.P[9][9] + R, gi, gv, 1e-3);
			vert(c, 9, in, R, std::max(double(p.baro_innov_gate), 1.0), bad_acc);
		});

	} else if (f.flags.gps_hgt && d_gps) {
		expect = true;
		kinds[6]++;
		float hv[2], vv, hp[2], gi, gv;
		e().getGpsVelPosInnov(hv, vv, hp, gi);
		e().getGpsVelPosInnovVar(hv, vv, hp, gv);
		all([&](Cand & c) {
			c.what += " gpshgt";

			double ho = hgt_off;

			if (std::isnan(ho)) { if (!skip) { ho = c.learn_hgt = c.k.x[9] + gps_hgt - pre.alt_ref - gi; } else { c.uncertain = true; return; } }

			const double in = c.k.x[9] + gps_hgt - pre.alt_ref - ho;
			const double lo = std::max(1.5 * p.gps_pos_noise, 0.01);
			const double R = sq(Kf::clampd(gps.cur.vacc, lo, std::max(1.5 * p.pos_noaid_noise, lo)));
			pub(c, "gps_hgt", in, c.k.P[9][9] + R, gi, gv, 1e-3);
			vert(c, 9, in, R, std::max(double(p.baro_innov_gate), 1.0), bad_acc);
		});

	} else if (f.flags.rng_hgt && d_range) {
		expect = true;
		c_rng_due++;
		float gi, gv;
		e().getRngHgtInnov(gi);
		e().getRngHgtInnovVar(gv);
		alt(" rng", [&](Cand & c) {
			c.rng = true;
			const double ct = k.Rij(2, 0) * std::sin(double(p.rng_sens_pitch)) + k.Rij(2, 2) * std::cos(double(p.rng_sens_pitch));
			const double r = range.cur + k.q().rot(off(p.rng_pos_body)).z / ct;
			const double bot = r * ct;

			double ho = hgt_off;

			if (std::isnan(ho)) { if (!skip) { ho = c.learn_hgt = c.k.x[9] + std::max(bot, double(p.rng_gnd_clearance)) - gi; } else { c.uncertain = true; return; } }

			const double in = c.k.x[9] + std::max(bot, double(p.rng_gnd_clearance)) - ho;
			const double R = std::max(sq(p.range_noise) + sq(p.range_noise_scaler * bot), 0.01);
			pub(c, "rng_hgt", in, c.k.P[9][9] + R, gi, gv, 1e-3);
			vert(c, 9, in, R, std::max(double(p.range_innov_gate), 1.0), bad_acc);
		});
	}

	const Q4 rq = q4(e().getVisionAlignmentQuaternion());
	const bool rot = p.fusion_mode & MASK_ROTATE_EV;

	if (f.flags.ev_hgt) {
		float hv[2], vv, hp[2], gi, gv;
		e().getEvVelPosInnov(hv, vv, hp, gi);
		e().getEvVelPosInnovVar(hv, vv, hp, gv);
		auto fh = [&](Cand & c) {
			const double in = c.k.x[9] - ev_corr.z, R = std::max(double(ev.cur.posVar(2)), 1e-4);
			pub(c, "ev_hgt", in, c.k.P[9][9] + R, gi, gv, 1e-3);
			vert(c, 9, in, R, std::max(double(p.ev_pos_innov_gate), 1.0), bad_acc);
		};

		if (d_ev) { expect = true; kinds[7]++; all([&](Cand & c) { c.what += " evhgt"; fh(c); }); }

		else if (ev_first) { soft = true; }   // the attitude its correction was made with is not known

		else { alt(" stale-evhgt", [&](Cand & c) { c.stale_ev = true; fh(c); }); }
	}

	if (d_ev) {
		auto covrot = [&](const V3 * rows, double M[3][3], double *out) {
			for (int i = 0; i < 3; i++) { out[i] = 0; for (int a = 0; a < 3; a++) { for (int b = 0; b < 3; b++) { out[i] += rows[i][a] * M[a][b] * rows[i][b]; } } }
		};
		float hv[2], vv, hp[2], vp, hvv[2], vvv, hpv[2], vpv;
		e().getEvVelPosInnov(hv, vv, hp, vp);
		e().getEvVelPosInnovVar(hvv, vvv, hpv, vpv);

		if (f.flags.ev_pos) {
			kinds[8]++;
			const bool odom = p.fusion_mode & MASK_USE_GPS;
			double M[3][3] = {{ev.cur.posVar(0), 0, 0}, {0, ev.cur.posVar(1), 0}, {0, 0, ev.cur.posVar(2)}}, va[3];
			const V3 rows[3] = {rq.inv({1, 0, 0}), rq.inv({0, 1, 0}), rq.inv({0, 0, 1})};
			covrot(rows, M, va);
			const bool have = odom ? ev_prev : true;

			if (have) {
				expect = true;
				all([&](Cand & c) {
					double in[2], R[2];

					if (odom) {
						c.what += " evodom";
						const V3 d = rq.rot(ev_corr - ev_pos_prev);
						in[0] = c.k.x[7] - ev_pred_prev[0] - d.x; in[1] = c.k.x[8] - ev_pred_prev[1] - d.y;
						R[0] = std::max(va[0], 0.25); R[1] = std::max(va[1], 0.25);

					} else {
						c.what += " evpos";
						const V3 m = rot ? rq.rot(ev_corr) : ev_corr;
						in[0] = c.k.x[7] - m.x; in[1] = c.k.x[8] - m.y;
						R[0] = std::max(rot ? va[0] : M[0][0], 1e-4); R[1] = std::max(rot ? va[1] : M[1][1], 1e-4);
					}

					pub(c, "ev_hpos", in[0], c.k.P[7][7] + R[0], hp[0], hpv[0], 1e-3);
					pub(c, "ev_hpos", in[1], c.k.P[8][8] + R[1], hp[1], hpv[1], 1e-3);

					if (odom) { c.ev_pred[0] = c.k.x[7]; c.ev_pred[1] = c.k.x[8]; }

					hpair(c, 7, in, R, std::max(double(p.ev_pos_innov_gate), 1.0));
				});

			} else {
				all([&](Cand & c) { c.ev_pred[0] = c.k.x[7]; c.ev_pred[1] = c.k.x[8]; });

				if (ev_unknown) { soft = true; }
			}
		}

		if (f.flags.ev_vel) {
			expect = true;
			kinds[9]++;
			all([&](Cand & c) {
				c.what += " evvel";
				const V3 vo = k.ang_rate_raw.cross(off(p.ev_pos_body));
				V3 m;
				double M[3][3], va[3];

				for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) { M[i][j] = ev.cur.velCov(i, j); } }

				const bool body = ev.cur.vel_frame == velocity_frame_t::BODY_FRAME_FRD;
				Q4 cq{1, 0, 0, 0};

				if (body) { m = c.re.rot(V(ev.cur.vel) - vo); cq = c.re; }

				else { m = (rot ? rq.rot(V(ev.cur.vel)) : V(ev.cur.vel)) - c.re.rot(vo); if (rot) { cq = rq; } }

				const V3 rows[3] = {cq.inv({1, 0, 0}), cq.inv({0, 1, 0}), cq.inv({0, 0, 1})};
				covrot(rows, M, va);
				double in[3], R[3];

				for (int i = 0; i < 3; i++) { in[i] = c.k.x[4 + i] - m[i]; R[i] = std::max(va[i], 0.0025); }

				const double g = std::max(double(p.ev_vel_innov_gate), 1.0);
				pub(c, "ev_hvel", in[0], c.k.P[4][4] + R[0], hv[0], hvv[0], 2e-4);
				pub(c, "ev_hvel", in[1], c.k.P[5][5] + R[1], hv[1], hvv[1], 2e-4);
				hpair(c, 4, in, R, g);
				pub(c, "ev_vvel", in[2], c.k.P[6][6] + R[2], vv, vvv, 2e-4);
				vert(c, 6, in[2], R[2], g, bad_acc);
			});
		}

		if (f.flags.ev_yaw) {
			expect = true;
			kinds[10]++;
			all([&](Cand & c) { c.what += " evyaw"; fuse_heading(c, pre, f, w.x); });
		}
	}

	if (d_aux && horiz) {
		expect = true;
		kinds[11]++;
		float gi[2], gv[2];
		e().getAuxVelInnov(gi);
		e().getAuxVelInnovVar(gv);
		all([&](Cand & c) {
			c.what += " aux";
			const double in[2] = {c.k.x[4] - aux.cur.vel(0), c.k.x[5] - aux.cur.vel(1)};
			const double R[2] = {aux.cur.velVar(0), aux.cur.velVar(1)};
			pub(c, "auxvel", in[0], c.k.P[4][4] + R[0], gi[0], gv[0], 1e-4);
			pub(c, "auxvel", in[1], c.k.P[5][5] + R[1], gi[1], gv[1], 1e-4);
			hpair(c, 4, in, R, p.auxvel_gate);
		});
	}

	// --- synthetic position
	if (synth) {
		float hv[2], vv, hp[2], vp, hvv[2], vvv, hpv[2], vpv;
		e().getGpsVelPosInnov(hv, vv, hp, vp);
		e().getGpsVelPosInnovVar(hvv, vvv, hpv, vpv);
		alt(" fakepos", [&](Cand & c) {
			c.fake = true;
			double ln = fake_n, le = fake_e;

			if (std::isnan(ln)) { ln = c.k.x[7] - hp[0]; le = c.k.x[8] - hp[1]; }

			c.fn = ln; c.fe = le;
			const double in[2] = {c.k.x[7] - ln, c.k.x[8] - le};
			const double s = pre.in_air && f.flags.tilt_align ? std::max(double(p.pos_noaid_noise), double(p.gps_pos_noise)) : f.flags.vehicle_at_rest ? 0.1 : 0.5;
			const double R[2] = {s * s, s * s};
			pub(c, "synthetic", in[0], c.k.P[7][7] + R[0], hp[0], hpv[0], 1e-3);
			pub(c, "synthetic", in[1], c.k.P[8][8] + R[1], hp[1], hpv[1], 1e-3);
			hpair(c, 7, in, R, 3.0, true);
		});
	}

	for (auto &c : cs) { skip = skip || c.uncertain; }
	const bool due_beta = f.flags.fuse_beta && f.flags.wind && pre.in_air && !synth && V3{k.x[4] - k.x[22], k.x[5] - k.x[23], k.x[6]}.norm() > 8;
	const bool due_drag = (p.fusion_mode & MASK_USE_DRAG) && f.flags.wind && pre.in_air && !synth && p.bcoef_x >= 1 && p.bcoef_y >= 1;
	const bool due_rng = f.flags.rng_hgt && pre.c.flags.rng_hgt && d_range;

	if (k.Rij(2, 2) < p.range_cos_max_tilt + 0.02f) { ok_upright = w.t; }

	if (skip || soft) {
		n_skip++;
		ok_fake = ok_beta = ok_drag = w.t;
		aid_maybe = w.t;

		if (d_tas) { tas_maybe = w.t; }

		if (f.flags.fuse_beta) { beta_maybe = w.t; }

		last_static321 = cs[0].last_static321;
		last_static = cn[4] == pre.cn[4] ? cs[0].last_static : NAN;

		if (d_ev && f.flags.ev_pos && (p.fusion_mode & MASK_USE_GPS)) {
			// the filter has seen this observation; what it predicted for it is only known when nothing else was
			ev_prev = !skip;
			ev_unknown = skip;
			ev_pos_prev = ev_corr;
			ev_pred_prev[0] = cs[0].ev_pred[0]; ev_pred_prev[1] = cs[0].ev_pred[1];
		}

		return;
	}

	n_cmp++;
	// --- find the candidate that explains the update
	const auto xs = e().getStateAtFusionHorizonAsVector();
	const auto &Pm = e().covariances();
	int best = -1;
	double bestm = 1e300, bestrank = 1e301;
	char worst[160] = "";
	bool x_ok = false, fit_fake = false, fit_beta = false, fit_drag = false, fit_rng = false, fit_flow = false;

	for (size_t ci = 0; ci < cs.size(); ci++) {
		const Kf &m = cs[ci].k;
		double vk[N], vm[N];
		scales(k, vk);
		scales(m, vm);
		double mx = 0, mp = 0;
		char tx[80] = "", tp[80] = "";

		for (int i = 0; i < N; i++) {
			double tol;

			if (i < 4) { tol = 2e-6; }

			else if (i < 7) { tol = 3e-6 * std::max(1.0, std::fabs(m.x[i])) + 2e-5; }

			else if (i < 10) { tol = 4e-7 * std::fabs(m.x[i]) + 1e-4; }

			else if (i < 13) { tol = 6e-9 + 3e-5 * std::fabs(m.x[i]); }

			else if (i < 16) { tol = 6e-8 + 2e-5 * std::fabs(m.x[i]); }

			else if (i < 22) { tol = 2e-6; }

			else { tol = 2e-5 * std::max(1.0, std::fabs(m.x[i])) + 3e-5; }

			// a correction is the product of a gain and an innovation: allow for the rounding of both
			tol += m.slack[i];
			const double d = std::fabs(m.x[i] - xs(i)) / tol;

			if (!(d <= mx)) { mx = std::isnan(d) ? 1e9 : d; snprintf(tx, sizeof(tx), "state %d is %.9g, reference %.9g", i, double(xs(i)), m.x[i]); }
		}

		for (int i = 0; i < N; i++) {
			for (int j = 0; j <= i; j++) {
				const double tol = 2e-5 * std::sqrt(vk[i] * vk[j]) + 1e-3 * std::sqrt(vm[i] * vm[j]) + 1e-14;
				double d = std::fabs(m.P[i][j] - Pm(i, j)) / tol;
				const double d2 = std::fabs(m.P[i][j] - Pm(j, i)) / tol;

				if (!(d2 <= d)) { d = d2; }

				if (!(d <= mp)) { mp = std::isnan(d) ? 1e9 : d; snprintf(tp, sizeof(tp), "covariance (%d,%d) is %.7g and %.7g, reference %.7g", i, j, double(Pm(i, j)), double(Pm(j, i)), m.P[i][j]); }
			}
		}

		const double q = std::max(mx, mp);
		// several explanations may fit: prefer one that also fits what is published
		if (q <= 1 && published_ok(cs[ci])) { fit_fake |= cs[ci].fake; fit_beta |= cs[ci].beta; fit_drag |= cs[ci].drag; fit_rng |= cs[ci].rng; fit_flow |= cs[ci].flow; }

		const double rank = q > 1 ? 1e3 + q : q + (published_ok(cs[ci]) ? 0 : 10);

		if (rank < bestrank) { bestrank = rank; bestm = q; best = int(ci); x_ok = mx <= 1; snprintf(worst, sizeof(worst), "%s", mx > 1 ? tx : tp); }
	}

	Cand &c = cs[best];

	// --- what is due is fused
	if (!ok_fake) { ok_fake = ok_beta = ok_drag = w.t; }

	if (!synth || fit_fake || bestm > 1) { ok_fake = w.t; }

	if (!due_beta || fit_beta || bestm > 1) { ok_beta = w.t; }

	if (!due_drag || fit_drag || bestm > 1) { ok_drag = w.t; }

	if (only_fusion) {
		MC_CHECK(w.t <= ok_fake + 250000, "missing/synthetic", "no synthetic position was fused for %.3f s without any horizontal aiding (t=%.2f)", (w.t - ok_fake) * 1e-6, w.t * 1e-6);
		MC_CHECK(w.t <= ok_beta + 200000, "missing/sideslip", "no sideslip was fused for %.3f s although it is enabled (t=%.2f)", (w.t - ok_beta) * 1e-6, w.t * 1e-6);
		MC_CHECK(w.t <= ok_drag + 300000, "missing/drag", "no drag was fused for %.3f s although it is enabled (t=%.2f)", (w.t - ok_drag) * 1e-6, w.t * 1e-6);
	}

	const bool settled = w.t > ok_upright + 2500000 && bestm <= 1;

	if (due_rng && settled && !fit_rng) { miss_rng++; if (getenv("CORE_DUMP")) { fprintf(stderr, "miss rng t=%.3f\n", w.t * 1e-6); } }

	if (due_flow && settled && !fit_flow) { miss_flow++; if (getenv("CORE_DUMP")) { fprintf(stderr, "miss flow t=%.3f\n", w.t * 1e-6); } }

	stat_max = std::max(stat_max, bestm);

	if (bestm <= 1) {
		for (const Pub &q : c.pubs) {
			const double vt = q.vtol(), it = q.tol();

			if (!only_predict_x && !only_predict_P) {
				char key[64];
				snprintf(key, sizeof(key), "published/%s", q.name);
				MC_CHECK(std::fabs(q.ri - q.gi) <= it, key, "published innovation of %s is %.9g, reference %.9g (%s, t=%.2f)", q.name, q.gi, q.ri, c.what.c_str(), w.t * 1e-6);
				MC_CHECK(std::fabs(q.rv - q.gv) <= vt, key, "published innovation variance of %s is %.9g, reference %.9g (%s, t=%.2f)", q.name, q.gv, q.rv, c.what.c_str(), w.t * 1e-6);
			}
		}

		if (c.stale_ev && only_fusion && !stale_reported) {
			stale_reported = true;
			MC_FAIL("stale vision height", "a vision height sample already used is fused again without new data (t=%.2f)", w.t * 1e-6);
		}

	} else {
		const bool fusing = expect;
		const char *key0 = fusing ? "update" : (x_ok ? "covariance prediction" : "state prediction");
		std::string key = key0;
		key += c.what.empty() && fusing ? " (" + cs[0].what + ")" : c.what;

		if (key.size() > 100) { key.resize(100); }

		const bool mine = only_predict_x ? (!fusing && !x_ok) : only_predict_P ? (!fusing && x_ok) : only_fusion ? fusing : true;

		if (getenv("CORE_DUMP")) {
			fprintf(stderr, "t=%.3f %s %s ex %.1f\n", w.t * 1e-6, key.c_str(), worst, bestm);

			for (auto &cc : cs) {
				fprintf(stderr, " cand [%s] x9 %.9g P99 %.6g:", cc.what.c_str(), cc.k.x[9], cc.k.P[9][9]);

				for (auto &q : cc.pubs) { fprintf(stderr, " %s %.6g/%.6g (%.6g/%.6g)", q.name, q.ri, q.gi, q.rv, q.gv); }

				fprintf(stderr, "\n");
			}

			for (int i = 0; i < N; i++) { fprintf(stderr, "  %2d x %.9g ref %.9g pred %.9g  P %.6g ref %.6g pred %.6g\n", i, double(xs(i)), c.k.x[i], k.x[i], double(Pm(i, i)), c.k.P[i][i], k.P[i][i]); }
		}

		if (mine) { MC_FAIL(key.c_str(), "%s (excess %.1f x tolerance, fusing [%s], t=%.2f s)", worst, bestm, c.what.c_str(), w.t * 1e-6); }
	}

	// small errors of the same sign in every step (like that of the earth rate) hide in the rounding of one of them
	if (only_predict_x && bestm <= 1 && c.what.empty() && !expect) {
		const Q4 qr{c.k.x[0], c.k.x[1], c.k.x[2], c.k.x[3]};
		const Q4 d = Q4{xs(0), xs(1), xs(2), xs(3)} * qr.conj();
		const double sg = d.w < 0 ? -2 : 2;
		drift_sum = drift_sum + V3{d.x, d.y, d.z} *sg;
		drift_n++;

		for (int i = 0; i < 3; i++) { (&drift_v.x)[i] += xs(4 + i) - c.k.x[4 + i]; (&drift_p.x)[i] += xs(7 + i) - c.k.x[7 + i]; }

		drift_far = std::max(drift_far, V3{c.k.x[7], c.k.x[8], c.k.x[9]}.norm());

		if (drift_n % 200 == 0) {
			const double n = drift_n, r = std::sqrt(n);
			const double la = 5e-8 * n + 5e-7 * r, lv = 1e-7 * n + 2e-6 * r, lp = 4e-7 * n + (1e-6 + 1e-7 * drift_far) * r;

			if (getenv("CORE_STAT")) { fprintf(stderr, "drift a %.3f v %.3f p %.3f of limit, n %d\n", drift_sum.norm() / la, drift_v.norm() / lv, drift_p.norm() / lp, drift_n); }

			MC_CHECK(drift_sum.norm() < la, "drift", "in %d predictions the attitude has turned by %.3g %.3g %.3g rad more than it should have (t=%.2f s)", drift_n, drift_sum.x, drift_sum.y, drift_sum.z, w.t * 1e-6);
			MC_CHECK(drift_v.norm() < lv, "velocity drift", "in %d predictions the velocity has changed by %.3g %.3g %.3g m/s more than it should have (t=%.2f s)", drift_n, drift_v.x, drift_v.y, drift_v.z, w.t * 1e-6);
			MC_CHECK(drift_p.norm() < lp, "position drift", "in %d predictions the position has changed by %.3g %.3g %.3g m more than it should have (t=%.2f s)", drift_n, drift_p.x, drift_p.y, drift_p.z, w.t * 1e-6);
		}
	}

	// the same for the covariance
	if (only_predict_P && bestm <= 1 && c.what.empty() && !expect) {
		cov_n++;
		double vs[N];
		scales(c.k, vs);

		for (int i = 0; i < N; i++) {
			for (int j = 0; j <= i; j++) {
				const double sc = std::sqrt(vs[i] * vs[j]);

				if (sc > 1e-30) { cov_sum[i][j] += (Pm(i, j) - c.k.P[i][j]) / sc; }
			}
		}

		if (cov_n % 200 == 0) {
			const double lim = 1.5e-7 * cov_n + 1.5e-6 * std::sqrt(double(cov_n));

			for (int i = 0; i < N; i++) {
				for (int j = 0; j <= i; j++) {
					MC_CHECK(std::fabs(cov_sum[i][j]) < lim, "covariance drift", "in %d predictions the covariance (%d,%d) has changed by %.3g more than it should have, relative to the variances (t=%.2f s)", cov_n, i, j, cov_sum[i][j], w.t * 1e-6);
				}
			}
		}
	}

	if (bestm <= 1) {
		if (!std::isnan(c.learn_baro)) { baro_off = c.learn_baro; }

		if (!std::isnan(c.learn_hgt)) { hgt_off = c.learn_hgt; }
	}

	if (c.aided) { aid_sure = aid_maybe = w.t; }

	if (c.tas_in) { tas_sure = tas_maybe = w.t; }

	if (c.beta_in) { beta_sure = beta_maybe = w.t; }

	if (c.beta) { c_beta++; t_beta = w.t; }

	if (c.drag) { c_drag++; drag_waiting = false; }

	if (c.rng) { c_rng++; }

	if (c.flow) { c_flow++; }

	if (c.fake) {
		c_fake++;
		t_fake = w.t;
		fake_n = c.fn; fake_e = c.fe;
	}

	if (d_ev && f.flags.ev_pos) { ev_prev = true; ev_unknown = false; ev_pos_prev = ev_corr; ev_pred_prev[0] = c.ev_pred[0]; ev_pred_prev[1] = c.ev_pred[1]; }

	last_static = c.last_static;
	last_static321 = c.last_static321;
	mc::evaluation(expect);
}

struct Scn { int mag, hgt, aid, air, mot, var, stress; };
// a longitude at 80 degrees south where the declination of the built-in table is close to +-180 degrees
static double pole_longitude()
{
	double best = 0, d = -1;

	for (int i = -180; i < 180; i++) {
		const double x = std::fabs(get_mag_declination_radians(-80.f, float(i)));

		if (x > d) { d = x; best = i; }
	}

	return best;
}
static const int NMAG = 5, NHGT = 4, NAID = 9, NAIR = 4, NMOT = 6, NVAR = 2;

static void run_scenario(const Scn &s)
{
	static const int mags[NMAG] = {MAG_FUSE_TYPE_AUTO, MAG_FUSE_TYPE_HEADING, MAG_FUSE_TYPE_3D, MAG_FUSE_TYPE_INDOOR, MAG_FUSE_TYPE_NONE};
	static Core *pc = nullptr;
	delete pc;
	pc = new Core;
	Core &c = *pc;
	World &w = c.w;
	parameters &p = w.make(0);
	p.mag_fusion_type = mags[s.mag];
	p.vdist_sensor_type = s.hgt;
	int fm = 0;

	switch (s.aid) {
	case 1: fm = MASK_USE_GPS; break;

	case 2: fm = MASK_USE_OF; break;

	case 3: fm = MASK_USE_EVPOS; break;

	case 4: fm = MASK_USE_EVVEL; break;

	case 5: fm = MASK_USE_EVPOS | MASK_USE_EVYAW | MASK_USE_EVVEL; break;

	case 6: fm = MASK_USE_GPS | MASK_USE_EVPOS; break;

	case 7: fm = MASK_USE_GPS | MASK_USE_OF; break;

	case 8: fm = MASK_USE_GPS | MASK_USE_GPSYAW; break;
	}

	c.s_gps = (fm & MASK_USE_GPS) || s.hgt == VDIST_SENSOR_GPS;
	c.s_ev = (fm & (MASK_USE_EVPOS | MASK_USE_EVVEL)) || s.hgt == VDIST_SENSOR_EV;
	c.s_flow = fm & MASK_USE_OF;
	c.s_range = c.s_flow || s.hgt == VDIST_SENSOR_RANGE;
	c.s_aux = s.aid == 3 || s.aid == 1;
	c.s_mag = p.mag_fusion_type != MAG_FUSE_TYPE_NONE;
	w.gps_yaw = fm & MASK_USE_GPSYAW;

	if (s.var == 1) {
		w.lat0 = -35.3; w.lon0 = 149.1;
		w.gyro_bias = {0.01, -0.008, 0.005};
		w.accel_bias = {0.05, -0.03, 0.08};
		p.imu_pos_body = Vector3f(0.1f, -0.05f, 0.02f);
		p.gps_pos_body = Vector3f(-0.3f, 0.2f, -0.4f);
		p.ev_pos_body = Vector3f(0.25f, 0.1f, 0.15f);
		p.flow_pos_body = Vector3f(0.05f, 0.1f, 0.1f);
		p.rng_pos_body = Vector3f(-0.1f, 0.05f, 0.12f);
		p.gps_vel_noise = 0.3f; p.gps_pos_noise = 0.9f; p.baro_noise = 1.2f; p.mag_noise = 0.03f; p.mag_heading_noise = 0.2f;
		p.flow_noise = 0.2f; p.range_noise = 0.15f; p.range_noise_scaler = 0.02f; p.eas_noise = 1.0f; p.beta_noise = 0.2f;
		p.initial_wind_uncertainty = 2.5f; p.drag_noise = 1.5f; p.bcoef_x = 60; p.bcoef_y = 40;
		p.gyro_noise = 0.02f; p.accel_noise = 0.5f; p.gyro_bias_p_noise = 2e-3f; p.accel_bias_p_noise = 6e-3f; p.mage_p_noise = 2e-3f;
		p.magb_p_noise = 4e-4f; p.wind_vel_p_noise = 0.2f; p.wind_vel_p_noise_scaler = 0.7f;
		p.mag_declination_deg = 12;
		p.mag_declination_source = s.mag == 2 ? 0 : 7;
		w.gps_tmpl.yaw_offset = 0.4f;
		w.gps_ant = {-0.4, 0.25, -0.42};
		fm |= MASK_ROTATE_EV;
		w.ev_vel_frame = velocity_frame_t::BODY_FRAME_FRD;
		w.ev_yaw_off = fm & MASK_USE_EVYAW ? 0 : 0.7;
		w.flow_quality = 120;
		c.together = true;
		// a window of observations at the same instant needs room for their own delays only
	}

	p.fusion_mode = fm;
	c.period = 80000;
	w.wind = {3, -2, 0};
	w.ekf->set_rangefinder_limits(0.05f, 60.f);
	w.ekf->set_optical_flow_limits(8.f, 0.05f, 60.f);
	w.ekf->set_min_required_gps_health_time(1000000);
	bool late_ev = false;

	// the two inertial sensors integrate over intervals that differ
	if ((s.var + s.mot + s.aid) % 2) { w.dv_skew = 0.08; }

	// stress 1: bad vertical acceleration, 2: disturbed field, 3: sensors that jump, 4: close to a magnetic pole (declination
	// around 180 degrees), 5: vision starts late, 6: clipping of single axes
	if (s.stress == 2) { p.check_mag_strength = 1; }

	if (s.stress == 4) { w.lat0 = -80; w.lon0 = pole_longitude(); }

	if (s.stress == 5) { late_ev = c.s_ev; c.s_ev = false; }

	w.begin();
	const double yaw0 = s.var ? 2.4 : -0.6;
	w.x.q = q_euler(s.var ? 0.05 : 0, s.var ? -0.04 : 0, yaw0);
	w.x.p = {0, 0, s.hgt == VDIST_SENSOR_RANGE || c.s_flow ? -0.15 : 0};
	w.range_dither = 0.01;
	const bool fast = s.air == 1 || s.air == 2;
	const V3 dir{std::cos(yaw0), std::sin(yaw0), 0};
	const uint64_t start = w.t;
	auto stress = [&](double t) {
		const bool on = t > 18 && t < 21;

		switch (s.stress) {
		case 1: w.imu_force = on ? V3{0, 0, 14} : V3{}; w.clip[2] = on; break;

		case 2: w.mag_scale = on ? 1.6 : 1; break;

		case 3:
			w.gps_pos_err = on ? V3{12, -5, -9} : V3{}; w.gps_vel_err = t > 19 && on ? V3{0.5, -3, 1.5} : V3{};
			w.baro_off = on ? 16 : 0; w.ev_pos_off = on ? V3{3, 2, -2} : V3{};
			w.mag_bias = t > 20 && on ? V3{0.15, -0.2, 0.1} : V3{};
			break;

		case 4: w.mag_ned_err = t > 18 ? V3{0, -0.02 * std::sin(t), 0} : V3{}; break;   // the field seen is on either side of +-180

		case 5: if (late_ev && t > 14.5) { c.s_ev = true; } break;

		case 6:     // one axis after the other, together at the end
			for (int k = 0; k < 3; k++) { w.clip[k] = (t > 18 + 0.6 * k && t < 18.4 + 0.6 * k) || (t > 20 + 0.1 * k && t < 20.5 + 0.2 * k); }

			break;
		}
	};
	auto until = [&](double sec, const std::function<void(double)> &each) {
		while (w.t < start + uint64_t(sec * 1e6)) { const double t = (w.t - start) * 1e-6; each(t); stress(t); c.tick(); }
	};
	until(12, [&](double) {});
	const bool fly = s.mot != 0;

	if (fly) {
		w.ekf->set_in_air_status(true);
		c.last_in_air_set = w.t;
		w.ekf->set_is_fixed_wing(s.air == 2);

		if (s.air == 2) { w.ekf->set_fuse_beta_flag(true); }

		c.s_tas = fast;
	}

	if (s.air == 3) { p.fusion_mode |= MASK_USE_DRAG; }

	if (fly) {
		until(16, [&](double t) {
			const double az = t < 14 ? -1.5 : 1.5;
			w.cmd_a = V3{0, 0, az} + (fast ? dir * 3.5 : dir * (t < 14 ? 0.8 : -0.5));
		});
		until(27, [&](double t) {
			const double u = t - 16;
			V3 a{0, 0, 0.4 * std::sin(0.9 * u)}, r;

			switch (s.mot) {
			case 1: a = a + V3{0.3 * std::sin(u), -0.3 * std::sin(1.3 * u), 0}; r = {0.02 * std::cos(2 * u), 0.03 * std::cos(1.7 * u), 0.5}; break;

			case 2: a = a + V3{1.5 * std::sin(1.1 * u), 1.2 * std::sin(0.8 * u), 0}; r = {0.4 * std::cos(1.5 * u), 0.5 * std::cos(1.1 * u), 0.3 * std::cos(0.5 * u)}; break;

			case 3: a = a + V3{-dir.y, dir.x, 0} * (3 * std::sin(0.5 * u)); r = {0.3 * std::cos(u), 0.05 * std::cos(u), 0.35 * std::sin(0.5 * u)}; break;

			case 4: a = a + V3{0.8 * std::sin(u), 0.8 * std::sin(0.9 * u), 0}; r = {0.05, u < 2 ? 0.75 : 0.05 * std::cos(u), u > 4 ? 0.2 : 0}; break;

			case 5: a = a + V3{0.8 * std::sin(u), -0.8 * std::sin(0.9 * u), 0}; r = {u < 2.5 ? 1.2 : 0.1, 0.2 * std::cos(u), u > 4 ? -0.3 : 0.1}; break;
			}

			w.cmd_a = a;
			w.cmd_w = r;
		});

	} else {
		until(24, [&](double t) { w.ekf->set_gnd_effect_flag(t > 18); });
	}

	// --- occurrences: nothing due is left out over the run
	if (only_fusion) {
		MC_CHECK((s.mag == 4 && s.mot == 0) || c.n_cmp > c.n_upd / 20, "coverage", "only %llu of %llu updates could be compared", (unsigned long long) c.n_cmp, (unsigned long long) c.n_upd);
	}

	if (only_fusion) {
		MC_CHECK(c.miss_rng <= 2, "missing/range", "%llu of %llu range height samples due were not fused", (unsigned long long) c.miss_rng, (unsigned long long) c.c_rng_due);
		MC_CHECK(c.miss_flow <= 10 + c.c_flow_due / 8, "missing/flow", "%llu of %llu flow samples due were not fused", (unsigned long long) c.miss_flow, (unsigned long long) c.c_flow_due);
	}

	mc::visit(mc::hash_pod(1, state_of(c.e())));

	if (mc::hash_pod(7, state_of(c.e())) % 101 == 0) { mc::sample("magnetometer mode %d, height source %d, aiding %d, air data %d, motion %d, set %d, disturbance %d: %llu updates, %llu compared", s.mag, s.hgt, s.aid, s.air, s.mot, s.var, s.stress, (unsigned long long)c.n_upd, (unsigned long long)c.n_cmp); }

	if (mc::replaying() || getenv("CORE_STAT")) {
		fprintf(stderr, "scn %d %d %d %d %d %d %d: upd %llu cmp %llu skip %llu max %.2f kinds", s.mag, s.hgt, s.aid, s.air, s.mot, s.var, s.stress, (unsigned long long)c.n_upd, (unsigned long long)c.n_cmp, (unsigned long long)c.n_skip, c.stat_max);

		for (int i = 0; i < 13; i++) { fprintf(stderr, " %llu", (unsigned long long)c.kinds[i]); }

		fprintf(stderr, " fake %llu beta %llu drag %llu rng %llu/%llu flow %llu/%llu miss %llu %llu\n", (unsigned long long)c.c_fake, (unsigned long long)c.c_beta, (unsigned long long)c.c_drag, (unsigned long long)c.c_rng, (unsigned long long)c.c_rng_due, (unsigned long long)c.c_flow, (unsigned long long)c.c_flow_due, (unsigned long long)c.miss_rng, (unsigned long long)c.miss_flow);
	}
}

int main(int argc, char **argv)
{
	mc::init(argc, argv, "E04");
	only_predict_x = mc::mode("state");
	only_predict_P = mc::mode("cov");
	only_fusion = mc::mode("fusion");

	if (!mc::replaying() && getenv("MC_RESULT")) { if (!freopen("/dev/null", "w", stdout)) { return 9; } }

	std::vector<Scn> list;

	for (int mag = 0; mag < NMAG; mag++) {
		for (int hgt = 0; hgt < NHGT; hgt++) {
			for (int aid = 0; aid < NAID; aid++) {
				for (int air = 0; air < NAIR; air++) {
					for (int mot = 0; mot < NMOT; mot++) {
						for (int var = 0; var < NVAR; var++) {
							if (mot == 0 && air != 0) { continue; }

							if (!mc::thorough() && (mag + 2 * hgt + 3 * aid + 5 * air + 7 * mot + 11 * var) % 6 != 0) { continue; }

							list.push_back({mag, hgt, aid, air, mot, var, 0});
						}
					}
				}
			}
		}
	}

	for (int mag = 0; mag < NMAG; mag++) {
		for (int hgt = 0; hgt < NHGT; hgt++) {
			for (int aid = 0; aid < NAID; aid++) {
				for (int air = 0; air < NAIR; air++) {
					for (int mot = 1; mot < NMOT; mot++) {
						for (int st = 1; st < 7; st++) {
							if (!mc::thorough() && ((mag + 2 * hgt + 3 * aid + st) % 2 || air != (mag + aid + st) % NAIR || mot != 1 + (hgt + aid + st) % 2)) { continue; }

							list.push_back({mag, hgt, aid, air, mot, (mag + hgt + aid + air + mot) % 2, st});
						}
					}
				}
			}
		}
	}

	// neighbouring scenarios are similar: spread them over the workers
	const uint64_t n = list.size();
	uint64_t stride = n / 8 * 3 + 1;

	while (true) { uint64_t a = n, b = stride; while (b) { const uint64_t r = a % b; a = b; b = r; } if (a == 1) { break; } stride++; }

	if (const char *o = getenv("CORE_ONE")) {
		Scn s;
		sscanf(o, "%d,%d,%d,%d,%d,%d,%d", &s.mag, &s.hgt, &s.aid, &s.air, &s.mot, &s.var, &s.stress);
		list.assign(1, s);
		stride = 1;
	}

	mc::rule("product of 5 magnetometer modes, 4 height sources, 9 aiding selections, 4 air data uses, 6 motions and 2 parameter sets (quick: every sixth, a covering subset; thorough: all), and the same product with 6 disturbances (bad vertical "
		 "acceleration, disturbed field, jumping sensors, declination at +-180 degrees, late vision, clipping of single axes); an evaluation is the comparison of all 24 states and 576 covariances of one update with the reference, non-trivial when a measurement was due");
	mc::for_all("scenarios", list.size(), [&](uint64_t i) { run_scenario(list[(i * stride) % list.size()]); });
	return mc::finish();
}

// Reference of the decisions of the filter: which sources of horizontal aiding, height and heading are in use, when states
// are reset, whether the vertical acceleration is trusted. It is run in step with the real filter and predicts, from the
// reports of the previous update, the samples that have come due and its own record of what was accepted when, the
// decisions of the next update. Where a decision hangs on a quantity that is not published (or on a comparison too
// close to call) the prediction is "unknown" and the observed decision is taken over. Included by ekf_env.cpp.
#pragma once

struct Tri {
	int v;                                        // 0 no, 1 yes, 2 unknown
	Tri(bool b = false) : v(b) {}
	static Tri U() { Tri t; t.v = 2; return t; }
	bool yes() const { return v == 1; }
	bool no() const { return v == 0; }
	bool unknown() const { return v == 2; }
	bool maybe() const { return v != 0; }
	Tri operator!() const { Tri t; t.v = v == 2 ? 2 : !v; return t; }
	Tri operator&(Tri o) const { Tri t; t.v = (v == 0 || o.v == 0) ? 0 : (v == 1 && o.v == 1) ? 1 : 2; return t; }
	Tri operator|(Tri o) const { Tri t; t.v = (v == 1 || o.v == 1) ? 1 : (v == 0 && o.v == 0) ? 0 : 2; return t; }
	// unknown resolved by what was seen
	bool take(bool seen) const { return v == 2 ? seen : v == 1; }
};
static Tri above(double x, double lim, double eps) { return x > lim + eps ? Tri(true) : x < lim - eps ? Tri(false) : Tri::U(); }

// the time something happened, between lo and hi; comparisons closer than SLACK are unknown
struct Tm {
	static constexpr int64_t SLACK = 15000;
	int64_t lo{0}, hi{0};
	void set(uint64_t t) { lo = hi = int64_t(t); }
	void may(uint64_t t) { hi = int64_t(t); }
	void happen(Tri x, uint64_t t) { if (x.yes()) { set(t); } else if (x.maybe()) { may(t); } }
	Tri out(uint64_t now, int64_t to) const { return hi + to + SLACK < int64_t(now) ? Tri(true) : lo + to - SLACK >= int64_t(now) ? Tri(false) : Tri::U(); }
	Tri recent(uint64_t now, int64_t to) const { return lo + to - SLACK > int64_t(now) ? Tri(true) : hi + to + SLACK <= int64_t(now) ? Tri(false) : Tri::U(); }
	Tri after(const Tm &o) const { return lo > o.hi ? Tri(true) : hi <= o.lo ? Tri(false) : Tri::U(); }
};

// samples on their way to the fusion horizon
template<typename T> struct Queue {
	struct Item { uint64_t t; T d; };
	std::deque<Item> q;
	uint64_t last{0};                              // arrival of the newest stored sample
	uint64_t sum{0}, cnt{0};
	size_t cap{9};
	T newest{};
	// returns true when stored
	bool push(uint64_t stamp, uint64_t spacing, float delay_ms, const T &d, bool average)
	{
		if (average) { cnt++; sum += stamp / 1000; }

		if (stamp - last <= spacing) { return false; }

		last = stamp;
		uint64_t t = average ? 1000 * (sum / cnt) : stamp;
		cnt = sum = 0;
		t -= uint64_t(int64_t(delay_ms * 1000)) + 5000;
		q.push_back({t, d});

		if (q.size() > cap) { q.pop_front(); }

		newest = d;
		return true;
	}
	bool pop(uint64_t horizon, Item &out)
	{
		for (int i = int(q.size()) - 1; i >= 0; i--) {
			if (horizon >= q[i].t && horizon < q[i].t + 100000) {
				out = q[i];
				q.erase(q.begin(), q.begin() + i + 1);
				return true;
			}
		}

		return false;
	}
};

struct Ctl {
	typedef decltype(filter_control_status_u::flags) Flags;
	struct GpsD { V3 vel; float hacc, vacc, sacc, hgt, yaw; };
	Queue<GpsD> qgps;
	Queue<V3> qmag;
	Queue<float> qbaro, qtas;
	Queue<rangeSample> qrng;
	Queue<flowSample> qflow;
	uint64_t flow_gap{0};                          // between the last two flow samples that were used
	Queue<extVisionSample> qev;
	Queue<GpsD>::Item gps{};
	Queue<V3>::Item mag{};
	Queue<float>::Item baro{}, tas{};
	Queue<rangeSample>::Item rng{};
	Queue<flowSample>::Item flow{};
	Queue<extVisionSample>::Item ev{};
	bool inited{false};
	uint64_t spacing{0}, last_delayed{1};
	int obs_len{9};
	Flags c0{};                                    // reported just before the update
	bool origin0{false};
	float gain_time{0};

	// what happened when
	Tm hgt, hpos, delpos, hvel, of, arsp, beta, fake, good_acc, bad_acc, vpos_try, vvel_try, gpsyaw, gsf, ground, hagl, bad_motion, good_motion;
	Tm gps_fail, gps_pass;
	bool gps_seen{false};
	Tri gps_passed{false};
	double gps_norm{0};
	double vpos_ratio{0}, vvel_ratio{0};
	Tri synth{false}, yaw_faulty{false}, gsf_request{false}, suitable{false};
	int gsf_lo{0}, gsf_hi{0};
	int clip{0};
	V3 avec;
	double wmag{0};
	bool flow_ready{false};
	uint64_t flow_unsure{0};
	float flow_acc{0};
	V3 vel_obs;
	double vel_obs_var{1e9};
	// range finder
	float dt_lpf{0};
	Tri rng_valid{false}, stuck{false};
	bool rng_regular{false};
	uint64_t rng_bad{0}, rng_last_valid{0};
	float stuck_min{0}, stuck_max{0};
	uint64_t course{0};
	// height reference
	double baro_off{NAN}, hgt_off{NAN};
	double alt{0};                                 // altitude of the origin
	bool map{false};                               // it has a place
	// last known position
	V3 known;
	double known_tol{1e9};
	void begin(const parameters &P)
	{
		float m = std::max(P.baro_delay_ms, std::max(P.auxvel_delay_ms, P.airspeed_delay_ms));

		if (P.mag_fusion_type != MAG_FUSE_TYPE_NONE) { m = std::max(m, P.mag_delay_ms); }

		if (P.range_aid || P.vdist_sensor_type == VDIST_SENSOR_RANGE) { m = std::max(m, P.range_delay_ms); }

		if ((P.fusion_mode & MASK_USE_GPS) || P.vdist_sensor_type == VDIST_SENSOR_GPS) { m = std::max(m, P.gps_delay_ms); }

		if (P.fusion_mode & MASK_USE_OF) { m = std::max(m, P.flow_delay_ms); }

		if ((P.fusion_mode & (MASK_USE_EVPOS | MASK_USE_EVYAW | MASK_USE_EVVEL)) || P.vdist_sensor_type == VDIST_SENSOR_EV) { m = std::max(m, P.ev_delay_ms); }

		const int imu_len = int(std::ceil(m / 10)) + 1;
		obs_len = std::max(2, std::min(int(std::ceil(m * 1.5f / P.sensor_interval_min_ms)), imu_len));
		qgps.cap = qmag.cap = qbaro.cap = qtas.cap = qrng.cap = qev.cap = obs_len;
		qflow.cap = imu_len;
	}
};

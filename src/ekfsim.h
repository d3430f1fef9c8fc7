// A deterministic world around one or two instances of the real filter: a vehicle with an exactly known
// trajectory (double precision) and a sensor suite that reports that truth, delayed as the filter's parameters
// say, plus whatever fault the explorer asks for. Only the public interface of the filter is used.
#pragma once

#include "mc.h"
#include <cmath>
#include <new>
#include <EKF/ekf.h>
#include <geo_lookup/geo_mag_declination.h>

namespace sim
{

using matrix::Vector2f;
using matrix::Vector3f;
using matrix::Quatf;
using matrix::Dcmf;
using matrix::Eulerf;
using namespace estimator;

// ------------------------------------------------------------------ double precision helpers, own code
struct V3 {
	double x{0}, y{0}, z{0};
	V3 operator+(const V3 &o) const { return {x + o.x, y + o.y, z + o.z}; }
	V3 operator-(const V3 &o) const { return {x - o.x, y - o.y, z - o.z}; }
	V3 operator*(double s) const { return {x * s, y * s, z * s}; }
	double dot(const V3 &o) const { return x * o.x + y * o.y + z * o.z; }
	V3 cross(const V3 &o) const { return {y * o.z - z * o.y, z * o.x - x * o.z, x * o.y - y * o.x}; }
	double norm() const { return std::sqrt(dot(*this)); }
	double hnorm() const { return std::hypot(x, y); }
	double operator[](int i) const { return i == 0 ? x : i == 1 ? y : z; }
};
inline V3 v3(const Vector3f &f) { return {f(0), f(1), f(2)}; }
inline Vector3f f3(const V3 &v) { return Vector3f(float(v.x), float(v.y), float(v.z)); }

struct Q4 {
	double w{1}, x{0}, y{0}, z{0};
	Q4 operator*(const Q4 &o) const
	{
		return {w *o.w - x * o.x - y * o.y - z * o.z,
			w *o.x + x * o.w + y * o.z - z * o.y,
			w *o.y - x * o.z + y * o.w + z * o.x,
			w *o.z + x * o.y - y * o.x + z * o.w};
	}
	Q4 conj() const { return {w, -x, -y, -z}; }
	double n2() const { return w * w + x * x + y * y + z * z; }
	Q4 normalized() const { const double n = std::sqrt(n2()); return {w / n, x / n, y / n, z / n}; }
	V3 rot(const V3 &v) const   // body -> earth
	{
		const V3 u{x, y, z};
		const V3 t = u.cross(v) * 2.0;
		return v + t * w + u.cross(t);
	}
	V3 inv(const V3 &v) const { return conj().rot(v); }
	double yaw() const { return std::atan2(2 * (w * z + x * y), w * w + x * x - y * y - z * z); }
	double pitch() const { double s = 2 * (w * y - z * x); s = s > 1 ? 1 : s < -1 ? -1 : s; return std::asin(s); }
	double roll() const { return std::atan2(2 * (w * x + y * z), w * w - x * x - y * y + z * z); }
};
inline Q4 q4(const Quatf &q) { return {q(0), q(1), q(2), q(3)}; }
inline Q4 q_exp(const V3 &r)
{
	const double a = r.norm();

	if (a < 1e-12) { return Q4{1, r.x / 2, r.y / 2, r.z / 2} .normalized(); }

	const double s = std::sin(a / 2) / a;
	return {std::cos(a / 2), r.x * s, r.y * s, r.z * s};
}
inline Q4 q_euler(double roll, double pitch, double yaw)
{
	return q_exp({0, 0, yaw}) * q_exp({0, pitch, 0}) * q_exp({roll, 0, 0});
}
// angle of the rotation between two attitudes
inline double q_angle(const Q4 &a, const Q4 &b)
{
	const Q4 d = (a.conj() * b).normalized();
	return 2 * std::atan2(std::sqrt(d.x * d.x + d.y * d.y + d.z * d.z), std::fabs(d.w));
}
inline double wrap(double a) { while (a > M_PI) { a -= 2 * M_PI; } while (a < -M_PI) { a += 2 * M_PI; } return a; }
// angle between the two "down" directions as seen in the body
inline double tilt_angle(const Q4 &a, const Q4 &b)
{
	const V3 da = a.inv({0, 0, 1}), db = b.inv({0, 0, 1});
	double c = da.dot(db);
	return std::atan2(da.cross(db).norm(), c);
}

constexpr double G = 9.80665;
constexpr double DEG = M_PI / 180;
constexpr double EARTH_R = 6371000.0;

struct Truth {
	uint64_t t{0};
	Q4 q;
	V3 v, p, w, a;   // NED velocity, NED position, body rate, NED acceleration
};

struct Sensor {
	bool on{false};
	uint32_t period{100000};
	uint64_t next{0};
	uint64_t delay{0};        // delay of the measurement: what is reported at t is true at t - delay
	bool due(uint64_t t) { if (!on || t < next) { return false; } next += period; if (next <= t) { next = t + period; } return true; }
	void start(uint64_t t, uint64_t phase = 0) { on = true; next = t + phase; }
	void stop() { on = false; }
};

struct World {
	// --- configuration
	uint64_t t0{0};
	uint32_t imu_dt{5000};
	double lat0{47.3566094}, lon0{8.5190237}, alt0{422.056};   // true origin of the NED frame
	double ground{0};                                           // NED z of the terrain
	V3 mag_ned;                                                // Gauss
	bool auto_mag{true};
	// --- state
	uint64_t t{0};
	Truth x;
	static constexpr int HN = 256;
	Truth hist[HN];
	int hn{0};
	// --- motion command: constant body rate and NED acceleration for now
	V3 cmd_w, cmd_a;
	// --- imu error
	V3 gyro_bias, accel_bias;
	double gyro_dither{0}, accel_dither{0};
	bool clip[3] {false, false, false};
	V3 imu_force;                                // additional (false) specific force, body
	// --- sensors
	Sensor mag, baro, gps, range, flow, ev, airspeed, auxvel;
	// gps
	gps_message gps_tmpl{};
	V3 gps_pos_err, gps_vel_err;
	double gps_rot{0};                             // receiver reports a world that is turned about a pivot
	V3 gps_piv;
	bool gps_yaw{false};
	double gps_yaw_err{0};
	double dv_skew{0};
	V3 gps_ant{0, 0, 0};
	// baro, range
	double baro_off{0}, range_off{0};
	float range_fixed{NAN};
	int8_t range_quality{100};
	double range_dither{0};
	V3 range_pos;                  // sensor position relative to the imu, body
	double range_pitch{0};
	// magnetometer
	V3 mag_bias, mag_ned_err;
	double mag_scale{1};
	// external vision
	V3 ev_pos_off, ev_vel_off;
	double ev_yaw_off{0};          // rotation of the vision frame
	double ev_yaw_err{0};
	velocity_frame_t ev_vel_frame{velocity_frame_t::LOCAL_FRAME_FRD};
	float ev_pos_var{0.01f}, ev_vel_var{0.01f}, ev_ang_var{0.0025f};
	// flow
	V3 flow_err;
	double flow_scale{1};
	uint8_t flow_quality{255};
	bool flow_gyro{true};
	// airspeed
	V3 wind;
	double aspd_err{0};
	V3 aux_err;
	float aux_var{0.01f};
	// --- bookkeeping
	uint64_t ticks{0}, updates{0};

	Ekf *ekf{nullptr};
	alignas(64) unsigned char store[sizeof(Ekf)];

	World() { defaults(); }
	~World() { if (ekf) { ekf->~Ekf(); ekf = nullptr; } }
	World(const World &) = delete;

	void defaults()
	{
		gps_tmpl.fix_type = 3;
		gps_tmpl.eph = 0.5f;
		gps_tmpl.epv = 0.8f;
		gps_tmpl.sacc = 0.2f;
		gps_tmpl.vel_ned_valid = true;
		gps_tmpl.nsats = 16;
		gps_tmpl.pdop = 1.0f;
		gps_tmpl.yaw = NAN;
		gps_tmpl.yaw_offset = 0.f;
		mag.period = 20000;
		baro.period = 25000;
		gps.period = 200000;
		range.period = 50000;
		flow.period = 20000;
		ev.period = 30000;
		airspeed.period = 100000;
		auxvel.period = 100000;
	}
	// construct the filter on top of storage filled with a byte pattern
	parameters &make(int fill = 0, uint64_t start = 1000000)
	{
		if (ekf) { ekf->~Ekf(); }

		memset(store, fill, sizeof(store));
		asm volatile("" ::: "memory");        // the content of the storage counts
		ekf = new (store) Ekf;   // not Ekf(): that would clear the storage first
		t0 = t = start;
		return *ekf->getParamHandle();
	}
	parameters &par() { return *ekf->getParamHandle(); }

	void begin(bool quiet_start = true)
	{
		const parameters &p = par();
		mag.delay = uint64_t(p.mag_delay_ms * 1000);
		baro.delay = uint64_t(p.baro_delay_ms * 1000);
		gps.delay = uint64_t(p.gps_delay_ms * 1000);
		range.delay = uint64_t(p.range_delay_ms * 1000);
		flow.delay = uint64_t(p.flow_delay_ms * 1000);
		ev.delay = uint64_t(p.ev_delay_ms * 1000);
		airspeed.delay = uint64_t(p.airspeed_delay_ms * 1000);
		auxvel.delay = uint64_t(p.auxvel_delay_ms * 1000);

		if (auto_mag) {
			const double d = get_mag_declination_radians(float(lat0), float(lon0));
			const double i = get_mag_inclination_radians(float(lat0), float(lon0));
			const double s = get_mag_strength_gauss(float(lat0), float(lon0));
			mag_ned = V3{std::cos(i) *std::cos(d), std::cos(i) *std::sin(d), std::sin(i)} *s;
		}

		x.t = t;
		hn = 0;
		push_hist();
	}
	void push_hist() { hist[hn % HN] = x; hn++; }
	// truth at an earlier time (linear between ticks)
	Truth at(uint64_t when) const
	{
		for (int k = hn - 1; k >= 0 && k > hn - HN; k--) {
			const Truth &a = hist[k % HN];

			if (a.t <= when) {
				if (k == hn - 1 || a.t == when) { return a; }

				const Truth &b = hist[(k + 1) % HN];
				const double f = double(when - a.t) / double(b.t - a.t);
				Truth r = f > 0.5 ? b : a;
				r.t = when;
				r.p = a.p + (b.p - a.p) * f;
				r.v = a.v + (b.v - a.v) * f;
				r.q = (a.q * q_exp(b.w * ((when - a.t) * 1e-6)));
				return r;
			}
		}

		return hist[(hn - 1) % HN];
	}
	// WGS-84 position of a NED point by the inverse azimuthal equidistant projection about the true origin
	void to_global(const V3 &p, double &lat, double &lon) const
	{
		const double n = p.x / EARTH_R, e = p.y / EARTH_R, c = std::hypot(n, e);
		const double la = lat0 * DEG, lo = lon0 * DEG;

		if (c < 1e-14) { lat = lat0; lon = lon0; return; }

		lat = std::asin(std::cos(c) * std::sin(la) + n * std::sin(c) * std::cos(la) / c) / DEG;
		lon = (lo + std::atan2(e * std::sin(c), c * std::cos(la) * std::cos(c) - n * std::sin(la) * std::sin(c))) / DEG;
	}
	gps_message gps_message_for(const Truth &d, uint64_t stamp) const
	{
		gps_message m = gps_tmpl;
		m.time_usec = stamp;
		V3 p = d.p + gps_pos_err + d.q.rot(gps_ant);

		if (gps_rot != 0) { p = gps_piv + q_exp({0, 0, gps_rot}).rot(p - gps_piv); }

		double la, lo;
		to_global(p, la, lo);
		m.lat = int32_t(std::lround(la * 1e7));
		m.lon = int32_t(std::lround(lo * 1e7));
		m.alt = int32_t(std::lround((alt0 - p.z) * 1e3));
		V3 v = d.v + gps_vel_err + d.q.rot(d.w.cross(gps_ant));

		if (gps_rot != 0) { v = q_exp({0, 0, gps_rot}).rot(v); }

		m.vel_ned = f3(v);
		m.vel_m_s = float(v.hnorm());
		m.yaw = gps_yaw ? float(wrap(d.q.yaw() + gps_yaw_err)) : NAN;
		return m;
	}
	magSample mag_for(const Truth &d, uint64_t stamp) const
	{
		magSample m;
		m.time_us = stamp;
		m.mag = f3(d.q.inv((mag_ned + mag_ned_err) * mag_scale) + mag_bias);
		return m;
	}
	double hagl(const Truth &d) const { return ground - d.p.z; }
	rangeSample range_for(const Truth &d, uint64_t stamp) const
	{
		rangeSample r;
		r.time_us = stamp;
		const double c = d.q.rot({std::sin(range_pitch), 0, std::cos(range_pitch)}).z;
		double dist = c > 0.1 ? (hagl(d) - d.q.rot(range_pos).z) / c : 100.0;
		dist += range_off + range_dither * ((stamp / 50000) % 3 - 1.0);
		r.rng = std::isnan(range_fixed) ? float(dist) : range_fixed;
		r.quality = range_quality;
		return r;
	}
	flowSample flow_for(const Truth &d, uint64_t stamp) const
	{
		flowSample f;
		f.time_us = stamp;
		f.dt = 0.02f;
		const V3 vb = d.q.inv(d.v);
		const double c = d.q.rot({0, 0, 1}).z;
		const double rng = std::max(hagl(d), 0.1) / std::max(c, 0.1);
		// line of sight rates of the scene; the sensor's convention for both vectors is a positive rotation of the
		// image, which is the negative of the body rate
		const double lx = (vb.y / rng) * flow_scale + flow_err.x, ly = (-vb.x / rng) * flow_scale + flow_err.y;
		f.flow_xy_rad = Vector2f(float((lx - d.w.x) * f.dt), float((ly - d.w.y) * f.dt));
		f.gyro_xyz = flow_gyro ? f3(d.w * -double(f.dt)) : Vector3f(NAN, NAN, NAN);
		f.quality = flow_quality;
		return f;
	}
	extVisionSample ev_for(const Truth &d, uint64_t stamp) const
	{
		extVisionSample e;
		e.time_us = stamp;
		const Q4 r = q_exp({0, 0, -ev_yaw_off});         // NED -> vision frame
		e.pos = f3(r.rot(d.p) + ev_pos_off);
		const V3 v = d.v + ev_vel_off;
		e.vel = f3(ev_vel_frame == velocity_frame_t::BODY_FRAME_FRD ? d.q.inv(v) : r.rot(v));
		const Q4 q = r * q_exp({0, 0, ev_yaw_err}) * d.q;
		e.quat = Quatf(float(q.w), float(q.x), float(q.y), float(q.z));
		e.posVar = Vector3f(ev_pos_var, ev_pos_var, ev_pos_var);

		for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) { e.velCov(i, j) = i == j ? ev_vel_var : 0.f; } }

		e.angVar = ev_ang_var;
		e.vel_frame = ev_vel_frame;
		return e;
	}
	airspeedSample airspeed_for(const Truth &d, uint64_t stamp) const
	{
		airspeedSample a;
		a.time_us = stamp;
		a.true_airspeed = float((d.v - wind).norm() + aspd_err);
		a.eas2tas = 1.0f;
		return a;
	}
	auxVelSample aux_for(const Truth &d, uint64_t stamp) const
	{
		auxVelSample a;
		a.time_us = stamp;
		a.vel = f3(d.v + aux_err);
		a.velVar = Vector3f(aux_var, aux_var, aux_var);
		return a;
	}
	baroSample baro_for(const Truth &d, uint64_t stamp) const
	{
		baroSample b;
		b.time_us = stamp;
		b.hgt = float(alt0 - d.p.z + baro_off);
		return b;
	}
	// advance the vehicle by one imu period and return what an ideal imu integrates over it
	imuSample advance(uint32_t dt_us)
	{
		const double dt = dt_us * 1e-6;
		t += dt_us;
		const V3 dang = cmd_w * dt;
		const Q4 qn = (x.q * q_exp(dang)).normalized();
		const V3 dv_ned = (cmd_a - V3{0, 0, G}) * dt;
		x.p = x.p + x.v * dt + cmd_a * (0.5 * dt * dt);
		x.v = x.v + cmd_a * dt;
		x.q = qn;
		x.w = cmd_w;
		x.a = cmd_a;
		x.t = t;
		push_hist();
		ticks++;
		const double sg = (ticks & 1) ? 1.0 : -1.0;
		imuSample s;
		s.time_us = t;
		const double dtv = dt * (1 + ((ticks / 6) & 1 ? dv_skew : -dv_skew));   // the accelerometer's own interval
		s.delta_ang_dt = float(dt);
		s.delta_vel_dt = float(dtv);
		s.delta_ang = f3(dang + gyro_bias * dt + V3{1, -1, 1} *(sg * gyro_dither * dt));
		s.delta_vel = f3(qn.inv(dv_ned) * (dtv / dt) + (accel_bias + imu_force) * dtv + V3{1, -1, 1} *(sg * accel_dither * dtv));

		for (int i = 0; i < 3; i++) { s.delta_vel_clipping[i] = clip[i]; }

		return s;
	}
	// what was delivered in the last call
	struct Got {
		bool mag, baro, gps, aspd, flow, range, ev, aux;
		magSample m; baroSample b; gps_message g; airspeedSample a; flowSample f; rangeSample r; extVisionSample v; auxVelSample x;
	} got{};
	void sensors()
	{
		got.mag = got.baro = got.gps = got.aspd = got.flow = got.range = got.ev = got.aux = false;

		if (mag.due(t)) { got.mag = true; got.m = mag_for(at(t - mag.delay), t); ekf->setMagData(got.m); }

		if (baro.due(t)) { got.baro = true; got.b = baro_for(at(t - baro.delay), t); ekf->setBaroData(got.b); }

		if (gps.due(t)) { got.gps = true; got.g = gps_message_for(at(t - gps.delay), t); ekf->setGpsData(got.g); }

		if (airspeed.due(t)) { got.aspd = true; got.a = airspeed_for(at(t - airspeed.delay), t); ekf->setAirspeedData(got.a); }

		if (flow.due(t)) { got.flow = true; got.f = flow_for(at(t - flow.delay), t); ekf->setOpticalFlowData(got.f); }

		if (range.due(t)) { got.range = true; got.r = range_for(at(t - range.delay), t); ekf->setRangeData(got.r); }

		if (ev.due(t)) { got.ev = true; got.v = ev_for(at(t - ev.delay), t); ekf->setExtVisionData(got.v); }

		if (auxvel.due(t)) { got.aux = true; got.x = aux_for(at(t - auxvel.delay), t); ekf->setAuxVelData(got.x); }
	}
	// one imu period; true when the filter ran its delayed-horizon update
	bool tick()
	{
		const imuSample s = advance(imu_dt);
		ekf->setIMUData(s);
		sensors();
		const bool u = ekf->update();
		updates += u;
		return u;
	}
	// truth at the time of the state estimate of the delayed horizon
	Truth delayed_truth() const { return at(ekf->get_imu_sample_delayed().time_us); }
	template<typename F> void run(double seconds, F &&each)
	{
		const uint64_t end = t + uint64_t(seconds * 1e6);

		while (t < end) { const bool u = tick(); each(u); }
	}
	void run(double seconds) { run(seconds, [](bool) {}); }
};

// ------------------------------------------------------------------ reading the filter
struct St {                     // state vector at the delayed horizon
	float s[24];
	Q4 q() const { return {s[0], s[1], s[2], s[3]}; }
	V3 v() const { return {s[4], s[5], s[6]}; }
	V3 p() const { return {s[7], s[8], s[9]}; }
	V3 dab() const { return {s[10], s[11], s[12]}; }
	V3 dvb() const { return {s[13], s[14], s[15]}; }
};
inline St state_of(const Ekf &e)
{
	St r;
	const auto v = e.getStateAtFusionHorizonAsVector();

	for (int i = 0; i < 24; i++) { r.s[i] = v(i); }

	return r;
}

} // namespace sim

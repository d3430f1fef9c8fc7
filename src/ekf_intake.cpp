// E16: sensor intake. A stream of one sensor with every sequence of intervals from a menu, for every sensor, delay, IMU rate
// and transport latency, is given to the running filter; each message carries a recognisable value. A reference queue says
// which filter update has to use which message (or average of messages), and that it is used at the time it was measured.
#include "ekfsim.h"
#include <algorithm>
#include <memory>
#include <deque>
#include <string>

using namespace sim;

enum Sns { BARO, GPS, GPSHGT, MAG, EV, EVHGT, FLOW, AIRSPEED, RANGE, AUXVEL, NS };
static const char *s_name[NS] = {"barometer", "GPS position", "GPS as height only", "magnetometer", "vision position", "vision as height only", "flow", "airspeed", "range height", "auxiliary velocity"};

struct Msg { uint64_t t; double val, val2, spread; };

struct In {
	World w;
	int S, delay_ms, lat_us{0};
	std::string log;
	std::deque<Msg> q;              // accepted samples
	std::deque<std::pair<uint64_t, Msg>> wire;   // messages under way: arrival, message
	uint64_t last_acc{0};
	size_t cap{0}, imu_len{0};
	uint64_t min_int{0};
	double sum{0};
	uint64_t tsum{0};
	int n{0};
	double spacing{1}, base{0};
	bool base_known{false}, active{false};
	double prev_innov{0}, prev_innov2{0};
	int fused{0};
	uint64_t sent{0}, last_hor{0};
	double max_delay{0};
	bool overflow{false};

	Ekf &e() { return *w.ekf; }
	const char *where() { static char t[400]; snprintf(t, sizeof(t), "[%s delay %d ms imu %u us latency %d us; %s t=%.3f]", s_name[S], delay_ms, w.imu_dt, lat_us, log.c_str(), (w.t - w.t0) * 1e-6); return t; }
	double code(uint64_t k, int which = 0) const { static const int c[11] = {4, -3, 2, -5, 5, -1, 3, -4, 1, -2, 0}; return spacing * c[(k * (which ? 3 : 1) + 4 * which) % 11]; }

	void setup()
	{
		parameters &P = w.make(0, w.imu_dt == 2500 ? 259200000000ull + 20000000 : 20000000);    // also after three days of up-time
		w.ekf->set_rangefinder_limits(0.05f, 40.f);
		w.ekf->set_optical_flow_limits(8.f, 0.05f, 40.f);
		w.ekf->set_min_required_gps_health_time(1000000);
		P.gps_check_mask = 0;
		P.baro_noise = 3.f; P.baro_innov_gate = 20.f;
		P.gps_pos_noise = 3.f; P.gps_vel_noise = 3.f; P.gps_pos_innov_gate = 20.f; P.gps_vel_innov_gate = 20.f;
		P.mag_heading_noise = 0.5f; P.heading_innov_gate = 20.f;
		P.ev_pos_innov_gate = 20.f;
		P.flow_noise = P.flow_noise_qual_min = 1.5f; P.flow_innov_gate = 20.f;
		P.eas_noise = 5.f; P.tas_innov_gate = 20.f;
		P.range_noise = 3.f; P.range_innov_gate = 20.f;
		P.auxvel_gate = 20.f;
		P.mag_fusion_type = MAG_FUSE_TYPE_HEADING;
		w.gps_tmpl.sacc = 3.f; w.gps_tmpl.eph = 4.f; w.gps_tmpl.epv = 3.f;
		w.ev_pos_var = 9.f;
		w.aux_var = 9.f;
		w.range_dither = 0.08;
		w.x.p = {0, 0, -5};
		bool gps = true, rng = false, flow = false, ev = false;

		if (delay_ms < 0) { delay_ms = 0; P.baro_delay_ms = P.gps_delay_ms = P.mag_delay_ms = P.airspeed_delay_ms = P.auxvel_delay_ms = P.flow_delay_ms = P.range_delay_ms = P.ev_delay_ms = 0; }

		switch (S) {
		case BARO: P.baro_delay_ms = delay_ms; spacing = 0.1; break;

		case GPS: P.gps_delay_ms = delay_ms; spacing = 0.05; break;

		case GPSHGT: P.fusion_mode = 0; P.vdist_sensor_type = VDIST_SENSOR_GPS; P.gps_delay_ms = delay_ms; spacing = 0.1; break;

		case MAG: P.mag_delay_ms = delay_ms; spacing = 0.01; break;

		case EV: P.fusion_mode = MASK_USE_EVPOS; P.ev_delay_ms = delay_ms; gps = false; ev = true; spacing = 0.1; break;

		case EVHGT: P.vdist_sensor_type = VDIST_SENSOR_EV; P.ev_delay_ms = delay_ms; ev = true; spacing = 0.1; break;

		case FLOW: P.fusion_mode = MASK_USE_OF; P.flow_delay_ms = delay_ms; gps = false; rng = flow = true; spacing = 0.0005; break;

		case AIRSPEED: P.airspeed_delay_ms = delay_ms; spacing = 0.05; w.wind = {15, 0, 0}; break;

		case RANGE: P.vdist_sensor_type = VDIST_SENSOR_RANGE; P.range_delay_ms = delay_ms; rng = true; spacing = 0.05; break;

		case AUXVEL: P.auxvel_delay_ms = delay_ms; spacing = 0.05; break;
		}

		// the buffers have to span the longest delay of the sensors in use
		max_delay = std::max({double(P.baro_delay_ms), double(P.auxvel_delay_ms), double(P.airspeed_delay_ms), double(P.mag_delay_ms)});

		if (gps) { max_delay = std::max(max_delay, double(P.gps_delay_ms)); }

		if (S == RANGE) { max_delay = std::max(max_delay, double(P.range_delay_ms)); }

		if (S == FLOW) { max_delay = std::max(max_delay, double(P.flow_delay_ms)); }

		if (ev) { max_delay = std::max(max_delay, double(P.ev_delay_ms)); }

		imu_len = size_t(std::ceil(max_delay / 10)) + 1;
		cap = std::max<size_t>(std::min<size_t>(size_t(std::ceil(float(max_delay) * 1.5f / P.sensor_interval_min_ms)), imu_len), 2);
		w.begin();
		w.baro.start(w.t, 3000);
		w.mag.start(w.t, 1000);
		w.mag.period = 24000;

		if (gps) { w.gps.start(w.t, 5000); }

		if (rng) { w.range.start(w.t, 7000); }

		if (flow) { w.flow.start(w.t, 9000); }

		if (ev) { w.ev.start(w.t, 11000); }

		if (S == AIRSPEED) { w.airspeed.start(w.t, 13000); }

		if (S == AUXVEL) { w.auxvel.start(w.t, 15000); }
	}
	Sensor &sensor()
	{
		switch (S) {
		case BARO: return w.baro;

		case GPS: case GPSHGT: return w.gps;

		case MAG: return w.mag;

		case EV: case EVHGT: return w.ev;

		case FLOW: return w.flow;

		case AIRSPEED: return w.airspeed;

		case RANGE: return w.range;

		default: return w.auxvel;
		}
	}
	// what the published innovation says about the value that was used; two channels where the sensor has two
	void observe(double &a, double &b)
	{
		const St s = state_of(e());
		float x[2] = {}, y[2] = {}, u = 0, v = 0;
		b = 0;

		switch (S) {
		case BARO: e().getBaroHgtInnov(u); a = u; break;

		case GPS: e().getGpsVelPosInnov(x, u, y, v); a = -y[0]; b = -x[1]; break;

		case GPSHGT: e().getGpsVelPosInnov(x, u, y, v); a = v; break;

		case MAG: e().getHeadingInnov(u); a = u; break;

		case EV: e().getEvVelPosInnov(x, u, y, v); a = -y[0]; b = -y[1]; break;

		case EVHGT: e().getEvVelPosInnov(x, u, y, v); a = -v; break;

		case FLOW: a = e().getFlowUncompensated()(0); b = e().getFlowUncompensated()(1); break;

		case AIRSPEED: e().getAirspeedInnov(u); a = -u; break;

		case RANGE: e().getRngHgtInnov(u); a = u; break;

		default: e().getAuxVelInnov(x); a = -x[0]; b = -x[1]; break;
		}

		(void)s;
	}
	// the reference value in the same terms
	double predicted(double val) const
	{
		return val;
	}
	void state_part(double &a, double &b)
	{
		const St s = state_of(e());
		a = b = 0;

		switch (S) {
		case BARO: a = s.s[9]; break;

		case GPS: a = -s.s[7]; b = -s.s[5]; break;

		case GPSHGT: a = s.s[9]; break;

		case MAG: a = s.q().yaw(); break;

		case EV: a = -s.s[7]; b = -s.s[8]; break;

		case EVHGT: a = -s.s[9]; break;

		case AIRSPEED: a = -std::hypot(s.s[4] - double(s.s[22]), s.s[5] - double(s.s[23])); break;

		case RANGE: a = s.s[9]; break;

		case AUXVEL: a = -s.s[4]; b = -s.s[5]; break;
		}
	}
	void send(uint64_t stamp)
	{
		const uint64_t k = sent++;
		Msg m{stamp, code(k), code(k, 1), 0};
		wire.push_back({stamp + lat_us, m});
	}
	// samples of all the other sensors, delivered just before
	void others(uint64_t t)
	{
		const Truth d = w.at(t);

		if (S != BARO) { e().setBaroData(w.baro_for(d, t)); }

		if (S != MAG) { e().setMagData(w.mag_for(d, t)); }

		if (S != GPS && S != GPSHGT) { e().setGpsData(w.gps_message_for(d, t)); }

		if (S != EV && S != EVHGT) { e().setExtVisionData(w.ev_for(d, t)); }

		if (S != FLOW) { e().setOpticalFlowData(w.flow_for(d, t)); }

		if (S != AIRSPEED) { e().setAirspeedData(w.airspeed_for(d, t)); }

		if (S != RANGE) { e().setRangeData(w.range_for(d, t)); }

		if (S != AUXVEL) { e().setAuxVelData(w.aux_for(d, t)); }
	}
	void arrive(const Msg &m)
	{
		const Truth d = w.at(m.t - sensor().delay);

		if (lat_us) { others(m.t - 500); }

		switch (S) {
		case BARO: { baroSample s = w.baro_for(d, m.t); s.hgt += float(m.val); e().setBaroData(s); break; }

		case GPS: { gps_message s = w.gps_message_for(d, m.t); double la, lo; w.to_global(d.p + V3{m.val, 0, 0}, la, lo); s.lat = int32_t(std::lround(la * 1e7)); s.lon = int32_t(std::lround(lo * 1e7)); s.vel_ned(1) += float(m.val2); e().setGpsData(s); break; }

		case GPSHGT: { gps_message s = w.gps_message_for(d, m.t); s.alt += int32_t(std::lround(m.val * 1e3)); e().setGpsData(s); break; }

		case MAG: { Truth r = d; r.q = q_exp({0, 0, -m.val}) * d.q; e().setMagData(w.mag_for(r, m.t)); break; }

		case EV: case EVHGT: { extVisionSample s = w.ev_for(d, m.t); if (S == EV) { s.pos(0) += float(m.val); s.pos(1) += float(m.val2); } else { s.pos(2) += float(m.val); } e().setExtVisionData(s); break; }

		case FLOW: { flowSample s = w.flow_for(d, m.t); s.flow_xy_rad(0) += float(m.val); s.flow_xy_rad(1) += float(m.val2); e().setOpticalFlowData(s); break; }

		case AIRSPEED: { airspeedSample s = w.airspeed_for(d, m.t); s.true_airspeed += float(m.val); e().setAirspeedData(s); break; }

		case RANGE: { rangeSample s = w.range_for(d, m.t); s.rng = float(5 + m.val); e().setRangeData(s); break; }

		case AUXVEL: { auxVelSample s = w.aux_for(d, m.t); s.vel(0) += float(m.val); s.vel(1) += float(m.val2); e().setAuxVelData(s); break; }
		}

		// --- reference
		const bool avg = S == BARO || S == MAG;

		if (avg) { sum += m.val; tsum += m.t / 1000; n++; }

		if (m.t - last_acc > min_int) {
			last_acc = m.t;
			Msg a = m;

			if (avg) { a.val = sum / n; a.t = 1000 * (tsum / n); a.spread = (m.t - a.t) * 1e-3; sum = 0; tsum = 0; n = 0; }

			a.t -= uint64_t(delay_ms) * 1000 + 5000;
			q.push_back(a);

			if (q.size() > (S == FLOW ? imu_len : cap)) { q.pop_front(); overflow = true; }
		}
	}
	void tick()
	{
		const imuSample s = w.advance(w.imu_dt);
		const uint64_t h0 = e().get_imu_sample_delayed().time_us;
		e().setIMUData(s);
		const uint64_t hor = e().get_imu_sample_delayed().time_us;

		if (hor != h0) { min_int = (w.t - hor) / (cap - 1); }

		while (!wire.empty() && wire.front().first <= w.t) { arrive(wire.front().second); wire.pop_front(); }

		w.sensors();
		const bool u = e().update();
		mc::transition();

		if (u && active) { judge(); }
	}
	void run(double sec) { const uint64_t end = w.t + uint64_t(sec * 1e6); while (w.t < end) { tick(); } }

	void judge()
	{
		const uint64_t hor = e().get_imu_sample_delayed().time_us;
		double a, b, sa, sb;
		observe(a, b);
		sa = prev_sa;
		sb = prev_sb;
		state_part(prev_sa, prev_sb);
		mc::evaluation(true);
		const double lag = (w.t - hor) * 1e-3;
		MC_CHECK(lag >= max_delay * (w.imu_dt == 8000 ? 0.8 : 1) - 1e-3 && lag <= std::ceil(max_delay / 10) * 10 + 10 + 2 * w.imu_dt * 1e-3 + 10, "lag", "%s the filter lags %.1f ms behind, the longest delay is %.0f ms", where(), lag, max_delay);
		const Msg *m = nullptr;
		size_t idx = 0;

		for (size_t i = q.size(); i-- > 0;) { if (hor >= q[i].t && hor < q[i].t + 100000) { m = &q[i]; idx = i; break; } }

		const bool changed = a != prev_innov || b != prev_innov2;

		// (vision height is used again at every update until the next sample comes: a listed finding of another property)
		const bool again = S == EVHGT;

		if (again && m) { held = *m; }

		if (!m) {
			if (again) { if (base_known) { MC_CHECK(std::fabs(a - sa - base - held.val) < 0.4 * spacing, "other sample", "%s the value used is %.5f, expected %.5f", where(), a - sa - base, held.val); } }

			else MC_CHECK(!changed, "early or twice", "%s a sample is used although none is due (%zu waiting)", where(), q.size());

		} else {
			MC_CHECK(changed, "missed", "%s the sample of %.1f ms before the horizon is not used", where(), (hor - m->t) * 1e-3);
			const double v = a - sa;

			if (!base_known) { base = wrapm(v - m->val); base2 = b - sb - m->val2; base_known = true; }

			MC_CHECK(std::fabs(wrapm(v - base - m->val)) < 0.4 * spacing, "other sample", "%s the value used is %.5f, expected %.5f", where(), wrapm(v - base), m->val);

			if (S == GPS || S == EV || S == FLOW || S == AUXVEL) { MC_CHECK(std::fabs(b - sb - base2 - m->val2) < 0.4 * spacing, "other sample", "%s the second value used is %.5f, expected %.5f", where(), b - sb - base2, m->val2); }

			// used when the horizon passes its time, unless it came too late for that
			const double slack = 10 + w.imu_dt * 1e-3 + std::max(0.0, delay_ms + 5 + lat_us * 1e-3 + w.imu_dt * 1e-3 - lag);
			MC_CHECK((hor - m->t) * 1e-3 <= slack + m->spread + 1e-3, "late", "%s a sample is used %.1f ms after its time", where(), (hor - m->t) * 1e-3);
			fused++;
			q.erase(q.begin(), q.begin() + idx + 1);
		}

		prev_innov = a;
		prev_innov2 = b;
	}
	Msg held{};
	double base2{0}, prev_sa{0}, prev_sb{0};
	double wrapm(double x) const { return S == MAG ? sim::wrap(x) : x; }
};

int main(int argc, char **argv)
{
	mc::init(argc, argv, "E16");

	if (!mc::replaying() && getenv("MC_RESULT")) { if (!freopen("/dev/null", "w", stdout)) { return 3; } }

	static const int delays[5] = {110, 0, 43, 200, -1};    // -1: no sensor has any delay
	static const uint32_t dts[3] = {5000, 2500, 8000};
	static const uint32_t ints[7] = {3700, 9300, 14600, 21000, 37000, 88000, 171000};
	const bool th = mc::thorough();
	mc::rule("10 sensor uses x 5 delay settings x 3 inertial sample intervals x 2 transport latencies (with the longer one, samples of all other sensors arrive just before each sample) x all patterns of 3 (thorough 4) sample intervals from a menu of 7; an evaluation is one filter update: which sample or average was used and when, against a "
		 "reference queue; states are the distinct end states");
	mc::explore("streams", mc::FORK, [&] {
		std::unique_ptr<In> o(new In);
		o->S = mc::choose(NS);
		o->delay_ms = delays[mc::choose(5)];
		o->w.imu_dt = dts[mc::choose(3)];
		o->setup();
		o->run(1);

		if (o->S == AIRSPEED) { o->w.ekf->set_is_fixed_wing(true); }

		o->run(7);
		o->w.ekf->set_in_air_status(true);
		o->run(4);
		o->lat_us = mc::choose(2) * 13000;
		o->sensor().stop();
		o->run(0.35);
		o->last_acc = 0;
		o->observe(o->prev_innov, o->prev_innov2);
		o->state_part(o->prev_sa, o->prev_sb);
		const int depth = th ? 4 : 3;
		uint32_t pat[4];
		char t[60];

		for (int k = 0; k < depth; k++)
		{
			pat[k] = ints[mc::choose(7)];
			snprintf(t, sizeof(t), "%.1f ms ", pat[k] * 1e-3);
			o->log += t;
		}

		mc::note("%s", o->where());
		o->active = true;
		const uint64_t start = o->w.t, end = start + 900000;
		uint64_t next = start + 1000;

		for (int k = 0; o->w.t < end;)
		{
			while (next <= o->w.t + o->w.imu_dt) { o->send(next); next += pat[k % depth]; k++; }

			o->tick();
		}

		if ((o->S != BARO && o->S != MAG) || *std::max_element(pat, pat + depth) < 40000) MC_CHECK(o->fused >= 3, "none", "%s only %d samples were used", o->where(), o->fused);
		mc::visit(mc::hash_pod(mc::hash_pod(uint64_t(o->fused), o->log.size()), state_of(o->e())));

		if (mc::hash_pod(7, state_of(o->e())) % 2003 == 0) { mc::sample("%s %d samples used", o->where(), o->fused); }
	}, 4);
	mc::finish();
	return 0;
}

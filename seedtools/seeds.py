# planted changes: written from the property texts, each with a demonstration
import re
SEEDS = []


def table_edit(table, lat, index, value):
    t = open("/repo/geo_lookup/geo_magnetic_tables.hpp").read()
    i = t.index(table)
    m = re.compile(r"/\* LAT: *%d \*/ \{(.*)\}," % lat).search(t, i)
    cells = m.group(1).split(",")
    assert value != int(cells[index])
    cells[index] = "%6d" % (int(cells[index]) + value)
    return ("geo_lookup/geo_magnetic_tables.hpp", m.group(0), m.group(0).replace(m.group(1), ",".join(cells)))


def seed(id, property, needs, breaks, edits, demo, libs="none", **kw):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, libs=libs, **kw))


seed("lookup-west-wrap", "G03", "a longitude between 180 and 190 degrees west written as -180..-190",
     "longitudes just beyond -180 are clamped instead of wrapped",
     [("geo_lookup/geo_mag_declination.cpp", "	if (lon < SAMPLING_MIN_LON) {", "	if (lon < SAMPLING_MIN_LON - SAMPLING_RES) {")],
     r'''
#include <geo_lookup/geo_mag_declination.h>
#include <math.h>
#include <stdio.h>
int main()
{
	for (float lat = -50; lat <= 50; lat += 5) {
		for (float lon = -189; lon < -180; lon += 1) {
			if (fabsf(get_mag_strength_gauss(lat, lon) - get_mag_strength_gauss(lat, lon + 360)) > 1e-3f) { printf("lat %g lon %g differs from one turn on\n", lat, lon); return 1; }
		}
	}
	return 0;
}
''', "lookup")

seed("lookup-top-row", "G01", "a latitude in the northernmost row of cells",
     "the row above the last but one is never used, the interpolation is discontinuous there",
     [("geo_lookup/geo_mag_declination.cpp", "	*val = constrain(*val, min, max - SAMPLING_RES);", "	*val = constrain(*val, min, (max > 100.f) ? max - SAMPLING_RES : max - 2.f * SAMPLING_RES);")],
     r'''
#include <geo_lookup/geo_mag_declination.h>
#include <math.h>
#include <stdio.h>
int main()
{
	// at the pole the field strength does not depend on the longitude
	for (float lon = -175; lon < 175; lon += 10) {
		if (fabsf(get_mag_strength_gauss(89.99f, lon) - get_mag_strength_gauss(89.99f, 5.f)) > 0.001f) { printf("longitude %g\n", lon); return 1; }
	}
	return 0;
}
''', "lookup")

seed("table-entry", "G02", "a position near one particular node in the Bellingshausen Sea",
     "one inclination table entry has the wrong value by 4.5 degrees",
     [table_edit("inclination_table", -70, 10, 450)], r'''
#include <geo_lookup/geo_mag_declination.h>
#include <math.h>
#include <stdio.h>
int main()
{
	// the field is smooth: fourth differences of the table along a parallel stay small away from the magnetic poles
	for (int lat = -70; lat <= -70; lat += 10) {
		float v[37];
		for (int i = 0; i < 37; i++) { v[i] = get_mag_inclination_degrees(lat, -180 + 10 * i); }
		for (int i = 4; i < 18; i++) {
			const float d4 = v[i - 2] - 4 * v[i - 1] + 6 * v[i] - 4 * v[i + 1] + v[i + 2];
			if (fabsf(d4) > 9.f) { printf("lat %d lon %d: fourth difference %g\n", lat, -180 + 10 * i, d4); return 1; }
		}
	}
	return 0;
}
''', "lookup")

seed("ring-tail", "B01", "the sample taken out is in the last slot of the buffer and it is not the newest one",
     "the tail index leaves the buffer, older samples than the one taken out come back and the oldest sample is read from outside the buffer",
     [("EKF/RingBuffer.h", "					_tail = (index + 1) % _size;", "					_tail = index + 1;")],
     r'''
#include <stdint.h>
#include <stddef.h>
#include <RingBuffer.h>
struct S { uint64_t time_us; int v; };
int main()
{
	RingBuffer<S> b(4);
	for (int i = 1; i <= 5; i++) { b.push(S{uint64_t(i) * 20000 + 1000000, i}); } // slot 3 holds sample 4
	S s{};
	if (!b.pop_first_older_than(1000000 + 4 * 20000, &s) || s.v != 4) { printf("wrong sample\n"); return 1; }
	if (b.get_oldest_index() >= 4) { printf("oldest index %d out of the buffer\n", b.get_oldest_index()); return 1; }
	return 0;
}
''')

seed("alpha-zero-constant", "B02", "a time constant of zero (no smoothing)",
     "a zero time constant leaves the previous coefficient in place",
     [("AlphaFilter/AlphaFilter.hpp", "		if (denominator > FLT_EPSILON) {", "		if (denominator > FLT_EPSILON && time_constant > FLT_EPSILON) {")],
     r'''
#include <AlphaFilter/AlphaFilter.hpp>
#include <math.h>
int main()
{
	AlphaFilter<float> f(0.1f);
	f.reset(1.f);
	f.setParameters(0.01f, 0.f);
	return fabsf(f.update(3.f) - 3.f) < 1e-5f ? 0 : 1;
}
''')

seed("degrees-float", "B03", "a double precision angle and an accuracy requirement below single precision",
     "radians() of a double is computed with a single precision pi",
     [("mathlib/mathlib.h", "	return (degrees / Type(180)) * Type(M_PI);", "	return (degrees / Type(180)) * Type(M_PI_F);")],
     r'''
#include <mathlib/mathlib.h>
#include <math.h>
int main() { return fabs(math::radians(47.397742) - 47.397742 * M_PI / 180.0) < 1e-14 ? 0 : 1; }
''')

seed("reproject-near-origin", "P01", "a local position within 0.6 m of the origin",
     "positions close to the origin are re-projected onto the origin itself",
     [("geo/geo.cpp", "	if (fabs(c) > 0) {\n		const double sin_c", "	if (fabs(c) > 1e-7) {\n		const double sin_c")],
     r'''
#include <geo/geo.h>
#include <math.h>
#include <stdio.h>
int main()
{
	map_projection_reference_s ref{};
	map_projection_init_timestamped(&ref, 47.3, 8.5, 1);
	double lat, lon;
	float x, y;
	map_projection_reproject(&ref, 0.4f, 0.3f, &lat, &lon);
	map_projection_project(&ref, lat, lon, &x, &y);
	return (fabsf(x - 0.4f) < 0.01f && fabsf(y - 0.3f) < 0.01f) ? 0 : 1;
}
''', "geo")

seed("distance-one-latitude", "P02", "points far apart in both latitude and longitude",
     "the great-circle distance uses the latitude of one end twice and is no longer symmetric",
     [("geo/geo.cpp", "sin(d_lon / 2.0) * sin(d_lon / 2.0) * cos(lat_now_rad) * cos(lat_next_rad);", "sin(d_lon / 2.0) * sin(d_lon / 2.0) * cos(lat_now_rad) * cos(lat_now_rad);")],
     r'''
#include <geo/geo.h>
#include <math.h>
int main() { return fabsf(get_distance_to_next_waypoint(10, 10, 20, 20) - get_distance_to_next_waypoint(20, 20, 10, 10)) < 10.f ? 0 : 1; }
''', "geo")

seed("line-heading-south", "P03", "a track heading south with the vehicle slightly to one side, so the bearings are on either side of 180 degrees",
     "vehicle reported past the end of the line",
     [("geo/geo.cpp", "	float bearing_diff = wrap_pi(bearing_track - bearing_end);", "	float bearing_diff = bearing_track - bearing_end;")],
     r'''
#include <geo/geo.h>
#include <math.h>
#include <stdio.h>
int main()
{
	for (double off = -0.001; off <= 0.001; off += 0.0004) {
		for (double s = -0.0003; s <= 0.0003; s += 0.0002) {
			crosstrack_error_s e{};
			get_distance_to_line(&e, 47.05, 8.0 + off, 47.1, 8.0 + s, 47.0, 8.0);
			if (e.past_end) { printf("past end half way along the line\n"); return 1; }
		}
	}
	return 0;
}
''', "geo")

seed("wind-sideslip-pitch", "W01", "sideslip fusion with pitch and a vertical speed",
     "sign of one attitude term of the sideslip Jacobian",
     [("airdata/WindEstimator.cpp", "v_d * (-HB0 * q_att(2) + HB2 * q_att(3));", "v_d * (HB0 * q_att(2) + HB2 * q_att(3));")],
     r'''
#include <airdata/WindEstimator.hpp>
#include <math.h>
#include <stdio.h>
int main()
{
	// the innovation variance reported must be H P H' + R with H the derivative of the side slip angle
	WindEstimator w;
	w.set_beta_noise(0.3f);
	matrix::Vector3f v(15.f, 2.f, -6.f);
	w.fuse_airspeed(1000000, 14.f, v, matrix::Vector2f(1.f, 1.f));
	const matrix::Quatf q(matrix::Eulerf(0.1f, 0.4f, 0.2f));
	float P[2];
	w.get_wind_var(P);
	float W[2];
	w.get_wind(W);
	const float W0 = W[0], W1 = W[1];
	w.fuse_beta(2000000, v, q);
	const float S = w.get_beta_innov_var();
	const matrix::Dcmf Rt = matrix::Dcmf(q).transpose();
	auto beta = [&](float wn, float we) { matrix::Vector3f r = Rt * matrix::Vector3f(v(0) - wn, v(1) - we, v(2)); return r(1) / r(0); };
	const float e = 0.05f;
	const float h0 = (beta(W0 + e, W1) - beta(W0 - e, W1)) / (2 * e), h1 = (beta(W0, W1 + e) - beta(W0, W1 - e)) / (2 * e);
	// without the cross term the variance is bounded by h0^2 P00 + h1^2 P11 + 2 |h0 h1| sqrt(P00 P11)
	const float R = 0.3f * 0.3f;
	const float lo = h0 * h0 * P[0] + h1 * h1 * P[1] - 2 * fabsf(h0 * h1) * sqrtf(P[0] * P[1]), hi = h0 * h0 * P[0] + h1 * h1 * P[1] + 2 * fabsf(h0 * h1) * sqrtf(P[0] * P[1]);
	printf("S-R %g in [%g %g]\n", S - R, lo, hi);
	return (S - R >= lo - 1e-4f && S - R <= hi * 1.02f + 1e-4f) ? 0 : 1;
}
''', "wind")

seed("range-bad-quality-hysteresis", "I02", "a bad-quality range sample within one second before a good one",
     "good samples are accepted immediately after a bad-quality one",
     [("EKF/sensor_range_finder.cpp", "		if (_sample.quality == 0) {\n			_time_bad_quality_us = current_time_us;", "		if (_sample.quality == 0) {\n			_time_bad_quality_us = _is_sample_valid ? current_time_us : _time_bad_quality_us;")],
     r'''
#include <ekf.h>
#include <sensor_range_finder.hpp>
#include <stdio.h>
int main()
{
	estimator::sensor::SensorRangeFinder r;
	r.setLimits(0.2f, 20.f);
	r.setPitchOffset(0.f);
	r.setQualityHysteresis(1.f);
	matrix::Dcmf R;
	R.setIdentity();
	uint64_t t = 1000000;
	for (int i = 0; i < 400; i++) {
		t += 10000;
		if (i % 5 == 0) {
			rangeSample s{};
			s.time_us = t;
			s.rng = 2.f + 0.01f * (i % 7);
			s.quality = (i == 350) ? 0 : 100;
			r.setSample(s);
			r.setDataReadiness(true);
		} else { r.setDataReadiness(false); }
		r.runChecks(t, R);
		if (i == 340 && !r.isDataHealthy()) { printf("good data refused\n"); return 3; }
		if (i == 355 && r.isDataHealthy()) { printf("accepted 50 ms after a bad quality sample\n"); return 1; }
	}
	return 0;
}
''', "ekf")

seed("imu-clipping-lost", "I01", "an accelerometer clips in the first of the IMU samples merged into one filter step",
     "clipping reported only in the last merged sample survives",
     [("EKF/imu_down_sampler.cpp", "	_imu_down_sampled.delta_vel_clipping[1] += imu_sample_new.delta_vel_clipping[1];", "	_imu_down_sampled.delta_vel_clipping[1] = imu_sample_new.delta_vel_clipping[1];")], r'''
#include <ekf.h>
#include <imu_down_sampler.hpp>
#include <stdio.h>
int main()
{
	ImuDownSampler d(0.01f);
	for (int i = 0; i < 20; i++) {
		imuSample s{};
		s.delta_ang_dt = s.delta_vel_dt = 0.004f;
		s.time_us = 1000000 + 4000 * i;
		s.delta_vel_clipping[1] = (i % 3 == 0);
		if (d.update(s)) {
			const imuSample o = d.getDownSampledImuAndTriggerReset();
			if (!o.delta_vel_clipping[1]) { printf("clipping flag lost\n"); return 1; }
		}
	}
	return 0;
}
''', "ekf")

seed("yaw-weights", "Y01", "flight with GPS velocity where all but one of the hypotheses have been ruled out",
     "the composite variance ignores the spread between the hypotheses",
     [("EKF/EKFGSF_yaw.cpp", "		const float yaw_delta = wrap_pi(_ekf_gsf[model_index].X(2) - _gsf_yaw);", "		const float yaw_delta = fminf(fabsf(wrap_pi(_ekf_gsf[model_index].X(2) - _gsf_yaw)), 0.5f);")],
     r'''
#include <ekf.h>
#include <EKFGSF_yaw.h>
#include <stdio.h>
int main()
{
	EKFGSF_yaw y;
	imuSample s{};
	s.delta_ang_dt = s.delta_vel_dt = 0.01f;
	s.delta_vel = matrix::Vector3f(0.02f, 0.f, -0.0980665f);
	float yaw, var, a[5], n[5], e[5], w[5];
	for (int i = 0; i < 200; i++) {
		s.time_us = 1000000 + 10000 * i;
		if (i > 100 && i % 20 == 0) { y.setVelocity(matrix::Vector2f(0.01f * i, 0.f), 1.f); }
		y.update(s, true, 0.f, matrix::Vector3f());
		if (y.getLogData(&yaw, &var, a, n, e, w)) {
			float ref = 0;
			for (int k = 0; k < 5; k++) { const float d = matrix::wrap_pi(a[k] - yaw); ref += w[k] * d * d; }
			if (var < ref) { printf("variance %g below the spread %g of the hypotheses\n", var, ref); return 1; }
		}
	}
	return 0;
}
''', "ekf")

seed("inverse-rotation", "I03", "an attitude with both roll and yaw",
     "one off-diagonal term of the inverse rotation has the wrong sign",
     [("EKF/utils.cpp", "	dcm(2, 1) = 2.0f * (q23 - q01);", "	dcm(2, 1) = 2.0f * (q23 + q01);")],
     r'''
#include <utils.hpp>
#include <math.h>
int main()
{
	const matrix::Quatf q(matrix::Eulerf(0.3f, 0.2f, 1.f));
	const matrix::Dcmf a = quatToInverseRotMat(q), b = matrix::Dcmf(q).transpose();
	for (int i = 0; i < 3; i++) { for (int k = 0; k < 3; k++) { if (fabsf(a(i, k) - b(i, k)) > 1e-5f) { return 1; } } }
	return 0;
}
''', "ekf")

# ---- filter: the demonstrations drive the public interface from a simulated vehicle
PRE = r'''
#include "ekfsim.h"
#include <stdio.h>
using namespace sim;
static World w;
static parameters &mk() { parameters &p = w.make(0); w.gyro_dither = 2e-3; w.accel_dither = 0.02; return p; }
static void go() { w.ekf->set_rangefinder_limits(0.05f, 40.f); w.begin(); w.mag.start(w.t, 3000); w.baro.start(w.t, 5000); }
static void fly(double up = 4) { w.ekf->set_in_air_status(true);  w.cmd_a = {0, 0, -2}; w.run(std::sqrt(up / 2)); w.cmd_a = {0, 0, 2}; w.run(std::sqrt(up / 2)); w.cmd_a = {}; w.x.v = {}; }
static void origin() { }
static filter_control_status_u cs() { return w.ekf->control_status(); }
#define FAIL(...) do { printf(__VA_ARGS__); printf("\n"); return 1; } while (0)
'''


def eseed(id, property, needs, breaks, edits, body):
    seed(id, property, needs, breaks, [("EKF/" + f, a, b) for f, a, b in edits], PRE + body, "ekf", files=["src/ekfsim.h", "src/mc.h"])


eseed("bias-limit-low", "E01", "an accelerometer bias beyond a limit that is configured below its default",
      "the accelerometer bias limit cannot be lowered",
      [("ekf_helper.cpp", "_params.acc_bias_lim * _dt_ekf_avg", "fmaxf(_params.acc_bias_lim, 0.4f) * _dt_ekf_avg")], r'''
int main()
{
	parameters &p = mk();
	p.acc_bias_lim = 0.2f;
	go();
	
	w.run(8);
	fly();
	w.accel_bias = {0, 0, 1.5};
	double worst = 0;
	w.run(40, [&](bool u) { if (u) { worst = std::max(worst, std::fabs(double(w.ekf->getAccelBias()(2)))); } });
	if (worst > 0.2 * 1.03) { FAIL("accelerometer bias %.3f, limit 0.2", worst); }
	return 0;
}
''')

eseed("gravity-interval", "E02", "inertial samples whose velocity and angle intervals differ",
      "gravity is integrated over the angle interval",
      [("ekf.cpp", "	_state.vel(2) += CONSTANTS_ONE_G * _imu_sample_delayed.delta_vel_dt;", "	_state.vel(2) += CONSTANTS_ONE_G * _imu_sample_delayed.delta_ang_dt;")], r'''
int main()
{
	mk();
	go();
	w.run(1);
	w.mag.stop(); w.baro.stop();
	w.run(0.3);
	// from here on the velocity increments cover 4/5 of the time
	double worst = 0, v0 = 0, t0 = 0;
	bool first = true;
	uint64_t end = w.t + 450000;
	w.ekf->set_in_air_status(true);
	while (w.t < end) {
		imuSample s = w.advance(10000);
		s.delta_vel_dt = 0.008f;
		s.delta_vel = s.delta_vel * 0.8f;
		w.ekf->setIMUData(s);
		if (w.ekf->update()) {
			const double v = state_of(*w.ekf).s[6];
			if (first) { v0 = v; t0 = w.t; first = false; }
			worst = std::max(worst, std::fabs(v - v0));
		}
	}
	if (worst > 0.1) { FAIL("vertical velocity moved by %.3f m/s at rest", worst); }
	return 0;
}
''')

eseed("bias-walk-scale", "E03", "an accelerometer that clips on one axis in the air",
      "the variance of a bias whose axis has stopped clipping is taken from the x axis",
      [("covariance.cpp", "P(stateIndex, stateIndex) = _prev_dvel_bias_var(index);", "P(stateIndex, stateIndex) = _prev_dvel_bias_var(0);")], r'''
int main()
{
	mk();
	go();
	
	w.run(8);
	fly();
	w.run(4);
	const float before = w.ekf->covariances_diagonal()(15), other = w.ekf->covariances_diagonal()(13);
	w.clip[2] = true;
	w.run(0.2);
	w.clip[2] = false;
	w.run(0.2);
	const float after = w.ekf->covariances_diagonal()(15);
	if (std::fabs(other / before - 1) < 0.05) { FAIL("demonstration without power"); }
	if (std::fabs(after / before - 1) > 0.03) { FAIL("variance of the vertical bias %g before clipping, %g after", before, after); }
	return 0;
}
''')

eseed("antenna-height", "E04", "a GPS antenna above the inertial sensor and GPS height",
      "the lever arm of the GPS antenna is applied to the height with the wrong sign",
      [("control.cpp", "_gps_sample_delayed.hgt += pos_offset_earth(2);", "_gps_sample_delayed.hgt -= pos_offset_earth(2);")], r'''
int main()
{
	parameters &p = mk();
	p.vdist_sensor_type = VDIST_SENSOR_GPS;
	p.gps_pos_body = Vector3f(0, 0, -1.5f);
	w.gps_ant = {0, 0, -1.5};
	go();
	
	w.gps.start(w.t, 7000);
	w.run(25);
	if (!cs().flags.gps_hgt || !cs().flags.gps) { FAIL("GPS is not used"); }
	const double z0 = state_of(*w.ekf).s[9];
	fly(2);
	// roll by 90 degrees about the inertial sensor: the sensor stays where it is
	w.run(10);
	const double z1 = state_of(*w.ekf).s[9], t1 = w.x.p.z;
	w.cmd_w = {0.5, 0, 0};
	w.run(M_PI / 0.5);
	w.cmd_w = {};
	w.run(15);
	const double z2 = state_of(*w.ekf).s[9];
	(void)z0;
	if (std::fabs((z2 - z1) - (w.x.p.z - t1)) > 1.2) { FAIL("height changed by %.2f m in a roll, truth %.2f", z2 - z1, w.x.p.z - t1); }
	return 0;
}
''')

eseed("gps-height-after-accel", "E05", "a height reset while the vertical acceleration was declared bad and both baro and GPS height are at hand",
      "after bad vertical acceleration the height source is switched to GPS although the innovations do not tell which is wrong",
      [("control.cpp", "((gps_hgt_accurate && !prev_bad_vert_accel) || _baro_hgt_faulty);", "(gps_hgt_accurate || _baro_hgt_faulty);")], r'''
int main()
{
	mk();
	go();
	w.gps.start(w.t, 7000);
	w.run(20);
	if (!cs().flags.gps || !cs().flags.baro_hgt) { FAIL("GPS is not used"); }
	fly();
	w.run(10);
	w.imu_force = {0, 0, 12};
	bool bad = false, reset = false, source = true;
	const auto before = [&]() { float d; uint8_t n; w.ekf->get_posD_reset(&d, &n); return n; };
	const uint8_t n0 = before();
	w.run(14, [&](bool u) { if (u) { bad = bad || w.ekf->fault_status_flags().bad_acc_vertical; if (!reset && before() != n0) { reset = true; source = cs().flags.baro_hgt; } if (reset) { w.imu_force = {}; } } });
	if (!bad || !reset) { FAIL("demonstration without power: bad %d reset %d", bad, reset); }
	if (!source) { FAIL("height source changed away from the working baro"); }
	return 0;
}
''')

eseed("zero-velocity-variance", "E06", "loss of all horizontal aiding in flight",
      "a reset to zero velocity claims the accuracy of GPS",
      [("ekf_helper.cpp", "	P.uncorrelateCovarianceSetVariance<2>(4, 25.0f);", "	P.uncorrelateCovarianceSetVariance<2>(4, 0.25f);")], r'''
int main()
{
	mk();
	go();
	w.gps.start(w.t, 7000);
	w.run(20);
	if (!cs().flags.gps) { FAIL("GPS is not used"); }
	fly();
	w.run(10);
	w.gps.stop();
	float d[2]; uint8_t n0, n;
	w.ekf->get_velNE_reset(d, &n0);
	for (int i = 0; i < 6000; i++) {
		if (!w.tick()) { continue; }
		w.ekf->get_velNE_reset(d, &n);
		if (n != n0) {
			const float v = w.ekf->covariances_diagonal()(4);
			if (v < 10) { FAIL("velocity variance %.2f after a reset to zero velocity", v); }
			return 0;
		}
	}
	FAIL("no reset");
}
''')

eseed("derivative-interval", "E07", "inertial samples of unequal length",
      "the published acceleration divides the velocity increment by the average interval",
      [("ekf.cpp", "		_vel_deriv = delta_vel_earth * (1.0f / imu.delta_vel_dt);", "		_vel_deriv = delta_vel_earth * (1.0f / _dt_imu_avg);")], r'''
int main()
{
	mk();
	w.gyro_dither = w.accel_dither = 0;
	go();
	w.run(10);
	fly(2);
	w.run(5);
	w.cmd_a = {3, 0, 0};
	double worst = 0;
	for (int i = 0; i < 400; i++) {
		w.imu_dt = i % 2 ? 4000 : 6000;
		w.tick();
		if (i > 20) { worst = std::max(worst, std::fabs(w.ekf->getVelocityDerivative().norm() - 3.0)); }
	}
	if (worst > 0.5) { FAIL("acceleration of 3 m/s2 is off by %.2f m/s2", worst); }
	return 0;
}
''')

eseed("climb-only", "E08", "a receiver whose vertical speed is wrong downwards",
      "the vertical speed check only fails for one sign of the difference",
      [("gps_checks.cpp", "(fabsf(_gps_velD_diff_filt) > _params.req_vdrift);", "(_gps_velD_diff_filt > _params.req_vdrift);")], r'''
int main()
{
	for (int s = -1; s <= 1; s += 2) {
		parameters &p = mk();
		p.gps_check_mask = 511;
		w.gps_vel_err = {0, 0, 2.0 * s};
		go();
		w.gps.start(w.t, 7000);
		w.run(20);
		uint16_t f;
		w.ekf->get_gps_check_status(&f);
		if (!(f >> 9 & 1) || cs().flags.gps) { FAIL("vertical speed error %d m/s: check status 0x%x, GPS used %d", 2 * s, f, cs().flags.gps); }
	}
	return 0;
}
''')

eseed("motion-memory", "E09", "a vehicle that is shaken on the ground before flow starts",
      "flow on the ground is accepted half a second after excessive motion instead of five",
      [("control.cpp", "(_time_bad_motion_us + (uint64_t)5E6)", "(_time_bad_motion_us + (uint64_t)5E5)")], r'''
int main()
{
	parameters &p = mk();
	p.fusion_mode = MASK_USE_OF;
	p.vdist_sensor_type = VDIST_SENSOR_BARO;
	w.x.p = {0, 0, -0.1};
	go();
	w.ekf->set_optical_flow_limits(2.5f, 0.1f, 20.f);
	w.range.start(w.t, 9000);
	w.run(6);
	double shaken = 0;
	const uint64_t end = w.t + 12000000;
	while (w.t < end) {
		const bool shake = w.t < end - 7000000;
		if (shake && !w.flow.on && w.t > end - 11000000) { w.flow.start(w.t, 4000); }
		w.cmd_w = {0, 0, shake ? 4.0 : 0.0};
		if (!shake) { w.x.v = {}; w.x.p = {0, 0, -0.1}; }
		else { shaken = w.t; }
		w.tick();
		if (cs().flags.opt_flow) {
			if (w.t - shaken < 3.0e6) { FAIL("flow is used %.2f s after the vehicle was shaken", (w.t - shaken) * 1e-6); }
			return 0;
		}
	}
	FAIL("flow is never used");
}
''')

eseed("odometry-aiding", "E10", "GPS rejected while vision odometry is accepted",
      "accepted vision odometry does not count against dead reckoning",
      [("ekf_helper.cpp", "				|| isRecent(_time_last_delpos_fuse, _params.no_aid_timeout_max));", "				);")], r'''
int main()
{
	parameters &p = mk();
	p.fusion_mode = MASK_USE_GPS | MASK_USE_EVPOS;
	p.no_aid_timeout_max = 1000000;
	p.reset_timeout_max = 60000000;
	go();
	w.gps.start(w.t, 7000);
	w.ev.start(w.t, 11000);
	w.run(20);
	if (!cs().flags.gps || !cs().flags.ev_pos) { FAIL("sources not used"); }
	fly();
	w.run(5);
	w.gps_vel_err = {30, 0, 0};
	w.gps_pos_err = {100, 0, 0};
	int bad = 0, n = 0;
	w.run(3);
	w.run(2, [&](bool u) { if (u && cs().flags.gps && cs().flags.ev_pos) { n++; bad += w.ekf->inertial_dead_reckoning(); } });
	if (n < 100) { FAIL("demonstration without power (%d)", n); }
	if (bad) { FAIL("dead reckoning reported in %d of %d updates although vision is accepted", bad, n); }
	return 0;
}
''')

eseed("glitch-horizontal", "E11", "a GPS whose vertical velocity alone is rejected",
      "the GPS glitch report ignores the vertical velocity",
      [("ekf_helper.cpp", "(_gps_vel_test_ratio(0) > 1.0f) || (_gps_vel_test_ratio(1) > 1.0f);", "(_gps_vel_test_ratio(0) > 1.0f);")], r'''
int main()
{
	mk();
	go();
	w.gps.start(w.t, 7000);
	w.run(20);
	if (!cs().flags.gps) { FAIL("GPS is not used"); }
	fly();
	w.run(5);
	w.gps_vel_err = {0, 0, 5};
	w.run(1);
	float hv, vv, hp, vp;
	w.ekf->getGpsVelPosInnovRatio(hv, vv, hp, vp);
	uint16_t s;
	w.ekf->get_ekf_soln_status(&s);
	if (!(vv > 1 && hv < 1 && hp < 1)) { FAIL("demonstration without power %g %g %g", hv, vv, hp); }
	if (!(s >> 10 & 1)) { FAIL("vertical GPS velocity rejected (%.1f) but no glitch reported: 0x%x", vv, s); }
	return 0;
}
''')

eseed("antenna-yaw-again", "E12", "a dual-antenna heading that is wrong for more than five seconds",
      "a heading receiver that was found faulty is used again at once",
      [("control.cpp", "		_is_gps_yaw_faulty = true;\n		stopGpsYawFusion();", "		stopGpsYawFusion();")], r'''
int main()
{
	parameters &p = mk();
	p.fusion_mode = MASK_USE_GPS | MASK_USE_GPSYAW;
	w.gps_yaw = true;
	go();
	w.gps.start(w.t, 7000);
	w.run(20);
	if (!cs().flags.gps_yaw) { FAIL("GPS heading is not used"); }
	fly();
	w.run(5);
	w.gps_yaw_err = 1.5;
	bool off = false, again = false;
	w.run(20, [&](bool) { off = off || !cs().flags.gps_yaw; again = again || (off && cs().flags.gps_yaw); });
	if (!off || again) { FAIL("wrong GPS heading: dropped %d, used again %d", off, again); }
	return 0;
}
''')

eseed("origin-altitude", "E13", "moving the origin vertically while GPS aiding is active",
      "the altitude of the vehicle is taken before the reference altitude",
      [("ekf_helper.cpp", "		current_alt = -_state.pos(2) + _gps_alt_ref;", "		current_alt = -_state.pos(2) + altitude;")], r'''
int main()
{
	mk();
	go();
	w.gps.start(w.t, 7000);
	w.run(20);
	if (!cs().flags.gps) { FAIL("GPS is not used"); }
	fly();
	w.run(3);
	uint64_t t; double la, lo; float al;
	w.ekf->getEkfGlobalOrigin(t, la, lo, al);
	const double before = al - state_of(*w.ekf).s[9];
	w.ekf->setEkfGlobalOrigin(la, lo, al + 30.f);
	const double after = al + 30.f - state_of(*w.ekf).s[9];
	if (std::fabs(after - before) > 0.1) { FAIL("altitude of the vehicle moved by %.2f m with the origin", after - before); }
	return 0;
}
''')

eseed("terrain-reset-variance", "E14", "a range finder that disagrees with the terrain estimate for more than ten seconds",
      "the reset of the terrain height keeps the old variance",
      [("terrain_estimator.cpp", "			_terrain_vpos = _state.pos(2) + meas_hagl;\n			_terrain_var = obs_variance;\n\n		} else {\n			_innov", "			_terrain_vpos = _state.pos(2) + meas_hagl;\n\n		} else {\n			_innov")], r'''
int main()
{
	parameters &p = mk();
	p.terrain_p_noise = 0.1f;
	go();
	w.range.start(w.t, 9000);
	w.gps.start(w.t, 7000);
	w.run(20);
	fly();
	w.run(5);
	w.range_off = 12;
	const float before = w.ekf->getTerrainVertPos();
	float var = -1, was = -1;
	w.run(16, [&](bool u) { if (u && var < 0) { if (w.ekf->getTerrainVertPos() - before > 6) { var = w.ekf->get_terrain_var(); } else { was = w.ekf->get_terrain_var(); } } });
	if (var < 0) { FAIL("no reset"); }
	const float want = sq(p.range_noise) + sq(p.range_noise_scaler * 16);
	if (std::fabs(var / want - 1) > 0.2) { FAIL("terrain variance %.3f after the reset, the range finder has %.3f (before %.3f)", var, want, was); }
	return 0;
}
''')

eseed("unset-fail-time", "E15", "an instance whose storage held other data before",
      "the time of the last failed GPS check has no initial value",
      [("ekf.h", "	uint64_t _last_gps_fail_us{0};", "	uint64_t _last_gps_fail_us;")], r'''
int main()
{
	for (int fill : {0x00, 0x11}) {
		if (w.ekf) { w.ekf->~Ekf(); }
		memset(w.store, fill, sizeof(w.store));
		asm volatile("" ::: "memory");
		w.ekf = new (w.store) Ekf;
		w.t0 = w.t = 1000000;
		w.x = Truth{};
		w.mag.stop(); w.baro.stop(); w.gps.stop();
		go();
		w.gps.start(w.t, 7000);
		w.run(25);
		if (!cs().flags.gps) { FAIL("GPS is not used when the storage was filled with 0x%02x", fill); }
	}
	return 0;
}
''')

eseed("range-after-flow", "E16", "range samples that arrive just after flow samples",
      "the rate limit of the range finder counts the samples of the flow sensor",
      [("estimator_interface.cpp", "(range_sample.time_us - _time_last_range) > _min_obs_interval_us", "(range_sample.time_us - math::max(_time_last_range, _time_last_optflow)) > _min_obs_interval_us")], r'''
int main()
{
	parameters &p = mk();
	go();
	w.gps.start(w.t, 7000);
	w.run(10);
	fly();
	// flow and range share one time base, the flow sample is delivered first
	const uint64_t end = w.t + 5000000;
	int sent = 0, used = 0;
	float h0 = 0, h1;
	while (w.t < end) {
		if (w.t / 50000 != (w.t - w.imu_dt) / 50000) {
			flowSample f{};
			f.time_us = w.t;
			f.quality = 255;
			f.dt = 0.05f;
			w.ekf->setOpticalFlowData(f);
			rangeSample r{};
			r.time_us = w.t + 1000;
			r.rng = float(-w.x.p.z) + 0.03f * (sent++ % 7);
			r.quality = 100;
			w.ekf->setRangeData(r);
		}
		w.tick();
		w.ekf->getHaglInnov(h1);
		used += h1 != h0;
		h0 = h1;
	}
	if (used < sent / 2) { FAIL("%d of %d range samples were used", used, sent); }
	return 0;
}
''')

eseed("terrain-unselected-range", "E17", "a range finder that is not selected for terrain estimation",
      "range data is used for the terrain even when only flow is selected",
      [("terrain_estimator.cpp", "		if (shouldUseRangeFinderForHagl()\n		    && _range_sensor.isDataHealthy()) {\n			fuseHagl();", "		if (_range_sensor.isDataHealthy()) {\n			fuseHagl();")], r'''
int main()
{
	float h[2];
	for (int k = 0; k < 2; k++) {
		w.x = Truth{}; w.ticks = 0; w.cmd_a = {}; w.mag.stop(); w.baro.stop(); w.range.stop(); w.gps.stop();
		parameters &p = mk();
		p.terrain_fusion_mode = TerrainFusionMask::TerrainFuseOpticalFlow;
		go();
		w.gps.start(w.t, 7000);
		w.run(15);
		w.range_off = 1;
		if (k) { w.range.start(w.t, 9000); }
		fly();
		w.run(10);
		h[k] = w.ekf->getTerrainVertPos();
	}
	if (h[0] != h[1]) { FAIL("terrain height %.3f without and %.3f with range data", h[0], h[1]); }
	return 0;
}
''')

eseed("late-gps-reset", "E18", "GPS velocity and position rejected for long with the position jumping by much",
      "the position is reset only after four instead of two time-outs when velocity is still accepted",
      [("control.cpp", "isTimedOut(_time_last_hor_pos_fuse, 2 * _params.reset_timeout_max)", "isTimedOut(_time_last_hor_pos_fuse, 4 * _params.reset_timeout_max)")], r'''
int main()
{
	parameters &p = mk();
	p.reset_timeout_max = 3000000;
	go();
	w.gps.start(w.t, 7000);
	w.run(20);
	if (!cs().flags.gps) { FAIL("GPS is not used"); }
	fly();
	w.run(5);
	w.gps_pos_err = {60, 0, 0};
	w.run(8.5);
	const double x = state_of(*w.ekf).s[7];
	if (x < 50) { FAIL("8.5 s after a jump of the GPS position the estimate has moved by %.1f m of 60 m", x); }
	return 0;
}
''')

eseed("vision-height-independent", "E19", "vision height with vertical velocity from GPS and a falling inertial solution",
      "vision height and GPS velocity are taken for the same sensor",
      [("control.cpp", "const bool using_ev_for_both = _control_status.flags.ev_hgt && _control_status.flags.ev_vel;", "const bool using_ev_for_both = _control_status.flags.ev_hgt;")], r'''
int main()
{
	parameters &p = mk();
	p.vdist_sensor_type = VDIST_SENSOR_EV;
	go();
	w.gps.start(w.t, 7000);
	w.ev.start(w.t, 11000);
	w.run(20);
	if (!cs().flags.gps || !cs().flags.ev_hgt) { FAIL("sources are not used"); }
	fly();
	w.run(5);
	w.imu_force = {0, 0, 15};
	bool bad = false;
	w.run(6, [&](bool u) { bad = bad || w.ekf->fault_status_flags().bad_acc_vertical; });
	if (!bad) { FAIL("a false acceleration of 15 m/s2 is not found although height and velocity both contradict it"); }
	return 0;
}
''')

eseed("vision-steep-sequence", "E20", "vision heading and a vehicle tilted steeply about both axes",
      "the heading of a steep vision attitude is taken with the wrong rotation sequence",
      [("mag_fusion.cpp", "measured_hdg = getEuler312Yaw(_ev_sample_delayed.quat);", "measured_hdg = getEuler321Yaw(_ev_sample_delayed.quat);")], r'''
int main()
{
	parameters &p = mk();
	p.fusion_mode = MASK_USE_EVYAW;
	p.mag_fusion_type = MAG_FUSE_TYPE_NONE;
	w.begin();
	w.x.q = q_euler(30 * DEG, 60 * DEG, 1.0);
	w.baro.start(w.t, 5000);
	w.ev.start(w.t, 11000);
	w.run(25);
	if (!cs().flags.ev_yaw) { FAIL("vision heading is not used"); }
	const double e = q_angle(state_of(*w.ekf).q(), w.x.q) / DEG;
	if (e > 4) { FAIL("the attitude is wrong by %.1f deg", e); }
	return 0;
}
''')

eseed("start-while-accelerated", "E20", "a vehicle that is being accelerated when the filter starts",
      "the filter starts while an acceleration falsifies the tilt",
      [("ekf.cpp", "accel_norm > 1.2f * CONSTANTS_ONE_G", "accel_norm > 1.5f * CONSTANTS_ONE_G")], r'''
int main()
{
	mk();
	go();
	bool started = false;
	w.cmd_a = {8, 0, 0};
	w.run(3, [&](bool u) { started = started || u; });
	if (started) { FAIL("the filter has started during an acceleration of 8 m/s2"); }
	return 0;
}
''')

eseed("declination-small", "E21", "flight at a place with a large magnetic declination",
      "the declination at the place of flight is limited to 8.6 degrees",
      [("ekf_helper.cpp", "return _mag_declination_gps;", "return math::constrain(_mag_declination_gps, -0.15f, 0.15f);")], r'''
int main()
{
	mk();
	w.lat0 = -67.5; w.lon0 = -68.1;
	go();
	w.gps.start(w.t, 7000);
	w.run(20);
	if (!cs().flags.gps || !cs().flags.yaw_align) { FAIL("GPS is not used"); }
	const double e = q_angle(state_of(*w.ekf).q(), w.x.q) / DEG;
	if (e > 5) { FAIL("the heading is wrong by %.1f deg", e); }
	return 0;
}
''')

eseed("bias-not-removed", "E21", "an accelerometer bias",
      "the learned accelerometer bias is only partly removed from the prediction",
      [("ekf.cpp", "const Vector3f corrected_delta_vel = _imu_sample_delayed.delta_vel - _state.delta_vel_bias;", "const Vector3f corrected_delta_vel = _imu_sample_delayed.delta_vel - _state.delta_vel_bias * 0.5f;")], r'''
int main()
{
	mk();
	w.accel_bias = {0, 0, 0.1};
	go();
	w.gps.start(w.t, 7000);
	w.run(20);
	fly();
	w.run(30);
	const double b = w.ekf->getAccelBias()(2);
	if (std::fabs(b - 0.1) > 0.04) { FAIL("the learned bias is %.3f, truth 0.1", b); }
	return 0;
}
''')


eseed("rest-after-landing", "E22", "a landing after a flight",
      "the time spent in the air does not count as motion for the at-rest detection",
      [("estimator_interface.cpp", "		_time_last_move_detect_us = imu.time_us;\n		return false;", "		return false;")], r"""
int main()
{
	mk();
	w.gyro_dither = w.accel_dither = 0;
	go();
	w.run(5);
	w.ekf->set_in_air_status(true);
	w.run(5);
	w.ekf->set_in_air_status(false);
	w.run(0.5);
	if (w.ekf->isVehicleAtRest()) { FAIL("at rest half a second after landing"); }
	w.run(1.5);
	if (!w.ekf->isVehicleAtRest()) { FAIL("not at rest two seconds after landing"); }
	return 0;
}
""")

eseed("ground-effect-once", "E22", "ground effect declared repeatedly for longer than ten seconds",
      "declaring ground effect again does not prolong it",
      [("estimator_interface.h", "		_control_status.flags.gnd_effect = gnd_effect;\n		_time_last_gnd_effect_on = _time_last_imu;", "		if (_control_status.flags.gnd_effect != gnd_effect) {\n			_time_last_gnd_effect_on = _time_last_imu;\n		}\n\n		_control_status.flags.gnd_effect = gnd_effect;")], r"""
int main()
{
	mk();
	go();
	w.run(8);
	fly();
	for (int i = 0; i < 13; i++) {
		w.ekf->set_gnd_effect_flag(true);
		w.run(0.97);
		if (!cs().flags.gnd_effect) { FAIL("ground effect no longer reported a second after it was declared"); }
	}
	return 0;
}
""")

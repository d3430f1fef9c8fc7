From 1d22599108bca557a0eba49c4b3d00f843db6edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:23 +0000
Subject: [PATCH 01/41] fix: RingBuffer: never return an empty slot for time
 stamps below 100 ms

---
 EKF/RingBuffer.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/EKF/RingBuffer.h b/EKF/RingBuffer.h
index bc36fcb..47dd207 100644
--- a/EKF/RingBuffer.h
+++ b/EKF/RingBuffer.h
@@ -124,7 +124,9 @@ public:
 			int index = (_head - i);
 			index = index < 0 ? _size + index : index;
 
-			if (timestamp >= _buffer[index].time_us && timestamp < _buffer[index].time_us + (uint64_t)1e5) {
+			// a zero time stamp marks a slot that has never been written or whose sample has already been removed
+			if (_buffer[index].time_us != 0
+			    && timestamp >= _buffer[index].time_us && timestamp < _buffer[index].time_us + (uint64_t)1e5) {
 				*sample = _buffer[index];
 
 				// Now we can set the tail to the item which
-- 
2.43.0


From 5a0483e2a467a230614e7d75f57adfd0a266fd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:30 +0000
Subject: [PATCH 02/41] fix: geo_lookup: interpolate declination along the
 shorter arc across +-180 degrees

Averaging corner values on either side of the +-pi discontinuity (near the
magnetic poles and at the geographic poles) gave declinations wrong by up to
180 degrees.
---
 geo_lookup/geo_mag_declination.cpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/geo_lookup/geo_mag_declination.cpp b/geo_lookup/geo_mag_declination.cpp
index 5b3d065..0a0d230 100644
--- a/geo_lookup/geo_mag_declination.cpp
+++ b/geo_lookup/geo_mag_declination.cpp
@@ -66,7 +66,14 @@ static constexpr unsigned get_lookup_table_index(float *val, float min, float ma
 	return static_cast<unsigned>((-(min) + *val) / SAMPLING_RES);
 }
 
-static constexpr float get_table_data(float lat, float lon, const int16_t table[LAT_DIM][LON_DIM])
+/* bring an angle difference in table units (10^-4 radians) into the range of +-pi, period 0: not an angle */
+static constexpr float wrap_table_angle(float delta, float period)
+{
+	return (period <= 0.f) ? delta :
+	       (delta > 0.5f * period) ? delta - period : ((delta < -0.5f * period) ? delta + period : delta);
+}
+
+static constexpr float get_table_data(float lat, float lon, const int16_t table[LAT_DIM][LON_DIM], float period = 0.f)
 {
 	lat = math::constrain(lat, SAMPLING_MIN_LAT, SAMPLING_MAX_LAT);
 
@@ -95,14 +102,18 @@ static constexpr float get_table_data(float lat, float lon, const int16_t table[
 	const float lat_scale = constrain((lat - min_lat) / SAMPLING_RES, 0.f, 1.f);
 	const float lon_scale = constrain((lon - min_lon) / SAMPLING_RES, 0.f, 1.f);
 
-	const float data_min = lon_scale * (data_se - data_sw) + data_sw;
-	const float data_max = lon_scale * (data_ne - data_nw) + data_nw;
+	const float data_min = lon_scale * wrap_table_angle(data_se - data_sw, period) + data_sw;
+	const float data_max = lon_scale * wrap_table_angle(data_ne - data_nw, period) + data_nw;
+
+	/* corners on either side of +-pi are at most one turn apart, two interpolated rows at most two */
+	const float data_delta = wrap_table_angle(wrap_table_angle(data_max - data_min, period), period);
 
-	return lat_scale * (data_max - data_min) + data_min;
+	return wrap_table_angle(lat_scale * data_delta + wrap_table_angle(data_min, period), period);
 }
 
 float get_mag_declination_radians(float lat, float lon) {
-	return get_table_data(lat, lon, declination_table) * 1e-4f; // declination table stored as 10^-4 radians
+	/* declination wraps around at +-pi: interpolate along the shorter arc */
+	return get_table_data(lat, lon, declination_table, 2.f * M_PI_F * 1e4f) * 1e-4f; // declination table stored as 10^-4 radians
 }
 
 float get_mag_declination_degrees(float lat, float lon) {
-- 
2.43.0


From 064691dd5b6b7c1b883020c1f09a670ed74b5d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:20 +0000
Subject: [PATCH 03/41] fix: geo: distance between antipodal points is not NaN

The haversine term can exceed 1 by a rounding error, sqrt(1 - a) was NaN for
about 4% of antipodal pairs.
---
 geo/geo.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/geo/geo.cpp b/geo/geo.cpp
index ec9e671..1c04cbe 100644
--- a/geo/geo.cpp
+++ b/geo/geo.cpp
@@ -166,7 +166,8 @@ float get_distance_to_next_waypoint(double lat_now, double lon_now, double lat_n
 
 	const double a = sin(d_lat / 2.0) * sin(d_lat / 2.0) + sin(d_lon / 2.0) * sin(d_lon / 2.0) * cos(lat_now_rad) * cos(lat_next_rad);
 
-	const double c = atan2(sqrt(a), sqrt(1.0 - a));
+	// a can exceed 1 by a rounding error for antipodal points
+	const double c = atan2(sqrt(a), sqrt(math::max(1.0 - a, 0.0)));
 
 	return static_cast<float>(CONSTANTS_RADIUS_OF_EARTH * 2.0 * c);
 }
@@ -416,7 +417,7 @@ float get_distance_to_point_global_wgs84(double lat_now, double lon_now, float a
 	double d_lon = y_rad - current_y_rad;
 
 	double a = sin(d_lat / 2.0) * sin(d_lat / 2.0) + sin(d_lon / 2.0) * sin(d_lon / 2.0) * cos(current_x_rad) * cos(x_rad);
-	double c = 2 * atan2(sqrt(a), sqrt(1 - a));
+	double c = 2 * atan2(sqrt(a), sqrt(math::max(1.0 - a, 0.0))); // a can exceed 1 by a rounding error for antipodal points
 
 	const float dxy = static_cast<float>(CONSTANTS_RADIUS_OF_EARTH * c);
 	const float dz = static_cast<float>(alt_now - alt_next);
-- 
2.43.0


From 5eaa875a9ea7be8de22afa04bb4872624e61f7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:20 +0000
Subject: [PATCH 04/41] fix: geo: positions on a pole are not NaN

The argument of asin() can exceed 1 by a rounding error when reprojecting to,
or travelling to, one of the poles.
---
 geo/geo.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geo/geo.cpp b/geo/geo.cpp
index 1c04cbe..f595ede 100644
--- a/geo/geo.cpp
+++ b/geo/geo.cpp
@@ -142,7 +142,7 @@ int map_projection_reproject(const struct map_projection_reference_s *ref, float
 		const double sin_c = sin(c);
 		const double cos_c = cos(c);
 
-		const double lat_rad = asin(cos_c * ref->sin_lat + (x_rad * sin_c * ref->cos_lat) / c);
+		const double lat_rad = asin(math::constrain(cos_c * ref->sin_lat + (x_rad * sin_c * ref->cos_lat) / c, -1.0, 1.0));
 		const double lon_rad = (ref->lon_rad + atan2(y_rad * sin_c, c * ref->cos_lat * cos_c - x_rad * ref->sin_lat * sin_c));
 
 		*lat = math::degrees(lat_rad);
@@ -193,7 +193,7 @@ void waypoint_from_heading_and_distance(double lat_start, double lon_start, floa
 	double lat_start_rad = math::radians(lat_start);
 	double lon_start_rad = math::radians(lon_start);
 
-	*lat_target = asin(sin(lat_start_rad) * cos(radius_ratio) + cos(lat_start_rad) * sin(radius_ratio) * cos((double)bearing));
+	*lat_target = asin(math::constrain(sin(lat_start_rad) * cos(radius_ratio) + cos(lat_start_rad) * sin(radius_ratio) * cos((double)bearing), -1.0, 1.0));
 	*lon_target = lon_start_rad + atan2(sin((double)bearing) * sin(radius_ratio) * cos(lat_start_rad),
 					    cos(radius_ratio) - sin(lat_start_rad) * sin(*lat_target));
 
-- 
2.43.0


From 03c115d8a9ea570d404f3475acd8893d44306580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:20 +0000
Subject: [PATCH 05/41] fix: geo: get_vector_to_next_waypoint_fast across the
 date line

The longitude difference was not wrapped: neighbouring points on either side
of the date line were 40000 km apart.
---
 geo/geo.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geo/geo.cpp b/geo/geo.cpp
index f595ede..6f95d99 100644
--- a/geo/geo.cpp
+++ b/geo/geo.cpp
@@ -238,7 +238,7 @@ get_vector_to_next_waypoint_fast(double lat_now, double lon_now, double lat_next
 	double lon_next_rad = math::radians(lon_next);
 
 	double d_lat = lat_next_rad - lat_now_rad;
-	double d_lon = lon_next_rad - lon_now_rad;
+	double d_lon = wrap_pi(lon_next_rad - lon_now_rad); // the shorter way, also across the date line
 
 	/* conscious mix of double and float trig function to maximize speed and efficiency */
 	*v_n = static_cast<float>(CONSTANTS_RADIUS_OF_EARTH * d_lat);
-- 
2.43.0


From 25820dad32c40d97c4825146a63f0ced9165e58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:11 +0000
Subject: [PATCH 06/41] fix: geo: get_distance_to_arc decides the sector as
 seen from the center

The sector test used the bearing towards the center instead of from it,
compared angles of different ranges and put the end of a counterclockwise
sweep on the wrong side; the end points were placed relative to the current
position instead of the center, and the distance was not signed as documented.
---
 geo/geo.cpp | 57 +++++++++++------------------------------------------
 1 file changed, 11 insertions(+), 46 deletions(-)

diff --git a/geo/geo.cpp b/geo/geo.cpp
index 6f95d99..d4e4a85 100644
--- a/geo/geo.cpp
+++ b/geo/geo.cpp
@@ -310,9 +310,8 @@ int get_distance_to_arc(struct crosstrack_error_s *crosstrack_error, double lat_
 
 	// Determine if the current position is inside or outside the sector between the line from the center
 	// to the arc start and the line from the center to the arc end
-	float bearing_sector_start = 0.0f;
-	float bearing_sector_end = 0.0f;
-	float bearing_now = get_bearing_to_next_waypoint(lat_now, lon_now, lat_center, lon_center);
+	const float bearing_from_center = get_bearing_to_next_waypoint(lat_center, lon_center, lat_now, lon_now);
+	const float bearing_now = get_bearing_to_next_waypoint(lat_now, lon_now, lat_center, lon_center);
 
 	int return_value = -1;		// Set error flag, cleared when valid result calculated.
 	crosstrack_error->past_end = false;
@@ -324,34 +323,9 @@ int get_distance_to_arc(struct crosstrack_error_s *crosstrack_error, double lat_
 		return return_value;
 	}
 
-	if (arc_sweep >= 0.0f) {
-		bearing_sector_start = arc_start_bearing;
-		bearing_sector_end = arc_start_bearing + arc_sweep;
-
-		if (bearing_sector_end > 2.0f * M_PI_F) { bearing_sector_end -= (2 * M_PI_F); }
-
-	} else {
-		bearing_sector_end = arc_start_bearing;
-		bearing_sector_start = arc_start_bearing - arc_sweep;
-
-		if (bearing_sector_start < 0.0f) { bearing_sector_start += (2 * M_PI_F); }
-	}
-
-	bool in_sector = false;
-
-	// Case where sector does not span zero
-	if (bearing_sector_end >= bearing_sector_start && bearing_now >= bearing_sector_start
-	    && bearing_now <= bearing_sector_end) {
-
-		in_sector = true;
-	}
-
-	// Case where sector does span zero
-	if (bearing_sector_end < bearing_sector_start && (bearing_now > bearing_sector_start
-			|| bearing_now < bearing_sector_end)) {
-
-		in_sector = true;
-	}
+	// Angle from the arc start to the current position in the direction of the sweep
+	const float sweep_now = wrap_2pi((arc_sweep >= 0.0f) ? bearing_from_center - arc_start_bearing : arc_start_bearing - bearing_from_center);
+	const bool in_sector = (sweep_now <= fabsf(arc_sweep));
 
 	// If in the sector then calculate distance and bearing to closest point
 	if (in_sector) {
@@ -359,31 +333,22 @@ int get_distance_to_arc(struct crosstrack_error_s *crosstrack_error, double lat_
 		float dist_to_center = get_distance_to_next_waypoint(lat_now, lon_now, lat_center, lon_center);
 
 		if (dist_to_center <= radius) {
-			crosstrack_error->distance = radius - dist_to_center;
 			crosstrack_error->bearing = bearing_now + M_PI_F;
 
 		} else {
-			crosstrack_error->distance = dist_to_center - radius;
 			crosstrack_error->bearing = bearing_now;
 		}
 
+		// The center is to the right of a clockwise and to the left of a counterclockwise arc
+		crosstrack_error->distance = (arc_sweep >= 0.0f) ? radius - dist_to_center : dist_to_center - radius;
+
 		// If out of the sector then calculate dist and bearing to start or end point
 
 	} else {
 
-		// Use the approximation  that 111,111 meters in the y direction is 1 degree (of latitude)
-		// and 111,111 * cos(latitude) meters in the x direction is 1 degree (of longitude) to
-		// calculate the position of the start and end points.  We should not be doing this often
-		// as this function generally will not be called repeatedly when we are out of the sector.
-
-		double start_disp_x = (double)radius * sin((double)arc_start_bearing);
-		double start_disp_y = (double)radius * cos((double)arc_start_bearing);
-		double end_disp_x = (double)radius * sin((double)wrap_pi(arc_start_bearing + arc_sweep));
-		double end_disp_y = (double)radius * cos((double)wrap_pi(arc_start_bearing + arc_sweep));
-		double lon_start = lon_now + start_disp_x / 111111.0;
-		double lat_start = lat_now + start_disp_y * cos(lat_now) / 111111.0;
-		double lon_end = lon_now + end_disp_x / 111111.0;
-		double lat_end = lat_now + end_disp_y * cos(lat_now) / 111111.0;
+		double lat_start, lon_start, lat_end, lon_end;
+		waypoint_from_heading_and_distance(lat_center, lon_center, arc_start_bearing, radius, &lat_start, &lon_start);
+		waypoint_from_heading_and_distance(lat_center, lon_center, arc_start_bearing + arc_sweep, radius, &lat_end, &lon_end);
 		float dist_to_start = get_distance_to_next_waypoint(lat_now, lon_now, lat_start, lon_start);
 		float dist_to_end = get_distance_to_next_waypoint(lat_now, lon_now, lat_end, lon_end);
 
-- 
2.43.0


From 06e24e04a9e118d3f852b7acad85a1c3232e912b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:10 +0000
Subject: [PATCH 07/41] fix: report rejected magnetometer and flow axes in
 their own status bits

The bits were one position too low since horizontal and vertical velocity
and position got separate bits: a rejected magnetometer X axis was reported
as rejected vertical position, a rejected flow X axis as rejected hagl.
---
 EKF/mag_fusion.cpp     | 4 ++--
 EKF/optflow_fusion.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/EKF/mag_fusion.cpp b/EKF/mag_fusion.cpp
index 9d3a55a..ce152b4 100644
--- a/EKF/mag_fusion.cpp
+++ b/EKF/mag_fusion.cpp
@@ -176,10 +176,10 @@ void Ekf::fuseMag()
 
 		if (_mag_test_ratio(index) > 1.0f) {
 			all_innovation_checks_passed = false;
-			_innov_check_fail_status.value |= (1 << (index + 3));
+			_innov_check_fail_status.value |= (1 << (index + 4));
 
 		} else {
-			_innov_check_fail_status.value &= ~(1 << (index + 3));
+			_innov_check_fail_status.value &= ~(1 << (index + 4));
 		}
 	}
 
diff --git a/EKF/optflow_fusion.cpp b/EKF/optflow_fusion.cpp
index a5b5415..58c0fe3 100644
--- a/EKF/optflow_fusion.cpp
+++ b/EKF/optflow_fusion.cpp
@@ -245,10 +245,10 @@ void Ekf::fuseOptFlow()
 	for (uint8_t obs_index = 0; obs_index <= 1; obs_index++) {
 		if (test_ratio[obs_index] > 1.0f) {
 			flow_fail = true;
-			_innov_check_fail_status.value |= (1 << (obs_index + 10));
+			_innov_check_fail_status.value |= (1 << (obs_index + 11));
 
 		} else {
-			_innov_check_fail_status.value &= ~(1 << (obs_index + 10));
+			_innov_check_fail_status.value &= ~(1 << (obs_index + 11));
 
 		}
 	}
-- 
2.43.0


From 70ea6aee572b8fba345fdfaf6a03d3169d7b0b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:10 +0000
Subject: [PATCH 08/41] fix: use the flow sensor sign convention for the flow
 gyro bias estimate

The bias was estimated as the difference of rates of opposite sign, which
adds up to twice the body rate to the flow rate while the vehicle rotates.
---
 EKF/optflow_fusion.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/EKF/optflow_fusion.cpp b/EKF/optflow_fusion.cpp
index 58c0fe3..671ed11 100644
--- a/EKF/optflow_fusion.cpp
+++ b/EKF/optflow_fusion.cpp
@@ -349,7 +349,8 @@ bool Ekf::calcOptFlowBodyRateComp()
 		    && (_flow_sample_delayed.dt > FLT_EPSILON)
 		    && (fabsf(_delta_time_of - _flow_sample_delayed.dt) < 0.1f)) {
 
-			const Vector3f reference_body_rate(_imu_del_ang_of * (1.0f / _delta_time_of));
+			// the flow sensor gyro has the opposite sign convention, see definition of flowSample and imuSample in common.h
+			const Vector3f reference_body_rate(_imu_del_ang_of * (-1.0f / _delta_time_of));
 
 			const Vector3f measured_body_rate(_flow_sample_delayed.gyro_xyz * (1.0f / _flow_sample_delayed.dt));
 
-- 
2.43.0


From c9cb78dc38a1cf6238f67947ce4d2678267feaa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:10 +0000
Subject: [PATCH 09/41] fix: limit vertical innovations while bad vertical
 acceleration is declared

The flag that was tested is never set, the one set is in _fault_status.
---
 EKF/ekf.h              | 1 -
 EKF/vel_pos_fusion.cpp | 4 ++--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/EKF/ekf.h b/EKF/ekf.h
index ade36dd..cdb6ee7 100644
--- a/EKF/ekf.h
+++ b/EKF/ekf.h
@@ -524,7 +524,6 @@ private:
 	// imu fault status
 	uint64_t _time_bad_vert_accel{0};	///< last time a bad vertical accel was detected (uSec)
 	uint64_t _time_good_vert_accel{0};	///< last time a good vertical accel was detected (uSec)
-	bool _bad_vert_accel_detected{false};	///< true when bad vertical accelerometer data has been detected
 	uint16_t _clip_counter{0};		///< counter that increments when clipping ad decrements when not
 
 	// variables used to control range aid functionality
diff --git a/EKF/vel_pos_fusion.cpp b/EKF/vel_pos_fusion.cpp
index 9631304..f3b2bfb 100644
--- a/EKF/vel_pos_fusion.cpp
+++ b/EKF/vel_pos_fusion.cpp
@@ -86,7 +86,7 @@ bool Ekf::fuseVerticalVelocity(const Vector3f &innov, const Vector2f &innov_gate
 	// if there is bad vertical acceleration data, then don't reject measurement,
 	// but limit innovation to prevent spikes that could destabilise the filter
 	float innovation;
-	if (_bad_vert_accel_detected && !innov_check_pass) {
+	if (_fault_status.flags.bad_acc_vertical && !innov_check_pass) {
 		const float innov_limit = innov_gate(1) * sqrtf(innov_var(2));
 		innovation = math::constrain(innov(2), -innov_limit, innov_limit);
 		innov_check_pass = true;
@@ -157,7 +157,7 @@ bool Ekf::fuseVerticalPosition(const Vector3f &innov, const Vector2f &innov_gate
 	// if there is bad vertical acceleration data, then don't reject measurement,
 	// but limit innovation to prevent spikes that could destabilise the filter
 	float innovation;
-	if (_bad_vert_accel_detected && !innov_check_pass) {
+	if (_fault_status.flags.bad_acc_vertical && !innov_check_pass) {
 		const float innov_limit = innov_gate(1) * sqrtf(innov_var(2));
 		innovation = math::constrain(innov(2), -innov_limit, innov_limit);
 		innov_check_pass = true;
-- 
2.43.0


From cdb0b62a23d2569e2ce3c068faa47c47d3691c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:10 +0000
Subject: [PATCH 10/41] fix: give the yaw estimator the GPS speed accuracy, not
 the vertical position accuracy

---
 EKF/ekf_helper.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/EKF/ekf_helper.cpp b/EKF/ekf_helper.cpp
index 24e8c87..8f24922 100644
--- a/EKF/ekf_helper.cpp
+++ b/EKF/ekf_helper.cpp
@@ -1654,9 +1654,9 @@ void Ekf::runYawEKFGSF()
 	_yawEstimator.update(_imu_sample_delayed, _control_status.flags.in_air, TAS, imu_gyro_bias);
 
 	// basic sanity check on GPS velocity data
-	if (_gps_data_ready && _gps_sample_delayed.vacc > FLT_EPSILON &&
+	if (_gps_data_ready && _gps_sample_delayed.sacc > FLT_EPSILON &&
 	    ISFINITE(_gps_sample_delayed.vel(0)) && ISFINITE(_gps_sample_delayed.vel(1))) {
-		_yawEstimator.setVelocity(_gps_sample_delayed.vel.xy(), _gps_sample_delayed.vacc);
+		_yawEstimator.setVelocity(_gps_sample_delayed.vel.xy(), _gps_sample_delayed.sacc);
 	}
 }
 
-- 
2.43.0


From 795f2a17e5211246c6d913a665a3e0e421556c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:10 +0000
Subject: [PATCH 11/41] fix: initial wind variance is the square of the initial
 wind uncertainty

---
 EKF/covariance.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EKF/covariance.cpp b/EKF/covariance.cpp
index 94bafce..05c10d0 100644
--- a/EKF/covariance.cpp
+++ b/EKF/covariance.cpp
@@ -1116,6 +1116,6 @@ void Ekf::resetWindCovariance()
 
 	} else {
 		// without airspeed, start with a small initial uncertainty to improve the initial estimate
-		P.uncorrelateCovarianceSetVariance<2>(22, _params.initial_wind_uncertainty);
+		P.uncorrelateCovarianceSetVariance<2>(22, sq(_params.initial_wind_uncertainty));
 	}
 }
-- 
2.43.0


From 99ff6550e931e5edf543cff1f7f0991888d6c4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:10 +0000
Subject: [PATCH 12/41] fix: shift the newest vertical output by the height
 reset like the buffered ones

---
 EKF/ekf_helper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EKF/ekf_helper.cpp b/EKF/ekf_helper.cpp
index 8f24922..98ddeaa 100644
--- a/EKF/ekf_helper.cpp
+++ b/EKF/ekf_helper.cpp
@@ -251,7 +251,7 @@ void Ekf::resetVerticalPositionTo(const float &new_vert_pos)
 	}
 
 	// add the reset amount to the output observer vertical position state
-	_output_vert_new.vert_vel_integ = _state.pos(2);
+	_output_vert_new.vert_vel_integ += _state_reset_status.posD_change;
 }
 
 // Reset height state using the last height measurement
-- 
2.43.0


From fc2f433f34f7246073519282e9fbb0eac7c895be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:10 +0000
Subject: [PATCH 13/41] fix: do not leave the height test ratio unset without a
 height source

---
 EKF/ekf_helper.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/EKF/ekf_helper.cpp b/EKF/ekf_helper.cpp
index 98ddeaa..f7d26c9 100644
--- a/EKF/ekf_helper.cpp
+++ b/EKF/ekf_helper.cpp
@@ -947,6 +947,9 @@ void Ekf::get_innovation_test_status(uint16_t &status, float &mag, float &vel, f
 
 	} else if (_control_status.flags.ev_hgt) {
 		hgt = sqrtf(_ev_pos_test_ratio(1));
+
+	} else {
+		hgt = NAN;
 	}
 
 	// return the airspeed fusion innovation test ratio
-- 
2.43.0


From 20a69a1ed5f427e5965efe8c3352809bf7507af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:49 +0000
Subject: [PATCH 14/41] fix: fault status value covers all 18 fault bits

Bits 16 and 17 were not cleared by initialisation and ignored where the
value is compared with zero.
---
 EKF/common.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EKF/common.h b/EKF/common.h
index 28ec23a..37f3c85 100644
--- a/EKF/common.h
+++ b/EKF/common.h
@@ -407,7 +407,7 @@ union fault_status_u {
 		bool bad_acc_vertical: 1; ///< 16 - true if bad vertical accelerometer data has been detected
 		bool bad_acc_clipping: 1; ///< 17 - true if delta velocity data contains clipping (asymmetric railing)
 	} flags;
-	uint16_t value;
+	uint32_t value;
 
 };
 
-- 
2.43.0


From 90a4de1f88f7327fd92be9825cf57da399bafb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:49 +0000
Subject: [PATCH 15/41] fix: correct external vision samples for the sensor
 position before their height is used

---
 EKF/control.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/EKF/control.cpp b/EKF/control.cpp
index 2a354f5..374bd72 100644
--- a/EKF/control.cpp
+++ b/EKF/control.cpp
@@ -160,6 +160,13 @@ void Ekf::controlFusionModes()
 	_ev_data_ready = _ext_vision_buffer.pop_first_older_than(_imu_sample_delayed.time_us, &_ev_sample_delayed);
 	_tas_data_ready = _airspeed_buffer.pop_first_older_than(_imu_sample_delayed.time_us, &_airspeed_sample_delayed);
 
+	if (_ev_data_ready) {
+		// correct position and height for offset relative to IMU
+		const Vector3f pos_offset_body = _params.ev_pos_body - _params.imu_pos_body;
+		const Vector3f pos_offset_earth = _R_to_earth * pos_offset_body;
+		_ev_sample_delayed.pos -= pos_offset_earth;
+	}
+
 	// check for height sensor timeouts and reset and change sensor if necessary
 	controlHeightSensorTimeouts();
 
@@ -230,11 +237,6 @@ void Ekf::controlExternalVisionFusion()
 			Vector3f ev_pos_obs_var;
 			Vector2f ev_pos_innov_gates;
 
-			// correct position and height for offset relative to IMU
-			const Vector3f pos_offset_body = _params.ev_pos_body - _params.imu_pos_body;
-			const Vector3f pos_offset_earth = _R_to_earth * pos_offset_body;
-			_ev_sample_delayed.pos -= pos_offset_earth;
-
 			// Use an incremental position fusion method for EV position data if GPS is also used
 			if (_params.fusion_mode & MASK_USE_GPS) {
 				_fuse_hpos_as_odom = true;
-- 
2.43.0


From 73e6c1c16cc14fa18658ea65726bb29e1a92e5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:49 +0000
Subject: [PATCH 16/41] fix: do not fuse vision odometry without a previous
 observation

A stale innovation was fused with an uninitialised observation variance.
---
 EKF/control.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/EKF/control.cpp b/EKF/control.cpp
index 374bd72..6e777df 100644
--- a/EKF/control.cpp
+++ b/EKF/control.cpp
@@ -236,6 +236,7 @@ void Ekf::controlExternalVisionFusion()
 
 			Vector3f ev_pos_obs_var;
 			Vector2f ev_pos_innov_gates;
+			bool is_ev_pos_innov_available = true;
 
 			// Use an incremental position fusion method for EV position data if GPS is also used
 			if (_params.fusion_mode & MASK_USE_GPS) {
@@ -248,6 +249,7 @@ void Ekf::controlExternalVisionFusion()
 				if (!_hpos_prev_available) {
 					// no previous observation available to calculate position change
 					_hpos_prev_available = true;
+					is_ev_pos_innov_available = false;
 
 				} else {
 					// calculate the change in position since the last measurement
@@ -300,7 +302,9 @@ void Ekf::controlExternalVisionFusion()
 			// innovation gate size
 			ev_pos_innov_gates(0) = fmaxf(_params.ev_pos_innov_gate, 1.0f);
 
-			fuseHorizontalPosition(_ev_pos_innov, ev_pos_innov_gates, ev_pos_obs_var, _ev_pos_innov_var, _ev_pos_test_ratio);
+			if (is_ev_pos_innov_available) {
+				fuseHorizontalPosition(_ev_pos_innov, ev_pos_innov_gates, ev_pos_obs_var, _ev_pos_innov_var, _ev_pos_test_ratio);
+			}
 		}
 
 		// determine if we should use the velocity observations
-- 
2.43.0


From 75c67ff0e6ae2a145e7754a98ba1d56437d55879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:49 +0000
Subject: [PATCH 17/41] fix: GPS positions are absolute also when vision
 odometry is used

The odometry flag left by the vision fusion kept accepted GPS positions from
restarting the horizontal position timeout, which led to cyclic resets.
---
 EKF/control.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/EKF/control.cpp b/EKF/control.cpp
index 6e777df..bd9b8ec 100644
--- a/EKF/control.cpp
+++ b/EKF/control.cpp
@@ -723,6 +723,7 @@ void Ekf::controlGpsFusion()
 			// fuse GPS measurement
 			fuseHorizontalVelocity(_gps_vel_innov, gps_vel_innov_gates, _last_vel_obs_var, _gps_vel_innov_var, _gps_vel_test_ratio);
 			fuseVerticalVelocity(_gps_vel_innov, gps_vel_innov_gates, _last_vel_obs_var, _gps_vel_innov_var, _gps_vel_test_ratio);
+			_fuse_hpos_as_odom = false;
 			fuseHorizontalPosition(_gps_pos_innov, gps_pos_innov_gates, gps_pos_obs_var, _gps_pos_innov_var, _gps_pos_test_ratio);
 		}
 
-- 
2.43.0


From 1584543c5f4c34db1717c040c9c86ba1ce92797b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:49 +0000
Subject: [PATCH 18/41] fix: compare declinations across +-180 degrees

With a declination near +-180 degrees the innovation was off by a turn and
the limiter moved the field estimate when it was right.
---
 EKF/mag_fusion.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/EKF/mag_fusion.cpp b/EKF/mag_fusion.cpp
index ce152b4..b456935 100644
--- a/EKF/mag_fusion.cpp
+++ b/EKF/mag_fusion.cpp
@@ -882,7 +882,7 @@ void Ekf::fuseDeclination(float decl_sigma)
 		Kfusion(row) = -HK9*(HK5*P(16,row) - P(17,row));
 	}
 
-	const float innovation = math::constrain(atan2f(magE, magN) - getMagDeclination(), -0.5f, 0.5f);
+	const float innovation = math::constrain(wrap_pi(atan2f(magE, magN) - getMagDeclination()), -0.5f, 0.5f);
 
 	const bool is_fused = measurementUpdate(Kfusion, Hfusion, innovation);
 
@@ -935,7 +935,7 @@ void Ekf::limitDeclination()
 	constexpr float decl_tolerance = 0.5f;
 	const float decl_max = decl_reference + decl_tolerance;
 	const float decl_min = decl_reference - decl_tolerance;
-	const float decl_estimate = atan2f(_state.mag_I(1) , _state.mag_I(0));
+	const float decl_estimate = decl_reference + wrap_pi(atan2f(_state.mag_I(1) , _state.mag_I(0)) - decl_reference);
 	if (decl_estimate > decl_max)  {
 		_state.mag_I(0) = h_field * cosf(decl_max);
 		_state.mag_I(1) = h_field * sinf(decl_max);
-- 
2.43.0


From 9137394584c0b6309f1d81e56b734058bae90636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:49 +0000
Subject: [PATCH 19/41] fix: fall back to baro height when GPS fusion is
 stopped

The height source was cleared without a replacement.
---
 EKF/ekf_helper.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/EKF/ekf_helper.cpp b/EKF/ekf_helper.cpp
index f7d26c9..1271c19 100644
--- a/EKF/ekf_helper.cpp
+++ b/EKF/ekf_helper.cpp
@@ -1441,7 +1441,12 @@ void Ekf::stopGpsFusion()
 void Ekf::stopGpsPosFusion()
 {
 	_control_status.flags.gps = false;
-	_control_status.flags.gps_hgt = false;
+
+	if (_control_status.flags.gps_hgt) {
+		// there must always be a height source
+		startBaroHgtFusion();
+	}
+
 	_gps_pos_innov.setZero();
 	_gps_pos_innov_var.setZero();
 	_gps_pos_test_ratio.setZero();
-- 
2.43.0


From e75bf0155ee23c51b49ff1e20b3dd04908a84a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:03 +0000
Subject: [PATCH 20/41] fix: no division by zero with an observation buffer of
 one sample

Short sensor delays give an observation buffer of length one.
---
 EKF/estimator_interface.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/EKF/estimator_interface.cpp b/EKF/estimator_interface.cpp
index d94cd57..9834956 100644
--- a/EKF/estimator_interface.cpp
+++ b/EKF/estimator_interface.cpp
@@ -516,6 +516,9 @@ bool EstimatorInterface::initialise_interface(uint64_t timestamp)
 	// limit to be no longer than the IMU buffer (we can't process data faster than the EKF prediction rate)
 	_obs_buffer_length = math::min(_obs_buffer_length, _imu_buffer_length);
 
+	// the minimum observation interval is the time horizon divided by the length less one
+	_obs_buffer_length = math::max(_obs_buffer_length, (uint8_t)2);
+
 	if (!_imu_buffer.allocate(_imu_buffer_length) || !_output_buffer.allocate(_imu_buffer_length) || !_output_vert_buffer.allocate(_imu_buffer_length)) {
 		printBufferAllocationFailed("IMU and output");
 		return false;
-- 
2.43.0


From ad320e6af83192aa3b1666138194bfb6c44b9c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:03 +0000
Subject: [PATCH 21/41] fix: keep the variance of the auxiliary velocity, not
 of an older innovation

---
 EKF/control.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EKF/control.cpp b/EKF/control.cpp
index bd9b8ec..496e254 100644
--- a/EKF/control.cpp
+++ b/EKF/control.cpp
@@ -1351,7 +1351,7 @@ void Ekf::controlAuxVelFusion()
 
 		_last_vel_obs = _auxvel_sample_delayed.vel;
 		_aux_vel_innov = _state.vel - _last_vel_obs;
-		_last_vel_obs_var = _aux_vel_innov_var;
+		_last_vel_obs_var = _auxvel_sample_delayed.velVar;
 
 		fuseHorizontalVelocity(_aux_vel_innov, aux_vel_innov_gate, _auxvel_sample_delayed.velVar,
 				_aux_vel_innov_var, _aux_vel_test_ratio);
-- 
2.43.0


From 09079e4625907ace588b3ef3b86053cbda535480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:04 +0000
Subject: [PATCH 22/41] fix: do not fuse an inhibited magnetometer heading when
 the yaw variance is small

While a strong magnetic disturbance was declared the disturbed heading was
still fused with full weight as long as the sum of the quaternion variances
was below quat_max_variance, which that fusion itself maintained.
---
 EKF/mag_fusion.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/EKF/mag_fusion.cpp b/EKF/mag_fusion.cpp
index b456935..a1bf43e 100644
--- a/EKF/mag_fusion.cpp
+++ b/EKF/mag_fusion.cpp
@@ -752,12 +752,16 @@ void Ekf::fuseHeading()
 				// to use as an observation when movement ceases.
 				// TODO a better way of determining when this is necessary
 				const float sumQuatVar = P(0,0) + P(1,1) + P(2,2) + P(3,3);
+				_last_static_yaw = predicted_hdg;
+
 				if (sumQuatVar > _params.quat_max_variance) {
 					fuse_zero_innov = true;
 					R_YAW = 0.25f;
 
+				} else {
+					// not necessary, and there is no trusted measurement
+					return;
 				}
-				_last_static_yaw = predicted_hdg;
 
 			} else {
 				// Vehicle is at rest so use the last moving prediction as an observation
@@ -803,12 +807,16 @@ void Ekf::fuseHeading()
 				// to use as an observation when movement ceases.
 				// TODO a better way of determining when this is necessary
 				const float sumQuatVar = P(0,0) + P(1,1) + P(2,2) + P(3,3);
+				_last_static_yaw = predicted_hdg;
+
 				if (sumQuatVar > _params.quat_max_variance) {
 					fuse_zero_innov = true;
 					R_YAW = 0.25f;
 
+				} else {
+					// not necessary, and there is no trusted measurement
+					return;
 				}
-				_last_static_yaw = predicted_hdg;
 
 			} else {
 				// Vehicle is at rest so use the last moving prediction as an observation
-- 
2.43.0


From 4f28b9b6d9a23c5cb39830649e0db8bc76f6c473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:36 +0000
Subject: [PATCH 23/41] fix: a magnetometer inhibition does not block vision
 yaw fusion

---
 EKF/ekf_helper.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/EKF/ekf_helper.cpp b/EKF/ekf_helper.cpp
index 1271c19..019a0a7 100644
--- a/EKF/ekf_helper.cpp
+++ b/EKF/ekf_helper.cpp
@@ -1507,6 +1507,9 @@ void Ekf::startEvYawFusion()
 	stopMagHdgFusion();
 	stopMag3DFusion();
 
+	// a magnetometer related inhibition does not apply to the vision yaw
+	_is_yaw_fusion_inhibited = false;
+
 	_information_events.flags.starting_vision_yaw_fusion = true;
 	ECL_INFO("starting vision yaw fusion");
 }
-- 
2.43.0


From b6de12a4652ab19d252eafe8909e7e054f5d2dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:42 +0000
Subject: [PATCH 24/41] fix: report bias variances in squared rate units

---
 EKF/ekf.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/EKF/ekf.h b/EKF/ekf.h
index cdb6ee7..199f5cd 100644
--- a/EKF/ekf.h
+++ b/EKF/ekf.h
@@ -224,8 +224,8 @@ public:
 	Vector3f getAccelBias() const { return _state.delta_vel_bias / _dt_ekf_avg; } // get the accelerometer bias in m/s**2
 	const Vector3f &getMagBias() const { return _state.mag_B; }
 
-	Vector3f getGyroBiasVariance() const { return Vector3f{P(10, 10), P(11, 11), P(12, 12)} / _dt_ekf_avg; } // get the gyroscope bias variance in rad/s
-	Vector3f getAccelBiasVariance() const { return Vector3f{P(13, 13), P(14, 14), P(15, 15)} / _dt_ekf_avg; } // get the accelerometer bias variance in m/s**2
+	Vector3f getGyroBiasVariance() const { return Vector3f{P(10, 10), P(11, 11), P(12, 12)} / sq(_dt_ekf_avg); } // get the gyroscope bias variance in rad/s
+	Vector3f getAccelBiasVariance() const { return Vector3f{P(13, 13), P(14, 14), P(15, 15)} / sq(_dt_ekf_avg); } // get the accelerometer bias variance in m/s**2
 	Vector3f getMagBiasVariance() const { return Vector3f{P(19, 19), P(20, 20), P(21, 21)}; }
 
 	// get GPS check status
-- 
2.43.0


From 6516b60d31d43ecca9f9b4f16efdc127f935c4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:17 +0000
Subject: [PATCH 25/41] fix: any horizontal position reset invalidates the
 vision odometry reference

Only resetHorizontalPosition() cleared the flag, so starting GPS fusion while vision position is fused as
odometry, or starting vision fusion again, measured the next increment across the jump of the reset.
---
 EKF/ekf_helper.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/EKF/ekf_helper.cpp b/EKF/ekf_helper.cpp
index 019a0a7..4b909ac 100644
--- a/EKF/ekf_helper.cpp
+++ b/EKF/ekf_helper.cpp
@@ -159,9 +159,6 @@ void Ekf::resetVerticalVelocityTo(float new_vert_vel)
 
 void Ekf::resetHorizontalPosition()
 {
-	// let the next odometry update know that the previous value of states cannot be used to calculate the change in position
-	_hpos_prev_available = false;
-
 	if (_control_status.flags.gps) {
 		// this reset is only called if we have new gps data at the fusion time horizon
 		resetHorizontalPositionToGps();
@@ -218,6 +215,9 @@ void Ekf::resetHorizontalPositionToVision()
 
 void Ekf::resetHorizontalPositionTo(const Vector2f &new_horz_pos)
 {
+	// let the next odometry update know that the previous value of states cannot be used to calculate the change in position
+	_hpos_prev_available = false;
+
 	const Vector2f delta_horz_pos{new_horz_pos - Vector2f{_state.pos}};
 	_state.pos.xy() = new_horz_pos;
 
-- 
2.43.0


From 2cf21410352212426bf24c63bd84f399a9d52a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:49 +0000
Subject: [PATCH 26/41] fix: publish the total change when a state is reset
 more than once in an update

---
 EKF/ekf.cpp        |  6 +++++
 EKF/ekf.h          |  7 ++++++
 EKF/ekf_helper.cpp | 60 +++++++++++++++++++++++++++++++++++-----------
 3 files changed, 59 insertions(+), 14 deletions(-)

diff --git a/EKF/ekf.cpp b/EKF/ekf.cpp
index 6ca20cb..3fd6ac0 100644
--- a/EKF/ekf.cpp
+++ b/EKF/ekf.cpp
@@ -112,6 +112,12 @@ bool Ekf::update()
 
 	// Only run the filter if IMU data in the buffer has been updated
 	if (_imu_updated) {
+		_velNE_counter_prev = _state_reset_status.velNE_counter;
+		_velD_counter_prev = _state_reset_status.velD_counter;
+		_posNE_counter_prev = _state_reset_status.posNE_counter;
+		_posD_counter_prev = _state_reset_status.posD_counter;
+		_quat_counter_prev = _state_reset_status.quat_counter;
+
 		// perform state and covariance prediction for the main filter
 		predictState();
 		predictCovariance();
diff --git a/EKF/ekf.h b/EKF/ekf.h
index 199f5cd..a2a0868 100644
--- a/EKF/ekf.h
+++ b/EKF/ekf.h
@@ -324,6 +324,13 @@ private:
 		Quatf quat_change;	///< quaternion delta due to last reset - multiply pre-reset quaternion by this to get post-reset quaternion
 	} _state_reset_status{};	///< reset event monitoring structure containing velocity, position, height and yaw reset information
 
+	// reset counters at the start of the current filter update
+	uint8_t _velNE_counter_prev{0};
+	uint8_t _velD_counter_prev{0};
+	uint8_t _posNE_counter_prev{0};
+	uint8_t _posD_counter_prev{0};
+	uint8_t _quat_counter_prev{0};
+
 	float _dt_ekf_avg{FILTER_UPDATE_PERIOD_S}; ///< average update rate of the ekf
 
 	Vector3f _ang_rate_delayed_raw;	///< uncorrected angular rate vector at fusion time horizon (rad/sec)
diff --git a/EKF/ekf_helper.cpp b/EKF/ekf_helper.cpp
index 4b909ac..071db42 100644
--- a/EKF/ekf_helper.cpp
+++ b/EKF/ekf_helper.cpp
@@ -136,7 +136,14 @@ void Ekf::resetHorizontalVelocityTo(const Vector2f &new_horz_vel)
 
 	_output_new.vel.xy() += delta_horz_vel;
 
-	_state_reset_status.velNE_change = delta_horz_vel;
+	// record the state change, accumulate the total if there was already a reset in this update
+	if (_state_reset_status.velNE_counter == _velNE_counter_prev) {
+		_state_reset_status.velNE_change = delta_horz_vel;
+
+	} else {
+		_state_reset_status.velNE_change += delta_horz_vel;
+	}
+
 	_state_reset_status.velNE_counter++;
 }
 
@@ -153,7 +160,14 @@ void Ekf::resetVerticalVelocityTo(float new_vert_vel)
 	_output_new.vel(2) += delta_vert_vel;
 	_output_vert_new.vert_vel += delta_vert_vel;
 
-	_state_reset_status.velD_change = delta_vert_vel;
+	// record the state change, accumulate the total if there was already a reset in this update
+	if (_state_reset_status.velD_counter == _velD_counter_prev) {
+		_state_reset_status.velD_change = delta_vert_vel;
+
+	} else {
+		_state_reset_status.velD_change += delta_vert_vel;
+	}
+
 	_state_reset_status.velD_counter++;
 }
 
@@ -227,31 +241,44 @@ void Ekf::resetHorizontalPositionTo(const Vector2f &new_horz_pos)
 
 	_output_new.pos.xy() += delta_horz_pos;
 
-	_state_reset_status.posNE_change = delta_horz_pos;
+	// record the state change, accumulate the total if there was already a reset in this update
+	if (_state_reset_status.posNE_counter == _posNE_counter_prev) {
+		_state_reset_status.posNE_change = delta_horz_pos;
+
+	} else {
+		_state_reset_status.posNE_change += delta_horz_pos;
+	}
+
 	_state_reset_status.posNE_counter++;
 }
 
 void Ekf::resetVerticalPositionTo(const float &new_vert_pos)
 {
-	const float old_vert_pos = _state.pos(2);
+	const float delta_vert_pos = new_vert_pos - _state.pos(2);
 	_state.pos(2) = new_vert_pos;
 
-	// store the reset amount and time to be published
-	_state_reset_status.posD_change = new_vert_pos - old_vert_pos;
+	// record the state change, accumulate the total if there was already a reset in this update
+	if (_state_reset_status.posD_counter == _posD_counter_prev) {
+		_state_reset_status.posD_change = delta_vert_pos;
+
+	} else {
+		_state_reset_status.posD_change += delta_vert_pos;
+	}
+
 	_state_reset_status.posD_counter++;
 
 	// apply the change in height / height rate to our newest height / height rate estimate
 	// which have already been taken out from the output buffer
-	_output_new.pos(2) += _state_reset_status.posD_change;
+	_output_new.pos(2) += delta_vert_pos;
 
 	// add the reset amount to the output observer buffered data
 	for (uint8_t i = 0; i < _output_buffer.get_length(); i++) {
-		_output_buffer[i].pos(2) += _state_reset_status.posD_change;
-		_output_vert_buffer[i].vert_vel_integ += _state_reset_status.posD_change;
+		_output_buffer[i].pos(2) += delta_vert_pos;
+		_output_vert_buffer[i].vert_vel_integ += delta_vert_pos;
 	}
 
 	// add the reset amount to the output observer vertical position state
-	_output_vert_new.vert_vel_integ += _state_reset_status.posD_change;
+	_output_vert_new.vert_vel_integ += delta_vert_pos;
 }
 
 // Reset height state using the last height measurement
@@ -1576,8 +1603,13 @@ void Ekf::resetQuatStateYaw(float yaw, float yaw_variance, bool update_buffer)
 	_state.quat_nominal = quat_after_reset;
 	uncorrelateQuatFromOtherStates();
 
-	// record the state change
-	_state_reset_status.quat_change = q_error;
+	// record the state change, accumulate the total if there was already a reset in this update
+	if (_state_reset_status.quat_counter == _quat_counter_prev) {
+		_state_reset_status.quat_change = q_error;
+
+	} else {
+		_state_reset_status.quat_change = (q_error * _state_reset_status.quat_change).normalized();
+	}
 
 	// update the yaw angle variance
 	if (yaw_variance > FLT_EPSILON) {
@@ -1587,12 +1619,12 @@ void Ekf::resetQuatStateYaw(float yaw, float yaw_variance, bool update_buffer)
 	// add the reset amount to the output observer buffered data
 	if (update_buffer) {
 		for (uint8_t i = 0; i < _output_buffer.get_length(); i++) {
-			_output_buffer[i].quat_nominal = _state_reset_status.quat_change * _output_buffer[i].quat_nominal;
+			_output_buffer[i].quat_nominal = q_error * _output_buffer[i].quat_nominal;
 		}
 
 		// apply the change in attitude quaternion to our newest quaternion estimate
 		// which was already taken out from the output buffer
-		_output_new.quat_nominal = _state_reset_status.quat_change * _output_new.quat_nominal;
+		_output_new.quat_nominal = q_error * _output_new.quat_nominal;
 
 	}
 
-- 
2.43.0


From 1c5c0c2b9ba29042f531ff13edebb67f64821143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:49 +0000
Subject: [PATCH 27/41] fix: do not reset the position to an outdated vision
 sample

---
 EKF/control.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/EKF/control.cpp b/EKF/control.cpp
index 496e254..e0575b4 100644
--- a/EKF/control.cpp
+++ b/EKF/control.cpp
@@ -556,7 +556,8 @@ void Ekf::controlGpsFusion()
 		if (_control_status.flags.gps && gps_checks_failing && isOtherSourceOfHorizontalAidingThan(_control_status.flags.gps)) {
 			stopGpsFusion();
 			// Reset position state to external vision if we are going to use absolute values
-			if (_control_status.flags.ev_pos && !(_params.fusion_mode & MASK_ROTATE_EV)) {
+			if (_control_status.flags.ev_pos && !(_params.fusion_mode & MASK_ROTATE_EV)
+			    && isRecent(_time_last_ext_vision, 2 * EV_MAX_INTERVAL)) {
 				resetHorizontalPosition();
 			}
 			_warning_events.flags.gps_quality_poor = true;
-- 
2.43.0


From 4958b044249d1630a1a37db2e0786ea4957b62f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:55 +0000
Subject: [PATCH 28/41] fix: declination fusion is not reported after the
 magnetometer was stopped

---
 EKF/ekf_helper.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/EKF/ekf_helper.cpp b/EKF/ekf_helper.cpp
index 071db42..67b576c 100644
--- a/EKF/ekf_helper.cpp
+++ b/EKF/ekf_helper.cpp
@@ -1247,6 +1247,7 @@ void Ekf::stopMag3DFusion()
 	if (_control_status.flags.mag_3D) {
 		saveMagCovData();
 		_control_status.flags.mag_3D = false;
+		_control_status.flags.mag_dec = false;
 	}
 }
 
-- 
2.43.0


From 34a1d33fc1563060f1302d18e6ad80d0f63af7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:46 +0000
Subject: [PATCH 29/41] fix: keep terrain and height references in place when
 the origin is moved

---
 EKF/ekf_helper.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/EKF/ekf_helper.cpp b/EKF/ekf_helper.cpp
index 67b576c..928c739 100644
--- a/EKF/ekf_helper.cpp
+++ b/EKF/ekf_helper.cpp
@@ -743,8 +743,17 @@ bool Ekf::setEkfGlobalOrigin(const double latitude, const double longitude, cons
 			resetHorizontalPositionTo(position);
 
 			// reset altitude
+			const float height_shift = altitude - _gps_alt_ref;
 			_gps_alt_ref = altitude;
 			resetVerticalPositionTo(_gps_alt_ref - current_alt);
+
+			// the terrain and the height references do not move with the origin
+			_terrain_vpos += height_shift;
+			_baro_hgt_offset += height_shift;
+
+			if (_control_status.flags.rng_hgt) {
+				_hgt_sensor_offset += height_shift;
+			}
 		} else {
 			// reset altitude
 			_gps_alt_ref = altitude;
-- 
2.43.0


From 2a2d12465bc09c785adcdc1dc74cdb8570db7f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:31 +0000
Subject: [PATCH 30/41] fix: announce resets between two updates together with
 those of the next one

---
 EKF/ekf.cpp        | 12 ++++++------
 EKF/ekf.h          |  2 +-
 EKF/ekf_helper.cpp | 10 +++++-----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/EKF/ekf.cpp b/EKF/ekf.cpp
index 3fd6ac0..b692660 100644
--- a/EKF/ekf.cpp
+++ b/EKF/ekf.cpp
@@ -112,12 +112,6 @@ bool Ekf::update()
 
 	// Only run the filter if IMU data in the buffer has been updated
 	if (_imu_updated) {
-		_velNE_counter_prev = _state_reset_status.velNE_counter;
-		_velD_counter_prev = _state_reset_status.velD_counter;
-		_posNE_counter_prev = _state_reset_status.posNE_counter;
-		_posD_counter_prev = _state_reset_status.posD_counter;
-		_quat_counter_prev = _state_reset_status.quat_counter;
-
 		// perform state and covariance prediction for the main filter
 		predictState();
 		predictCovariance();
@@ -132,6 +126,12 @@ bool Ekf::update()
 
 		// run EKF-GSF yaw estimator
 		runYawEKFGSF();
+
+		_velNE_counter_prev = _state_reset_status.velNE_counter;
+		_velD_counter_prev = _state_reset_status.velD_counter;
+		_posNE_counter_prev = _state_reset_status.posNE_counter;
+		_posD_counter_prev = _state_reset_status.posD_counter;
+		_quat_counter_prev = _state_reset_status.quat_counter;
 	}
 
 	// the output observer always runs
diff --git a/EKF/ekf.h b/EKF/ekf.h
index a2a0868..b8536b3 100644
--- a/EKF/ekf.h
+++ b/EKF/ekf.h
@@ -324,7 +324,7 @@ private:
 		Quatf quat_change;	///< quaternion delta due to last reset - multiply pre-reset quaternion by this to get post-reset quaternion
 	} _state_reset_status{};	///< reset event monitoring structure containing velocity, position, height and yaw reset information
 
-	// reset counters at the start of the current filter update
+	// reset counters at the end of the last filter update
 	uint8_t _velNE_counter_prev{0};
 	uint8_t _velD_counter_prev{0};
 	uint8_t _posNE_counter_prev{0};
diff --git a/EKF/ekf_helper.cpp b/EKF/ekf_helper.cpp
index 928c739..3dd668c 100644
--- a/EKF/ekf_helper.cpp
+++ b/EKF/ekf_helper.cpp
@@ -136,7 +136,7 @@ void Ekf::resetHorizontalVelocityTo(const Vector2f &new_horz_vel)
 
 	_output_new.vel.xy() += delta_horz_vel;
 
-	// record the state change, accumulate the total if there was already a reset in this update
+	// record the state change, accumulate the total if there was already a reset since the last update
 	if (_state_reset_status.velNE_counter == _velNE_counter_prev) {
 		_state_reset_status.velNE_change = delta_horz_vel;
 
@@ -160,7 +160,7 @@ void Ekf::resetVerticalVelocityTo(float new_vert_vel)
 	_output_new.vel(2) += delta_vert_vel;
 	_output_vert_new.vert_vel += delta_vert_vel;
 
-	// record the state change, accumulate the total if there was already a reset in this update
+	// record the state change, accumulate the total if there was already a reset since the last update
 	if (_state_reset_status.velD_counter == _velD_counter_prev) {
 		_state_reset_status.velD_change = delta_vert_vel;
 
@@ -241,7 +241,7 @@ void Ekf::resetHorizontalPositionTo(const Vector2f &new_horz_pos)
 
 	_output_new.pos.xy() += delta_horz_pos;
 
-	// record the state change, accumulate the total if there was already a reset in this update
+	// record the state change, accumulate the total if there was already a reset since the last update
 	if (_state_reset_status.posNE_counter == _posNE_counter_prev) {
 		_state_reset_status.posNE_change = delta_horz_pos;
 
@@ -257,7 +257,7 @@ void Ekf::resetVerticalPositionTo(const float &new_vert_pos)
 	const float delta_vert_pos = new_vert_pos - _state.pos(2);
 	_state.pos(2) = new_vert_pos;
 
-	// record the state change, accumulate the total if there was already a reset in this update
+	// record the state change, accumulate the total if there was already a reset since the last update
 	if (_state_reset_status.posD_counter == _posD_counter_prev) {
 		_state_reset_status.posD_change = delta_vert_pos;
 
@@ -1613,7 +1613,7 @@ void Ekf::resetQuatStateYaw(float yaw, float yaw_variance, bool update_buffer)
 	_state.quat_nominal = quat_after_reset;
 	uncorrelateQuatFromOtherStates();
 
-	// record the state change, accumulate the total if there was already a reset in this update
+	// record the state change, accumulate the total if there was already a reset since the last update
 	if (_state_reset_status.quat_counter == _quat_counter_prev) {
 		_state_reset_status.quat_change = q_error;
 
-- 
2.43.0


From cff703dc0ede9b3cd1fec6fc9a22e12274aee96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:52 +0000
Subject: [PATCH 31/41] fix: keep the full resolution of measurement time
 stamps

Subtracting a float delay converted the 64 bit time stamp of every sample to single precision, which rounds it to
milliseconds after hours and to tens of milliseconds after days of up-time.
---
 EKF/estimator_interface.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/EKF/estimator_interface.cpp b/EKF/estimator_interface.cpp
index 9834956..1d8f107 100644
--- a/EKF/estimator_interface.cpp
+++ b/EKF/estimator_interface.cpp
@@ -153,7 +153,7 @@ void EstimatorInterface::setMagData(const magSample &mag_sample)
 
 		// Use the time in the middle of the downsampling interval for the sample
 		mag_sample_new.time_us = 1000 * (_mag_timestamp_sum / _mag_sample_count);
-		mag_sample_new.time_us -= _params.mag_delay_ms * 1000;
+		mag_sample_new.time_us -= static_cast<int64_t>(_params.mag_delay_ms * 1000);
 		mag_sample_new.time_us -= FILTER_UPDATE_PERIOD_MS * 1000 / 2;
 
 		mag_sample_new.mag = _mag_data_sum / _mag_sample_count;
@@ -192,7 +192,7 @@ void EstimatorInterface::setGpsData(const gps_message &gps)
 
 		gpsSample gps_sample_new;
 
-		gps_sample_new.time_us = gps.time_usec - _params.gps_delay_ms * 1000;
+		gps_sample_new.time_us = gps.time_usec - static_cast<int64_t>(_params.gps_delay_ms * 1000);
 		gps_sample_new.time_us -= FILTER_UPDATE_PERIOD_MS * 1000 / 2;
 
 		gps_sample_new.vel = gps.vel_ned;
@@ -264,7 +264,7 @@ void EstimatorInterface::setBaroData(const baroSample &baro_sample)
 
 		// Use the time in the middle of the downsampling interval for the sample
 		baro_sample_new.time_us = 1000 * (_baro_timestamp_sum / _baro_sample_count);
-		baro_sample_new.time_us -= _params.baro_delay_ms * 1000;
+		baro_sample_new.time_us -= static_cast<int64_t>(_params.baro_delay_ms * 1000);
 		baro_sample_new.time_us -= FILTER_UPDATE_PERIOD_MS * 1000 / 2;
 
 		_baro_buffer.push(baro_sample_new);
@@ -298,7 +298,7 @@ void EstimatorInterface::setAirspeedData(const airspeedSample &airspeed_sample)
 
 		airspeedSample airspeed_sample_new = airspeed_sample;
 
-		airspeed_sample_new.time_us -= _params.airspeed_delay_ms * 1000;
+		airspeed_sample_new.time_us -= static_cast<int64_t>(_params.airspeed_delay_ms * 1000);
 		airspeed_sample_new.time_us -= FILTER_UPDATE_PERIOD_MS * 1000 / 2;
 
 		_airspeed_buffer.push(airspeed_sample_new);
@@ -327,7 +327,7 @@ void EstimatorInterface::setRangeData(const rangeSample &range_sample)
 		_time_last_range = range_sample.time_us;
 
 		rangeSample range_sample_new = range_sample;
-		range_sample_new.time_us -= _params.range_delay_ms * 1000;
+		range_sample_new.time_us -= static_cast<int64_t>(_params.range_delay_ms * 1000);
 		range_sample_new.time_us -= FILTER_UPDATE_PERIOD_MS * 1000 / 2;
 
 		_range_buffer.push(range_sample_new);
@@ -357,7 +357,7 @@ void EstimatorInterface::setOpticalFlowData(const flowSample &flow)
 
 		flowSample optflow_sample_new = flow;
 
-		optflow_sample_new.time_us -= _params.flow_delay_ms * 1000;
+		optflow_sample_new.time_us -= static_cast<int64_t>(_params.flow_delay_ms * 1000);
 		optflow_sample_new.time_us -= FILTER_UPDATE_PERIOD_MS * 1000 / 2;
 
 		_flow_buffer.push(optflow_sample_new);
@@ -388,7 +388,7 @@ void EstimatorInterface::setExtVisionData(const extVisionSample &evdata)
 
 		extVisionSample ev_sample_new = evdata;
 		// calculate the system time-stamp for the mid point of the integration period
-		ev_sample_new.time_us -= _params.ev_delay_ms * 1000;
+		ev_sample_new.time_us -= static_cast<int64_t>(_params.ev_delay_ms * 1000);
 		ev_sample_new.time_us -= FILTER_UPDATE_PERIOD_MS * 1000 / 2;
 
 		_ext_vision_buffer.push(ev_sample_new);
@@ -418,7 +418,7 @@ void EstimatorInterface::setAuxVelData(const auxVelSample &auxvel_sample)
 
 		auxVelSample auxvel_sample_new = auxvel_sample;
 
-		auxvel_sample_new.time_us -= _params.auxvel_delay_ms * 1000;
+		auxvel_sample_new.time_us -= static_cast<int64_t>(_params.auxvel_delay_ms * 1000);
 		auxvel_sample_new.time_us -= FILTER_UPDATE_PERIOD_MS * 1000 / 2;
 
 		_auxvel_buffer.push(auxvel_sample_new);
-- 
2.43.0


From 8bbad3f1923af7489b4078834841417f1190be23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:53 +0000
Subject: [PATCH 32/41] fix: size the buffers for GPS and vision delays when
 they are used for height only

With GPS or external vision selected as the height source but not for horizontal aiding their measurement delay was ignored,
so that the delayed time horizon was too short and their samples were used too late.
---
 EKF/estimator_interface.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/EKF/estimator_interface.cpp b/EKF/estimator_interface.cpp
index 1d8f107..28377a0 100644
--- a/EKF/estimator_interface.cpp
+++ b/EKF/estimator_interface.cpp
@@ -492,7 +492,8 @@ bool EstimatorInterface::initialise_interface(uint64_t timestamp)
 		max_time_delay_ms = math::max(_params.range_delay_ms, max_time_delay_ms);
 	}
 
-	if (_params.fusion_mode & MASK_USE_GPS) {
+	// GPS aiding or GPS height
+	if ((_params.fusion_mode & MASK_USE_GPS) || (_params.vdist_sensor_type == VDIST_SENSOR_GPS)) {
 		max_time_delay_ms = math::max(_params.gps_delay_ms, max_time_delay_ms);
 	}
 
@@ -500,7 +501,8 @@ bool EstimatorInterface::initialise_interface(uint64_t timestamp)
 		max_time_delay_ms = math::max(_params.flow_delay_ms, max_time_delay_ms);
 	}
 
-	if (_params.fusion_mode & (MASK_USE_EVPOS | MASK_USE_EVYAW | MASK_USE_EVVEL)) {
+	// external vision aiding or external vision height
+	if ((_params.fusion_mode & (MASK_USE_EVPOS | MASK_USE_EVYAW | MASK_USE_EVVEL)) || (_params.vdist_sensor_type == VDIST_SENSOR_EV)) {
 		max_time_delay_ms = math::max(_params.ev_delay_ms, max_time_delay_ms);
 	}
 
-- 
2.43.0


From df31e8cdec1847b40d73fbe20da5910edfc3e57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:55 +0000
Subject: [PATCH 33/41] fix: move the buffered GPS positions with the origin

Samples that were waiting in the buffer when the origin was moved kept the
position relative to the old origin: a reset to GPS in the next 0.1 s put the
vehicle off by the move, a fusion was rejected or pulled the estimate away.
---
 EKF/ekf_helper.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/EKF/ekf_helper.cpp b/EKF/ekf_helper.cpp
index 3dd668c..790343c 100644
--- a/EKF/ekf_helper.cpp
+++ b/EKF/ekf_helper.cpp
@@ -734,6 +734,8 @@ bool Ekf::setEkfGlobalOrigin(const double latitude, const double longitude, cons
 		current_pos_available = true;
 	}
 
+	const map_projection_reference_s pos_ref_prev = _pos_ref;
+
 	// reinitialize map projection to latitude, longitude, altitude, and reset position
 	if (map_projection_init_timestamped(&_pos_ref, latitude, longitude, _time_last_imu) == 0) {
 		if (current_pos_available) {
@@ -759,6 +761,17 @@ bool Ekf::setEkfGlobalOrigin(const double latitude, const double longitude, cons
 			_gps_alt_ref = altitude;
 		}
 
+		if (map_projection_initialized(&pos_ref_prev)) {
+			// the GPS positions that still wait to be used were projected with the previous origin
+			for (uint8_t i = 0; i < _gps_buffer.get_length(); i++) {
+				double sample_lat;
+				double sample_lon;
+				Vector2f &sample_pos = _gps_buffer[i].pos;
+				map_projection_reproject(&pos_ref_prev, sample_pos(0), sample_pos(1), &sample_lat, &sample_lon);
+				map_projection_project(&_pos_ref, sample_lat, sample_lon, &sample_pos(0), &sample_pos(1));
+			}
+		}
+
 		return true;
 	}
 
-- 
2.43.0


From 1cc64cd8a82e9baeba09510d8c6368400c5ee586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:09 +0000
Subject: [PATCH 34/41] fix: velocity and position fusion leaves the inhibited
 accelerometer biases alone

---
 EKF/vel_pos_fusion.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/EKF/vel_pos_fusion.cpp b/EKF/vel_pos_fusion.cpp
index f3b2bfb..697d56f 100644
--- a/EKF/vel_pos_fusion.cpp
+++ b/EKF/vel_pos_fusion.cpp
@@ -190,6 +190,13 @@ void Ekf::fuseVelPosHeight(const float innov, const float innov_var, const int o
 		Kfusion(row) = P(row, state_index) / innov_var;
 	}
 
+	// do not learn the accelerometer bias of an axis it is inhibited for
+	for (unsigned i = 0; i < 3; i++) {
+		if (_accel_bias_inhibit[i]) {
+			Kfusion(13 + i) = 0.0f;
+		}
+	}
+
 	SquareMatrix24f KHP;
 
 	for (unsigned row = 0; row < _k_num_states; row++) {
-- 
2.43.0


From c9c06bae527017d0548c0e8b72d56aab36a234d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:24 +0000
Subject: [PATCH 35/41] fix: judge the freshness of height sensors by their
 arrival, not by cleared buffer slots

---
 EKF/control.cpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/EKF/control.cpp b/EKF/control.cpp
index e0575b4..0d6ebe6 100644
--- a/EKF/control.cpp
+++ b/EKF/control.cpp
@@ -84,12 +84,10 @@ void Ekf::controlFusionModes()
 		}
 	}
 
-	// check for intermittent data (before pop_first_older_than)
-	const baroSample &baro_init = _baro_buffer.get_newest();
-	_baro_hgt_faulty = !isRecent(baro_init.time_us, 2 * BARO_MAX_INTERVAL);
-
-	const gpsSample &gps_init = _gps_buffer.get_newest();
-	_gps_hgt_intermittent = !isRecent(gps_init.time_us, 2 * GPS_MAX_INTERVAL);
+	// check for intermittent data using the time of the newest sample that went into the buffer, the time stamp of
+	// the buffer slot itself is cleared as soon as the sample has been used
+	_baro_hgt_faulty = !isRecent(_time_last_baro, 2 * BARO_MAX_INTERVAL);
+	_gps_hgt_intermittent = !isRecent(_time_last_gps, 2 * GPS_MAX_INTERVAL);
 
 	// check for arrival of new sensor data at the fusion time horizon
 	_time_prev_gps_us = _gps_sample_delayed.time_us;
@@ -874,8 +872,7 @@ void Ekf::controlHeightSensorTimeouts()
 
 		} else if (_control_status.flags.ev_hgt) {
 			// check if vision data is available
-			const extVisionSample &ev_init = _ext_vision_buffer.get_newest();
-			const bool ev_data_available = isRecent(ev_init.time_us, 2 * EV_MAX_INTERVAL);
+			const bool ev_data_available = isRecent(_time_last_ext_vision, 2 * EV_MAX_INTERVAL);
 
 			if (ev_data_available) {
 				request_height_reset = true;
-- 
2.43.0


From 5d95938bf2ad1491dbc8b5f3ffc9a38463fa86ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:31 +0000
Subject: [PATCH 36/41] fix: reference the GPS height to a received sample when
 none has been used yet

startGpsHgtFusion() took the height offset from the delayed sample, which
is still all zero until the first sample has reached the fusion time
horizon: the height then moved by the full altitude.
---
 EKF/ekf_helper.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/EKF/ekf_helper.cpp b/EKF/ekf_helper.cpp
index 790343c..9224313 100644
--- a/EKF/ekf_helper.cpp
+++ b/EKF/ekf_helper.cpp
@@ -1318,7 +1318,9 @@ void Ekf::startGpsHgtFusion()
 	// we have just switched to using gps height, calculate height sensor offset such that current
 	// measurement matches our current height estimate
 	if (_control_status_prev.flags.gps_hgt != _control_status.flags.gps_hgt) {
-		_hgt_sensor_offset = _gps_sample_delayed.hgt - _gps_alt_ref + _state.pos(2);
+		// if no measurement has reached the fusion time horizon yet, use the newest one
+		const float gps_hgt = (_gps_sample_delayed.time_us != 0) ? _gps_sample_delayed.hgt : _gps_buffer.get_newest().hgt;
+		_hgt_sensor_offset = gps_hgt - _gps_alt_ref + _state.pos(2);
 	}
 }
 
-- 
2.43.0


From f64a8c3f1e0417f8f5e0aa99e085f93510869056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:31 +0000
Subject: [PATCH 37/41] fix: keep the GPS height consistent with the origin
 altitude when the GPS sets it

If the GPS height is already in use when the origin is set, or is started
by that before a sample has reached the fusion time horizon, the stored
offset belongs to another altitude reference and the height later moves
by the full altitude.
---
 EKF/gps_checks.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/EKF/gps_checks.cpp b/EKF/gps_checks.cpp
index c2fdca1..498bbbc 100644
--- a/EKF/gps_checks.cpp
+++ b/EKF/gps_checks.cpp
@@ -112,6 +112,11 @@ bool Ekf::collect_gps(const gps_message &gps)
 			startGpsHgtFusion();
 		}
 
+		if (_control_status.flags.gps_hgt) {
+			// the origin altitude was just taken from this sample and the height estimate, so no offset remains
+			_hgt_sensor_offset = 0.0f;
+		}
+
 		_information_events.flags.gps_checks_passed = true;
 		ECL_INFO("GPS checks passed");
 
-- 
2.43.0


From 515c0834a86729d7b0c64c41e6a44166db640330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:22 +0000
Subject: [PATCH 38/41] fix: do not reset to an old GPS position or velocity
 when vision aiding starts after GPS data has stopped

---
 EKF/ekf_helper.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/EKF/ekf_helper.cpp b/EKF/ekf_helper.cpp
index 9224313..7419b2f 100644
--- a/EKF/ekf_helper.cpp
+++ b/EKF/ekf_helper.cpp
@@ -1528,7 +1528,12 @@ void Ekf::stopGpsYawFusion()
 void Ekf::startEvPosFusion()
 {
 	_control_status.flags.ev_pos = true;
-	resetHorizontalPosition();
+
+	// do not go back to an old GPS position when GPS is still in use but its data has stopped
+	if (!_control_status.flags.gps || _imu_sample_delayed.time_us < _gps_sample_delayed.time_us + 2 * GPS_MAX_INTERVAL) {
+		resetHorizontalPosition();
+	}
+
 	_information_events.flags.starting_vision_pos_fusion = true;
 	ECL_INFO("starting vision pos fusion");
 }
@@ -1536,7 +1541,12 @@ void Ekf::startEvPosFusion()
 void Ekf::startEvVelFusion()
 {
 	_control_status.flags.ev_vel = true;
-	resetVelocity();
+
+	// do not go back to an old GPS velocity when GPS is still in use but its data has stopped
+	if (!_control_status.flags.gps || _imu_sample_delayed.time_us < _gps_sample_delayed.time_us + 2 * GPS_MAX_INTERVAL) {
+		resetVelocity();
+	}
+
 	_information_events.flags.starting_vision_vel_fusion = true;
 	ECL_INFO("starting vision vel fusion");
 }
-- 
2.43.0


From 3eece85e1c712d7612d8f34da8924d6e0cb91465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:26 +0000
Subject: [PATCH 39/41] fix: do not replace a heading from GPS by the yaw
 estimator's alignment

---
 EKF/ekf_helper.cpp | 3 +++
 EKF/gps_checks.cpp | 8 +++++---
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/EKF/ekf_helper.cpp b/EKF/ekf_helper.cpp
index 7419b2f..cb342db 100644
--- a/EKF/ekf_helper.cpp
+++ b/EKF/ekf_helper.cpp
@@ -1518,6 +1518,9 @@ void Ekf::startGpsYawFusion()
 	stopMagHdgFusion();
 	stopMag3DFusion();
 	_control_status.flags.gps_yaw = true;
+
+	// the yaw has just been aligned, an alignment using the EKF-GSF yaw estimator is not needed any more
+	_do_ekfgsf_yaw_reset = false;
 }
 
 void Ekf::stopGpsYawFusion()
diff --git a/EKF/gps_checks.cpp b/EKF/gps_checks.cpp
index 498bbbc..21541ed 100644
--- a/EKF/gps_checks.cpp
+++ b/EKF/gps_checks.cpp
@@ -93,9 +93,11 @@ bool Ekf::collect_gps(const gps_message &gps)
 
 		// request a reset of the yaw using the new declination
 		if (_params.mag_fusion_type == MAG_FUSE_TYPE_NONE) {
-			// try to reset the yaw using the EKF-GSF yaw estimator
-			_do_ekfgsf_yaw_reset = true;
-			_ekfgsf_yaw_reset_time = 0;
+			// try to reset the yaw using the EKF-GSF yaw estimator, not needed when GPS provides the yaw
+			if (!_control_status.flags.gps_yaw) {
+				_do_ekfgsf_yaw_reset = true;
+				_ekfgsf_yaw_reset_time = 0;
+			}
 
 		} else {
 			if (!declination_was_valid) {
-- 
2.43.0


From c9b898e738e812e85fa35adfbdce0ffa3851251a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:39 +0000
Subject: [PATCH 40/41] fix: do not pull the heading back to one from before a
 reset while at rest without a heading sensor

---
 EKF/ekf.h          |  3 ++-
 EKF/ekf_helper.cpp |  3 +++
 EKF/mag_fusion.cpp | 18 ++++++++++++++++++
 3 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/EKF/ekf.h b/EKF/ekf.h
index b8536b3..ace6a8d 100644
--- a/EKF/ekf.h
+++ b/EKF/ekf.h
@@ -392,7 +392,8 @@ private:
 	uint8_t _num_bad_flight_yaw_events{0};	///< number of times a bad heading has been detected in flight and required a yaw reset
 	uint64_t _mag_use_not_inhibit_us{0};	///< last system time in usec before magnetometer use was inhibited
 	bool _mag_inhibit_yaw_reset_req{false};	///< true when magnetometer inhibit has been active for long enough to require a yaw reset when conditions improve.
-	float _last_static_yaw{0.0f};		///< last yaw angle recorded when on ground motion checks were passing (rad)
+	float _last_static_yaw{NAN};		///< last yaw angle recorded when on ground motion checks were passing (rad), NAN if there is none
+	bool _last_static_yaw_321{false};	///< true when the last yaw angle was recorded using the 321 rotation sequence
 	bool _mag_yaw_reset_req{false};		///< true when a reset of the yaw using the magnetometer data has been requested
 	bool _mag_decl_cov_reset{false};	///< true after the fuseDeclination() function has been used to modify the earth field covariances after a magnetic field reset event.
 	bool _synthetic_mag_z_active{false};	///< true if we are generating synthetic magnetometer Z measurements
diff --git a/EKF/ekf_helper.cpp b/EKF/ekf_helper.cpp
index cb342db..18842b7 100644
--- a/EKF/ekf_helper.cpp
+++ b/EKF/ekf_helper.cpp
@@ -1641,6 +1641,9 @@ void Ekf::resetQuatStateYaw(float yaw, float yaw_variance, bool update_buffer)
 	_state.quat_nominal = quat_after_reset;
 	uncorrelateQuatFromOtherStates();
 
+	// a yaw angle recorded before the reset must not be fused any more
+	_last_static_yaw = NAN;
+
 	// record the state change, accumulate the total if there was already a reset since the last update
 	if (_state_reset_status.quat_counter == _quat_counter_prev) {
 		_state_reset_status.quat_change = q_error;
diff --git a/EKF/mag_fusion.cpp b/EKF/mag_fusion.cpp
index a1bf43e..6e17838 100644
--- a/EKF/mag_fusion.cpp
+++ b/EKF/mag_fusion.cpp
@@ -753,6 +753,7 @@ void Ekf::fuseHeading()
 				// TODO a better way of determining when this is necessary
 				const float sumQuatVar = P(0,0) + P(1,1) + P(2,2) + P(3,3);
 				_last_static_yaw = predicted_hdg;
+				_last_static_yaw_321 = true;
 
 				if (sumQuatVar > _params.quat_max_variance) {
 					fuse_zero_innov = true;
@@ -767,11 +768,19 @@ void Ekf::fuseHeading()
 				// Vehicle is at rest so use the last moving prediction as an observation
 				// to prevent the heading from drifting and to enable yaw gyro bias learning
 				// before takeoff.
+				if (!ISFINITE(_last_static_yaw) || !_last_static_yaw_321) {
+					// there is no earlier heading, or the heading has been reset since it was recorded,
+					// or it was recorded with the other rotation sequence
+					_last_static_yaw = predicted_hdg;
+					_last_static_yaw_321 = true;
+				}
+
 				measured_hdg = _last_static_yaw;
 
 			}
 		} else {
 			_last_static_yaw = predicted_hdg;
+			_last_static_yaw_321 = true;
 
 		}
 
@@ -808,6 +817,7 @@ void Ekf::fuseHeading()
 				// TODO a better way of determining when this is necessary
 				const float sumQuatVar = P(0,0) + P(1,1) + P(2,2) + P(3,3);
 				_last_static_yaw = predicted_hdg;
+				_last_static_yaw_321 = false;
 
 				if (sumQuatVar > _params.quat_max_variance) {
 					fuse_zero_innov = true;
@@ -822,11 +832,19 @@ void Ekf::fuseHeading()
 				// Vehicle is at rest so use the last moving prediction as an observation
 				// to prevent the heading from drifting and to enable yaw gyro bias learning
 				// before takeoff.
+				if (!ISFINITE(_last_static_yaw) || _last_static_yaw_321) {
+					// there is no earlier heading, or the heading has been reset since it was recorded,
+					// or it was recorded with the other rotation sequence
+					_last_static_yaw = predicted_hdg;
+					_last_static_yaw_321 = false;
+				}
+
 				measured_hdg = _last_static_yaw;
 
 			}
 		} else {
 			_last_static_yaw = predicted_hdg;
+			_last_static_yaw_321 = false;
 
 		}
 
-- 
2.43.0


From 7fb001ce6ff51297c8f7213246bd04b41f887502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:12 +0000
Subject: [PATCH 41/41] fix: take the vision heading in the rotation sequence
 it is applied with when resetting

---
 EKF/ekf_helper.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/EKF/ekf_helper.cpp b/EKF/ekf_helper.cpp
index 18842b7..51f70ef 100644
--- a/EKF/ekf_helper.cpp
+++ b/EKF/ekf_helper.cpp
@@ -510,7 +510,10 @@ bool Ekf::resetMagHeading(const Vector3f &mag_init, bool increase_yaw_var, bool
 	float yaw_new_variance = 0.0f;
 
 	if (_control_status.flags.ev_yaw) {
-		yaw_new = getEuler312Yaw(_ev_sample_delayed.quat);
+		// use the rotation sequence the yaw is applied with
+		yaw_new = shouldUse321RotationSequence(Dcmf(_state.quat_nominal)) ?
+			  getEuler321Yaw(_ev_sample_delayed.quat) :
+			  getEuler312Yaw(_ev_sample_delayed.quat);
 
 		if (increase_yaw_var) {
 			yaw_new_variance = fmaxf(_ev_sample_delayed.angVar, sq(1.0e-2f));
@@ -1557,7 +1560,10 @@ void Ekf::startEvVelFusion()
 void Ekf::startEvYawFusion()
 {
 	// reset the yaw angle to the value from the vision quaternion
-	const float yaw = getEuler321Yaw(_ev_sample_delayed.quat);
+	// use the rotation sequence the yaw is applied with
+	const float yaw = shouldUse321RotationSequence(Dcmf(_state.quat_nominal)) ?
+			  getEuler321Yaw(_ev_sample_delayed.quat) :
+			  getEuler312Yaw(_ev_sample_delayed.quat);
 	const float yaw_variance = fmaxf(_ev_sample_delayed.angVar, sq(1.0e-2f));
 
 	resetQuatStateYaw(yaw, yaw_variance, true);
-- 
2.43.0


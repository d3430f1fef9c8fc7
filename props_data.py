# ---------------------------------------------------------------- geomagnetic lookup
p("G01", "Field lookup is the continuous bilinear interpolation of its tables",
  "For every coordinate in range the declination, inclination and field strength returned are the bilinear interpolation of the four surrounding grid nodes of the respective table, exact at the nodes, continuous across cell borders and never outside the range spanned by the four nodes. Across the ±180° wrap of the declination the interpolation follows the shorter arc. The same call always gives the same answer.",
  ["inputs"], "every latitude/longitude in the table's domain: all cells, all cell corners, edges and a grid of interior points of each cell",
  "the tests sample 1000+ hand-picked points with a wide tolerance on declination, inclination and strength; they cannot visit each cell's interior, borders and wrap",
  ["geo_lookup/geo_mag_declination.cpp", "geo_lookup/geo_magnetic_tables.hpp"],
  [("node selection and clamping", "geo_lookup/geo_mag_declination.cpp: get_lookup_table_index, get_table_data"), ("interpolation", "geo_lookup/geo_mag_declination.cpp: interpolate")],
  "Exhaustive over all grid cells x an interior/border point grid of each cell; between grid points it relies on bilinearity, which is itself checked by second differences. " + TRUST_GEO,
  ["get_mag_declination_degrees/radians, get_mag_inclination_*, get_mag_strength_*"])
p("G02", "Field tables agree with the World Magnetic Model everywhere",
  "Declination, inclination and field strength returned for every node of the latitude/longitude grid agree with the World Magnetic Model of the table's epoch within the model's quantisation. The three components are mutually consistent.",
  ["inputs"], "every node of the three tables (all latitudes and longitudes of the 10° grid)",
  "the tests compare a sample of cities and nodes with broad tolerances; a wrong entry elsewhere passes",
  ["geo_lookup/geo_magnetic_tables.hpp", "geo_lookup/geo_mag_declination.cpp"],
  [("the tables", "geo_lookup/geo_magnetic_tables.hpp"), ("scaling", "geo_lookup/geo_mag_declination.cpp: get_*_degrees/get_mag_strength_gauss")],
  "All nodes are compared with an independent degree-12 spherical-harmonic synthesis of WMM-2020. Trusts the coefficients in src/wmm.h.",
  ["values returned at the grid nodes"])
p("G03", "Field lookup is defined and consistent on the whole coordinate domain",
  "For every finite latitude and longitude in ±90° / ±180° (and one turn beyond) the lookup returns a finite value within physical limits, without reading outside its tables; longitudes one full turn apart and latitudes beyond the table are handled as wrap and clamp. Degree and radian variants, and Gauss and Tesla variants, are the same quantity in different units.",
  ["inputs"], "all coordinates on a fine grid of the closed domain, the neighbouring floating point values of every border, and coordinates outside the domain",
  "the tests stay inside the domain and never compare the unit variants with each other",
  ["geo_lookup/geo_mag_declination.cpp"],
  [("index clamping", "geo_lookup/geo_mag_declination.cpp: get_lookup_table_index"), ("unit conversion", "geo_lookup/geo_mag_declination.cpp: get_*")],
  "Exhaustive over the stated grid, run under address and undefined-behaviour sanitizers. " + TRUST_GEO,
  ["return values of all seven lookup functions"])

# ---------------------------------------------------------------- containers, filters, math
p("B01", "The delayed-sample buffer returns the right sample exactly once",
  "The time-stamped sample buffer behaves as a bounded queue that overwrites its oldest element: a lookup for a fusion time returns the newest stored sample not newer than that time and less than 100 ms older, together with all older ones it is consumed, and no sample is ever returned twice or before its time. Oldest, newest and length queries agree with that queue, for every capacity, and memory outside the buffer is never touched.",
  ["histories"], "every sequence of push and timed pop operations up to the bound, for all small capacities, with time stamps on a lattice around the 100 ms limit, including re-allocation",
  "the tests run a few fixed push/pop scripts on one capacity",
  ["EKF/RingBuffer.h"],
  [("push", "EKF/RingBuffer.h: push"), ("pop_first_older_than", "EKF/RingBuffer.h: pop_first_older_than"), ("allocation", "EKF/RingBuffer.h: allocate")],
  "All operation sequences up to the bound, each step compared with a reference queue, under address/undefined sanitizers. Larger capacities are covered by the arithmetic being modular in the capacity only.",
  ["return values, element contents, buffer length"])
p("B02", "The first-order filter realises its configured time constant and resets",
  "The smoothing filter's output is always the exact first-order recursion of its inputs for the configured coefficient, stays within the range of its inputs and reset value, and is unchanged by anything else. The coefficient set from sample interval and time constant, or from sampling and cut-off frequency, is the documented one, and an invalid frequency pair is refused without altering the filter.",
  ["histories"], "every sequence of configure, reset, update and read operations up to the bound over alphabets of intervals, constants and values, for scalar and vector types",
  "the tests run one sequence per function",
  ["AlphaFilter/AlphaFilter.hpp"],
  [("coefficients", "AlphaFilter/AlphaFilter.hpp: setParameters, setCutoffFreq"), ("recursion", "AlphaFilter/AlphaFilter.hpp: update, updateCalculation")],
  "All operation sequences up to the bound compared with a reference in double precision, tolerance of a few ulp.",
  ["getState() and return values"])
p("B03", "Basic limit and conversion functions obey their mathematical laws",
  "Minimum, maximum, constrain and angle conversions between degrees and radians obey their mathematical definitions over their whole domains, including equal bounds, extreme values and infinities. No argument is converted to another type on the way.",
  ["inputs"], "all pairs/triples of 8-bit integers and all triples of an alphabet of extreme 16-bit, 32-bit, 64-bit, float and double values",
  "no test covers them directly",
  ["mathlib/mathlib.h", "mathlib/mathlib.cpp", "ecl.h"],
  [("min/max/constrain/radians/degrees", "mathlib/mathlib.h")],
  "Exhaustive over 8-bit domains and over the stated alphabets of wider types.",
  ["return values"])

# ---------------------------------------------------------------- geodesy
p("P01", "Local map projection is an accurate, invertible azimuthal projection",
  "Projecting a position to the local plane and back returns the position; the plane's distance and bearing from the origin equal the great-circle distance and bearing; the global and the local reference behave the same and remember origin, altitude and time stamp, and conversions are refused while no reference is set. This holds for every origin, including the date line and the poles.",
  ["inputs", "configurations"], "all origin/position pairs of a grid covering the globe with offsets from millimetres to thousands of kilometres in all directions; set/unset histories of the references",
  "the tests use one origin and a handful of points",
  ["geo/geo.cpp", "geo/geo.h"],
  [("map_projection_project/reproject", "geo/geo.cpp"), ("globallocalconverter", "geo/geo.cpp")],
  "Exhaustive over the stated grid against spherical vector geometry in long double. " + TRUST_GEO,
  ["map_projection_*, globallocalconverter_*"])
p("P02", "Great-circle distance, bearing and way-point helpers are those of the sphere",
  "Distance, bearing, vectors to a way-point, offset positions and intermediate way-points returned for every pair of positions are those of the sphere: symmetric, finite, non-negative, wrapped to ±180°, and mutually consistent. Going the returned distance along the returned bearing arrives at the target, also across the date line, at the poles and at antipodes.",
  ["inputs"], "all ordered pairs of a globe-covering position grid that includes poles, date line, antipodes and coincident points, with distances from millimetres to half the circumference",
  "the tests check a handful of points near one place",
  ["geo/geo.cpp"],
  [("get_distance_to_next_waypoint, get_bearing_to_next_waypoint, get_vector_to_next_waypoint*", "geo/geo.cpp"), ("waypoint_from_heading_and_distance, waypoint_from_line, add_vector_to_global_position", "geo/geo.cpp")],
  "Exhaustive over the stated grid against spherical vector geometry in long double, tolerances derived from double rounding. " + TRUST_GEO,
  ["return values"])
p("P03", "Track-error functions report the true offset from line and arc",
  "For every vehicle position and every line or arc segment the reported distance, bearing to the track and before/past state are those of the geometry: signed consistently, bearing pointing at the nearest point, past the end exactly when beyond the end point. Degenerate and invalid segments are reported as errors.",
  ["inputs"], "all combinations of vehicle bearing/distance, segment direction/length, arc start, sweep and radius on a grid",
  "no test covers them",
  ["geo/geo.cpp"],
  [("get_distance_to_line", "geo/geo.cpp"), ("get_distance_to_arc", "geo/geo.cpp")],
  "Exhaustive over the stated grid against plane geometry in a local frame. " + TRUST_GEO,
  ["return value and crosstrack_error_s"])

# ---------------------------------------------------------------- intake
p("I01", "IMU down-sampling conserves rotation and velocity change",
  "Whatever the sequence of high-rate inertial samples, the down-sampled deltas released represent exactly the accumulated rotation, velocity change (expressed in the attitude at the end of the interval) and time of the samples since the previous release, each sample counted once. A sample is released when the target interval is reached and clipping of any contributing sample is reported.",
  ["histories"], "every sequence of samples up to the bound over alphabets of intervals, rotation rates, accelerations and clipping flags",
  "the tests use constant rates with constant inputs",
  ["EKF/imu_down_sampler.cpp", "EKF/imu_down_sampler.hpp"],
  [("update", "EKF/imu_down_sampler.cpp: ImuDownSampler::update"), ("reset", "EKF/imu_down_sampler.cpp: ImuDownSampler::reset")],
  "All sample sequences up to the bound compared with a reference integrator in double precision. " + TRUST_SHIM,
  ["down-sampled delta angle, delta velocity, dt, clipping, time stamp"])
p("I02", "Range finder data is used exactly when it is trustworthy",
  "Range data is declared healthy exactly when it is fresh, within limits, of good quality for the required hysteresis time, not stuck and taken at acceptable tilt; otherwise it is rejected at once. The height above ground derived from it is the range projected on the vertical.",
  ["histories", "configurations"], "every history of samples, silences, tilts, qualities and invalid readings up to the bound for several configurations and start times",
  "the tests cover each rule once, from one initial state",
  ["EKF/sensor_range_finder.cpp", "EKF/sensor_range_finder.hpp"],
  [("runChecks", "EKF/sensor_range_finder.cpp: SensorRangeFinder::runChecks"), ("updateValidity, stuck check, continuity", "EKF/sensor_range_finder.cpp")],
  "All histories up to the bound compared at every 10 ms step with a reference state machine of the documented rules. " + TRUST_SHIM,
  ["isDataHealthy, isHealthy, isRegularlySendingData, getDistBottom, getCosTilt"])
p("I03", "Rotation helpers convert between attitude representations without loss",
  "Converting any attitude between quaternion, Euler angles of either rotation order and rotation matrix, extracting its heading or replacing it, preserves the rotation represented; replacing the heading changes nothing but the heading, including near ±90° pitch and across the ±180° wrap. Compensated summation and integer powers are exact to rounding.",
  ["inputs"], "all attitudes of a fine grid of the rotation group including the gimbal singularities, with all target headings of a grid",
  "the tests check a few attitudes",
  ["EKF/utils.cpp", "EKF/utils.hpp"],
  [("updateYawInRotMat, getEuler321Yaw, getEuler312Yaw, shouldUse321RotationSequence", "EKF/utils.cpp"), ("kahanSummation, sq, powf", "EKF/utils.cpp")],
  "Exhaustive over an attitude grid against an independent rotation algebra in double precision. " + TRUST_SHIM,
  ["return values"])
p("W01", "The stand-alone wind and airspeed-scale estimator is a consistent Kalman filter",
  "The wind/airspeed-scale estimator's state, covariance, innovations and rejection decisions equal those of an extended Kalman filter of its documented model for every history of airspeed, sideslip and prediction steps: it starts from the first valid airspeed, rejects measurements outside the gate, never fuses faster than allowed, and resets when rejection lasts too long. Its outputs are finite and its variances non-negative.",
  ["histories"], "every sequence of predict, airspeed, sideslip and time-step operations up to the bound over alphabets of velocities, attitudes and measurements",
  "no test covers it",
  ["airdata/WindEstimator.cpp", "airdata/WindEstimator.hpp"],
  [("initialise, update", "airdata/WindEstimator.cpp"), ("fuse_airspeed, fuse_beta", "airdata/WindEstimator.cpp"), ("check_if_meas_is_rejected, run_sanity_checks", "airdata/WindEstimator.cpp")],
  "All operation sequences up to the bound compared with a reference filter in double precision. " + TRUST_SHIM,
  ["get_wind, get_tas_scale, innovations, variances, rejection flags"])
p("Y01", "The emergency yaw estimator is a correct Gaussian-sum filter and converges",
  "The heading estimate derived from inertial and velocity data is available exactly while in flight after velocity data was received, is the probability-weighted circular mean of its hypotheses with weights that sum to one, has a positive finite variance including the spread of the hypotheses, and lies in ±180°. Each velocity is used once, outliers are limited, and after horizontal manoeuvres the estimate converges to the true heading from every initial heading. Instances do not influence each other.",
  ["histories", "inputs"], "every sequence of one-second motion/measurement segments up to the bound for several headings, tilts and biases; every true heading and acceleration direction of a grid for convergence",
  "the tests exercise it in one take-off scenario through the whole filter",
  ["EKF/EKFGSF_yaw.cpp", "EKF/EKFGSF_yaw.h"],
  [("life cycle and weighting", "EKF/EKFGSF_yaw.cpp: update"), ("attitude reference", "EKF/EKFGSF_yaw.cpp: ahrsPredict, ahrsAlignTilt, ahrsAlignYaw"), ("filter bank", "EKF/EKFGSF_yaw.cpp: predictEKF, updateEKF")],
  "All segment sequences up to the bound compared every 10 ms with a reference bank in double precision written from the textbook filter equations. " + TRUST_SHIM,
  ["getYawData, getLogData"])
p("E02", "Attitude, velocity and position follow strapdown mechanics between corrections",
  "When no measurement is due, one filter step advances attitude, velocity and position exactly by the bias-corrected inertial increments, gravity and earth rotation at the current latitude, and leaves all bias, magnetic and wind estimates untouched. Every measurement a configuration enables is used only when a sample of it is due at the delayed horizon, and never changes a state otherwise.",
  ["configurations", "histories"], "every filter step of every combination of magnetometer mode, height source, horizontal aiding, air data, motion and parameter variant of a menu (quick: a 1/6 slice of it)",
  "the tests look at the end of a few scripted scenarios, not at each step",
  ["EKF/ekf.cpp", "EKF/control.cpp"],
  [("strapdown prediction", "EKF/ekf.cpp: Ekf::predictState"), ("what is fused when", "EKF/control.cpp: Ekf::controlFusionModes")],
  "Every filter step of every scenario is compared with one step of a reference filter in double precision that starts from the state read before the step. " + TRUST_SHIM,
  ["getStateAtFusionHorizonAsVector", "covariances"])
p("E03", "The uncertainty grows between corrections as the motion model prescribes",
  "When no measurement is due, one filter step changes the covariance exactly as the linearised motion model with the configured sensor noises prescribes, stays symmetric, respects its limits, and keeps the covariance of unused or inhibited states frozen at zero correlation. It holds for every manoeuvre, attitude, clipping pattern and configuration.",
  ["configurations", "histories"], "every filter step of every combination of magnetometer mode, height source, horizontal aiding, air data, motion and parameter variant of a menu (quick: a 1/6 slice of it)",
  "the tests only look at signs of variances after scripted scenarios",
  ["EKF/covariance.cpp"],
  [("covariance prediction", "EKF/covariance.cpp: Ekf::predictCovariance"), ("limits", "EKF/covariance.cpp: Ekf::fixCovarianceErrors")],
  "The oracle is F P F' + Q with F from numerical differentiation of the motion model, not the generated expressions. " + TRUST_SHIM,
  ["covariances"])
p("E04", "Every correction is the Kalman update of its sensor model and innovation gate",
  "Each fused measurement (magnetic field, heading, declination, flow, GNSS position, velocity and yaw, vision position, velocity and yaw, height sources, airspeed, sideslip, drag, auxiliary velocity, synthetic position) changes states and covariance as the Kalman update of its physical model with lever arms and configured noise, rejects it when the normalised innovation exceeds its gate, and publishes that innovation and variance. What is due is fused, on time and once.",
  ["configurations", "histories"], "every filter step of every combination of magnetometer mode, height source, horizontal aiding, air data, motion and parameter variant of a menu (quick: a 1/6 slice of it)",
  "the tests never compare a correction with the sensor model",
  ["EKF/mag_fusion.cpp", "EKF/optflow_fusion.cpp", "EKF/vel_pos_fusion.cpp", "EKF/gps_yaw_fusion.cpp", "EKF/airspeed_fusion.cpp", "EKF/sideslip_fusion.cpp", "EKF/drag_fusion.cpp", "EKF/control.cpp"],
  [("magnetometer and heading", "EKF/mag_fusion.cpp"), ("flow", "EKF/optflow_fusion.cpp"), ("velocity and position", "EKF/vel_pos_fusion.cpp"), ("air data", "EKF/airspeed_fusion.cpp, EKF/sideslip_fusion.cpp, EKF/drag_fusion.cpp"), ("update", "EKF/ekf.h: measurementUpdate")],
  "Every filter step of every scenario is compared with a reference Kalman filter whose Jacobians are numerical derivatives of the sensor models; where a decision is within rounding of its threshold or a state is reset, that step is not compared (counted). The second flow axis uses the innovation variance from before the first one was fused, which the reference follows. " + TRUST_SHIM,
  ["getStateAtFusionHorizonAsVector", "covariances", "get*Innov", "get*InnovVar"])

MISSION = "all sequences of events (sensor silent/back, bad quality, jumps, disturbances, faults, landing and take-off, turns, mode changes, origin and bias commands) and durations up to depth 2 (thorough: 3) from a 13 configuration menu, with every filter update of every mission judged"
TESTS_M = "the tests check the end state of a few scripted scenarios in which one sensor changes once"
NOTE_M = "Exhaustive exploration of the real filter over the event/duration product (about 16000 missions and 8 million filter updates in the quick tier); the monitor uses the public interface and the known truth of the simulated world only. Event times are on the grid of the menu. " + TRUST_SHIM
MISSION_C = MISSION + "; and all such sequences of a second menu of events (small errors, accuracy reports, position and altitude jumps, vibration, clipping, stuck range, late GPS) in 13 more configurations, in lockstep with a reference of the decisions"
NOTE_C = "A reference of the decisions, driven by the delivered samples, the published innovations and the reports of the previous update, predicts every decision of the next update of the real filter; a decision that hangs on an unpublished quantity or on a comparison closer than one update is taken over as observed. " + TRUST_SHIM
p("E01", "Estimates, covariances and outputs stay finite and within limits",
  "Whatever the sensors do, fail or deliver, every state, output and published accuracy stays finite, the attitude stays a unit quaternion, the covariance stays symmetric with non-negative variances, and the estimated sensor biases respect their configured limits. Attitude validity follows the tilt alignment, numerical faults are transient, and the emergency yaw estimate stays normalised.",
  ["histories", "configurations", "faults"], MISSION_C, TESTS_M,
  ["EKF/ekf.cpp", "EKF/covariance.cpp", "EKF/ekf_helper.cpp", "EKF/EKFGSF_yaw.cpp"],
  [("state limits", "EKF/ekf_helper.cpp: Ekf::constrainStates"), ("covariance limits", "EKF/covariance.cpp: Ekf::fixCovarianceErrors"), ("refused updates", "EKF/ekf.h: measurementUpdate")],
  NOTE_M, ["getStateAtFusionHorizonAsVector, covariances, outputs, accuracies, fault status"])
p("E05", "Exactly one permitted and working height source is used",
  "At every time exactly one height source is in use, and it is one that the configuration permits. A source that falls silent or is rejected is replaced by, or the height is reset to, a working one within the configured time-out, so that a working permitted source is never ignored for longer; the configured source is taken back when it works again.",
  ["histories", "configurations", "faults"], MISSION_C, TESTS_M,
  ["EKF/control.cpp", "EKF/ekf_helper.cpp"],
  [("selection", "EKF/control.cpp: Ekf::controlHeightFusion"), ("time-outs", "EKF/control.cpp: Ekf::controlHeightSensorTimeouts"), ("resets", "EKF/ekf_helper.cpp: Ekf::resetHeight")],
  NOTE_M + " The decisions and height innovations are also predicted in lockstep. One recorded finding: vision height is kept when vision is silent.", ["control_status, innovations, resets"])
p("E06", "Every discontinuity of the estimate is announced with its exact amount",
  "Attitude, velocity and position change from one filter update to the next only by strapdown mechanics, by gated corrections in proportion to their uncertainty, and by resets; every reset increments the counter of its quantity and the published change equals the total change it made in that update. A reset to a sensor yields that sensor's current value and uncertainty, a heading reset is a pure rotation about the vertical, and the reason of each velocity or position reset is reported.",
  ["histories", "configurations", "faults"], MISSION_C, TESTS_M,
  ["EKF/ekf_helper.cpp", "EKF/control.cpp", "EKF/mag_control.cpp"],
  [("resets", "EKF/ekf_helper.cpp: reset*To"), ("heading", "EKF/ekf_helper.cpp: Ekf::resetQuatStateYaw, Ekf::resetYawToEKFGSF"), ("reporting", "EKF/ekf.h: get_*_reset, information_event_status")],
  NOTE_C, ["get_velNE_reset, get_velD_reset, get_posNE_reset, get_posD_reset, get_quat_reset, state vector"])
p("E07", "The current-time outputs are the delayed estimate carried to the present",
  "Published attitude, velocity, position, acceleration and vertical rate at every inertial sample equal a complementary prediction that integrates the bias-corrected newest samples and tracks the delayed estimate with the configured time constants, expressed at the body origin. Every reset of the delayed estimate moves the current output by the same amount at once, and the published tracking errors are those of the loop.",
  ["histories", "configurations", "faults"], MISSION, TESTS_M,
  ["EKF/ekf.cpp", "EKF/ekf_helper.cpp"],
  [("output predictor", "EKF/ekf.cpp: Ekf::calculateOutputStates"), ("history correction", "EKF/ekf.cpp: Ekf::applyCorrectionToOutputBuffer, Ekf::applyCorrectionToVerticalOutputBuffer"), ("lever arm", "EKF/ekf.h: getVelocity, getPosition")],
  NOTE_M + " The first nine seconds after initialisation are not judged.", ["getQuaternion, getVelocity, getPosition, getVelocityDerivative, getVerticalPositionDerivative, getOutputTrackingError"])
p("E09", "Horizontal aiding uses exactly the selected, healthy sources",
  "A horizontal aiding source is used only if it is selected and its start conditions hold (alignment, data quality, origin, terrain), it is started in time when they hold, and it is neither dropped while good nor kept after it fell silent or failed its checks with an alternative at hand. When no source is active a synthetic position observation bounds the drift, and it is never mixed with real aiding.",
  ["histories", "configurations", "faults"], MISSION_C, TESTS_M,
  ["EKF/control.cpp", "EKF/ekf_helper.cpp"],
  [("GPS", "EKF/control.cpp: Ekf::controlGpsFusion"), ("vision", "EKF/control.cpp: Ekf::controlExternalVisionFusion"), ("flow", "EKF/control.cpp: Ekf::controlOpticalFlowFusion"), ("air data", "EKF/control.cpp: Ekf::controlAirDataFusion, Ekf::controlBetaFusion"), ("fall-back", "EKF/control.cpp: Ekf::controlFakePosFusion")],
  NOTE_C, ["control_status, innovations"])
p("E10", "Position validity and dead-reckoning flags tell the truth",
  "Inertial dead reckoning is reported if and only if nothing that constrains horizontal drift was accepted within the configured time, and the local position is reported valid while such aiding is used or lapsed for less than the configured validity time, and invalid afterwards and while only synthetic observations hold it. Global validity is local validity with a known origin.",
  ["histories", "configurations", "faults"], MISSION_C, TESTS_M,
  ["EKF/ekf_helper.cpp", "EKF/ekf.h"],
  [("dead reckoning", "EKF/ekf_helper.cpp: Ekf::updateDeadReckoningStatus / update_deadreckoning_status"), ("validity", "EKF/ekf.h: local_position_is_valid, global_position_is_valid")],
  NOTE_M, ["inertial_dead_reckoning, local_position_is_valid, global_position_is_valid"])
p("E11", "Every status, accuracy and innovation report agrees with the filter",
  "The aiding-source counts, solution status, innovation test status, rejection flags, accuracies, control limits, variances and derived estimates that are published equal what the active flags, innovations, states and covariance imply at that moment. Each rejection is reported in the flag of its own sensor and axis.",
  ["histories", "configurations", "faults"], MISSION_C, TESTS_M,
  ["EKF/ekf_helper.cpp", "EKF/ekf.h", "EKF/estimator_interface.h"],
  [("solution status, accuracies, limits", "EKF/ekf_helper.cpp: get_ekf_soln_status, get_ekf_*_accuracy, get_ekf_ctrl_limits"), ("innovation status", "EKF/ekf_helper.cpp: get_innovation_test_status"), ("views", "EKF/ekf.h")],
  NOTE_M, ["all get_* queries"])
p("E12", "Heading aiding is exclusive, permitted and recovers from bad data",
  "At most one heading source is active, it is one the configuration permits, and a working magnetometer is used when nothing else gives the heading; a field fusion needs an in-flight alignment with a heading reset, falls back to heading on the ground, and is supported by the declination when nothing else fixes true north. A disturbed field is reported exactly while it is disturbed and never used for a heading reset, and an emergency heading reset disables the magnetometer, is reported, and is limited in rate and number.",
  ["histories", "configurations", "faults"], MISSION_C, TESTS_M,
  ["EKF/mag_control.cpp", "EKF/control.cpp", "EKF/ekf_helper.cpp", "EKF/mag_fusion.cpp"],
  [("magnetometer mode", "EKF/mag_control.cpp"), ("heading resets", "EKF/ekf_helper.cpp: Ekf::resetMagHeading, Ekf::resetYawToEKFGSF"), ("vision and GPS yaw", "EKF/control.cpp")],
  NOTE_C, ["control_status, get_quat_reset, events"])
p("E18", "Lost or rejected aiding is resolved by one reset to the right source in time",
  "When nothing that is in use has been accepted for the configured time-out, and never earlier, velocity and position are reset, to GPS, flow or vision in this order as they are in use, and otherwise to zero velocity and the last known position. Starting a source resets exactly the states that no other source constrains, and every such reset happens once, restarts the time-out and is reported with its source.",
  ["histories", "configurations", "faults"], MISSION_C, TESTS_M,
  ["EKF/control.cpp", "EKF/ekf_helper.cpp"],
  [("GPS", "EKF/control.cpp: Ekf::controlGpsFusion, EKF/ekf_helper.cpp: Ekf::startGpsFusion"), ("vision", "EKF/control.cpp: Ekf::controlExternalVisionFusion"), ("flow", "EKF/control.cpp: Ekf::controlOpticalFlowFusion"), ("no aiding", "EKF/control.cpp: Ekf::controlFakePosFusion"), ("choice of the source", "EKF/ekf_helper.cpp: Ekf::resetVelocity, Ekf::resetHorizontalPosition")],
  NOTE_C, ["information_event_status, warning_event_status, get_velD_reset"])
p("E19", "Bad vertical acceleration is declared on independent evidence and survived",
  "The vertical acceleration is declared bad if and only if recent height and vertical velocity measurements that do not come from the same sensor, or one of them during clipping, agree that the estimate is being dragged upwards beyond the configured limit. The declaration lasts for the probation time after the last evidence, and a height reset follows when the evidence persists, and not otherwise.",
  ["histories", "configurations", "faults"], MISSION_C, TESTS_M,
  ["EKF/control.cpp", "EKF/vel_pos_fusion.cpp"],
  [("detection", "EKF/control.cpp: Ekf::checkVerticalAccelerationHealth"), ("reset", "EKF/control.cpp: Ekf::controlHeightSensorTimeouts")],
  NOTE_C, ["fault_status, warning_event_status, get_posD_reset"])
p("E08", "GPS is trusted exactly after the selected quality checks held long enough",
  "Every published quality check (fix type, satellites, dilution, accuracies, drift and speed at rest) is reported failed exactly when its figure exceeds its configured limit, and the drift figures are the filtered drift of the receiver at rest. The origin is set and GPS use starts if and only if the selected checks have all passed for the required time on an initialised, aligned filter.",
  ["configurations", "histories"], "all sequences of 16 GPS behaviours and 3 durations up to depth 2 to 3 (thorough: 3 to 4) for every selection of a single check, the default, none and all, before and after filter start, through both entry points",
  "the tests use perfect or missing GPS only",
  ["EKF/gps_checks.cpp", "EKF/control.cpp", "EKF/estimator_interface.cpp"],
  [("checks", "EKF/gps_checks.cpp: Ekf::gps_is_good"), ("origin", "EKF/gps_checks.cpp: Ekf::collect_gps"), ("start", "EKF/control.cpp: Ekf::controlGpsFusion")],
  "Oracle: an independent double-precision implementation of the documented rules fed with the same messages; figures within 0.2 % of a limit are not judged. " + TRUST_SHIM,
  ["get_gps_check_status, get_gps_drift_metrics, global_origin_valid, getEkfGlobalOrigin, control_status"])
p("E13", "The origin of the local frame can be set and moved without moving the vehicle",
  "The reported origin is the last one given by the user or taken from GPS, and the local estimate together with it gives the true position on the globe, at any place on earth. Moving the origin changes only the position, announces the exact change, keeps position on the globe, height above ground and all other states, and causes no later jump or reset.",
  ["configurations", "histories"], "all sequences of up to three origin commands (distance and height menu) before, during and after alignment for 7 aiding configurations and 3 (thorough: 5) places including equator and date line",
  "the tests set one origin and compare one value",
  ["EKF/ekf_helper.cpp", "EKF/gps_checks.cpp"],
  [("command", "EKF/ekf_helper.cpp: Ekf::setEkfGlobalOrigin"), ("query", "EKF/ekf_helper.cpp: Ekf::getEkfGlobalOrigin"), ("from GPS", "EKF/gps_checks.cpp: Ekf::collect_gps")],
  "Vision aiding is relative to its own frame and is drawn back to it after a command, so later jumps are not judged with vision. " + TRUST_SHIM,
  ["getEkfGlobalOrigin, getPosition, get_pos*_reset, getTerrainVertPos"])
p("E14", "Height above ground follows the range finder and the flow as specified",
  "In the air every range or flow sample that is valid and selected corrects the terrain height by exactly the Kalman correction of the documented model; outliers are rejected and reported, and a persistent disagreement is resolved by a reset, so that with a working range finder the published height above ground is true. On the ground it is the configured clearance, it never falls below that clearance, and its validity and sources are reported exactly while a correction is at most five seconds old.",
  ["configurations", "histories"], "all sequences of two (thorough: three) of 14 sensor, terrain and motion events with three durations, for 7 configurations and 2 parameter sets; every update is compared with a reference filter",
  "the tests check single events; the estimate depends on the order of range loss, ground steps, tilt, landing and aiding changes",
  ["EKF/terrain_estimator.cpp", "EKF/sensor_range_finder.cpp", "EKF/control.cpp"],
  [("estimator", "EKF/terrain_estimator.cpp: Ekf::runTerrainEstimator"), ("range", "EKF/terrain_estimator.cpp: Ekf::fuseHagl"), ("flow", "EKF/terrain_estimator.cpp: Ekf::fuseFlowForTerrain"), ("validity", "EKF/terrain_estimator.cpp: Ekf::updateTerrainValidity"), ("range checks", "EKF/sensor_range_finder.cpp: SensorRangeFinder::runChecks")],
  "Starting the filter counts as a flow correction, so sources are judged from six seconds after the start. " + TRUST_SHIM,
  ["getTerrainVertPos, get_terrain_var, isTerrainEstimateValid, getTerrainEstimateSensorBitfield, getHagl*, getFlow*"])
p("E15", "The result depends only on the data, not on storage, clock or delivery order",
  "The same parameters and the same time-stamped data give the same estimate and the same reports bit for bit: whatever the storage of the filter held before, whatever the absolute value of the clock (three days of up-time), in whichever order the samples of one instant are delivered, and whatever other instances run beside it.",
  ["configurations", "histories"], "all sequences of two of 17 events for 12 aiding configurations, five instances in lockstep, every published quantity of every update compared bit by bit",
  "each test runs one instance near time zero on fresh storage with one delivery order",
  ["EKF/ekf.cpp", "EKF/estimator_interface.cpp", "EKF/control.cpp", "EKF/RingBuffer.h"],
  [("initialisation", "EKF/ekf.cpp: Ekf::reset, Ekf::init"), ("time stamps", "EKF/estimator_interface.cpp: set*Data"), ("defaults", "EKF/ekf.h, EKF/estimator_interface.h: member initialisers")],
  TRUST_SHIM,
  ["all get_* queries, state vector, covariance"])
p("E16", "Every accepted sample is used once, at the time it was measured",
  "A sample that arrives no faster than the buffer can hold is used exactly once (or in exactly one average, for field and pressure), by the first filter update whose fusion horizon has reached its measurement time, for every sensor delay, sample pattern, inertial rate and transport latency within the configured horizon. Faster samples are dropped on entry, never reordered or mixed, and no sample is lost to a buffer that is too small.",
  ["configurations", "histories"], "10 sensor uses, 5 delay settings, 3 inertial rates, 2 transport latencies, all patterns of 3 (thorough: 4) intervals from a menu of 7; a reference queue decides for every update which sample is due",
  "the tests check the presence of a fusion, not which sample was used when",
  ["EKF/estimator_interface.cpp", "EKF/RingBuffer.h", "EKF/ekf.cpp"],
  [("intake", "EKF/estimator_interface.cpp: set*Data"), ("buffer size", "EKF/estimator_interface.cpp: initialise_interface"), ("lookup", "EKF/RingBuffer.h: pop_first_older_than")],
  TRUST_SHIM,
  ["innovations"])
p("E17", "Data of sensors that are not selected has no influence on the estimate",
  "Whatever a sensor delivers that the configuration does not select for fusion (magnetometer, satellite navigation, range finder, optical flow, vision), the state, its uncertainty and every published quantity of the other sensors stay bit for bit the same as without that data.",
  ["configurations", "histories"], "all sequences of two of 17 events for 12 aiding configurations; a second instance in lockstep receives nonsense from every sensor that is not selected",
  "the tests never feed sensors that are not selected",
  ["EKF/control.cpp", "EKF/estimator_interface.cpp", "EKF/mag_control.cpp"],
  [("selection", "EKF/control.cpp: Ekf::controlFusionModes"), ("magnetometer none", "EKF/mag_control.cpp: Ekf::controlMagFusion")],
  "Airspeed and auxiliary velocity have no selection switch and are excluded. " + TRUST_SHIM,
  ["state vector, covariance, all get_* queries"])
p("E20", "The filter aligns from every attitude and heading, and only when it can",
  "Whatever the attitude and heading of a vehicle at rest, and whatever provides its heading, the filter starts within a second and a half of coming to rest with the true tilt, reports the tilt as aligned while it is right, aligns to the true heading and then stays at rest there. It never starts while the vehicle turns, falls or is accelerated, and a heading that is not measured is never made up at the expense of the tilt.",
  ["configurations", "histories"], "all combinations of 12 (thorough: 24) roll, 7 (11) pitch and 4 (12) heading angles, 6 heading sources, 5 kinds of start, spread over 6 places on the globe; every update is judged against the true attitude",
  "the tests start level, upright and at rest",
  ["EKF/ekf.cpp", "EKF/mag_fusion.cpp", "EKF/ekf_helper.cpp"],
  [("start", "EKF/ekf.cpp: Ekf::initialiseFilter, Ekf::initialiseTilt"), ("tilt alignment", "EKF/control.cpp: Ekf::controlFusionModes"), ("heading", "EKF/ekf_helper.cpp: Ekf::resetMagHeading, EKF/mag_fusion.cpp: Ekf::fuseHeading")],
  "Oracle: the simulated truth. After a motion that has just ended only the tilt is judged, and loosely, because the start values are filtered. A GPS heading is judged for a vehicle that is not tilted about both axes. " + TRUST_SHIM,
  ["getQuaternion, control_status, getVelocity"])
p("E21", "Attitude, velocity and position follow the true flight everywhere on earth",
  "With working sensors, constant inertial biases and any of the supported combinations of aiding, the published attitude, velocity, local position, place on the globe, altitude and learned biases stay within fixed bounds of the truth through every sequence of manoeuvres, in every direction and at every latitude and longitude. The velocity error stays within three times the published standard deviation, and validity and alignment stay reported.",
  ["configurations", "histories"], "all sequences of two (thorough: three) of 10 manoeuvres after take-off, for 11 kinds of aiding, 6 places (equator, date line, both hemispheres, high latitudes) and 3 (6) headings; every update is judged against the true motion",
  "the tests fly at one place, mostly level and northwards, and compare a few end values",
  ["EKF/ekf.cpp", "EKF/covariance.cpp", "EKF/control.cpp", "EKF/EKFGSF_yaw.cpp"],
  [("prediction", "EKF/ekf.cpp: Ekf::predictState"), ("output", "EKF/ekf.cpp: Ekf::calculateOutputStates"), ("fusion", "EKF/vel_pos_fusion.cpp, EKF/mag_fusion.cpp, EKF/optflow_fusion.cpp"), ("yaw estimator", "EKF/EKFGSF_yaw.cpp")],
  "Oracle: the simulated truth, with bounds about twice the largest deviation seen on the unchanged tree; smaller deviations are left to the step-by-step references of E02 to E04. " + TRUST_SHIM,
  ["getQuaternion, getVelocity, getPosition, getEkfGlobalOrigin, getGyroBias, getAccelBias, covariances_diagonal"])
p("E22", "At-rest detection, vibration levels and ground effect compensation",
  "On the ground the vehicle is reported at rest exactly when for more than one second the angular rate has stayed below 0.05 rad/s and the averaged changes of the angle and velocity increments from sample to sample below 25 microradian and 4.8 mm/s, each scaled by the configured sensitivity; in the air and within one second of landing it never is. The published vibration levels are the first order averages (1 % per sample) of the coning and of these changes. A declared ground effect lasts until it is taken back or, with baro height, ten seconds after its last declaration; meanwhile baro heights below the estimate by less than the dead zone have no effect, and by more are reduced by it.",
  ["histories", "configurations"], "all sequences of two (thorough: three) of 17 kinds of motion with 3 durations for 4 sample intervals and 3 sensitivities; all sequences of three (four) of 8 ground effect declarations and baro errors with 2 (3) durations for 4 configurations; every inertial sample and update is judged",
  "the tests look at the at-rest report once after a shaken and a still phase",
  ["EKF/estimator_interface.cpp", "EKF/estimator_interface.h", "EKF/ekf_helper.cpp", "EKF/control.cpp"],
  [("vibration", "EKF/estimator_interface.cpp: EstimatorInterface::computeVibrationMetric"), ("at rest", "EKF/estimator_interface.cpp: EstimatorInterface::checkIfVehicleAtRest"), ("ground effect", "EKF/ekf_helper.cpp: Ekf::startBaroHgtFusion, EKF/control.cpp: Ekf::controlHeightFusion")],
  "Oracle: the documented rule recomputed in double precision from the delivered samples; within 0.05 % of a threshold either answer is accepted. " + TRUST_SHIM,
  ["getImuVibrationMetrics, isVehicleAtRest, control_status, getBaroHgtInnov"])

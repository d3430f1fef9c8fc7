# property id -> how its check is built and judged
def C(src, technique, libs=(), san="none", args=(), level="model_checking", **kw):
    return dict(src=[src], libs=list(libs), san=san, args=list(args), level=level, technique=technique, **kw)


EKF = ["ekf", "geo", "geo_lookup"]

CHECKS = {
    "G01": C("geolookup.cpp", "exhaustive grid exploration of the real lookup against the bilinear reference", ["geo_lookup"], "asan", ["interp"]),
    "G02": C("geolookup.cpp", "exhaustive exploration of all table nodes against a spherical-harmonic field model", ["geo_lookup"], "asan", ["model"]),
    "G03": C("geolookup.cpp", "exhaustive grid exploration of the whole coordinate domain with metamorphic oracles", ["geo_lookup"], "asan", ["domain"]),
    "B01": C("ringbuffer.cpp", "exhaustive operation-sequence exploration of the real RingBuffer against a reference queue", [], "asan"),
    "B02": C("alphafilter.cpp", "exhaustive operation-sequence exploration of the real AlphaFilter against a reference model", [], "asan"),
    "B03": C("mathlib.cpp", "exhaustive enumeration of small integer domains and floating-point alphabets", [], "none"),
    "P01": C("geo.cpp", "exhaustive grid exploration of the real projection against spherical vector geometry", ["geo"], "none", ["projection"]),
    "P02": C("geo.cpp", "exhaustive grid exploration of the real great-circle functions against spherical vector geometry", ["geo"], "none", ["geodesic"]),
    "P03": C("geo.cpp", "exhaustive grid exploration of the real track-error functions against plane geometry", ["geo"], "none", ["track"]),
    "I01": C("downsampler.cpp", "exhaustive sample-sequence exploration of the real down-sampler against a reference integrator", ["ekf", "geo", "geo_lookup"], "none"),
    "I02": C("rangefinder.cpp", "exhaustive history exploration of the real range finder checks against a reference state machine", ["ekf", "geo", "geo_lookup"], "none"),
    "I03": C("utils.cpp", "exhaustive attitude-grid exploration of the real rotation helpers", ["ekf", "geo", "geo_lookup"], "none"),
    "Y01": C("yaw.cpp", "exhaustive history exploration of the real yaw estimator against a reference filter bank", ["ekf", "geo", "geo_lookup"], "none"),
    "W01": C("wind.cpp", "exhaustive operation-sequence exploration of the real wind estimator against a reference Kalman filter", ["airdata", "geo", "geo_lookup"], "none"),
    "E02": C("ekf_core.cpp", "exhaustive exploration of a configuration and motion product, every step of the real filter against a reference step", EKF, "none", ["state"]),
    "E03": C("ekf_core.cpp", "exhaustive exploration of a configuration and motion product, every step of the real filter against a reference step", EKF, "none", ["cov"]),
    "E04": C("ekf_core.cpp", "exhaustive exploration of a configuration and motion product, every step of the real filter against a reference update", EKF, "none", ["fusion"]),
    "E01": C("ekf_env.cpp", "exhaustive exploration of event/duration sequences of the real filter flying simulated missions, every update judged by a monitor", EKF, "none", ["E01"]),
    "E05": C("ekf_env.cpp", "exhaustive exploration of event/duration sequences of the real filter flying simulated missions, every update judged by a monitor and a reference decision model in lockstep", EKF, "none", ["E05"]),
    "E06": C("ekf_env.cpp", "exhaustive exploration of event/duration sequences of the real filter flying simulated missions, every update judged by a monitor", EKF, "none", ["E06"]),
    "E07": C("ekf_env.cpp", "exhaustive exploration of event/duration sequences of the real filter flying simulated missions, every update judged by a monitor", EKF, "none", ["E07"]),
    "E09": C("ekf_env.cpp", "exhaustive exploration of event/duration sequences of the real filter flying simulated missions, every update judged by a monitor and a reference decision model in lockstep", EKF, "none", ["E09"]),
    "E10": C("ekf_env.cpp", "exhaustive exploration of event/duration sequences of the real filter flying simulated missions, every update judged by a monitor", EKF, "none", ["E10"]),
    "E11": C("ekf_env.cpp", "exhaustive exploration of event/duration sequences of the real filter flying simulated missions, every update judged by a monitor", EKF, "none", ["E11"]),
    "E12": C("ekf_env.cpp", "exhaustive exploration of event/duration sequences of the real filter flying simulated missions, every update judged by a monitor and a reference decision model in lockstep", EKF, "none", ["E12"]),
    "E18": C("ekf_env.cpp", "exhaustive exploration of event/duration sequences of the real filter, its decisions compared update by update with a reference decision model", EKF, "none", ["E18"]),
    "E19": C("ekf_env.cpp", "exhaustive exploration of event/duration sequences of the real filter, its decisions compared update by update with a reference decision model", EKF, "none", ["E19"]),
    "E08": C("ekf_gps.cpp", "exhaustive exploration of GPS quality histories on the real filter against a reference of the documented rules", EKF, "none", ["E08"]),
    "E13": C("ekf_gps.cpp", "exhaustive exploration of origin command histories on the real filter against global geometry", EKF, "none", ["E13"]),
    "E14": C("ekf_terrain.cpp", "exhaustive exploration of terrain, range and flow histories on the real filter against a one-state reference filter", EKF, "none", ["E14"]),
    "E15": C("ekf_same.cpp", "exhaustive exploration of event sequences by instances of the real filter in lockstep (self-composition), compared bit by bit", EKF, "none", ["E15"]),
    "E16": C("ekf_intake.cpp", "exhaustive exploration of sample arrival patterns on the real filter against a reference queue", EKF, "none", ["E16"]),
    "E17": C("ekf_same.cpp", "exhaustive exploration of event sequences by two instances of the real filter in lockstep (self-composition), compared bit by bit", EKF, "none", ["E17"]),
    "E20": C("ekf_truth.cpp", "exhaustive exploration of a grid of attitudes, heading sensors and starts on the real filter against the true attitude", EKF, "none", ["E20"]),
    "E21": C("ekf_truth.cpp", "exhaustive exploration of manoeuvre sequences, places, headings and aiding on the real filter against the true motion", EKF, "none", ["E21"]),
    "E22": C("ekf_motion.cpp", "exhaustive exploration of motion, vibration and ground effect sequences on the real filter against a reference in double precision", EKF, "none", ["E22"]),
}

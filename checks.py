"""Which harness decides which property, on which sources, in which number
domain, within which bounds."""
IC = "incremental_calibration/src/"
EXC = [IC + "exceptions/" + x for x in ("Exception.cpp", "InvalidOperationException.cpp", "NullPointerException.cpp")]
CHECKS = {}

CHECKS["P11"] = dict(
    units=[dict(src="permute.cpp", repo=EXC, entries=[dict(name="permute_sizet", mode="ieee", hang_s=5, opt=dict(instr=300000)), dict(name="permute_int", mode="ieee", hang_s=5, opt=dict(instr=300000))])],
    bounds="containers of up to 4 (thorough 5) elements, any contents, any index vector with entries in [-2, size+1], matching or non-matching length",
)

SER = EXC + [IC + "base/Serializable.cpp"]
CHECKS["P12"] = dict(
    units=[dict(src="matrixops.cpp", repo=EXC, entries=[dict(name="sum_log_diag", mode="real"), dict(name="index_check", mode="ieee")])],
    bounds="square matrices up to 3x3 (thorough 4x4) with arbitrary real entries and index pairs around the limits; index check: all 64-bit indices, 0..5 columns",
)
CHECKS["P14"] = dict(
    units=[dict(src="transformation.cpp", repo=SER, entries=[dict(name="t2d", mode="real"), dict(name="t2d_matrix", mode="real"), dict(name="t3d", mode="real"), dict(name="t3d_laws", mode="real")])],
    bounds="all real poses and points (exact real arithmetic)", outside="rounding of double arithmetic",
)
CHECKS["P15"] = dict(
    units=[dict(src="grid.cpp", repo=SER, entries=[
        dict(name="grid_cells_1d", mode="real"), dict(name="grid_cells_2d", mode="real"), dict(name="grid_ctor", mode="real"), dict(name="grid_ieee", mode="ieee", opt=dict(check_ms=20000, query_ms=20000)),
        dict(name="grid_index_2d", mode="ieee"), dict(name="grid_index_3d", mode="ieee"), dict(name="grid_increment", mode="ieee"), dict(name="grid_copy", mode="real"), dict(name="grid_integer", mode="ieee")])],
    bounds="1 to 3 dimensions, up to 4 cells per dimension; all real ranges, resolutions and points; all 32-bit index vectors; IEEE single precision with up to 3 cells; integer coordinates in [-20, 20]",
    outside="ranges with more cells than the bound, NaN parameters",
)

# ---- core: real problem containers, estimator and solver wrapper; the external
# optimizer and decomposition are stand-ins with symbolic outcomes (stubs/backend)
CORE = EXC + [IC + "core/OptimizationProblem.cpp"]
INC = CORE + [IC + "core/IncrementalOptimizationProblem.cpp"]
EST = SER + [IC + "base/Timestamp.cpp"] + INC[3:] + [IC + "core/IncrementalEstimator.cpp", "aslam_tsvd_solver/src/aslam-tsvd-solver.cc"]
STAND = "the real optimizer and decomposition (aslam_backend, truncated_svd_solver), which are not installed: stand-ins with the same interfaces return arbitrary (symbolic) outcomes"


def _inc(*names):
    return [dict(src="incremental.cpp", repo=INC, stubs=["backend"], entries=[dict(name=n, mode="ieee") for n in names])]


def _est(*names, mode="ieee"):
    return [dict(src="estimator.cpp", repo=EST, inc=["aslam_tsvd_solver/include"], stubs=["backend"], entries=[dict(name=n, mode=mode) for n in names])]


CHECKS["P01"] = dict(units=_est("reject_or_accept", mode="real"),
    bounds="an empty or one-batch estimator plus one more batch, 4 (thorough 6) shapes of each batch over 4 variables in 3 groups, one variable active or not, scaling and validity check on or off, forced or not; all costs, iterations, ranks, singular value sums, thresholds, parameter values and result matrices symbolic reals", outside=STAND)
CHECKS["P02"] = dict(units=_est("decision", "decision_options") + _est("decision_three", mode="real"),
    bounds="sequences of 2 (thorough 3) batches with IEEE doubles, of 3 batches with exact reals; all thresholds, costs, log2 sums as IEEE doubles (NaN and infinities included), iteration limits 1..5, ranks 0..8", outside=STAND)
CHECKS["P03"] = dict(units=_est("marginal_boundary", mode="real"),
    bounds="two batches of 4 (thorough 6) shapes, then a re-optimization; all activity patterns of 4 variables; all outcomes", outside=STAND)
CHECKS["P04"] = dict(units=_est("reoptimize", "remove_last", mode="real"),
    bounds="two batches of 4 (thorough 6) shapes, then a re-optimization or any removal, then one more batch; all outcomes", outside=STAND)
CHECKS["P05"] = dict(
    units=[dict(src="optproblem.cpp", repo=CORE, stubs=["backend"], entries=[dict(name="optproblem_step", mode="ieee"), dict(name="optproblem_history", mode="ieee", thorough=dict(paths=1000000, time=800))])],
    bounds="every problem over 3 variables, 2 groups, 3 error terms and any activity pattern, followed by any one operation; every history of 3 (thorough 4) operations from the empty problem", outside="more than three variables, groups or error terms")
CHECKS["P06"] = dict(units=_inc("incremental_history", "incremental_three", "incremental_dims"),
    bounds="two batches of any content over 3 variables in 2 groups and histories of 4 (thorough 5) operations; three batches of any content, then any removal and re-addition; all activity patterns", outside="more variables, groups or batches")
CHECKS["P07"] = dict(units=_inc("incremental_rejected") + _est("failed_add", mode="real"),
    bounds="two batches of any content with any subset of 3 variables in the wrong group, with or without a duplicate error term, null batches; estimator: 4 (thorough 6) shapes of the first batch and 4 kinds of offending batch", outside="exceptions thrown by the optimizer itself")
CHECKS["P08"] = dict(units=_inc("save_restore", "save_restore_single"),
    bounds="3 variables with any values, two batches of any content; histories of 4 (thorough 5) and 5 (thorough 6) operations", outside="variables with more than one parameter (the copy of a parameter matrix is the variable's own)")
CHECKS["P09"] = dict(units=_inc("incremental_order"),
    bounds="two batches of any content over 3 variables in 2 groups, 1 (thorough 2) reorderings with any index vector, then any removal and one more addition", outside="more variables, groups or batches")
CHECKS["P13"] = dict(units=_est("tsvd"), bounds="one problem of 3 variables and 2 error terms, all boundaries 0..6, all results, with and without allocation failure, all thread counts 1..64", outside=STAND)
CHECKS["P35"] = dict(units=_est("property_tree"), bounds="all option values; all combinations of present and absent options in six groups", outside="parsing of configuration files")

CHECKS["P10"] = dict(units=[dict(src="vectordv.cpp", repo=SER, stubs=["backend"], entries=[dict(name=n, mode="ieee") for n in ("dv_fixed", "dv_scalar", "dv_dynamic", "dv_default")])],
    bounds="vectors of length 1 to 2 (dynamic: thorough 3), all IEEE values, histories of 2 (thorough 3) operations plus a copy or assignment and one more operation, parameter matrices of up to length+1 rows and 2 columns",
    outside="steps of the wrong length (the DesignVariable interface forbids them)")

STAT = SER + [IC + "base/Timestamp.cpp"]
CHECKS["P17"] = dict(units=[dict(src="uniform.cpp", repo=STAT, entries=[dict(name=n, mode="real") for n in ("uniform_1d", "uniform_1d_float", "uniform_1i", "uniform_2d", "uniform_3d", "uniform_2i", "uniform_xd")])],
    bounds="one to three dimensions; all real supports and points (exact arithmetic); integer supports and points in [-20, 20] (thorough [-50, 50]) in one dimension, [-2, 2] (thorough [-4, 4]) in two", outside="rounding; NaN")

CHECKS["P16"] = dict(units=[dict(src="histogram.cpp", repo=SER, entries=[dict(name="histogram_" + n, mode="real") for n in ("moments_1d", "moments_2d", "order_1d", "mode_2d", "samples_1d", "samples_2d")] + [dict(name="histogram_int", mode="real")])],
    bounds="one dimension with up to 4 (thorough 6) bins, two dimensions with up to 2 bins each; all real origins, bin sizes, ranges, counts and samples (exact arithmetic); integer bins in [-3, 6]", outside="rounding; NaN")

NORM = STAT + [IC + "statistics/NormalDistribution1v.cpp"]
CHECKS["P18"] = dict(units=[dict(src="normal.cpp", repo=NORM, entries=[dict(name="normal_" + n, mode="real") for n in ("1", "1_kl", "m1", "m2", "m2_dynamic", "m3", "m2_kl")])],
    bounds="one dimension: histories of 2 (thorough 3) operations with any reals; two dimensions: any matrix, symmetric or not, any mean and point; three dimensions: any positive definite matrix; exact arithmetic, log, exp and erf uninterpreted with their basic laws",
    outside="rounding; NaN; samples (see P21)")

FUN = [IC + "functions/" + x + ".cpp" for x in ("IncompleteGammaPFunction", "IncompleteGammaQFunction", "LogFactorialFunction", "LogGammaFunction")]
CHECKS["P19"] = dict(units=[dict(src="gamma.cpp", repo=STAT + FUN + [IC + "statistics/ChiSquareDistribution.cpp"], entries=[dict(name=n, mode="real") for n in ("gamma_history", "gamma_density", "gamma_default", "gamma_kl", "gamma_int", "chi_square")])],
    bounds="histories of 2 (thorough 3) operations with any real parameters; any real points and probabilities (below one); integer shapes in [-2, 4]; exact arithmetic, log, exp, log-gamma, digamma and the regularized incomplete gamma function and its inverse uninterpreted with their basic laws",
    outside="rounding; NaN; the numerical quality of boost's functions; samples (see P21)")
CHECKS["P22"] = dict(units=[dict(src="functions.cpp", repo=SER + FUN, entries=[dict(name=n, mode="real") for n in ("log_factorial", "log_gamma_integer", "log_gamma_multivariate", "log_gamma_multivariate_int", "digamma", "incomplete_gamma")])],
    bounds="integers up to 12 (thorough 40), dimensions up to 5 (thorough 8), all real arguments of the domain (exact arithmetic; lgamma, digamma and gamma_p uninterpreted, with their shift recurrences)",
    outside="rounding; NaN; the numerical quality of boost's and libm's functions")

CHECKS["P20"] = dict(units=[dict(src="estimatorml.cpp", repo=NORM + [IC + "statistics/EstimatorMLNormal1v.cpp"], entries=[dict(name=n, mode="real") for n in ("ml_1", "ml_1_more", "ml_2", "ml_2_points")])],
    bounds="one dimension: any 2 operations (points, containers, weighted batches of up to 3 points, reset, copies) and up to 3 (thorough 4) points with any real values and non-negative weights, plus histories of 6 fixed operations; two dimensions: batches of up to 3 and sequences of 4 points with one or two free coordinates; exact arithmetic",
    outside="rounding (whether nearly collinear points count as collinear); NaN; negative weights")

CHECKS["P21"] = dict(units=[dict(src="randomizer.cpp", repo=NORM + FUN + [IC + "statistics/ChiSquareDistribution.cpp"], entries=[dict(name=n, mode="real") for n in ("uniform_real", "uniform_int", "normal_real", "normal_int", "categorical_3", "categorical_dynamic", "poisson", "exponential", "geometric", "geometric_small", "gamma", "gamma_negative", "distributions", "seeding")]
    + [dict(name=n, mode="ieee") for n in ("uniform_ieee", "uniform_ieee_float", "uniform_int_wide", "categorical_ieee")])],
    bounds="any generator output (exact arithmetic, and IEEE for the uniform and categorical samplers); one rejection; categorical distributions of up to 3 categories (thorough 4); normal samples of up to 3 dimensions; Poisson samples up to 3 (thorough 5), gamma shapes up to 3; integer ranges of up to 4 (thorough 6) values at five places including both ends of the type (exact), and of up to the whole type (IEEE); geometric probabilities between 0.001 and 0.999 and the extreme ones", outside="the statistical quality of random() itself; endless sequences of rejected outputs; rounding except where said")
CHECKS["P23"] = dict(units=[dict(src="timestamp.cpp", repo=SER + [IC + "base/Timestamp.cpp"], entries=[dict(name="timestamp_clock", mode="real"), dict(name="timestamp_timespec", mode="real")]
    + [dict(name="timestamp_" + n, mode="ieee") for n in ("timespec_ieee", "order", "arithmetic")])],
    bounds="all IEEE doubles for comparisons and arithmetic (NaN and infinities included); all times between -4e9 and 4e9 seconds for the conversions; all clock readings between 1970 and 2100",
    outside="the calendar (localtime and strftime are stand-ins that record what they are given)")
LRF = "incremental_calibration_examples/incremental_calibration_examples_2dlrf/"
def _lrf(*names):
    return dict(src="lrf2d.cpp", repo=SER + [LRF + "src/2dlrf/ErrorTermMotion.cpp", LRF + "src/2dlrf/ErrorTermObservation.cpp", LRF + "src/2dlrf/utils.cpp"], inc=[LRF + "include"], stubs=["backend"], entries=[dict(name=n, mode="real") for n in names])


CHECKS["P25"] = dict(units=[_lrf("motion_error", "motion_jacobian", "observation_error", "observation_jacobian")],
    bounds="all real poses, landmarks, calibration parameters, inputs, measurements and positive time steps, with the landmark at least a centimetre from the sensor (exact arithmetic)", outside="rounding")
def _veh(car, *names):
    d = "incremental_calibration_examples/incremental_calibration_examples_" + ("car/" if car else "time_delay/")
    return dict(src="vehicle.cpp", repo=SER + [d + "src/error-terms/ErrorTerm%s.cpp" % x for x in (("Pose", "Wheel", "Steering", "Velocities") if car else ("Pose", "Wheel"))],
                inc=[d + "include"], flags=["-DCAR"] if car else [], stubs=["backend"], entries=[dict(name=n, mode="real") for n in names])
_POSE = ("wheel_error", "wheel_jacobian", "pose_error", "pose_jacobian")
CHECKS["P26"] = dict(units=[_veh(True, *(_POSE + ("steering_error", "steering_jacobian", "velocities"))), _veh(False, *_POSE)],
    bounds="all real velocities with a forward component of at least a millimetre per second for front wheels (either direction), any coefficients and measurements, all poses with a pitch off the vertical (exact arithmetic)", outside="rounding; the expressions the terms are given (stand-ins with the identity as their Jacobian)")
CHECKS["P27"] = dict(units=[_lrf("weight_motion", "weight_observation"), _veh(True, "weight_wheel", "weight_pose", "weight_steering", "weight_velocities"), _veh(False, "weight_wheel", "weight_pose")], bounds="all symmetric positive definite covariances of up to three dimensions (velocities: diagonal, thorough any); six dimensions: any variances in one (thorough three) orders and one covariance; constructions, setters, copies and assignments (exact arithmetic)", outside="covariance written through the non-const reference of getCovariance(); full covariances of six dimensions; rounding")

EX = "incremental_calibration_examples/incremental_calibration_examples_"
def _bq(d, flag):
    return dict(src="bestquat.cpp", repo=[EX + d + "/src/algo/bestQuat.cpp"], inc=[EX + d + "/include"], flags=flag, entries=[dict(name="best_quat", mode="real"), dict(name="best_quat_sequence", mode="real")])
CHECKS["P28"] = dict(units=[_bq("car", ["-DCAR"]), _bq("time_delay", []), _bq("egomotion_sensors", ["-DEGO"])],
    bounds="all quadruples of reals (exact arithmetic), single ones and sequences of four", outside="rounding of nearly orthogonal quaternions")
CHECKS["P30"] = dict(units=[dict(src="geodetic.cpp", repo=[EX + "car/src/geo/geodetic.cpp"], inc=[EX + "car/include"], stubs=["backend"], entries=[dict(name=n, mode="real") for n in ("wgs84", "frame_enu", "frame_ned")] + [dict(name="wgs84_known", mode="real")])],
    bounds="all real angles, altitudes and reference points (exact arithmetic); the ellipsoid is that of WGS 84 within a tenth of a millimetre or so (relative 1e-10)", outside="rounding; quaternions (a stand-in keeps the rotation)")
_P29 = _lrf("sine_path", "landmarks")
_P29["entries"].append(dict(name="sine_path_steps", mode="ieee"))
CHECKS["P29"] = dict(units=[_P29],
    bounds="paths of up to 4 (thorough 7) steps with any amplitude, frequency and positive time step, their number also for IEEE time steps and up to 8 (thorough 16) steps; up to 2 (thorough 3) poses and 2 landmarks with any reals (exact arithmetic)", outside="rounding of the inputs; no steps at all")
def _odo(d, src, flag):
    return dict(src="odometry.cpp", repo=CORE + [IC + "base/Serializable.cpp", EX + d + "/src/design-variables/" + src], inc=[EX + d + "/include"], stubs=["backend"], flags=flag, entries=[dict(name="odometry", mode="real"), dict(name="odometry_batch", mode="real")])
CHECKS["P33"] = dict(units=[_odo("car", "OdometryDesignVariables.cpp", ["-DCAR"]), _odo("time_delay", "OdometryDesignVariables.cpp", []), _odo("egomotion_sensors", "DesignVariables.cpp", ["-DEGO"])],
    bounds="all real parameter values and 32-bit delays, before and after any change of every value; up to 2 (thorough 3) sensors in three numberings (exact arithmetic)", outside="writing the variables to streams; duplicate sensor indices; rounding")

# ---- the calibrators of the examples; splines, expressions and the estimator
# are stand-ins (stubs/calib)
def _cal(d, entries, src="calibrator.cpp", flags=(), only=None):
    if only is None:
        only = {"car": ["algo/%s.cpp" % x for x in ("CarCalibrator", "CarCalibratorOptions", "OptimizationProblemSpline", "bestQuat")] + ["design-variables/OdometryDesignVariables.cpp"] + ["error-terms/ErrorTerm%s.cpp" % x for x in ("Pose", "Steering", "Velocities", "Wheel")],
                "time_delay": ["algo/%s.cpp" % x for x in ("Calibrator", "CalibratorOptions", "OptimizationProblemSpline", "bestQuat")] + ["design-variables/OdometryDesignVariables.cpp", "error-terms/ErrorTermPose.cpp", "error-terms/ErrorTermWheel.cpp"],
                "egomotion_sensors": ["algo/%s.cpp" % x for x in ("Calibrator", "CalibratorOptions", "OptimizationProblemSpline", "bestQuat")] + ["design-variables/DesignVariables.cpp"]}[d]
    flag = {"car": ["-DCAR"], "time_delay": ["-DTIME_DELAY"], "egomotion_sensors": ["-DEGO"]}[d]
    return dict(src=src, repo=SER + [IC + "base/Timestamp.cpp"] + CORE[len(EXC):] + [EX + d + "/src/" + x for x in only], inc=[EX + d + "/include"], flags=flag, stubs=["calib", "backend"], entries=[dict(name=e, mode="real") for e in entries])


_CALSTAND = "the real splines, expressions and optimizer (aslam_splines, bsplines, aslam_backend), which are not installed: stand-ins with the same interfaces give the fitted trajectory any pose and velocity varying with time; rounding"
def _spl(d):
    return _cal(d, ["spline_problem"], "splines.cpp", only=["algo/OptimizationProblemSpline.cpp"])
def _ego(e):
    return _cal("egomotion_sensors", [e], "egomotion.cpp")
def _opts(d, src):
    u = _cal(d, [], "calib_options.cpp", only=["algo/" + src])
    u.update(repo=u["repo"][-1:], stubs=["backend"], entries=[dict(name="options", mode="ieee")])
    return u


CHECKS["P34"] = dict(units=[_spl("car"), _spl("time_delay"), _spl("egomotion_sensors")],
    bounds="sequences of 2 (thorough 3) additions (of splines of one or two, thorough up to three, control points, active or not, plain variables, a spline once more) in any of three groups; any real parameters", outside="the splines themselves (stand-ins whose control points are ordinary variables)")
CHECKS["P36"] = dict(units=[_cal("car", ["windows", "pose_windows"]), _cal("time_delay", ["windows", "pose_windows"]), _ego("ego_windows")],
    bounds="sequences of 4 (thorough 5) measurements at any times with steps of up to 100 s, or of 5 (6) poses with a request or dropped measurements anywhere among them (otherwise at the end), any window duration of more than a millisecond; the pose (reference) sensor and one other sensor at a time (time delay: two), any outcome of the optimizer; time delays and their bound zero, a trajectory that drives straight on (exact arithmetic)", outside=_CALSTAND)
CHECKS["P38"] = dict(units=[_cal("car", ["terms"]), _cal("time_delay", ["terms"]), _ego("ego_terms")],
    bounds="windows of 2 (thorough 3) poses or reference motions and one measurement (two motions) of one other sensor; any measured values, time steps of up to 100 s, delays and bounds of up to a second, calibration before and after any change, any trajectory (sensors with a speed limit: any velocities, rotation fixed; exact arithmetic)", outside=_CALSTAND)
CHECKS["P39"] = dict(units=[_cal("car", ["predict"]), _cal("time_delay", ["predict"]), _ego("ego_predict")],
    bounds="as for P38, predicted once or twice with a change of the calibration between", outside=_CALSTAND)
CHECKS["P40"] = dict(units=[_opts("car", "CarCalibratorOptions.cpp"), _opts("time_delay", "CalibratorOptions.cpp"), _opts("egomotion_sensors", "CalibratorOptions.cpp")],
    bounds="all option values (IEEE doubles, 32-bit integers), at most one option absent", outside="parsing of configuration files")


# ---- the camera calibrator and validator; aslam cameras, OpenCV, target
# detection and the estimator are stand-ins (stubs/camera)
def _cam(src, *modes):
    d = EX + "camera/"
    return dict(src="camera.cpp" if src == "CameraCalibrator" else "camera_validator.cpp",
                repo=SER + [IC + "base/Timestamp.cpp"] + INC[3:] + [IC + "statistics/NormalDistribution1v.cpp", d + "src/camera/%s.cpp" % src],
                inc=[d + "include"], stubs=["camera", "calib", "backend"], entries=[dict(name=n, mode=m) for n, m in modes])


_CAMSTAND = "camera models, target detection, reprojection errors and image drawing (aslam_cv, OpenCV), which are not installed: stand-ins with the same interfaces return any detection, projection and error"
CHECKS["P41"] = dict(units=[_cam("CameraCalibrator", ("camera_batches", "real"), ("camera_options", "ieee"))],
    bounds="sequences of 4 (thorough 5) images with or without a target of two corners, either visible or not, batches of 1 or 2 (thorough up to 3) images, batch handed over on request before the first or last image, accepted or not; any poses, corners, pixels, variance and timestamps; all option values with at most one absent", outside=_CAMSTAND + "; handing over an empty batch after the first image")
CHECKS["P42"] = dict(units=[_cam("CameraCalibrator", ("camera_results", "real"), ("camera_statistics", "real"))],
    bounds="any intrinsics, marginal covariance, bases, singular values and costs; up to 4 reprojection errors in two batches, one coordinate of them any real number and any weighted squares (exact arithmetic)", outside=_CAMSTAND + "; errors nearly on a line (determinant of the covariance below 1e-6 but not zero by construction); writing a calibration file before any batch was accepted")
CHECKS["P43"] = dict(units=[_cam("CameraValidator", ("validator_errors", "real"), ("validator_statistics", "real"), ("validator_image", "real"), ("validator_options", "ieee"))],
    bounds="2 (thorough 3) images of two corners, each visible or not, found or not, projectable or not, with any poses and corners and one coordinate of a prediction and an observation any real number; up to 3 (thorough 4) errors with one free coordinate; all option values with at most one absent", outside=_CAMSTAND + "; the text drawn into the image; errors nearly on a line")

VIS = "incremental_calibration_vision/"
CHECKS["P37"] = dict(units=[dict(src="vision.cpp", repo=CORE + [VIS + "src/vision/VisionDataAssociation.cpp"], inc=[VIS + "include"], stubs=["vision", "backend"], entries=[dict(name="vision_keyframes", mode="real")])],
    bounds="histories of 3 (thorough 4) images, complete or not, with at most one reset, of 1 or 2 cameras with up to 3 tracks, displaced by any real number along one axis; all non-negative disparity thresholds, track thresholds 0 and 1 (thorough 0 to 2)",
    outside="pipeline, tracker and stereo matcher (aslam_cv), which are not installed: stand-ins return the matches; negative thresholds; the empty addToProblem")


def _sim(d, src, more, *names):
    return dict(src=src, repo=SER + [IC + "base/Timestamp.cpp", IC + "statistics/NormalDistribution1v.cpp"] + [d + "src/simulation/%s.cpp" % f for f in ("simulationEngine", "SimulationParams", "TrajectoryParams")] + [d + "src/" + m for m in more],
                inc=[d + "include"], stubs=["sim", "backend"], entries=[dict(name=n, mode="real") for n in names])


_SIM = "rounding; the accumulation of the time steps beyond them; quaternions, transformations and splines (sm_kinematics, bsplines), which are not installed: stand-ins with the same conventions; writing the results to files"
CHECKS["P44"] = dict(units=[_sim(EX + "time_delay/", "sim_td.cpp", [], "sim_motion", "sim_sine", "sim_wheel", "sim_data", "sim_params")],
    bounds="3 (thorough 4) steps of 0.25 or 0.5 s; at a time either the wave, or the initial and mounting pose, or the variances of position or orientation are any real numbers, together with all scales, wheel bases, delays in whole milliseconds up to 2 s, and positions; every option absent in turn", outside=_SIM)
CHECKS["P45"] = dict(units=[_sim(EX + "egomotion_sensors/", "sim_ego.cpp", ["algo/bestQuat.cpp"], "sim_motion", "sim_sine", "sim_trajectory", "sim_data", "sim_params")],
    bounds="trajectories of 2 or 3 (thorough 4; combined: 5) steps of all four kinds, with any amplitude and frequency in planar ones; sensor data of 2 steps for a reference and 2 sensors with at a time one mounting, one pose of the spline or one variance any real numbers, and any delays; configurations of up to 3 sensors with every option absent in turn", outside=_SIM)


# ---- whole programs: main() with records, files and calibrators as stand-ins
# (stubs/app)
def _carapp(flags):
    d = EX + "car/"
    return dict(src="car_app.cpp", repo=SER + [IC + "base/Timestamp.cpp", d + "src/geo/geodetic.cpp", d + "src/algo/CarCalibratorOptions.cpp"],
                inc=[d + "include", d + "src"], flags=flags, stubs=["app", "calib", "backend"], entries=[dict(name=n, mode="real") for n in ("usage", "messages", "results")])


CHECKS["P46"] = dict(units=[_carapp([]), _carapp(["-DANALYZER"])],
    bounds="records of 3 (thorough 4) messages, each of any of six kinds with any contents (exact arithmetic), every sensor in use or not; up to 2 (thorough 3) predictions or batches with any values; up to 4 arguments", outside="rounding; ROS bags, clocks' models, rotations' parametrization and the calibrator itself (P36, P38, P39): stand-ins with the same interfaces; the text of numbers in files; splinesToFile.cpp")


def _lrfapp(flags, extra):
    return dict(src="lrf_app.cpp", repo=SER + [IC + "base/Timestamp.cpp", IC + "core/OptimizationProblem.cpp", IC + "core/IncrementalOptimizationProblem.cpp", IC + "statistics/NormalDistribution1v.cpp"] + [LRF + "src/2dlrf/%s.cpp" % f for f in ("utils", "ErrorTermMotion", "ErrorTermObservation")] + extra,
                inc=[LRF + "include", LRF + "src", "aslam_tsvd_solver/include"], flags=flags, stubs=["lrf", "app", "backend"], entries=[dict(name=n, mode="real") for n in ("usage", "simulation")])


CHECKS["P47"] = dict(units=[_lrfapp([], []), _lrfapp(["-DOFFLINE"], ["aslam_tsvd_solver/src/aslam-tsvd-solver.cc"])],
    bounds="2 to 4 (thorough 5) states, 1 or 2 landmarks anywhere, batches of 1 to 4 states accepted or not with any estimates (at least one accepted); at a time the wave and the time step, or the initial state, or the mounting, or the noise any real numbers, together with any ground and any guess of the mounting; up to 4 arguments", outside="rounding; runs in which no batch is accepted (they end in an exception when the states are read back); headings aligned with the truth; the standard normal sample (a constant, P21) and angles' normalization (sm_kinematics, a stand-in); the estimator and solver themselves (P05 to P14); simulate-online.cpp, whose 5000 steps are written into the program")

def _simapp(d, flag, *names):
    v = EX + d + "/"
    more = ["src/simulation/SimulationData.cpp", "src/simulation/Trajectory.cpp"] if flag == "-DTD" else []
    return dict(src="sim_app.cpp", repo=SER + [IC + "base/Timestamp.cpp", IC + "core/OptimizationProblem.cpp", IC + "core/IncrementalOptimizationProblem.cpp"] + [v + f for f in ["src/algo/splinesToFile.cpp", "src/algo/OptimizationProblemSpline.cpp"] + more],
                inc=[v + "include", v + "src"], flags=[flag], stubs=["simapp", "app", "sim", "calib", "backend"], entries=[dict(name=n, mode="real") for n in names])


CHECKS["P48"] = dict(units=[_simapp("time_delay", "-DTD", "usage", "simulation", "trajectories"), _simapp("egomotion_sensors", "-DEGO", "usage", "simulation", "trajectories"), _simapp("car", "-DCAR", "trajectories")],
    bounds="1 to 3 (thorough 4) simulated steps with any poses, velocities, measurements, covariances and times, 1 to 3 sensors, any of them the reference; histories of up to 2 batches with any values; estimates of up to 3 splines over 0 or 0.6 s (thorough 1.2 s), in up to 2 batches, with any start and any values, sampled at any step of whole milliseconds from 150 (thorough 100) up to 1000; up to 4 arguments", outside="the simulation itself (P44, P45), the calibrators (P36, P38) and splines: stand-ins; the text of numbers in files")

"""The list of properties; tools/gen.py writes properties.jsonl and MANIFEST.json from it."""
I = "incremental_calibration/include/aslam/calibration/"
S = "incremental_calibration/src/"
X = "incremental_calibration_examples/incremental_calibration_examples_"
P = {}


def prop(id, title, statement, over, text, why, files, mech, observe=None):
    P[id] = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                 anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or []))


EST = [S + "core/IncrementalEstimator.cpp", I + "core/IncrementalEstimator.h"]
INC = [S + "core/IncrementalOptimizationProblem.cpp", I + "core/IncrementalOptimizationProblem.h"]
OPT = [S + "core/OptimizationProblem.cpp", I + "core/OptimizationProblem.h"]

prop("P01", "A rejected batch leaves no trace, an accepted batch is in",
     "When the estimator rejects a measurement batch, every calibration parameter and state variable, the set and order of batches, variables, groups and error terms, and every published statistic are what they were before the batch was offered, and the solver is laid out again for the remaining batches. When it accepts the batch, the batch is appended, the variables keep the optimised values, and every published statistic (gain, ranks, tolerances, bases, covariances, singular values, costs, memory) is that of the new solution. A forced batch is always accepted.",
     ["inputs", "histories"], "all batch contents over shared and new variables in several groups, all optimizer and decomposition outcomes, scaled or unscaled, on an empty or populated estimator",
     "The estimator has no test at all and is not even built by the baseline; the guarantee quantifies over every outcome of the optimizer and every previous history.",
     EST + INC, [("save, decide, restore, remove, rebuild", S + "core/IncrementalEstimator.cpp: addBatch, restoreLinearSolver"), ("save and restore of parameters", S + "core/IncrementalOptimizationProblem.cpp: saveDesignVariables, restoreDesignVariables")],
     ["return value of adding a batch, accessors of the estimator, values of the design variables"])
prop("P02", "A batch is kept exactly when it is forced, or valid and informative",
     "A batch is kept if and only if it is forced, or its solution is valid and either its information gain exceeds the configured threshold or the numerical rank of the calibration parameters goes up. The gain is half the difference between the log2 sums of singular values of the new solution and of the last kept one (zero before the first), and the rank is compared with that of the last kept one. With validity checking on, a solution is invalid if and only if the optimizer used its maximum number of iterations or the cost did not go down.",
     ["inputs", "histories", "configurations"], "all thresholds, costs, iteration counts, iteration limits, ranks and singular value sums (IEEE doubles, infinities and NaN included), all sequences of up to three batches",
     "No test covers the decision; boundary cases (equal gain, equal cost, NaN gain, rank going down) are a handful of points in a continuous space.",
     EST, [("acceptance test", S + "core/IncrementalEstimator.cpp: addBatch")], ["return value of adding a batch, number of batches"])
prop("P03", "The marginalized group is always last and the boundary always matches",
     "Whenever the optimizer runs, the marginalized group is the last in the variable ordering and the marginalization boundary given to the solver equals the total dimension of the active variables of all other groups. After every addition, rejection and removal that leaves batches, the solver's columns are exactly the active variables of the problem in order, with consecutive block indices and cumulative column offsets, its rows are the error terms in order with cumulative row offsets, and the system has been rebuilt for that layout.",
     ["inputs", "histories"], "all activity patterns of the variables, batches introducing the marginalized group first, last or between other groups, accepted and rejected batches",
     "No test runs the estimator; the boundary depends on orderings and activity flags that vary with the history.",
     EST + INC, [("ordering of the marginalized group", S + "core/IncrementalEstimator.cpp: orderMarginalizedDesignVariables"), ("boundary", S + "core/IncrementalEstimator.cpp: addBatch, reoptimize"), ("layout", S + "core/IncrementalEstimator.cpp: restoreLinearSolver")],
     ["solver's marginalization index, block indices, column and row bases"])
prop("P04", "Re-optimizing and removing a batch leave the estimator consistent",
     "Re-optimizing keeps the batches, reports zero information gain and publishes every statistic of the new solution, and later gains and ranks are relative to it. Removing a batch by position or by identity removes exactly that batch, re-optimizes the rest and publishes the new statistics; an unknown batch or a position out of range changes nothing. Removing the only batch leaves an empty estimator.",
     ["inputs", "histories"], "all positions, batches with shared variables and groups, all optimizer and decomposition outcomes",
     "No test runs these operations.",
     EST + INC, [("re-optimization", S + "core/IncrementalEstimator.cpp: reoptimize"), ("removal", S + "core/IncrementalEstimator.cpp: removeBatch")])
prop("P05", "An optimization problem is a consistent set of variables and error terms",
     "A problem contains exactly the variables and error terms added since it was created or cleared: null or duplicate ones are rejected, an error term is accepted only when all its variables are present, and a refused operation changes nothing. Variables are enumerated group after group in the current group order and error terms in their current order, and counts, membership tests, group lookups, group dimensions (active variables only) and the terms of a variable agree with that; indices past the end and unknown groups are rejected.",
     ["inputs", "histories"], "all problems over three variables, two groups and three error terms, any activity pattern, followed by any operation; all short histories of operations",
     "The only test (not built by the baseline) is one fixed sequence.",
     OPT, [("additions", S + "core/OptimizationProblem.cpp: addDesignVariable, addErrorTerm"), ("enumeration", S + "core/OptimizationProblem.cpp: getGroupId, designVariableImplementation")])
prop("P06", "The incremental problem is exactly the union of its batches",
     "After any sequence of additions, removals (by position, iterator or identity) and clearing, the incremental problem contains a variable if and only if at least one contained batch uses it, once, in the group the batches put it in, and an error term if and only if its batch is contained. Enumeration goes group by group and batch by batch, and counts, lookups, group lists, group dimensions (active variables only) and group order agree with it; a group disappears with its last variable. Positions past the end and unknown batches or groups are rejected.",
     ["inputs", "histories"], "all contents of up to three batches over three shared variables in two groups, all histories of up to four operations",
     "The only test (not built by the baseline) is one fixed sequence with one removal.",
     INC, [("reference counts", S + "core/IncrementalOptimizationProblem.cpp: add, remove"), ("index mapping", S + "core/IncrementalOptimizationProblem.cpp: getGroupId, getErrorIdx")])
prop("P07", "A refused batch changes nothing",
     "A batch that is null, puts a known variable into another group, contains an error term that is already present, or leaves the estimator without the marginalized group is refused with an exception, and the incremental problem and the estimator (batches, variables, counts, groups, order, parameter values, statistics) are exactly as before, so that later additions and removals behave as if it had never been offered.",
     ["inputs", "histories", "fault_sequences"], "all contents of the batches and all positions of the offending variable or error term, on an empty or populated problem",
     "No test offers an inconsistent batch.",
     INC + EST, [("checks before changes", S + "core/IncrementalOptimizationProblem.cpp: add"), ("roll-back", S + "core/IncrementalEstimator.cpp: addBatch")])
prop("P08", "Restoring brings back exactly the saved values",
     "Restoring sets every variable that has been saved and is still part of the problem to its value at the last save, and touches no other variable: not those added after the save, nor those removed from the problem, nor any after clearing.",
     ["inputs", "histories"], "all values (IEEE doubles), all histories of up to five saves, changes, restores, additions, removals and clears",
     "The only test (not built by the baseline) saves and restores one variable once.",
     INC + OPT, [("backup", S + "core/IncrementalOptimizationProblem.cpp: saveDesignVariables, restoreDesignVariables, remove, clear"), ("backup", S + "core/OptimizationProblem.cpp: saveDesignVariables, restoreDesignVariables")])
prop("P09", "Reordering never loses or duplicates anything",
     "Setting the group order of an incremental problem is accepted if and only if it is a permutation of the present groups, and permuting batches or the variables of a group if and only if the index vector is a permutation of the right length and the group exists. The elements then appear in the requested order with everything else unchanged; a refused reordering changes nothing, and later additions and removals keep working on the new order.",
     ["inputs", "histories"], "all index vectors and group orders of up to three entries, valid or not, on all contents of two batches, followed by additions and removals",
     "The only test (not built by the baseline) tries one swap and three invalid orders.",
     INC, [("validation", S + "core/IncrementalOptimizationProblem.cpp: setGroupsOrdering, permuteDesignVariables, permuteOptimizationProblems"), ("permutation", I + "algorithms/permute.tpp")])
prop("P10", "A vector design variable behaves as a vector space element",
     "Updating a vector design variable adds the given step component by component, reverting brings back the exact value before the last update, setting and getting parameters round-trip exactly, the dimension equals the vector's length, and parameters of the wrong size are rejected without changing the variable. Copies and assignments carry the value (and its undo state) and are independent of the original afterwards.",
     ["inputs", "histories"], "all values and steps, fixed and dynamic dimensions up to four, all short histories of operations",
     "The only test (not built by the baseline) uses ones and zeros and never updates or reverts.",
     [I + "data-structures/VectorDesignVariable.h", I + "data-structures/VectorDesignVariable.tpp"], [("update and undo", I + "data-structures/VectorDesignVariable.tpp: updateImplementation, revertUpdateImplementation")])
prop("P11", "Permuting a container applies exactly the given permutation",
     "Permuting a container with an index vector puts at every position the element that the index vector names, losing and duplicating nothing. An index vector of the wrong length, with an index out of range (negative ones included) or with a repeated index is rejected with an exception before the container is changed.",
     ["inputs"], "all containers of up to five elements and all index vectors, valid or not",
     "One test samples one permutation of one vector.",
     [I + "algorithms/permute.tpp"], [("validation and permutation", I + "algorithms/permute.tpp: permute")])
prop("P12", "The log-determinant sum covers exactly the given diagonal block",
     "The sum of log2 absolute diagonal entries of a factor R over an index range equals the sum over exactly the columns from the first to the last index, both included. Index pairs that are reversed or reach outside the matrix are rejected with an exception.",
     ["inputs"], "all matrices up to 4x4 with arbitrary entries and all index pairs, 64-bit extremes included",
     "One test samples one matrix and one index pair.",
     [I + "algorithms/matrixOperations.tpp"], [("sum", I + "algorithms/matrixOperations.tpp")])
prop("P13", "The solver wrapper hands over the right system and releases everything",
     "Solving and marginal analysis hand the decomposition the transposed view of the current Jacobian, the error vector and the current marginalization boundary, return the resulting step, report failure exactly when the matrix cannot be formed, and release every temporary matrix in either case. A new matrix structure drops all earlier results and has the size of the given variables and error terms, and the system is built with the requested threads and robust weighting.",
     ["inputs", "fault_sequences"], "all boundaries, steps, thread counts, structure sizes and results, with and without allocation failure",
     "Neither the wrapper nor any test of it is built by the baseline.",
     ["aslam_tsvd_solver/src/aslam-tsvd-solver.cc", "aslam_tsvd_solver/include/aslam-tsvd-solver/aslam-tsvd-solver.h"], [("delegation", "aslam_tsvd_solver/src/aslam-tsvd-solver.cc: solveSystem, analyzeMarginal, initMatrixStructureImplementation")])
prop("P14", "Rigid transformations form a group acting on points",
     "For 2-D and 3-D transformations, applying a composition equals applying its factors in turn, a transformation followed by its inverse is the identity, and angles, translations and matrices given to a transformation are the ones read back and the ones applied to points. Every way of setting a transformation (constructor, matrix, rotation, translation, composition, inversion, copying) leaves rotation, translation and matrix in agreement.",
     ["inputs"], "all real angles, translations and points",
     "No test covers transformations; algebraic laws over continuous inputs cannot be sampled exhaustively.",
     [I + "geometry/Transformation2d.tpp", I + "geometry/Transformation3d.tpp"], [("matrix, rotation and translation", I + "geometry/Transformation3d.tpp"), ("inverse and composition", I + "geometry/Transformation2d.tpp")])
prop("P15", "A grid maps every point of its range to the one cell containing it",
     "A grid has the smallest number of cells that covers its range, a point is accepted if and only if it lies in the range, and it is mapped to the cell whose bounds contain it; cell centres map back to their cell. Index validity, linear indexing and iteration visit every cell exactly once, out-of-range points and indices (negative ones included) are rejected with an exception, and bad parameters (reversed or empty range, non-positive or too large resolution) are rejected at construction.",
     ["inputs"], "all real ranges, resolutions and points, all 32-bit index vectors, one to three dimensions, up to four cells per dimension; single-precision rounding included",
     "No test covers grids.",
     [I + "data-structures/Grid.tpp"], [("index computation", I + "data-structures/Grid.tpp: getIndex, computeLinearIndex, isInRange, isValidIndex")])
prop("P16", "A histogram counts every sample once and its moments are those of its bins",
     "Adding a sample inside the range increments exactly the bin containing it, and a sample outside the range changes nothing. Sum, mean, mode (first fullest bin in the order in which the grid visits its cells), median (first bin reaching half of the total), variance and covariance are the statistics of the bin centres weighted by the counts, and normalizing divides every count by the total and changes nothing else.",
     ["inputs", "histories"], "all bin counts and samples, one and two dimensions, up to four bins per dimension",
     "No test covers histograms.",
     [I + "statistics/Histogram1v.tpp", I + "statistics/HistogramMv.tpp"], [("counting", I + "statistics/Histogram1v.tpp: addSample"), ("moments", I + "statistics/HistogramMv.tpp")])
prop("P17", "A uniform distribution is uniform on its support",
     "The density (or probability) of a uniform distribution is the reciprocal of the size of its support inside the support (bounds included) and zero outside. Mean and median are the middle of the support and variance or covariance is that of independent uniform components. A support whose lower bound is not below its upper bound is rejected without changing the distribution.",
     ["inputs"], "all real and integer supports and points (integers up to the bound), one to three dimensions",
     "No test covers distributions.",
     [I + "statistics/UniformDistribution1v.tpp", I + "statistics/UniformDistributionMv.tpp"], [("moments", I + "statistics/UniformDistribution1v.tpp: getMean, getMedian, getVariance"), ("moments", I + "statistics/UniformDistributionMv.tpp")])
prop("P18", "A normal distribution's derived quantities always match its parameters",
     "After any sequence of construction, setting parameters, copying and assignment, precision, standard deviation, determinant, normalizer, density, log-density, squared Mahalanobis distance and Kullback-Leibler divergence of a normal distribution are those of its current mean and (co)variance; mean, median and mode coincide. A variance that is not positive, and a covariance that is not symmetric positive definite, is rejected with an exception and leaves the distribution as it was.",
     ["inputs", "histories"], "all means, variances, symmetric and non-symmetric covariances and points, one to three dimensions, all short histories of setters",
     "No test covers distributions.",
     [S + "statistics/NormalDistribution1v.cpp", I + "statistics/NormalDistributionMv.tpp"], [("derived members", I + "statistics/NormalDistributionMv.tpp: setCovariance"), ("derived members", S + "statistics/NormalDistribution1v.cpp: setVariance")])
prop("P19", "Gamma and chi-square distributions are consistent with their parameters",
     "Density, log-density, cumulative probability, mean, mode, variance and divergence of a gamma distribution are those of its current shape and inverse scale, whatever sequence of setters produced them, and shape and inverse scale that are not positive are rejected without changing the distribution. A chi-square distribution with k degrees of freedom is the gamma distribution with shape k/2 and inverse scale 1/2.",
     ["inputs", "histories"], "all positive and non-positive parameters and all points",
     "No test covers distributions.",
     [I + "statistics/GammaDistribution.tpp", S + "statistics/ChiSquareDistribution.cpp"], [("parameters and normalizer", I + "statistics/GammaDistribution.tpp")])
prop("P20", "The maximum-likelihood estimators give the sample mean and (weighted) variance",
     "Feeding points to an estimator, one by one or as a container, gives the sample mean and sample (co)variance of all the points fed since the last reset, and for weighted batches the responsibility-weighted mean and (co)variance. The estimate is reported valid exactly when it is defined (some weight, positive definite (co)variance). After a reset no point counts, no estimate is valid, and later estimates do not depend on earlier points.",
     ["inputs", "histories"], "all real points and weights, up to four points, one and two dimensions",
     "No test covers estimators.",
     [S + "statistics/EstimatorMLNormal1v.cpp", I + "statistics/EstimatorMLNormalMv.tpp"], [("running moments", S + "statistics/EstimatorMLNormal1v.cpp: addPoint, addPoints")])
prop("P21", "Random samples follow the requested distribution and lie in its support",
     "For every value the underlying generator may return, a uniform sample lies within the requested bounds, normal, exponential, gamma and other continuous samples are finite and in their support, and discrete samples (categorical, geometric, Poisson, integer uniform) have positive probability and lie in range. Every sampler turns the generator output into its distribution: inverse transforms for uniform, exponential, geometric and categorical samples, the polar method for normal ones, and integers in a range are equally likely; samples drawn through a distribution object are those of its current parameters. Sampling always ends when the generator output does not stay in a rejected region, and the seed is handed to the generator. Parameters outside a sampler's domain are rejected with an exception.",
     ["inputs"], "all generator outputs (bounded number of rejections) and all parameters in the domain",
     "No test covers sampling, and rare generator outputs (0 or the maximum) are practically never drawn.",
     [I + "statistics/Randomizer.tpp", I + "statistics/NormalDistributionMv.tpp", I + "statistics/UniformDistribution1v.tpp"], [("samplers", I + "statistics/Randomizer.tpp")])
prop("P22", "Special functions satisfy their defining recurrences and reject bad arguments",
     "The log-factorial of n is the sum of the logarithms up to n, log-gamma at positive integers and half-integers and its multivariate version satisfy their recurrences, digamma satisfies its shift recurrence, and the lower and upper regularized incomplete gamma functions add up to one. The log-gamma function of the integer zero is rejected with an exception.",
     ["inputs"], "all integers and dimensions within the bounds, all real arguments of the exact reductions",
     "No test covers functions.",
     [I + "functions/LogGammaFunction.tpp", S + "functions/LogFactorialFunction.cpp", S + "functions/LogGammaFunction.cpp", I + "functions/DigammaFunction.tpp", S + "functions/IncompleteGammaPFunction.cpp", S + "functions/IncompleteGammaQFunction.cpp"],
     [("recurrences", I + "functions/LogGammaFunction.tpp")])
prop("P23", "Timestamps convert and compare consistently",
     "A timestamp reports the seconds and nanoseconds of the time it holds, arithmetic with seconds is that of the real line up to the clock's resolution, and comparisons agree with the represented times. Reading the clock returns the system's time in seconds with its fraction, and the date reported is the one of the seconds held.",
     ["inputs"], "all representable times within the bounds, negative ones included, all clock readings",
     "No test covers timestamps.",
     [S + "base/Timestamp.cpp", I + "base/Timestamp.h"], [("conversion", S + "base/Timestamp.cpp")])
prop("P25", "2-D laser example: errors and Jacobians agree with the models",
     "In the 2-D laser rangefinder example, the motion and observation error terms vanish exactly when the states match the motion model and the measurement matches the predicted range and bearing, the bearing error is wrapped to one turn, and the analytic Jacobian with respect to every design variable is the exact derivative of the error.",
     ["inputs"], "all real poses, landmarks, calibration parameters, inputs, measurements and time steps where the error is differentiable",
     "The tests (not built by the baseline) compare a numerical derivative at one point.",
     [X + "2dlrf/src/2dlrf/ErrorTermMotion.cpp", X + "2dlrf/src/2dlrf/ErrorTermObservation.cpp"], [("error and Jacobians", X + "2dlrf/src/2dlrf/ErrorTermObservation.cpp: evaluateErrorImplementation, evaluateJacobiansImplementation")])
prop("P26", "Vehicle examples: error terms' Jacobians are the derivatives of their errors",
     "In the car and time-delay examples, each wheel, steering, velocity and pose error term evaluates measurement minus model prediction, is zero when they agree, wraps angular components, and its analytic Jacobians with respect to every expression it depends on are the exact derivatives of that error, for both driving directions.",
     ["inputs"], "all real velocities, scale factors, measurements and configurations where the error is differentiable",
     "The tests (not built by the baseline) compare a numerical derivative at one random point.",
     [X + "car/src/error-terms/ErrorTermWheel.cpp", X + "car/src/error-terms/ErrorTermSteering.cpp", X + "car/src/error-terms/ErrorTermVelocities.cpp", X + "car/src/error-terms/ErrorTermPose.cpp", X + "time_delay/src/error-terms/ErrorTermWheel.cpp", X + "time_delay/src/error-terms/ErrorTermPose.cpp"],
     [("errors and Jacobians", X + "car/src/error-terms/ErrorTermWheel.cpp"), ("errors and Jacobians", X + "time_delay/src/error-terms/ErrorTermWheel.cpp")])
prop("P27", "Every error term is weighted by the inverse of its covariance",
     "The squared error reported by every measurement error term of the examples is the error weighted by the inverse of the covariance it was constructed with or last given, its accessors return exactly what was set, and copies and assignments are equivalent to the original.",
     ["inputs", "histories"], "all symmetric positive definite covariances of the terms' sizes (diagonal for the larger ones), all errors",
     "No test looks at the weights.",
     [X + "2dlrf/src/2dlrf/ErrorTermMotion.cpp", X + "car/src/error-terms/ErrorTermWheel.cpp", X + "time_delay/src/error-terms/ErrorTermWheel.cpp"], [("weights", X + "car/src/error-terms/ErrorTermWheel.cpp: setCovariance")])
prop("P28", "The best quaternion is the one closest in sign to the reference",
     "Given a sequence of equivalent quaternion representations, the one selected is the input or its negation, represents the same rotation, and is at least as close to the previous one as the other, in all three vehicle and sensor examples.",
     ["inputs"], "all quaternions with real components",
     "No test covers it.",
     [X + "car/src/algo/bestQuat.cpp", X + "time_delay/src/algo/bestQuat.cpp", X + "egomotion_sensors/src/algo/bestQuat.cpp"], [("choice", X + "car/src/algo/bestQuat.cpp")])
prop("P29", "2-D laser simulation produces the requested path, and landmarks start at their first sighting",
     "The inputs of the simulated sine path are exactly as many as the requested steps: a first one without motion, then at each step the forward speed (the mean along the curve over the step), no sideways motion, and the turning rate that brings the heading from that of the previous step to that of the curve. A landmark is initialized where its first positive range and the bearing measured with it, seen from the odometry pose and sensor calibration at that time, place it, and stays at the origin when it was never seen.",
     ["inputs"], "all amplitudes, frequencies and time steps, poses, calibrations and measurements, up to a bounded number of steps and landmarks",
     "No test covers the simulation.",
     [X + "2dlrf/src/2dlrf/utils.cpp"], [("path and landmarks", X + "2dlrf/src/2dlrf/utils.cpp")])
prop("P30", "Geodetic conversion follows the ellipsoid and local frames are orthonormal",
     "Converting geodetic (WGS 84) to Cartesian coordinates gives, for every latitude, longitude and height, the point at that height along the normal of the ellipsoid. The transformations between Cartesian and local east-north-up or north-east-down coordinates are rigid motions with axes along the named directions at the reference point, take the reference point to the local origin, and the two directions of each are inverses of each other.",
     ["inputs"], "all real latitudes, longitudes, heights and reference points",
     "No test covers it.",
     [X + "car/src/geo/geodetic.cpp"], [("conversion", X + "car/src/geo/geodetic.cpp")])
prop("P33", "The parameter vector lists every odometry parameter at its documented place",
     "The parameter vector of the odometry (and sensor) design variables of the examples contains the current value of every design variable exactly once, at the position documented for it, and values set from a configuration are the ones read back.",
     ["inputs", "configurations"], "all parameter values",
     "No test reads the parameter vector.",
     [X + "car/src/design-variables/OdometryDesignVariables.cpp", X + "time_delay/src/design-variables/OdometryDesignVariables.cpp", X + "egomotion_sensors/src/design-variables/DesignVariables.cpp"], [("parameter vector", X + "car/src/design-variables/OdometryDesignVariables.cpp: getParameters")])
prop("P34", "Spline problems treat a spline's control points like ordinary variables",
     "Adding a spline to a problem of the examples makes every control point of the spline an active variable of the given group exactly once, in order; the splines added stay alive with the problem and are available in the order added (an absent one is out of bounds), a spline added once more is refused, and its control points are saved and restored like any other variable.",
     ["inputs", "histories"], "all sequences of up to three translation splines, rotation splines and plain variables in any groups, with any number of control points up to a bound", "No test covers it.",
     [X + "car/src/algo/OptimizationProblemSpline.cpp", X + "time_delay/src/algo/OptimizationProblemSpline.cpp", X + "egomotion_sensors/src/algo/OptimizationProblemSpline.cpp"], [("addition", X + "car/src/algo/OptimizationProblemSpline.cpp: addSpline")])
prop("P35", "Estimator options come from the configuration, with documented defaults",
     "An estimator built from a configuration tree uses exactly the configured information gain threshold, validity check, verbosity, group to marginalize, solver and optimizer options, falls back to the documented default for each option that is absent, starts empty, and refuses a configuration without the group to marginalize.",
     ["configurations", "inputs"], "all option values and all subsets of present options",
     "No test builds an estimator from a configuration.",
     EST + ["aslam_tsvd_solver/src/aslam-tsvd-solver.cc"], [("parsing", S + "core/IncrementalEstimator.cpp: IncrementalEstimator(const sm::PropertyTree&)"), ("parsing", "aslam_tsvd_solver/src/aslam-tsvd-solver.cc: createTsvdOptionsFromPropertyTree")])
CAL = [X + "time_delay/src/algo/Calibrator.cpp", X + "car/src/algo/CarCalibrator.cpp", X + "egomotion_sensors/src/algo/Calibrator.cpp"]
prop("P36", "Windowed calibrators hand over every measurement exactly once",
     "A vehicle or sensor calibrator keeps the measurements it is given until the configured duration has passed since the window began (at the first measurement, later at the one that completed the previous window). Then, if they determine a trajectory (two poses, or one motion of the reference sensor), and also on request, it hands the estimator exactly one batch: the splines fitted to the poses (or motions) of the window in group 0, the calibration parameters in group 1 ordered last, and one error term (two for a pair of wheels) of every measurement within the splines, except that the first motion of each sensor in a window has none. The measurement that completes a window belongs to the next one, and nothing is kept, used twice or lost otherwise. The histories hold the initial calibration, then the calibration and information gain after every batch.",
     ["histories", "configurations"], "all sequences of up to four measurements (thorough five) of the pose or reference sensor and another sensor at any times, any window duration, with clearing or an explicit hand-over at the end, whatever the optimizer does", "No test covers the calibrators, which are not built by the baseline; when a window ends depends on the whole history of timestamps.",
     CAL, [("windowing", X + "time_delay/src/algo/Calibrator.cpp: addMeasurement, addMeasurements"), ("windowing", X + "car/src/algo/CarCalibrator.cpp: addMeasurement, addMeasurements"), ("windowing", X + "egomotion_sensors/src/algo/Calibrator.cpp: addMeasurement, addMeasurements")],
     ["batches given to the estimator, measurement accessors, histories"])
prop("P37", "Image data association records matches between identified key frames",
     "Every image goes to the configured pipeline. The first complete multi-camera frame is the reference; each later complete frame is tracked against the reference, camera by camera. It becomes a key frame, and the new reference, exactly if it has more tracks than the configured threshold and the (upper) median displacement of its tracks exceeds the configured disparity; with too few tracks it replaces the reference without recording anything, otherwise the reference stays. For a key frame the tracks and the stereo matches between all pairs of its cameras are recorded, in that order; every recorded match names the observations it was found between by the identifiers of frames that are kept under exactly these identifiers, and identifiers of kept frames differ. A reset forgets reference, frames and matches.",
     ["inputs", "histories"], "all displacements and disparity thresholds, all histories of images, tracks and resets within the bound", "No test covers it and the package is not built; wrong pairs or identifiers only show in particular histories.",
     ["incremental_calibration_vision/src/vision/VisionDataAssociation.cpp"], [("data association", "incremental_calibration_vision/src/vision/VisionDataAssociation.cpp"), ("state", "incremental_calibration_vision/include/aslam/calibration/vision/VisionDataAssociation.hpp")])
prop("P38", "Every measurement is modelled by its calibrated sensor on the trajectory",
     "In the batch of a window, the error term of each measurement has the residual of the sensor model at the trajectory's pose, velocity and angular rate at the time of the measurement shifted by the sensor's time delay (added for the vehicles' sensors, subtracted for motion sensors), with the wheel, steering or sensor position, scale and mounting taken from the current calibration also after the calibration has changed, and is weighted with the noise configured for that very sensor; it depends on exactly the control points and calibration parameters of its model. Measurements whose delay interval (the delay bound around the delayed time) leaves the splines, wheel speeds below the cutoff or driving backwards, steering below the speed tolerance, and sensors switched off have no error term. The splines are fitted, with the configured order, smoothness and density, to the vehicle's (or reference sensor's) poses without jumps of the quaternion's sign.",
     ["inputs", "configurations"], "all measured values, timestamps, delays, delay bounds, calibrations, trajectories, one sensor at a time", "No test covers the calibrators, which are not built by the baseline; a wrong frame, sign, parameter or variance only shows for particular combinations of values.",
     CAL, [("error terms", X + "time_delay/src/algo/Calibrator.cpp: addPoseErrorTerms, addLeftWheelErrorTerms, addRightWheelErrorTerms, initSplines"), ("error terms", X + "car/src/algo/CarCalibrator.cpp: add...ErrorTerms, initSplines"), ("error terms", X + "egomotion_sensors/src/algo/Calibrator.cpp: addMotionErrorTerms, initSplines")],
     ["batches given to the estimator, splines, error terms"])
prop("P39", "Predictions are what the calibrated sensors would measure",
     "Predicting fits the splines to the stored measurements, leaves measurements, histories and estimator alone, and gives for every measurement within the splines exactly one prediction with its time: what the calibrated sensor would have measured on the trajectory, i.e. the measurement minus the residual, together with the residual and its weighted square of the error term the measurement would have. Clearing the predictions removes all of them.",
     ["inputs", "configurations"], "all measured values, timestamps, delays, delay bounds, calibrations, trajectories, one sensor at a time, once or again after a change of the calibration", "No test covers it.",
     CAL, [("predictions", X + "time_delay/src/algo/Calibrator.cpp: predict..."), ("predictions", X + "car/src/algo/CarCalibrator.cpp: predict..."), ("predictions", X + "egomotion_sensors/src/algo/Calibrator.cpp: predictMotion")],
     ["prediction accessors"])
prop("P40", "Calibrator options are the ones configured",
     "The options of a vehicle or sensor calibrator built from a configuration have exactly the configured values; the order of the translation spline has its default when absent, and a configuration without any other option is refused.",
     ["configurations"], "all option values; every option absent in turn", "No test covers it.",
     [X + "car/src/algo/CarCalibratorOptions.cpp", X + "time_delay/src/algo/CalibratorOptions.cpp", X + "egomotion_sensors/src/algo/CalibratorOptions.cpp"], [("parsing", X + "car/src/algo/CarCalibratorOptions.cpp: CarCalibratorOptions(const PropertyTree&)")])
CAM = X + "camera/src/camera/"
prop("P41", "The camera calibrator hands every image with a target to the estimator once, fully modelled",
     "The camera calibrator takes images only after its geometry was initialized and keeps those in which the target was found until the configured number is reached (or until asked), then hands the estimator one batch of exactly these images: the corners of the target as shared landmarks (estimated only on request), the camera's projection and distortion, one pose per image that starts where the target was seen from, each in its configured group, and one reprojection error for every corner seen in every image, with the observed pixel, the configured variance, a robust weight only on request, and the point that its landmark and pose give wherever the estimator moves them. The observations of accepted batches are available in the order of their transformations, an absent one is out of bounds. Configured options have exactly the configured values and absent ones their default, and an unknown camera type is refused.",
     ["histories", "configurations", "inputs"], "all sequences of up to four (thorough five) images, any of them with the target, any corners visible, any poses and pixels, batches accepted or rejected", "No test covers the camera calibrator, which the baseline does not build; the order of observations depends on which batches the estimator accepted.",
     [CAM + "CameraCalibrator.cpp"], [("batches", CAM + "CameraCalibrator.cpp: addImage, addObservation, addToBatch, processBatch")],
     ["batches given to the estimator, observations, transformations"])
prop("P42", "The camera calibrator reports and writes the estimated intrinsics with their uncertainty",
     "The intrinsics reported and written to a calibration file by the camera calibrator are those of the camera, with the variances that the marginal covariance of the estimator has at their place (and their square roots as standard deviations), next to the resolution, type, unobservable basis, singular values and thresholds of the estimator; its error statistics are the mean, variance, largest magnitude and number of outliers (beyond the 97.5 % quantile of the chi-squared distribution) of the reprojection errors of all images in use, and nothing when these have no spread.",
     ["inputs", "configurations"], "all intrinsics, covariances and estimator outcomes; all reprojection errors up to a bounded number", "No test covers the camera calibrator, which the baseline does not build.",
     [CAM + "CameraCalibrator.cpp"], [("results", CAM + "CameraCalibrator.cpp: write, getStatistics, getProjectionVariance, getDistortionVariance")],
     ["calibration file, statistics"])
prop("P43", "The camera validator measures the reprojection errors of given intrinsics",
     "For every image in which the target is found, the camera validator projects every corner seen, from the pose at which the target was seen, with the given intrinsics, and records predicted minus observed pixel and its squared magnitude over the configured variance for those that can be projected; images and errors accumulate in order. Largest errors are the largest magnitudes per axis, mean, variance and standard deviation are those of the recorded errors (absent without spread), outliers are those beyond the quantile asked for. Drawing the last image marks its observed and predicted corners and changes no statistics. Configured options have exactly the configured values and absent ones their default, and an unknown camera type is refused.",
     ["inputs", "histories", "configurations"], "all poses, corners, pixels and projections, up to three images of two corners and four errors", "No test covers the camera validator, which the baseline does not build.",
     [CAM + "CameraValidator.cpp"], [("errors", CAM + "CameraValidator.cpp: addImage, getReprojectionErrorMean, getLastImage")],
     ["errors, statistics, picture"])
TD = X + "time_delay/"
EG = X + "egomotion_sensors/"
prop("P44", "Simulated odometry is what the configured vehicle would measure",
     "The time delay simulator drives the vehicle along a sine wave of the configured amplitude and frequency, at steps of the configured length before the configured end: in each step the forward velocity and turning rate lead from the last point of the wave to the next with the wave's heading (starting with the heading of the first step), and the trajectory integrates exactly these body velocities from the initial pose. For every step there is one measurement of either wheel (the wheel's scale times the velocity of the wheel at half the wheel base to its side, at the time of the step plus the delay of that wheel) and one of the pose sensor (the vehicle's pose composed with the sensor's mounting, half a step later), each also with noise of the variance configured for that very measurement. Integrating a motion applies the velocity in the old orientation and then turns by the rate; a point on the body moves with the velocity plus the rate's cross product. Parameters are exactly the ones configured, and an absent one is refused.",
     ["inputs", "configurations"], "all amplitudes, frequencies, initial and mounting poses, scales, wheel bases, delays and variances; up to three (thorough four) steps", "No test covers the simulators, which are not built by the baseline; the calibration results are judged by data simulated here.",
     [TD + "src/simulation/simulationEngine.cpp", TD + "src/simulation/SimulationParams.cpp", TD + "src/simulation/TrajectoryParams.cpp"], [("simulation", TD + "src/simulation/simulationEngine.cpp: simulate, integrateMotionModel, genSineBodyVel2d, genWheelVelocity")],
     ["simulated data, parameters"])
prop("P45", "Simulated motion data are the relative motions of the configured sensors",
     "The egomotion simulator integrates body velocities from the initial pose at the configured steps (straight: unit speed; planar: along the sine wave; random: the wave's velocity and rate in all three axes plus normal noise of variance two; combined: a third of the time each, every part going on along the wave from where the time has come to) and fits its splines to exactly these poses, without jumps of the quaternion's sign, with the configured order, smoothness and density. For every sensor and step of the splines it gives the motion from the last to the current pose of the spline, for all sensors but the reference as seen from the sensor's mounting and at the time plus the sensor's delay, with the step's duration and that sensor's covariance, and once more with noise of that covariance applied after the motion. Parameters are exactly the ones configured for the named sensor, the order of the translation spline has its default when absent, any other absent one is refused.",
     ["inputs", "configurations"], "all mountings, delays, splines, variances, amplitudes and frequencies; two sensors and the reference; two to five steps", "No test covers the simulators, which are not built by the baseline.",
     [EG + "src/simulation/simulationEngine.cpp", EG + "src/simulation/SimulationParams.cpp", EG + "src/simulation/TrajectoryParams.cpp"], [("simulation", EG + "src/simulation/simulationEngine.cpp: simulate, integrateMotionModel, genSineBodyVel2d")],
     ["simulated data, parameters"])
prop("P46", "The car programs turn a record into the calibrator's measurements and write its results",
     "Reading a record, the calibrator and analyzer programs hand the calibrator one measurement for every message of a sensor in use, in order: a navigation solution (once its errors are known) as the pose in the east-north-up frame at the first solution and the velocities in the vehicle's frame, each with the covariance of its errors in that very frame and angles in radians; wheel speeds and steering as measured; the encoder's speed as distance over time since its last message. Each carries the arrival time corrected by the clock of its own sensor, to the nanosecond. Measurements left at the end are processed (or predicted), and measurements, predictions, prediction errors, histories and the standard deviation of every calibration parameter are written to their files. Without a record and a configuration nothing is done.",
     ["inputs", "histories", "configurations"], "all sequences of up to three (thorough four) messages of any sensors, with any contents, any sensors in use", "No test covers the programs, which are not built by the baseline; a frame mixed up only shows for headings and errors that differ between axes.",
     [X + "car/src/realworld/calibrator.cpp", X + "car/src/realworld/analyzer.cpp"], [("record", X + "car/src/realworld/calibrator.cpp: main"), ("record", X + "car/src/realworld/analyzer.cpp: main")],
     ["measurements given to the calibrator, files"])
prop("P47", "The laser rover's programs estimate from what they simulate, and write what they found",
     "The offline and online simulation programs of the laser rover drive the configured sine wave from the configured state, integrate odometry from the same inputs with the configured noise, and measure from every state but the first the range and bearing of every landmark from the sensor at its true mounting. Every state is a variable of exactly one batch of the configured size and starts from odometry, with a motion term between subsequent states of a batch, an observation term for every state but the batch's first and every landmark, holding what was measured then and the configured covariances. Landmarks start where they were first seen under the guessed mounting; landmarks and mounting are shared by all batches and carry over their estimates. The mounting is what is marginalized. The files have the true states, odometry, landmarks, and the estimates of accepted batches aligned with the truth by the alignment of the landmarks; batches told are those there were. Without a configuration nothing is done.",
     ["inputs", "histories", "configurations"], "two to five states, one or two landmarks, all batch sizes, acceptances and estimates", "No test covers the programs, which are not built by the baseline.",
     [X + "2dlrf/src/2dlrf/simulate-online-new.cpp", X + "2dlrf/src/2dlrf/simulate-offline.cpp"], [("simulation", X + "2dlrf/src/2dlrf/simulate-online-new.cpp: main"), ("simulation", X + "2dlrf/src/2dlrf/simulate-offline.cpp: main")],
     ["batches given to the estimator, files, terminal"])
prop("P48", "The simulators hand over all that they simulate, and write it and the estimate",
     "The simulation programs of the time delay and egomotion examples simulate once as configured and hand the calibrator every measurement once, each under its own sensor with its own time, value and covariance, all sensors in step: the noisy ones, or in the egomotion example the exact ones if so configured. What is left at the end is processed before results are read. Files have, one line each and in order, the true poses (position and angles), wheel velocities, exact and noisy measurements, information gains and calibrations of every batch, each file those of its own sensor; and the estimated trajectory, sampled at the simulation's step from the start of every spline until before its end, through all batches in order, positions with the orientations of the same piece and time. The same holds for the trajectory of the car example. Without a configuration nothing is done.",
     ["inputs", "histories", "configurations"], "all measurements, times, estimates, spline ranges and steps; up to three sensors", "No test covers the programs, which are not built by the baseline.",
     [X + "time_delay/src/simulation/simulator.cpp", EG + "src/simulation/simulator.cpp", X + "time_delay/src/simulation/SimulationData.cpp", X + "time_delay/src/simulation/Trajectory.cpp", X + "car/src/algo/splinesToFile.cpp", X + "time_delay/src/algo/splinesToFile.cpp", EG + "src/algo/splinesToFile.cpp"], [("simulation", X + "time_delay/src/simulation/simulator.cpp: main"), ("simulation", EG + "src/simulation/simulator.cpp: main"), ("trajectories", X + "car/src/algo/splinesToFile.cpp: writeSplines")],
     ["measurements given to the calibrator, files"])

NA = {
}

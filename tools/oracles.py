"""For DESIGN.md: per property the oracle the code is compared with, and why
that reaches what tests cannot (what is symbolic). Bounds are in checks.py."""
EST = "the batches, costs, iteration numbers, ranks, singular values and result matrices the optimizer returns are symbolic, so every acceptance history within the bound is decided, not the ones an actual optimizer happens to produce"
HIST = "the operation at every step and the content of every batch are symbolic choices: every history within the bound is explored, including those through refused operations"
REAL = "all values are symbolic reals; the solver decides the identity for all of them, special cases (zero, coincident, reversed) included"
O = {
"P01": ("A snapshot of everything observable (parameters of every variable, batches, statistics, solver layout) taken before addBatch; after a rejection all of it must be equal, after an acceptance the batch is in and the published statistics are those of the outcome the stand-in returned.", EST),
"P02": ("The decision recomputed from the outcome by the rule in the statement (forced, or iterations/cost valid if checked, and gain over the last accepted batch above the threshold); also over two and three batches in a row, so that the reference of the gain is the last accepted batch.", EST),
"P03": ("Independent count of the dimensions of the active variables outside the marginalized group in the order of the groups, after every operation; compared with the boundary the solver is given.", EST),
"P04": ("A model of the estimator (list of batches, last sums of singular values) updated by reoptimize and removeBatch; the next batch's gain must be relative to it. One known finding (below).", EST),
"P05": ("A model of the container as plain lists and maps (variables per group, error terms, order), stepped by the same symbolic operation; every accessor compared after it. One operation from any state, and whole histories from the empty one.", HIST),
"P06": ("The union of the batches computed from their lists; every accessor and every position of the enumerations compared, after each addition and removal.", HIST),
"P07": ("Consistency of a batch decided by the statement (null, duplicate, group mismatch); snapshot before and after a refusal.", HIST),
"P08": ("Values recorded by the harness at save; after restore compared exactly (IEEE) for the variables still present.", HIST),
"P09": ("An order or permutation is valid iff it is a bijection; then element i is the old element p(i); otherwise nothing changes.", HIST),
"P10": ("A value and its predecessor kept by the harness in IEEE arithmetic; copies must not share state.", "every IEEE value and every sequence of update, revert, set, copy and assignment within the bound"),
"P11": ("Element i of the result is old element p(i); refused iff p is not a permutation of 0..n-1.", "index vectors are symbolic: duplicates, negative and too long ones at once; loops that do not end are found by the instruction bound and the replay's time limit"),
"P12": ("Sum of log2|r_ii| over the entries that are significant by the documented tolerance.", "matrix and 64-bit indices symbolic"),
"P13": ("The stand-in solver records the system it is given; layout, boundary, results and every allocation are compared. Allocation failure is a symbolic choice; every matrix must be freed once.", EST),
"P14": ("Rotation and translation written out with sines and cosines; group laws (inverse, in-place inverse, setters against constructors, copies) as polynomial identities over sin²+cos²=1.", REAL),
"P15": ("The cell of a point is the one whose half-open box contains it; linear indices are injective. Real arithmetic for the geometry, IEEE single precision for points next to the upper bound, all 32-bit index vectors for validity.", REAL),
"P16": ("Counts and moments computed from the bins' centres by their definitions; samples at symbolic positions, including bin boundaries.", REAL),
"P17": ("Density 1/size inside, 0 outside, moments in closed form.", REAL),
"P18": ("Precision, determinant, Cholesky factor, normalizer and density recomputed from mean and covariance last accepted; positive definiteness decided by leading minors and symmetry.", REAL),
"P19": ("Densities, moments, mode, quantile and divergence by closed form over the uninterpreted special functions.", REAL),
"P20": ("Sample mean and weighted variance from the list of points kept by the harness, valid iff defined.", REAL),
"P21": ("The generator's output is symbolic (random() is the harness's); a sample must be the inversion or transformation of that output by the distribution last set, lie in the support, and integer samplers must give every integer the same share (a set of outputs of equal measure).", "statistical tests only see typical outputs; here rare ones (0, RAND_MAX, the rim of the unit disc, sums rounding to below one) are ordinary values of a variable"),
"P22": ("Defining recurrences over lgamma, digamma and gamma_p as uninterpreted functions with their shift laws.", REAL),
"P23": ("Time as integer nanoseconds; order and arithmetic by IEEE comparison; the date functions of libc are stand-ins recording their argument.", "every double, and every clock reading"),
"P25": ("The motion and measurement model written as: moving (sighting) by the input less the error leads to the next pose (landmark); Jacobians against symbolic differentiation (sv_diff) of the error the code itself computes.", REAL),
"P26": ("Errors as statements about wheels: the velocity along a front wheel is that of the wheel, and so on; Jacobians against sv_diff, chained through stand-in expressions with the identity as Jacobian.", REAL),
"P27": ("invR times covariance is the identity, after construction, setting, copying and assigning.", REAL),
"P28": ("The result is the quaternion or its negation, in the half space of the reference.", REAL),
"P29": ("The path y = A sin(2 pi f x) differentiated by hand; number of steps by IEEE arithmetic; landmark by the first sighting in order.", REAL),
"P30": ("The ellipsoid's equation and its normal (gradient) with the latitude and longitude given; local frames are inverse and orthonormal. Latitude enters by its sine and cosine only.", REAL),
"P33": ("One table of names, places and groups, set value by value; the vector and the variables' activity compared entry by entry.", REAL),
"P34": ("A list of variables per group kept by the harness, splines contributing their control points.", HIST),
"P35": ("Every option absent or present (symbolic), value or default compared.", "all 2^k combinations of absent options in six groups, all values"),
"P36": ("A list of pending measurements and the time the window began; the batch handed to the estimator is compared with that list: variables, groups, splines' sample times, one term per measurement.", "when a window ends is decided by symbolic timestamps and window durations, over every order of sensors and requests"),
"P37": ("Key frames, identifiers, matches and the median displacement by the statement; the stand-in tracker names what it was given.", "displacements and thresholds symbolic: every order of them on both sides of the threshold"),
"P38": ("The error term a measurement should have is built from the calibration and the stand-in trajectory directly (position, velocity and angular rate of the sensor's place at the delayed time) and compared in error, weight, variables and squared error.", "trajectory, calibration, delays and noise symbolic, so a term using the wrong parameter cannot agree by coincidence"),
"P39": ("As P38, for predictions, predicted errors and their squares, predicted twice with a change between.", REAL),
"P40": ("Every option in turn absent: refused or documented default; otherwise the configured value in IEEE.", "all values; options mixed up differ for some value"),
"P41": ("A list of images per batch kept by the harness; the batch is compared structurally with it.", "detections, visibility and acceptance are symbolic choices, poses and pixels symbolic reals"),
"P42": ("Mean, variance, extremes and outliers from the list of errors of accepted batches; intrinsics and variances from the stand-in geometry and marginal covariance; the file from what the property tree was given.", REAL),
"P43": ("As P42 for the validator: predicted minus observed for every corner seen and projectable.", REAL),
"P44": ("The wave's position and heading differentiated by hand; poses by integrating body velocities with Rodrigues' formula; wheel speeds of points of the body; noise z sigma where every normal sample z is the same (random() is a constant).", REAL),
"P45": ("As P44 for all four trajectories, and relative motions conjugated by the mounting of each sensor.", REAL),
"P46": ("Each message's pose by the ellipsoid's equation and its axes at both places, velocities and covariances rotated by the attitude's matrix product written out; files as rows of numbers recorded by a stand-in stream.", "every order of messages, with symbolic attitude, place and errors"),
"P47": ("Motion and sensor model written out from the configuration; the terms of each batch matched to states and landmarks by their variables; files recorded by a stand-in stream.", "all batch sizes and acceptances, with symbolic estimates and landmarks"),
"P48": ("What the stand-in simulation gave, compared line by line with the recorded files and event by event with what the calibrator was handed; sample times counted from the spline's range.", "symbolic measurements, times, spline values and sampling step"),
}
# seconds on eight idle cores: quick
COST = {k: "quick %s s" % v for k, v in dict(P01=18, P02=19, P03=19, P04=14, P05=121, P06=41, P07=18, P08=61, P09=71, P10=34, P11=5, P12=2, P13=5, P14=2, P15=97, P16=30, P17=20, P18=30, P19=30, P20=30, P21=54, P22=20, P23=10, P25=30, P26=30, P27=60, P28=20, P29=30, P30=20, P33=18, P34=12, P35=5, P36=150, P37=10, P38=123, P39=34, P40=3, P41=47, P42=22, P43=31, P44=9, P45=15, P46=18, P47=40, P48=10).items()}

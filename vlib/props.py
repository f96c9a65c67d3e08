"""Per-property configuration: harness binary, configurations, bounds."""
GROUPS = "SO2, SE2, SO3, SE3, VectorVar1..6, ImuBias"
PROPS = {
    "C01": dict(bin="c01", bounds=GROUPS + "; three arbitrary elements; every real value of every coordinate, rotations of exactly unit norm; f64 build"),
    "C02": dict(bin="c02", bounds="every element (either quaternion sign) and every tangent vector with rotation angle below pi; translations unbounded; small-angle branches within 1e-6*(1+|t|^2) (1e-5 for SE3)"),
    "C03": dict(bin="c03", bounds=GROUPS + "; every real tangent vector; small-angle branches within the tolerances of the harness"),
    "C04": dict(bin="c04", configs=[(), ("left",)], bounds=GROUPS + "; every pair of elements and every tangent vector; default and `left` configurations"),
    "C05": dict(bin="c05", bounds="SO2, SE2, SO3, SE3; every element, tangent vector and point; every rotation matrix for from_matrix"),
    "C06": dict(bin="c06", bounds="every rotation vector (any angle) and every direction; within 1e-5 below the small-angle threshold"),
    "C07": dict(bin="c07", configs=[(), ("left",)], bounds="arities 1..6 with arguments of dimensions 1..6; polynomial and group-valued functions at every evaluation point; DualVector-based scalars"),
    "C08": dict(bin="c08", bounds="arities 1..6 with arguments of dimensions 1..3; eps = 1e-2..1e-6; every evaluation point"),
    "C09": dict(bin="c09", configs=[(), ("left",)], bounds="prior and between residuals of " + GROUPS + "; user residuals of arity 1..6; every measurement and state"),
    "C12": dict(bin="c12", bounds="every constructor for dimensions 1..6; all parameters; full matrices: information dimension 1..6, covariance dimension 1..3 (4 in the thorough tier) and dimension 5, 6 with one coupled pair"),
    "C13": dict(bin="c13", bounds="all eight kernels, all non-negative squared errors, all positive parameters"),
    "C14": dict(bin="c14", bounds="factors of arity 1..6; all eight kernels with every parameter, diagonal and full Gaussian noise, every construction form; every state and measurement"),
    "C15": dict(bin="c15", bounds="linear graphs of up to 4 factors over 3 variables of dimension 1..3 (1..3 keys per factor, also repeated, also unused variables), every column order, every insertion order; nonlinear graphs of up to 4 factors; all entries, states and measurements"),
    "C16": dict(bin="c16", bounds="every subset of six variables of dimensions 1, 2, 3, 3, 6, 6 under fixed 64-bit keys, several insertion orders, 24 hash seeds; every state and update vector; updates for every subset of four variables against every subset present"),
    "C17": dict(bin="c17", opts=dict(max_paths=20000), bounds="all histories of up to 3 operations (4 in the thorough tier) out of 14 over three keys and three types, all histories of 5 operations under one key and of 4 under two keys; 40 keys in one map; all stored values; several hash seeds"),
    "C18": dict(bin="c18", bounds="every Unicode character, every index below 2^32 (the width of the index field); printed form: every character with three indices, 14 indices with eight characters, every one-digit index"),
    "C10": dict(bin="c10", configs=[("vf-hooks",), ("vf-hooks", "left")], bounds="histories of 0, 1 and 2 measurements (3 in the thorough tier), accumulated rotation below 3 rad before each further step; every measurement, time step below 100 s, bias, gravity and pair of states; factors built from two fixed measurements"),
    "C19": dict(bin="c19", bounds="symmetric positive definite systems L*L^T of size 1..5 (dense to 4, chain, star), every entry and right-hand side (LU: dense to 2 and chain 3, dense 3 in the thorough tier; QR: 1, 2); least squares with 2x1 to 4x3 matrices (LU to 3x2, QR to 2x2); two successive solves with different numbers of one pattern"),
    "C20": dict(bin="c20", bounds="scalar linear problems of up to 4 variables (5 in the thorough tier) and 5 factors as chains and loops, every measurement, weight, start and up to 8 hash seeds (variable orders), Cholesky, LU and QR; nonlinear SE2 and mixed-dimension problems with a solver of arbitrary answers; two steps; re-use for values in another order"),
    "C21": dict(bin="c21", bounds="problems of one or two variables (scalar, pair, robust, SO2), both damping forms, one step of up to 3 trials and two steps of up to 2, a solver of arbitrary answers (every dx) and the real solver; every start, measurement, damping parameter; re-use for three variables in another order with 4 hash seeds"),
    "C22": dict(bin="c22", bounds="every sequence of errors and step outcomes of up to 4 steps (5 in the thorough tier), every tolerance and iteration limit, two observers; Gauss-Newton (3 steps) and Levenberg-Marquardt (2 steps) on a scalar problem with a solver of arbitrary answers"),
    "C23": dict(bin="c23", bounds="files of up to 3 vertex and 3 edge lines (SE2 and SE3:QUAT), every order of two vertices, one edge and one other line, fixed ids; every number: all poses of vertices, all measurements at the origin, every positive definite information matrix at states and measurements with two sets of fixed rotations and any translations"),
    "C11": dict(bin="c11", configs=[("vf-hooks",)], bounds="histories of 0, 1 and 2 measurements (3 in the thorough tier), accumulated rotation below 3 rad before each further step; every measurement, bias, time step below 100 s and symmetric noise block"),
    "C25": dict(bin="c25", configs=[("rerun",)], bounds="VectorVar2/3, SO2, SE2, SO3, SE3: every element through every conversion, collections of 0 to 3 elements; single precision read as exact reals"),
}

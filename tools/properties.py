#!/usr/bin/env python3
"""Single source of the property list: writes /verif/properties.jsonl."""
import json, os
SRC = "src/"
P = []
import re
def statement_len(t): return len(re.findall(r"\.(?:\s|$)", t))
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=" ".join(statement.split()),
             quantifier=dict(over=over, text=" ".join(text.split())),
             why_tests_cant=" ".join(why.split()),
             anchors=dict(files=[f if f.startswith("mrobpy") else SRC + f for f in files],
                          mechanism=[dict(name=n, where=(w if w.startswith("mrobpy") else SRC + w)) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=state, meaning=state, where=mech[0][1] if mech[0][1].startswith("mrobpy") else SRC + mech[0][1])]
    if observe: d["anchors"]["observe_at"] = [observe]
    assert len(title) <= 80, (id, len(title))
    assert statement_len(d["statement"]) <= 3, (id, statement_len(d["statement"]))
    P.append(d)

SO3, SE3, COV = "geometry/SO3.cpp", "geometry/SE3.cpp", "geometry/SE3cov.cpp"
# ---------------------------------------------------------------- geometry
prop("G01", "Rotation exponential and logarithm are exact inverses everywhere",
 """Building a rotation from any rotation vector yields the proper rotation about that axis by that angle, including
 vectors that are zero, tiny, of length near pi, or longer than a turn. The logarithm of any rotation is a rotation vector of
 length at most pi (up to rounding) whose exponential is that rotation again, and for vectors shorter than pi it returns the vector the rotation was
 built from; the optional angle output equals the length of that vector.""",
 ["inputs"], "every rotation vector in R^3 up to several turns and every rotation matrix, with the small-angle and half-turn neighbourhoods",
 "the unit tests check a handful of fixed vectors; the formulas switch branch near 0 and pi, and a wrong series coefficient or threshold only shows in those narrow bands",
 [SO3], [("SO3::exp", SO3), ("SO3::ln", SO3), ("SO3::ln_vee", SO3)])
prop("G02", "Rigid-body exponential and logarithm are exact inverses everywhere",
 """Building a rigid transformation from any twist (rotation part first, then translation part) yields the matrix exponential of that twist, for zero, tiny, half-turn and
 multi-turn rotations and for small or large translations. The logarithm of any rigid transformation is a twist with rotation
 part no longer than pi whose exponential is that transformation again, and it returns the original twist when its rotation part is shorter than pi.""",
 ["inputs"], "every twist in R^6 and every rigid transformation, with the small-angle and half-turn neighbourhoods",
 "tests sample a few twists with loose tolerances; the translation coefficients have separate series branches that tests never straddle",
 [SE3], [("SE3::exp", SE3), ("SE3::ln", SE3), ("SE3::ln_vee", SE3)])
prop("G03", "Rotations and rigid transformations obey the group and action laws",
 """Products, inverses and identity of rotations and rigid transformations satisfy the group laws and agree with matrix algebra, the named
 multiplication and the operator agree, and no operand is modified. Transforming a point or every row of a point array applies exactly
 rotation then translation, a composed transform acts as its factors in sequence, and distances between points are preserved. The adjoint moves a
 perturbation from one side of a transformation to the other, is multiplicative, and the rotation, translation and matrix accessors describe one and the same element.""",
 ["inputs"], "all triples of transformations, all point sets (including empty and single-row arrays), all twists",
 "algebraic laws quantify over all tuples of elements; tests multiply one or two fixed transforms",
 [SE3, SO3], [("SE3::operator*/mul/inv/adj", SE3), ("SE3::transform, transform_array", SE3), ("SO3::operator*/mul/inv/adj", SO3)])
prop("G04", "Any history of pose updates stays on the manifold and matches its meaning",
 """After any sequence of multiplications, inversions, left updates, right updates, assignments and regenerations, a pose is still a valid
 rotation or rigid transformation up to accumulated rounding and equals the product of the corresponding elementary exponentials in order. A left update by a twist
 pre-multiplies by its exponential and a right update post-multiplies; undoing a history step by step returns to the start. Regenerating a
 pose that is already valid leaves it unchanged to rounding, and regenerating one with slight numerical drift returns a valid pose close to it.""",
 ["histories"], "every interleaving of the mutating pose operations with arbitrary twists, up to hundreds of steps",
 "unit tests apply one operation to one pose; drift and side (left/right) mistakes need histories",
 [SE3, SO3], [("update_lhs / update_rhs", SE3), ("regenerate", SE3), ("update_lhs / update_rhs", SO3)], "4x4 transformation matrix held by a pose")
prop("G05", "Membership predicates accept exactly rotations and rigid transformations",
 """The validity predicates return true for every rotation matrix and rigid transformation the library can produce, including after many
 operations. They return false for any matrix that differs noticeably from one: non-orthogonal or scaled blocks (even with unit determinant), reflections,
 or a last row other than (0,0,0,1), whatever the sign or cancellation of its deviation.""",
 ["inputs"], "all 3x3 and 4x4 real matrices at noticeable distance from, or at rounding distance of, the groups",
 "the tests try one good and one random matrix; a predicate checking only a necessary condition passes them",
 [SO3, SE3], [("isSO3", SO3), ("isSE3", SE3)])
prop("G06", "Rotation parametrisation conversions agree and round-trip",
 """Converting a non-zero quaternion of any length and sign (x,y,z,w order) to a rotation gives the rotation of its normalised form, q and -q give the same rotation,
 and converting a rotation to a quaternion returns a unit quaternion of that rotation. Roll-pitch-yaw conversion is the product of the elementary rotations
 about x, y and z in that order. The hat operators are linear, skew where required, reproduce the cross product, and are inverted exactly by the vee operators.""",
 ["inputs"], "all quaternions, all angle triples, all vectors in R^3 and R^6",
 "conventions (component order, axis order, sign) only show on generic inputs; tests use none or special ones",
 [SO3, SE3], [("quat_to_so3, so3_to_quat, rpy_to_so3", SO3), ("hat3, vee3", SO3), ("hat6, vee6", SE3)])
prop("G07", "Pose distances behave as distances",
 """The distance between two rotations or two rigid transformations is the length of the logarithm of their relative element: non-negative, zero exactly when they coincide, symmetric, and
 for a pose with no argument measured from the identity. The rotation distance is the relative rotation angle in [0, pi], obeys the triangle
 inequality and does not change when both are composed with the same rotation; the translation distance is the Euclidean norm of the translation difference.""",
 ["inputs"], "all pairs and triples of transformations",
 "metric laws quantify over tuples; the tests check isolated values",
 [SE3, SO3], [("SE3::distance, distance_rotation, distance_trans", SE3), ("SO3::distance", SO3)])
prop("G08", "First-order covariance compounding transports uncertainty through the adjoint",
 """Compounding an uncertain pose with an uncertain increment yields the composed pose and the sum of the first covariance and the
 second transported by the adjoint of the first pose, in rotation-then-translation order; multiplication of uncertain poses is this same operation, and all overloads agree.
 The result is symmetric positive semidefinite whenever the inputs are, zero increment uncertainty leaves the covariance unchanged, compounding is associative, and the operands are not modified.""",
 ["inputs", "histories"], "all pose/covariance pairs, including singular and badly scaled covariances, and chains of compoundings",
 "tests compare one golden example; block order and sign errors cancel on special poses",
 [COV], [("SE3Cov::compound_2nd_order", COV), ("SE3Cov::mul / operator*", COV)])
prop("G09", "Fourth-order covariance compounding equals its published definition",
 """Fourth-order compounding returns the composed pose and the second-order covariance plus the fourth-order correction of Barfoot and Furgale
 expressed in rotation-then-translation order, for any poses and covariances, through every overload. The correction is symmetric, vanishes when either
 covariance is zero and scales quadratically, so the result tends to the second-order one for small uncertainty; the curly wedge operator is the adjoint representation of the Lie bracket.""",
 ["inputs"], "all pose/covariance pairs, random symmetric positive semidefinite covariances with correlated blocks",
 "tests hold golden values for one pair; a permuted or mis-signed block term changes results only for covariances with cross-correlation",
 [COV], [("SE3Cov::compound_4th_order", COV), ("curly_wedge", COV)])

# ---------------------------------------------------------------- factor graph
ND = "FGraph/factors/"
prop("F01", "Node state operations follow the retraction of each variable type",
 """For every kind of variable, after any sequence of set, update, auxiliary-set and update-from-auxiliary operations the stored state equals a reference model:
 addition for points, addition with heading wrapped to [-pi, pi) for planar poses, left multiplication by the exponential for 3D poses, and addition followed by normal renormalisation for planes.
 Setting or updating the state never changes the auxiliary copy and vice versa, updating from the auxiliary copy starts from it, and headings stay wrapped, 3D poses stay rigid and plane normals stay unit length throughout.""",
 ["histories"], "all operation sequences over the five variable types with small, large, and many-turn increments",
 "tests construct nodes and at most update once; aliasing between the two copies and missing wraps need sequences",
 [ND+"nodePose2d.cpp", ND+"nodePose3d.cpp", ND+"nodeLandmark2d.cpp", ND+"nodeLandmark3d.cpp", ND+"nodePlane4d.cpp", "FGraph/node.cpp"],
 [("Node*::update / update_from_auxiliary / set_state", ND+"nodePose2d.cpp"), ("NodePose3d::update", ND+"nodePose3d.cpp"), ("NodePlane4d", ND+"nodePlane4d.cpp"), ("wrap_angle", "FGraph/node.cpp")],
 "principal and auxiliary state of each node")
FC = [ND+"factor1Pose2d.cpp", ND+"factor2Poses2d.cpp", ND+"factor1Pose1Landmark2d.cpp", ND+"factor1Pose3d.cpp", ND+"factor2Poses3d.cpp",
      ND+"factor1Pose1Landmark3d.cpp", ND+"factor1Pose1Plane4d.cpp", "PCRegistration/factors/factor1PosePoint2Plane.cpp"]
prop("F02", "Every measurement residual is predicted minus observed, whatever the node order",
 """At any state each kind of measurement reports the documented discrepancy between prediction and observation (angles wrapped to [-pi, pi)), so it is zero exactly when the states
 reproduce the observation. The measurement means the same thing whichever of its variables was created first: connecting a later-created variable as the origin or observer
 gives the same error as the mirrored construction.""",
 ["inputs", "configurations"], "all eight measurement kinds, both variable creation orders, generic states and observations",
 "tests only add factors in creation order and never read a residual",
 FC, [("evaluate_residuals", f) for f in FC], None, "residual and chi-square of a factor")
prop("F03", "Every measurement Jacobian is the derivative of its residual",
 """At any non-singular state the Jacobian block of each variable is the derivative of the residual with respect to that variable's own update rule, with columns placed in the
 order of the connected variables. For full 3D pose residuals, whose Jacobian is by design the small-residual linearisation, this holds exactly where the residual
 vanishes and to first order in the residual elsewhere.""",
 ["inputs", "configurations"], "all eight measurement kinds, both variable creation orders, generic states and observations",
 "a wrong Jacobian still converges on benign graphs, so smoke tests pass; only comparison with numerical differentiation over generic states reveals it",
 FC, [("evaluate_jacobians", f) for f in FC], None, "Jacobian of a factor")
prop("F04", "Measurement cost and robust weights follow their definitions",
 """The cost of a measurement is half the information-weighted squared norm of its current residual, the graph cost is the sum over measurements,
 the per-measurement cost list agrees with it, and asking for the cost without re-evaluation reuses the last residuals. For whitened distance u = sqrt(r'Wr) the robust weight is
 1 for quadratic, 1 below distance 1 and 1/u above for Huber, 1/(1+u^2) for Cauchy and its square for Geman-McClure, and exactly this weight multiplies the measurement's
 information in the weight matrix of the assembled problem.""",
 ["inputs"], "all measurement kinds, information matrices with off-diagonal terms, all robust kernels, distances on both sides of every threshold",
 "tests never read a weight or a chi-square value",
 ["FGraph/factor.cpp", "FGraph/factor_graph_solve.cpp"]+FC, [("Factor::evaluate_robust_weight", "FGraph/factor.cpp"), ("FGraphSolve::chi2 / get_chi2_array", "FGraph/factor_graph_solve.cpp"), ("build_adjacency (weights)", "FGraph/factor_graph_solve.cpp")])
prop("F05", "Graph bookkeeping is consistent after any construction history",
 """After any interleaving of adding variables (free or anchored) and measurements, identifiers are consecutive in insertion order and retrieve the same object, counts and total dimensions are the sums over
 what was added (state dimension counting free variables only), every measurement is listed once by each variable it connects, and the estimated state lists all variables in identifier order with their current values.
 Adding an element already present changes nothing and returns its identifier; removing a measurement from a variable's list removes just that one and says so, and an unknown one removes nothing and says that; eigen factors follow the same rules with identifiers of their own.""",
 ["histories"], "all construction sequences over all variable and measurement kinds",
 "tests build one fixed graph; counters and lists diverge only on mixed or repeated insertions",
 ["FGraph/factor_graph.cpp", "FGraph/node.cpp", "FGraph/factor_graph_solve.cpp"], [("FGraph::add_node / add_factor", "FGraph/factor_graph.cpp"), ("Node::add_factor / rm_factor", "FGraph/node.cpp"), ("get_estimated_state", "FGraph/factor_graph_solve.cpp")],
 "node, active-node and factor lists and dimension counters")
prop("F06", "The assembled linear system is the stacked linearisation of the graph",
 """For any graph, after a Gauss-Newton step the stored Jacobian, weight matrix, information matrix and right-hand side equal the dense stacking of every measurement's Jacobian, weighted
 information and residual evaluated before the step: rows in measurement order, columns in order of the free variables, nothing for anchored ones, information = A'WA and vector = A'Wr.
 This holds for variables of mixed dimension, measurements added in any order, parallel measurements between the same variables, and when the graph has grown since a previous solve.""",
 ["inputs", "histories"], "all mixed 2D and 3D graphs with anchors, any insertion order, repeated solves with growth in between",
 "no test looks at a matrix entry; an index error only matters with mixed dimensions, anchors or growth",
 ["FGraph/factor_graph_solve.cpp"], [("build_adjacency / build_info_adjacency", "FGraph/factor_graph_solve.cpp")], "A, W, L, b of the solver")
prop("F07", "A Gauss-Newton step applies the exact normal-equation solution",
 """For any graph whose information matrix is well conditioned, one Gauss-Newton solve applies to each free variable, through its own update rule, its segment of the
 solution of the weighted normal equations at the previous state. Consequently a linear problem is solved to its weighted least-squares optimum in one step, and a graph already at a stationary point does not move.""",
 ["inputs"], "all well-conditioned graphs of mixed variable kinds with any robust kernel and information matrices",
 "tests check that solving runs, not where it lands",
 ["FGraph/factor_graph_solve.cpp"], [("optimize_gauss_newton", "FGraph/factor_graph_solve.cpp"), ("update_nodes", "FGraph/factor_graph_solve.cpp")])
prop("F08", "Levenberg-Marquardt never leaves the graph worse than it found it",
 """From any initial state with a finite cost, the total cost after a Levenberg-Marquardt solve is not larger than before, for any iteration budget, damping and tolerance, including when the last trial step was rejected or its cost is not a number, and the variables are then exactly the last accepted ones.
 The first trial step uses the caller's damping added to the diagonal of the information matrix, so huge damping barely moves the state and small damping approaches the Gauss-Newton step.
 It stops before its budget only once an accepted step lowers the cost by less than the caller's tolerance, and with a generous budget on a consistent, well-posed graph it reaches a stationary point with the same cost as the true solution.""",
 ["inputs", "histories"], "all graphs, good and bad initial states, iteration budgets from one upward, dampings and tolerances over many orders of magnitude",
 "tests run it once from a good start; the rejection and rollback path and the damping parameter are never observed",
 ["FGraph/factor_graph_solve.cpp"], [("optimize_levenberg_marquardt", "FGraph/factor_graph_solve.cpp"), ("synchronize_nodes_state / synchronize_nodes_auxiliary_state", "FGraph/factor_graph_solve.cpp")], "principal and auxiliary states, damping")
prop("F09", "Anchored variables are constants",
 """No solve of any method, however many times repeated, changes the value of an anchored variable, and anchored variables add nothing to the state dimension or the assembled system. Anchoring
 a variable at a value gives the same estimate for the free variables as any other way of holding it there, such as an extremely strong absolute measurement.""",
 ["inputs", "histories"], "all graphs with any subset of variables anchored, of any kind and in any insertion position, all solvers and repeated solves",
 "tests anchor only the first pose of one graph and do not check it",
 ["FGraph/factor_graph.cpp", "FGraph/factor_graph_solve.cpp", "FGraph/factor_graph_solve_dense.cpp"], [("add_node (active list)", "FGraph/factor_graph.cpp"), ("build_adjacency anchor skip", "FGraph/factor_graph_solve.cpp"), ("update_nodes", "FGraph/factor_graph_solve.cpp")])
prop("F10", "The estimate depends on the problem, not on how it is written down",
 """Reordering the creation of variables or measurements, or creating a pair's later variable first, permutes the estimate accordingly and leaves cost and values unchanged up to rounding (for full 3D relative poses, whose Jacobian is by design the small-residual linearisation, creation order leaves the cost unchanged and the step unchanged where the residual vanishes, to second order in it elsewhere).
 Splitting a measurement into two of half information, multiplying all information by a constant (with quadratic cost), or adding a measurement of zero information does not change the estimate. Moving the whole problem by a rigid transformation (anchors, initial states, absolute observations and landmarks, with the information of residuals expressed in the world frame moved along) moves
 the converged estimate by that transformation and leaves the cost unchanged.""",
 ["configurations", "inputs"], "all graphs and all such rewritings of them",
 "metamorphic relations relate pairs of runs; the tests run each graph once",
 ["FGraph/factor_graph_solve.cpp"]+FC, [("solve", "FGraph/factor_graph_solve.cpp"), ("node-order handling", ND+"factor2Poses2d.cpp"), ("node-order handling", ND+"factor2Poses3d.cpp")])
prop("F11", "Noise-free graphs recover the ground truth they were generated from",
 """When the observations of a well-posed 2D or 3D graph are computed exactly from some ground truth, that ground truth is a fixed point with zero cost, and repeated Gauss-Newton
 or Levenberg-Marquardt solves from a nearby initial state converge to it. This holds for every mix of measurement kinds, loops, robust kernels and headings on either side of the +-pi cut.""",
 ["inputs"], "all well-posed noise-free graphs and nearby initial states",
 "tests solve fixed files and never compare with a ground truth",
 ["FGraph/factor_graph_solve.cpp"]+FC, [("solve", "FGraph/factor_graph_solve.cpp")])
prop("F12", "The dense solver agrees with the sparse solver",
 """On any graph with quadratic costs, anchored variables included, one Newton step of the dense solver and one Gauss-Newton step of the sparse solver from the same state produce the same estimate, both report the
 same cost, and the dense Levenberg-Marquardt variants never increase the cost and converge to the same estimate.""",
 ["inputs"], "all well-conditioned graphs built identically in both solvers",
 "there is no test of the dense solver; a differential oracle needs generated graphs",
 ["FGraph/factor_graph_solve_dense.cpp", "common/optimizer.cpp"], [("calculate_gradient_hessian", "FGraph/factor_graph_solve_dense.cpp"), ("update_state", "FGraph/factor_graph_solve_dense.cpp")])
prop("F13", "Initialising a variable from a measurement makes that measurement exact",
 """When a measurement is created with the option to initialise its target pose or landmark, the target is set so that this measurement's residual is
 zero, for any origin state and observation and either creation order, and the origin is untouched. Without the option no variable changes.""",
 ["inputs", "configurations"], "all measurement kinds with the option, generic origin states, previous target values and observations",
 "tests use the option only along odometry chains with zero heading and do not read the residual",
 [ND+"factor2Poses2d.cpp", ND+"factor2Poses3d.cpp", ND+"factor1Pose1Landmark2d.cpp", ND+"factor1Pose1Landmark3d.cpp"],
 [("updateNodeTarget", ND+"factor2Poses2d.cpp"), ("updateNodeTarget", ND+"factor2Poses3d.cpp"), ("initializeLandmark", ND+"factor1Pose1Landmark2d.cpp"), ("initializeLandmark", ND+"factor1Pose1Landmark3d.cpp")])

# ---------------------------------------------------------------- registration
PC = "PCRegistration/"
prop("R01", "Closed-form point alignment returns the least-squares rigid transformation",
 """For corresponding point sets that determine a unique optimum, with noise or outliers of any size, planar sets and mirrored sets included, the closed-form alignment reports success and returns a proper rigid
 transformation whose sum of squared errors no other rigid transformation beats. Noise-free data is recovered to rounding at any scale and offset, including symmetric clouds.
 Degenerate (collinear or coincident) sets report failure and leave the supplied transformation untouched.""",
 ["inputs"], "all sets of three or more correspondences, degenerate ones included",
 "tests use noise-free Gaussian clouds; optimality, reflections and degeneracy are universally quantified",
 [PC+"arun.cpp"], [("PCRegistration::arun", PC+"arun.cpp")])
prop("R02", "Point alignment is equivariant and independent of point order",
 """Moving either point set by a rigid transformation changes the estimate by exactly that transformation, swapping the two sets inverts it, permuting correspondences leaves it unchanged, and
 scaling both sets scales the translation only. This holds for closed-form alignment and, at convergence, for weighted and covariance-based alignment (with covariances moved along), and none of them modifies its inputs.""",
 ["inputs"], "all correspondence sets and rigid motions, noise included",
 "metamorphic relations between runs are not expressible as example tests",
 [PC+"arun.cpp", PC+"gicp.cpp", PC+"weight_point.cpp"], [("arun", PC+"arun.cpp"), ("gicp", PC+"gicp.cpp"), ("weighted_point", PC+"weight_point.cpp")])
prop("R03", "Weighted and covariance-based alignment minimise their stated cost",
 """Started near the optimum, weighted alignment converges to the minimiser of the weighted squared error and covariance-based alignment recovers exact correspondences and is a fixed point of its
 covariance-weighted normal equations. Equal weights give the closed-form answer, zero-weight correspondences have no influence, integer weights equal repetition, and with identical isotropic covariances the covariance-based answer is the closed-form one.
 The reported iteration count is between 1 and the limit, and an already optimal start stops after one iteration.""",
 ["inputs"], "all well-posed correspondence sets, weights and covariances with nearby starts",
 "tests use noise-free data with uniform weights",
 [PC+"gicp.cpp", PC+"weight_point.cpp"], [("weighted_point", PC+"weight_point.cpp"), ("gicp", PC+"gicp.cpp")])
prop("R04", "Plane, normal and centroid estimates are least-squares optimal",
 """The estimated plane of a point set has unit normal, passes through the centroid and minimises the sum of squared distances over all planes; the normal and centroid functions return exactly its normal and the arithmetic mean.
 Estimates follow rigid motions and uniform scaling of the points and ignore point order, up to the sign of the plane.""",
 ["inputs"], "all sets of at least three non-collinear points, with noise, any scale and offset",
 "tests only call the functions; optimality needs comparison over all planes",
 [PC+"estimate_plane.cpp"], [("estimate_plane, estimate_normal, estimate_centroid", PC+"estimate_plane.cpp")])
PL, PR = PC+"plane.cpp", PC+"plane_registration.cpp"
prop("R05", "Plane landmark statistics match the points inserted, in any order of operations",
 """After any sequence of inserting points at time steps, clearing, resetting and estimating, point counts and stored points match what was inserted, out-of-range times store nothing (and read as the last one), the mean point of a time step is
 the mean of its points, and the estimated plane and error are the smallest eigenpair of the accumulated outer products of the trajectory-transformed homogeneous points. The incremental error and
 incremental estimate after changing one pose equal a recomputation from scratch.""",
 ["histories"], "all operation sequences with points at arbitrary time steps and arbitrary trajectories",
 "tests never use a plane landmark directly; caching makes results depend on the history",
 [PL], [("push_back_point, clear_points, reset", PL), ("estimate_plane, estimate_plane_incrementally, get_error_incremental", PL), ("calculate_all_matrices_S/Q, get_mean_point", PL)],
 "per-time point lists, cached moment matrices")
prop("R06", "Plane-error gradient and Hessian are the derivatives of the plane error",
 """For any plane landmark with an isolated smallest eigenvalue, the gradient with respect to the pose at any time step is the derivative of the plane error under a left
 perturbation of that pose. The (upper-triangular) Hessian entry for directions i, j is p'(B+B')p with p the current plane, B = 1/2(GiGj+GjGi)Q + Gi dQ/dj, as documented, which
 equals the second derivative of the quadratic form of the current plane along those perturbations when the plane passes exactly through its points.""",
 ["inputs"], "all plane landmarks, trajectories and time steps",
 "derivative mistakes only slow down the registration tests",
 [PL], [("calculate_gradient", PL), ("calculate_hessian", PL)])
prop("R07", "Plane registration never increases its error and keeps its trajectory model",
 """From any trajectory that follows the model (initial, set by its last pose, or left by an earlier solve), both Levenberg-Marquardt variants end with a total plane error not larger than the one they started from; the first pose stays the identity and the intermediate
 poses stay the uniform interpolation, in the tangent space, of the last pose. On noise-free scenes generated by an interpolated trajectory the true trajectory is a fixed point with (numerically) zero error and repeated solves from a nearby start approach it, up to the solver's tolerance,
 and the closed-form initialisation computes each pose from the planes seen both then and at the first step, whichever those are, reporting failure when they are fewer than three.""",
 ["inputs", "histories"], "all scenes of planes observed over two or more poses, all start poses and solver sequences",
 "tests run it on one random scene without assertions on error or trajectory",
 [PR, "common/optimizer.cpp"], [("solve", PR), ("update_state / update_state_from_bookkeep / set_last_pose", PR), ("solve_initialize", PR)], "trajectory and plane caches")
prop("R08", "Plane registration data access and error reports are faithful",
 """Total error is the sum of the plane errors at the current trajectory and does not depend on the order in which planes or points were inserted; it is unchanged when a point set is split over insertions, and points added later are taken into account. Setting the last pose sets
 the interpolated trajectory, resetting the solution restores identity poses without losing data, point clouds returned for a time are exactly the inserted points, counts add up, and trajectory RMSE against a reference is the
 root mean square of the pose distances (zero against itself).""",
 ["histories"], "all sequences of plane/point insertion, pose setting, solving, resetting and querying",
 "tests never mix queries, insertions and resets",
 [PR, PL], [("add_plane, add_new_plane, plane_push_back_point", PR), ("get_current_error, print_evaluate", PR), ("set_last_pose, reset_solution, get_trajectory", PR), ("calculate_poses_rmse, get_point_cloud", PR)])
prop("R09", "Synthetic scenes are consistent with their own ground truth",
 """For any requested sizes, a generated scene has the requested poses, points and planes, labels every point with an existing plane, keeps bookkeeping for each time step aligned, and filling a registration
 structure from it inserts each point once. With zero noise every point, moved by its ground-truth pose, lies on its labelled plane, so the registration error at the ground truth is zero; the ground-truth trajectory interpolates from the identity to a randomly sampled final pose.""",
 ["inputs", "configurations"], "all scene sizes and noise levels, whatever the internal random seed",
 "scenes are random; the tests use one size and inspect nothing",
 [PC+"create_points.cpp"], [("CreatePoints", PC+"create_points.cpp"), ("SamplePlanarSurface / SampleUniformSE3", PC+"create_points.cpp")])
prop("R10", "Gradient-based plane registration follows the plane-error gradient",
 """With g the sum, over poses, of the interpolation weight (index over last index) times the gradient of the total plane error at that pose divided by its number of points and by the number of poses, one iteration of the plain gradient mode left-updates the last pose by -alpha g, and one of the
 accelerated mode (the default in Python) by beta^2 v - (1 + beta) alpha g while its momentum v becomes beta v - alpha g, kept between calls until the solution is reset; the first pose stays the identity and the intermediate poses the uniform interpolation. One iteration of the all-poses mode left-updates every pose but the first by
 -alpha times its own gradient, divided in the same way. A pose without points contributes nothing and is left finite, a single iteration is one iteration in each of these modes, and a full run is the same as its iterations one by one until the error changes by no more than 1e-4.""",
 ["inputs", "histories"], "all scenes, starts, step and momentum parameters and sequences of iterations and resets",
 "tests do not run these modes",
 [PR, PL], [("solve_interpolate_gradient", PR), ("solve_gradient_all_poses", PR), ("set_alpha_parameter / set_beta_parameter / reset_solution", PR)], "momentum and trajectory")

# ---------------------------------------------------------------- system
prop("S01", "The generic optimiser minimises any smooth function given by its callbacks",
 """For any problem supplied as error, gradient, Hessian and update callbacks, Newton-Raphson on a convex quadratic reaches the minimiser in one step and stops within its iteration limit. Both
 Levenberg-Marquardt variants never return a state with larger error than the start, apply their damping to the diagonal as documented (additive or proportional),
 restore the saved state after every rejected step, return an iteration count within the limit, and converge on well-behaved functions.""",
 ["inputs", "histories"], "all objective functions (convex, non-convex, quadratics), starts, iteration limits and dampings",
 "the optimiser is only exercised through one registration scene",
 ["common/optimizer.cpp"], [("Optimizer::solve", "common/optimizer.cpp"), ("optimize_levenberg_marquardt", "common/optimizer.cpp"), ("optimize_newton_raphson_one_iteration", "common/optimizer.cpp")], "state and saved state of the problem")
PY = ["mrobpy/SE3py.cpp", "mrobpy/FGraphPy.cpp", "mrobpy/PCRegistrationPy.cpp", "mrobpy/PCPlanesPy.cpp"]
prop("S02", "The Python geometry and registration interface computes what the library defines",
 """Every geometry and registration function of the Python module returns, for any array layout (row- or column-major, strided views), the mathematically defined value, with arrays in the documented
 shape and order, does not modify its arguments, and returns values that do not change when the object they came from is changed later. Operators, named methods and
 default arguments agree with each other.""",
 ["inputs", "configurations"], "all geometry and registration functions of the Python module over generated arrays and layouts",
 "the Python tests call each function on one contiguous array with loose or no assertions",
 PY, [("SE3/SO3 bindings", PY[0]), ("registration bindings", PY[2])])
prop("S03", "The Python factor-graph interface builds and solves the graph that was described",
 """A graph built through the Python module from any sequence of calls is the graph described: identifiers returned in order, state listed in order, cost, information matrices, right-hand side and estimates equal to an independent reference
 computation from the same inputs, for every variable and measurement kind, solver option, robust kernel and anchoring. Saved or returned arrays are snapshots unaffected by later solves.""",
 ["histories", "configurations"], "all call sequences of the Python graph interface",
 "the Python tests solve fixed graphs and print",
 [PY[1], "FGraph/factor_graph_solve.cpp"], [("FGraphPy::add_*", PY[1]), ("solve, get_estimated_state, chi2", PY[1])])
prop("S04", "No documented input or history corrupts memory or fails to terminate",
 """Any sequence of library calls with arguments in the documented domain, degenerate but finite data included (coincident landmarks, zero-length updates, empty time steps, singular systems, enormous angles), runs without out-of-bounds or uninitialised access, undefined behaviour,
 leaks or endless loops.""",
 ["inputs", "histories"], "all call histories generated for the other properties plus degenerate data, under address and undefined-behaviour sanitizers",
 "silent memory errors pass ordinary tests, and the release build disables all assertions",
 ["FGraph/factor_graph_solve.cpp", "FGraph/node.cpp", PL, PR, SE3, SO3], [("wrap_angle, rm_factor", "FGraph/node.cpp"), ("build_adjacency", "FGraph/factor_graph_solve.cpp"), ("clear_points", PL), ("solve_initialize", PR)])
prop("S05", "Independent instances do not influence each other and runs are reproducible",
 """Two graphs, registrations or poses that share no elements behave the same whether operated alone, interleaved in any order, or from different threads, and repeating the same
 sequence of calls gives bit-identical results. Copies of poses and uncertain poses are independent of their originals.""",
 ["histories", "schedules"], "all interleavings of call sequences on independent instances",
 "hidden shared or stale state only shows when instances are interleaved",
 ["FGraph/factor_graph_solve.cpp", "FGraph/factor.cpp", PR, SE3, COV], [("solver member state", "FGraph/factor_graph_solve.cpp"), ("trajectory sharing", PR)])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P: f.write(json.dumps(p) + "\n")
    print(len(P), "properties")

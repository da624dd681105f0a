"""What each check runs: harness legs (quick / thorough = cases per unit weight, time budget in s) and what they assume."""

COMMON_ASSUMPTIONS = [
    "gcc 13, IEEE-754 doubles; the reference side is evaluated in 80-bit long double",
    "inputs are drawn from the generators described in DESIGN.md: a violation outside their support, or rarer than the number of cases reaches, is missed",
]

PBT = "property-based testing: "


def cpp(group, quick, thorough, **kw):
    return dict(group=group, quick=quick, thorough=thorough, **kw)


def py(script, quick, thorough, **kw):
    return dict(script=script, quick=quick, thorough=thorough, **kw)


G = "geometry"
CHECKS = {
    "G01": dict(legs=[cpp(G, (1500000, 20), (60000000, 600))], technique=PBT + "exp/log against a long-double matrix-exponential and quaternion-log reference, round trips",
                rule="A case draws a rotation vector (angle biased to zero, tiny, thresholds, a half turn, several turns; axis aligned / tied components / random) or a rotation matrix (rounded reference, product, signed axis permutation). Non-trivial: the rotation is not the identity; distinct by choice sequence.",
                note="Random search; per-entry tolerance 4e-15 for exp and 1e-14 (1.5e-7 within 1e-7 of a half turn, where acos loses half the digits) for log."),
    "G02": dict(legs=[cpp(G, (400000, 20), (15000000, 600))], technique=PBT + "exp/log against a long-double block-exponential reference, round trips",
                rule="A case draws a twist (rotation part as G01, translation magnitude 1e-6..1e4) or a product of poses. Non-trivial: rotation and translation both non-zero.",
                note="Random search; translation tolerance follows the documented loss of the closed form outside its series branch (<=3e-10 relative)."),
    "G03": dict(legs=[cpp(G, (400000, 20), (20000000, 600))], technique=PBT + "algebraic laws and differential against long-double matrix algebra",
                rule="A case draws three elements, a perturbation and points (0..17 rows). Non-trivial: a non-commuting pair / non-identity pose with at least one point / translated adjoint.",
                note="Random search over group elements and point arrays."),
    "G04": dict(legs=[cpp(G, (150000, 25), (5000000, 600))], technique=PBT + "model-based histories of updates, inverses, copies and regenerations against a long-double product",
                rule="A case is a history of 1..90 operations on one pose or rotation, compared with the model after every step. Non-trivial: at least three mutating operations (histories), more than one step (undo), rotation > 1e-3 (regenerate).",
                note="Random search over operation histories, invariants checked after each operation."),
    "G05": dict(legs=[cpp(G, (600000, 20), (20000000, 600))], technique=PBT + "predicate against constructed members and constructed non-members",
                rule="Members: poses after 0..30 random operations. Non-members: scaled, unit-determinant stretch, shear, reflection, negation, arbitrary, NaN/Inf, at distance >= 9e-4 from orthonormality; last rows off by >= 1e-3 incl. cancelling entries. Non-trivial: the matrix really is off by the stated distance, or the member has a history.",
                note="Random search; the band between round-off (1e-12) and 9e-4 is left to the implementation's tolerance."),
    "G06": dict(legs=[cpp(G, (800000, 20), (40000000, 600))], technique=PBT + "round trips and differential against reference conversions",
                rule="A case draws a quaternion (unit and non-unit, structured components), rotation, roll-pitch-yaw triple or vectors. Non-trivial: not the identity / zero.",
                note="Random search over the conversions' inputs."),
    "G07": dict(legs=[cpp(G, (800000, 20), (40000000, 600))], technique=PBT + "metric axioms and differential against reference relative angle",
                rule="A case draws poses A, B (equal, perturbed by 1e-9..1, or independent) and C. Non-trivial: relative rotation above 1e-9.",
                note="Random search over pose pairs and triples."),
    "G08": dict(legs=[cpp(G, (500000, 20), (20000000, 600))], technique=PBT + "differential against reference adjoint transport, associativity, chains",
                rule="A case draws two or three uncertain poses (covariances: correlated, rank deficient, badly scaled, zero) or a chain of up to 12. Non-trivial: both covariances non-zero and a translated first pose.",
                note="Random search over uncertain poses."),
    "G09": dict(legs=[cpp(G, (400000, 20), (20000000, 600))], technique=PBT + "differential against the moment definition of the fourth-order terms",
                rule="A case draws two uncertain poses with correlated rotation and translation; the reference sums curly-wedge products over the covariances' square roots. Non-trivial: both covariances non-zero.",
                note="Random search; the definition is Barfoot & Furgale 2014 in rotation-first order."),
    "F01": dict(legs=[cpp("graph", (300000, 20), (20000000, 600))], technique=PBT + "model-based histories of node operations against a long-double retraction model",
                rule="A case is a history of set / update / auxiliary operations on one variable of a random kind (increments from zero to thousands of turns). Non-trivial: at least three mutating operations.",
                note="Random search over operation histories; state, auxiliary state and invariants compared after every operation."),
    "F02": dict(legs=[cpp("graph", (300000, 20), (20000000, 600))], technique=PBT + "differential against long-double residual definitions, both creation orders",
                rule="A case draws one measurement kind, states, an observation (exact, near, arbitrary) and a creation order. Non-trivial: generic (non-identity) states.",
                note="Random search over single measurements of every kind."),
    "F03": dict(legs=[cpp("graph", (100000, 25), (5000000, 600))], technique=PBT + "Jacobians against numerical differentiation of the long-double residual through each retraction",
                rule="A case draws one measurement and states away from singularities. Non-trivial: generic states.",
                note="Random search; finite differences in long double, 3D pose residuals to first order in the residual as designed."),
    "F04": dict(legs=[cpp("graph", (200000, 20), (10000000, 600))], technique=PBT + "cost and robust weights against their definitions over whole graphs",
                rule="A case draws a residual scale around the kernels' thresholds, or a graph with mixed kernels. Non-trivial: non-zero residuals.",
                note="Random search over residual magnitudes, kernels and information matrices."),
    "F05": dict(legs=[cpp("graph", (200000, 20), (10000000, 600))], technique=PBT + "stateful model-based construction histories",
                rule="A case is a history of adding variables, measurements, duplicates, and removals. Non-trivial: at least one variable and one measurement added.",
                note="Random search over construction histories, all counters and lists compared with the model after every operation."),
    "F06": dict(legs=[cpp("graph", (60000, 25), (3000000, 600))], technique=PBT + "assembled sparse system against a dense long-double stacking, growth between solves",
                rule="A case draws a graph of 1..7 poses and up to 4 landmarks/planes in 2D, 3D or both, with anchors, loops, parallel measurements, kernels. Non-trivial: two or more variables and three or more measurements / two or more solves.",
                note="Random search over graphs and growth histories."),
    "F07": dict(legs=[cpp("graph", (60000, 25), (3000000, 600))], technique=PBT + "Gauss-Newton step against the long-double normal-equation solution; closed-form optima of linear problems",
                rule="As F06; ill-conditioned graphs (condition above 1e7) are skipped. Non-trivial: the step is larger than 1e-6 / several measurements.",
                note="Random search; tolerance scales with the condition number."),
    "F08": dict(legs=[cpp("graph", (60000, 25), (3000000, 600))], technique=PBT + "cost monotonicity over generated solves and budgets, first trial step against a long-double damped step",
                rule="A case draws a graph with good to very bad starts, dampings 0 and 1e-9..1e9, tolerances, budgets 1..40. Non-trivial: initial cost above 1e-9 / some step accepted / damped step above 1e-6.",
                note="Random search; convergence sub-check excludes planes (over-parametrised normals converge slowly)."),
    "F09": dict(legs=[cpp("graph", (40000, 25), (2000000, 600))], technique=PBT + "bit-exact invariance of anchors over solves; anchoring against strong priors",
                rule="A case draws a graph with a random subset of anchored variables and a sequence of solves with both solvers. Non-trivial: some but not all variables anchored.",
                note="Random search over graphs and anchor subsets."),
    "F10": dict(legs=[cpp("graph", (40000, 25), (2000000, 600))], technique=PBT + "metamorphic relations between pairs of graphs (reordering, splitting, scaling, null measurements, change of frame)",
                rule="A case draws a graph and one rewriting of it. Non-trivial: the rewriting changes the description and the step is not zero.",
                note="Random search over graphs and rewritings."),
    "F11": dict(legs=[cpp("graph", (25000, 25), (1500000, 600))], technique=PBT + "round trip from generated ground truth through exact observations and back",
                rule="A case draws a ground truth, exact observations of every kind and a nearby start. Non-trivial: at least two measurements and a free variable.",
                note="Random search over well-posed noise-free graphs."),
    "F12": dict(legs=[cpp("graph", (60000, 25), (3000000, 600))], technique=PBT + "differential dense against sparse solver",
                rule="A case draws a graph with quadratic costs built identically in both solvers. Non-trivial: at least one free variable and a non-zero step.",
                note="Random search over graphs."),
    "F13": dict(legs=[cpp("graph", (200000, 20), (10000000, 600))], technique=PBT + "residual-is-zero invariant after initialisation, untouched origins",
                rule="A case draws one measurement with the option on or off, origin, previous target and creation order. Non-trivial: option on with a non-identity origin.",
                note="Random search over single measurements."),
    "R01": dict(legs=[cpp("registration", (150000, 25), (12000000, 600))], technique=PBT + "optimality against Horn's quaternion method in long double, degenerate-set verdicts",
                rule="A case draws a cloud (generic, anisotropic, planar, symmetric solid, regular polygon, three points), scale 1e-4..1e4, offset up to 1e3 extents, motion, noise up to 3 extents, outliers, mirroring. Non-trivial: the optimum is unique by the reference's eigenvalue gap, or the set is degenerate by construction.",
                note="Random search over correspondence sets; tolerance scales with offset/extent and the uniqueness gap."),
    "R02": dict(legs=[cpp("registration", (100000, 25), (8000000, 600))], technique=PBT + "metamorphic relations (motion, swap, permutation, scaling) between runs",
                rule="A case draws a correspondence set and a rewriting of it. Non-trivial: unique optimum and a rewriting that is not the identity.",
                note="Random search over pairs of runs, inputs compared bit for bit before and after."),
    "R03": dict(legs=[cpp("registration", (40000, 25), (3000000, 600))], technique=PBT + "minimality against long-double weighted alignment; fixed points of the covariance-weighted normal equations",
                rule="A case draws correspondences, weights (equal, zero, integer, wide range) or covariances, and a nearby start. Non-trivial: unique optimum and noise present or covariances not isotropic.",
                note="Random search over well-posed alignment problems."),
    "R04": dict(legs=[cpp("registration", (400000, 25), (20000000, 600))], technique=PBT + "optimality against a long-double eigenvalue reference, metamorphic relations",
                rule="A case draws a planar patch with noise, orientation, scale and offset (planes through the origin and far from it). Non-trivial: isolated smallest eigenvalue and at least four points.",
                note="Random search over point sets."),
    "R05": dict(legs=[cpp("registration", (250000, 25), (12000000, 600))], technique=PBT + "stateful model-based histories against recomputation from the inserted points",
                rule="A case is a history of pushes, clears, resets, pose changes, estimates and incremental estimates. Non-trivial: more than two points and at least one estimate.",
                note="Random search over operation histories; counts, points, means, error and plane compared with the model."),
    "R06": dict(legs=[cpp("registration", (60000, 25), (3000000, 600))], technique=PBT + "derivatives against numerical differentiation of the long-double plane error",
                rule="A case draws a landmark over 1..4 poses (exactly planar or noisy). Non-trivial: the smallest eigenvalue is isolated.",
                note="Random search; Richardson-extrapolated differences in long double."),
    "R07": dict(legs=[cpp("registration", (3500, 30), (120000, 600))], technique=PBT + "error monotonicity, trajectory-model invariant, recovery of generated ground truth, initialisation against the reference alignment",
                rule="A case draws a scene of 3..7 planes over 2..5 poses, with noise and unseen planes, a start and a sequence of solves. Non-trivial: positive initial error / well-determined scene / initialisation attempted.",
                note="Random search over scenes; recovery asks for a clear approach (the solver's tolerance is fixed at 1e-4)."),
    "R08": dict(legs=[cpp("registration", (30000, 25), (2000000, 600))], technique=PBT + "stateful model-based histories of insertion, pose setting, solving, resetting and querying",
                rule="A case is a history on one registration object. Non-trivial: more than two mutations and at least one query.",
                note="Random search over histories; every query compared with the model."),
    "R09": dict(legs=[cpp("registration", (60000, 25), (4000000, 600))], technique=PBT + "self-consistency of generated scenes under a controlled clock seed",
                rule="A case draws sizes (1..180 points, 1..9 planes, 1..6 poses), noise and bias, and the value of the clock that seeds the scene. Non-trivial: more than one point and one pose.",
                note="Random search; the clock is interposed so that every scene is reproducible."),
    "R10": dict(legs=[cpp("registration", (30000, 25), (1500000, 600))], technique=PBT + "each iteration of a gradient mode against the step computed from the long-double plane-error gradient; runs against their iterations one by one",
                rule="A case draws a scene (2..5 poses, 3..7 planes, noise, unseen planes, uneven counts, poses without points), step and momentum parameters, a start and up to six iterations of the three modes mixed with resets and new starts. Non-trivial: a step longer than 1e-6 / a run of more than two iterations.",
                note="Random search; scenes whose smallest eigenvalue is not isolated and runs of more than 150 iterations are not judged."),
    "S01": dict(legs=[cpp("system", (120000, 20), (6000000, 600))], technique=PBT + "instrumented objectives: every callback recorded, each step, rejection and restoration checked against its definition",
                rule="A case draws an objective (quadratic plus convex or non-convex ridge terms, optionally undefined outside a ball), a start, a damping, a tolerance and an iteration limit, and records the whole call history. Non-trivial: a non-zero step / some step accepted and more than one tried.",
                note="Random search over objectives of dimension 1..8; steps of systems with condition above 1e8 are not judged."),
    "S02": dict(legs=[py("py_geometry.py", (3000, 25), (400000, 500))], technique=PBT + "the Python module driven by generated calls (memory layouts, calling conventions, keyword arguments) against numpy references",
                rule="A case calls the bindings with generated poses, rotations, point clouds and planes, as C / Fortran / strided / read-only / offset arrays, and compares every returned value with a numpy reference; the arguments must come back untouched and results must not alias later state. Non-trivial: non-identity pose / noisy cloud / several steps.",
                note="Random search over Python calls; the module is built from /repo's working tree."),
    "S03": dict(legs=[py("py_graph.py", (1200, 30), (150000, 500))], technique=PBT + "stateful model-based histories of calls on the Python graph against a numpy model (states, costs, system matrices, Gauss-Newton steps)",
                rule="A case is a history of node, measurement, query and solve calls on a Python FGraph (positional, keyword and default arguments, all array layouts), compared with the model after each call. Non-trivial: a step above 1e-9 with more than two measurements / a well-conditioned problem solved.",
                note="Random search over call histories; ill-conditioned steps (condition above 1e8) are not judged."),
    "S04": dict(legs=[cpp("degenerate", (30000, 20), (1500000, 170)), cpp("degenerate", (12000, 25), (600000, 190), variant="asan")]
                + [cpp(grp, (0, 0), (40000, 20), variant="asan", section=sec, crash_only=True) for grp, sec in
                   [("geometry", "G03"), ("geometry", "G04"), ("graph", "F01"), ("graph", "F05"), ("graph", "F08"), ("graph", "F12"), ("registration", "R03"), ("registration", "R05"), ("registration", "R08"), ("registration", "R09"), ("registration", "R10")]],
                technique=PBT + "generated histories over degenerate data under address and undefined-behaviour sanitizers, library assertions, a CPU limit per case and a count of live heap blocks",
                rule="A case is a history of calls on a sparse or dense graph, a plane, a plane registration, or one alignment / geometry call on extreme data (zeros, coincident points, 1e-300..1e100). Non-trivial: something was solved with several measurements present / more than two points and an estimate.",
                note="Random search; documented preconditions (a solve needs an active variable and a measurement; a node keeps its mode once added) are respected."),
    "S05": dict(legs=[cpp("instances", (12000, 25), (600000, 600)), cpp("instances", (3000, 25), (60000, 250), variant="tsan", sub="threads")], technique=PBT + "differential between a script run alone, repeated on other memory contents, interleaved under generated schedules, and in threads (also under ThreadSanitizer)",
                rule="A case draws 1..4 scripts (graph, dense graph, plane registration, poses and alignments; possibly identical) and a schedule. Every returned value is compared bit for bit. Non-trivial: more context switches than instances / more than eight values returned.",
                note="Random search over schedules of calls; thread interleavings are sampled by the operating system and checked by a race detector."),
}
NOT_APPLICABLE = []

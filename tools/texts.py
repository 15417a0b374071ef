"""Property texts; tools/gen.py writes properties.jsonl and MANIFEST.json from them."""
C = "trajopt_ifopt/"
S = "trajopt_sco/"
Q = "trajopt_optimizers/trajopt_sqp/"

P = {}


def prop(id, title, statement, over, text, why, files, mech, note, level="model_checking"):
    P[id] = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                 anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]), note=note, level=level)


prop("P01", "Limits: classification, violation, error and clamping agree for every value",
     "A pair of limits is classified as equality, lower, upper, range or none exactly by which sides are finite and whether they coincide, and invalid pairs are refused. The reported violation of a value is its distance to the allowed interval, the reported error is that distance with sign, and clamping returns the nearest allowed value with a requested margin reduced proportionally but never outside the limits.",
     ["inputs"], "every value, every pair of limits (finite or infinite), every margin, any mix of limit kinds in one vector",
     "Tests use a handful of fixed numbers; each limit kind, sign and boundary combination must be right for all reals, and clamping must be exact in floating point.",
     [C + "src/core/bounds.cpp", C + "src/utils/ifopt_utils.cpp", C + "include/trajopt_ifopt/core/bounds.h"],
     [("Bounds classification", C + "src/core/bounds.cpp"), ("calcBoundsErrors/Violations, getClosestValidPoint, toBounds, interpolate", C + "src/utils/ifopt_utils.cpp")],
     "limit vectors of up to 3 entries; values are reals (exact arithmetic) except the clamping harness, which is exact IEEE double")
prop("P02", "Joint-space constraints: values, limits and derivatives are consistent",
     "Joint position, velocity, acceleration and jerk constraints report exactly the weighted finite differences of the trajectory they are attached to, and their Jacobian is the exact derivative with respect to every optimisation variable and zero elsewhere. Malformed arguments are refused.",
     ["inputs", "configurations"], "every trajectory, every weight, joint count, node count, and layout of the variables in the nodes",
     "Tests compare a few trajectories with numeric derivatives; index mapping errors at the ends of the trajectory or with other node layouts are not sampled.",
     [C + "src/constraints/joint_position_constraint.cpp", C + "src/constraints/joint_velocity_constraint.cpp", C + "src/constraints/joint_acceleration_constraint.cpp", C + "src/constraints/joint_jerk_constraint.cpp"],
     [("getValues/getJacobian/getBounds of the four constraints", C + "src/constraints/")],
     "up to 2 joints and 6 nodes (jerk), 3 node layouts, all values symbolic")
prop("P03", "Cost wrappers: value and gradient of squared and absolute costs",
     "A squared or absolute cost built from a constraint equals the weighted sum of the squared or absolute bound violations, for every limit kind. Its gradient is the derivative of that value wherever it is differentiable.",
     ["inputs"], "every constraint value, weight, limit kind and Jacobian",
     "Tests check equality limits at fixed points only.",
     [C + "src/costs/squared_cost.cpp", C + "src/costs/absolute_cost.cpp", C + "src/core/cost_term.cpp"],
     [("SquaredCost, AbsoluteCost", C + "src/costs/")],
     "2 variables, up to 2 constraint rows; away from the kinks of the violation for the gradient")
prop("P04", "Variable sets: assembly, update and extraction address the right entries",
     "Writing a vector to the variable set and reading it back gives the same vector, every named variable sees exactly its own entries, and bounds, names and row counts follow the same order. Trajectory extraction returns the joint values of each step unchanged. Observers of the nodes hear of every update once, with the new values in place, until they end; vectors of the wrong size are refused.",
     ["inputs", "configurations"], "every node layout within the bound and every value vector",
     "Tests use one layout; the index arithmetic must hold for each mix of scalar and vector variables.",
     [C + "src/variable_sets/nodes_variables.cpp", C + "src/variable_sets/node.cpp", C + "src/variable_sets/var.cpp", C + "src/variable_sets/nodes_observer.cpp"],
     [("NodesObserver", C + "src/variable_sets/nodes_observer.cpp"), ("Node/Var/NodesVariables indices", C + "src/variable_sets/")],
     "up to 3 nodes, 3 variables per node, vectors of up to 3")
prop("P05", "Composite and problem stack the parts without loss or mix-up",
     "A problem made of several cost and constraint terms reports the concatenation of all constraint values, limits and Jacobian rows in order, and the sum of all cost terms with the gradient of that sum. Iterates recorded in its history are reproduced exactly.",
     ["inputs", "configurations", "histories"], "any number and size of terms within the bound, all values, any history of variable changes",
     "Tests build one problem with fixed values; stacking and summation must be right for every combination including empty and dynamic parts.",
     [C + "src/core/composite.cpp", C + "src/core/problem.cpp"],
     [("CompositeDifferentiable, Problem", C + "src/core/")],
     "up to 3 terms of up to 2 rows, 2 variables; history of up to 3 iterates")
prop("P06", "Numerical differentiation approximates the true derivative",
     "Numerical Jacobians and gradients are the documented forward differences of the given function with the given step, leave the variables and the constraint as they were, and are exact for affine functions.",
     ["inputs"], "every evaluation point, step and affine or quadratic function",
     "Tests differentiate a few functions at a few points with tolerances.",
     [C + "src/utils/numeric_differentiation.cpp", C + "src/core/problem.cpp"],
     [("calcForwardNumJac, SimpleFunctionGradient...", C + "src/utils/numeric_differentiation.cpp")],
     "functions of up to 3 variables and 2 outputs; exact real arithmetic")
prop("P07", "Affine and quadratic expression vectors equal the model they were made from",
     "Expressions created from a value, Jacobian and Hessians at a point reproduce the first- or second-order Taylor model at every other point, squaring an affine expression gives the weighted square, and the accumulated objective equals the sum of the expressions.",
     ["inputs", "configurations"], "every expansion point, evaluation point, coefficient, sparsity pattern, and reuse of an object",
     "Tests evaluate one expression at one point.",
     [Q + "src/expressions.cpp"], [("AffExprs/QuadExprs create, values, square", Q + "src/expressions.cpp")],
     "up to 2 expressions over up to 3 variables; weights are non-negative")
prop("P08", "SQP subproblem: rows, slacks, weights and limits encode the linearised problem",
     "The quadratic subproblem contains for every row of every penalty cost and constraint exactly its linearisation at the current point, its shifted limits and its own non-negative slack variables priced with its weight, the quadratic model of the squared costs, and the trust box intersected with the variable limits. This also holds after repeated set-up, re-linearisation and changing row counts, and unsupported limit kinds are refused.",
     ["inputs", "configurations", "histories"], "every point, coefficient, limit, weight and merit weight; every mix of cost kinds, static and dynamic terms, and row-count changes within the bound",
     "Tests compare one small problem against stored numbers; row-count changes, zero-row terms and merit weights are not exercised.",
     [Q + "src/trajopt_qp_problem.cpp"], [("setup/update/convexify/updateNLPVariableBounds", Q + "src/trajopt_qp_problem.cpp")],
     "2 variables (3 thorough), up to 6 terms of up to 2 rows, 2 linearisations; |Jacobian entry| in [1e-3, 100]; entries below 1e-7 are documented to be dropped")
prop("P09", "SQP subproblem: exact and modelled costs and violations",
     "For every point, the modelled cost and constraint violation of each term equal those of its linearised or squared function, weights included and independent of slack variables and merit weights; the exact values equal those of the true functions. For affine terms model and exact value coincide everywhere.",
     ["inputs", "configurations"], "every point, slack value, weight, limit and mix of term kinds within the bound",
     "Tests check total values of one problem at its solution.",
     [Q + "src/trajopt_qp_problem.cpp"], [("evaluateConvexCosts, evaluateConvexConstraintViolations, getExactCosts, getExactConstraintViolations", Q + "src/trajopt_qp_problem.cpp")],
     "2 variables, up to 6 terms of up to 2 rows")
prop("P10", "Generic QP subproblem builder: encoding and evaluation",
     "The subproblem built on the generic problem container encodes every constraint row, limit, slack and squared cost like its linearised problem, its exact and modelled costs and violations equal those of the true and linearised functions, set-up can be repeated, and unsupported costs and limits are refused or modelled rather than ignored.",
     ["inputs", "configurations", "histories"], "every point, coefficient, limit, weight and mix of term kinds within the bound",
     "Tests run one optimisation; a term that is dropped or weighted differently in model and exact value still lets it converge.",
     [Q + "src/ifopt_qp_problem.cpp"], [("setup, convexify, evaluate*, getExact*", Q + "src/ifopt_qp_problem.cpp")],
     "2 variables, up to 3 terms of up to 2 rows, 2 linearisations")
prop("P11", "SQP accepts only justified steps and always solves the current subproblem",
     "Whatever the QP solver returns: each solved subproblem is the one linearised at the best point so far with the current trust box and penalties, completely uploaded, also after the solver refused an update or dimensions changed; a candidate becomes the best point exactly if the model promises enough improvement and the true merit delivers the required share; otherwise the box shrinks; penalties grow only on violated constraints (or uniformly if asked); reported values belong to the points they are reported for; the problem is left at the best point; and progress output changes none of it.",
     ["inputs", "histories"], "every cost, violation and model value of every candidate, every sequence of update refusals and dimension changes within the bound",
     "Tests solve smooth well-behaved problems in which almost every step is accepted.",
     [Q + "src/trust_region_sqp_solver.cpp"], [("TrustRegionSQPSolver::solve and steps", Q + "src/trust_region_sqp_solver.cpp")],
     "3 QP solves (4 thorough), up to 3 penalty rounds, up to 2 costs and 2 constraints; QP solver and problem are arbitrary implementations of their interfaces")
prop("P12", "SQP terminates within its limits and reports a truthful status",
     "The SQP solver stops at once when a callback says so or the QP solver failed more often than allowed, never exceeds the allowed number of QP solves, reports convergence only at points whose constraints are satisfied to tolerance, reports the time, iteration or penalty limit only when it was reached, and in every case leaves the problem at the best point.",
     ["inputs", "fault_sequences", "histories"], "every pattern of QP failures, callback answers, elapsed time, limits and values within the bound",
     "Tests never let the QP solver fail, a callback stop, or a limit strike inside the trust region loop.",
     [Q + "src/trust_region_sqp_solver.cpp"], [("solve, runTrustRegionLoop, solveQPProblem", Q + "src/trust_region_sqp_solver.cpp")],
     "4 QP solves (6 thorough) with up to 3 failures, 2 callbacks; clock advances 1 s per QP solve")

S = "trajopt_sco/"
prop("P13", "Affine and quadratic expression algebra is exact",
     "Every operation of the sequential convex optimiser's expression library (increment, decrement, scaling, negation, sum, difference, product, square, square of vectors of expressions, cleaning of small coefficients) yields an expression whose value at every point is the same operation applied to the operands' values, and leaves operands it does not own unchanged.",
     ["inputs", "programs"], "all coefficients, constants, variables (aliased or not) and evaluation points within the bound",
     "Unit tests evaluate a handful of expressions; every cost and constraint of the legacy API is composed with these operators, with repeated and aliased variables.",
     [S + "src/expr_ops.cpp", S + "src/expr_vec_ops.cpp", S + "include/trajopt_sco/expr_ops.hpp", S + "src/solver_interface.cpp"], [("exprInc, exprMult, exprSquare, cleanupAff", S + "src/expr_ops.cpp"), ("AffExpr::value, QuadExpr::value", S + "src/solver_interface.cpp")],
     "affine expressions with up to 2 terms, quadratic expressions with up to 2 products over 3 variables")
prop("P14", "Expressions reach the QP solvers as the equivalent sparse matrices",
     "Converting affine expressions, vectors of them and quadratic expressions to Eigen sparse matrices, CSC arrays or triplets and simplifying duplicated indices preserves the represented function: A x + b, x'Qx + q'x + c equal the expression's value at every point, whatever the order and repetition of variables, with the requested triangle only and optional forced diagonal.",
     ["inputs", "programs"], "all coefficients, variable indices with repetitions, matrix patterns within the bound",
     "A dropped duplicate or a wrong triangle only shows for particular index patterns; the solvers return a plausible but different optimum.",
     [S + "src/solver_utils.cpp", S + "include/trajopt_sco/solver_utils.hpp"], [("exprToEigen, eigenToTriplets, eigenToCSC", S + "src/solver_utils.cpp")],
     "2 rows, up to 3 terms per row, 3 variables")
prop("P15", "Convex cost and constraint containers model exactly what they stand for",
     "Minimising a convex objective's model over its auxiliary variables gives exactly the sum of the affine, quadratic, hinge, absolute value, L1, L2 and max terms added to it; convex constraints report the exact violations; their variables and constraints enter the model only on request and all of them leave it on removal or destruction.",
     ["inputs", "histories"], "all expressions, points, weights and add/remove sequences within the bound",
     "Leaked model variables and missing objective terms do not make any unit test fail but corrupt every later iteration's QP.",
     [S + "src/modeling.cpp"], [("ConvexObjective, ConvexConstraints", S + "src/modeling.cpp")],
     "terms over 2 variables with 2 affine parts; sequences of 2 terms; 2 equalities and 2 inequalities")
prop("P16", "Convexified costs and constraints are first order exact at the expansion point",
     "Costs and constraints built from error functions or scalar functions evaluate to the documented penalty of the weighted error; their convex model has the same value and, through the derivative of the error, the same first order behaviour at the expansion point, is convex everywhere, equals the function when it is affine, and refers only to the selected variables in their own order.",
     ["inputs", "programs"], "all points, weights, affine or quadratic error functions, penalty kinds and variable orders within the bound",
     "A model that is wrong by a factor or column order still lets the optimiser make progress in tests; the guarantee must hold at every expansion point.",
     [S + "src/modeling_utils.cpp", S + "src/num_diff.cpp"], [("CostFromErrFunc, ConstraintFromErrFunc, CostFromFunc", S + "src/modeling_utils.cpp")],
     "2 error rows over 2 of 3 variables; quadratic functions of 2 variables; analytic and numeric derivatives")
prop("P17", "Numerical differentiation is the finite difference it claims to be",
     "Forward gradients and Jacobians and central gradient/diagonal or full Hessians computed from function values equal the finite difference quotient for every quadratic function, step and point, evaluate the function only within one step of the point, and are exact for affine functions.",
     ["inputs"], "all points, steps and quadratic functions of two variables",
     "The unit tests check two functions at one point; a wrong step or column is invisible on symmetric inputs.",
     [S + "src/num_diff.cpp"], [("calcForwardNumGrad, calcForwardNumJac, calcGradAndDiagHess, calcGradHess", S + "src/num_diff.cpp")],
     "2 variables, vector functions of 3 rows")
prop("P18", "The problem container keeps variables, bounds, costs and constraints consistent",
     "Variables are added to model and problem together with their bounds; the closest feasible point lies inside every bound, leaves interior points unchanged and moves no point further than needed; the projection QP minimises the squared distance under the bounds and its failure is reported; costs, equality and inequality constraints are kept in the order added and typed correctly.",
     ["inputs", "histories"], "all bounds (also infinite, equal or narrower than the margin) and points within the bound",
     "The start point of every legacy optimisation passes through this projection; no unit test covers it.",
     [S + "src/modeling.cpp"], [("OptProb", S + "src/modeling.cpp")],
     "2 variables, 3 constraints in any order")
prop("P19", "The BPMPD back end solves exactly the model it was given",
     "Whatever history of adding and removing variables, constraints and bounds and of replacing the objective precedes it, the problem BPMPDModel sends to its solver is the model's QP: minimising it subject to its rows and bounds is minimising the stated objective over the stated constraints, values come back to the variables in order and solver outcomes map to the matching status.",
     ["inputs", "histories"], "all coefficients, bounds and model edit sequences within the bound",
     "Back end tests solve two or three fixed problems; a stale quadratic term or shifted row after removal is invisible there.",
     [S + "src/bpmpd_interface.cpp", S + "src/bpmpd_io.hpp"], [("BPMPDModel", S + "src/bpmpd_interface.cpp")],
     "2-3 variables, 2 rows, 3 model edits; solver process replaced by a stand-in that records the request")
prop("P20", "The BPMPD pipe protocol survives short and interrupted transfers",
     "Requests and answers exchanged with the BPMPD helper process arrive byte for byte whatever way the kernel splits or interrupts the transfers, an end of file or error is reported instead of being taken for data, and the helper leaves on the exit message.",
     ["fault_sequences", "schedules"], "all schedules of short, interrupted and failed reads and writes within the bound",
     "A local pipe hardly ever splits small messages, so no test sees the loop that must continue the transfer.",
     [S + "src/bpmpd_io.hpp", S + "src/bpmpd_caller.cpp"], [("ser, deser", S + "src/bpmpd_io.hpp"), ("main", S + "src/bpmpd_caller.cpp")],
     "two messages; each transfer split, interrupted or failed at any of its first steps")
prop("P21", "Text configuration selects what it names or fails with an exception",
     "Solver names and enumerators convert to each other without loss; the model factory creates the solver asked for by argument, else by environment, else the default, and refuses unknown or unavailable ones; a JSON value reaches a typed field unchanged or the reader throws std::runtime_error.",
     ["inputs", "configurations"], "all names, environment values, availability and JSON value types within the bound",
     "Tests parse only well formed files; a wrong name or type must stop the program with an error and not select something else.",
     [S + "src/solver_interface.cpp", "trajopt/src/json_marshal.cpp"], [("createModel, ModelType", S + "src/solver_interface.cpp"), ("fromJson", "trajopt/src/json_marshal.cpp")],
     "names over the known set plus mutations, JSON values of every type, arrays of up to 2 entries")
prop("P22", "The cache returns the value stored for a key and keeps the recent ones",
     "Over every history of insertions, lookups and pooled allocations the cache returns the latest value put under the key or nothing, evicts only the least recently used entry and only when no slot is free, grows only when every slot is in use, and never hands one pooled slot to two live users.",
     ["histories"], "all histories of operations and keys within the bound",
     "Cached collision results are reused between evaluations; a stale entry gives a plausible but wrong distance.",
     ["trajopt_common/include/trajopt_common/cache.h"], [("Cache", "trajopt_common/include/trajopt_common/cache.h")],
     "6 operations (7 thorough), capacity 2, 3 keys")
prop("P23", "Array blocks, slices and interpolation address the stated elements",
     "BasicArray blocks, rows, columns and slices, fancy indexing, flat non-zero search, concatenation and row major conversion return exactly the elements their arguments name and leave the rest alone; searchsorted and interp2d give the sorted position and the linear interpolation at every query inside the table and the end rows outside.",
     ["inputs"], "all shapes, positions, contents and queries within the bound",
     "Variable blocks of a trajectory are cut out with these; tests use the full or first block only.",
     ["trajopt_common/include/trajopt_common/basic_array.hpp", "trajopt_common/include/trajopt_common/vector_ops.hpp", "trajopt_common/include/trajopt_common/interpolation.hpp"], [("BasicArray", "trajopt_common/include/trajopt_common/basic_array.hpp")],
     "arrays of up to 3x3, tables of 3 rows")
prop("P24", "The OSQP back end solves exactly the model it was given",
     "At every solve the OSQP workspace holds the model's QP (objective, rows, bounds within the solver's infinity), whether the workspace was set up anew or updated in place; warm starts never change the problem; failures to set up, update or solve are reported and released memory is never used.",
     ["inputs", "histories", "fault_sequences"], "all coefficients, bounds, edit histories and failing calls within the bound",
     "An in-place update that keeps an old sparsity pattern or bound only shows after particular histories and gives a plausible optimum.",
     [S + "src/osqp_interface.cpp"], [("OSQPModel", S + "src/osqp_interface.cpp")],
     "2 variables, 2 rows, 2 solves with edits between them; OSQP library replaced by a recording stand-in")
prop("P25", "OSQPEigenSolver solves the problem last given to it",
     "Whatever the order and repetition of matrix, gradient and bound updates before the first solve or between solves, at every solve OSQP holds the last accepted Hessian (with its factor one half), gradient, rows and bounds; a refused update, set up or solve is reported to the trust-region loop and never taken for a success, and warm starts begin at the problem's variables.",
     ["inputs", "histories", "fault_sequences"], "all coefficients, bounds, update orders and failing calls within the bound",
     "The trust-region loop updates problems in place over hundreds of iterations; tests observe only the final trajectory.",
     [Q + "src/osqp_eigen_solver.cpp"], [("OSQPEigenSolver", Q + "src/osqp_eigen_solver.cpp")],
     "2 variables, 2 rows, two or three edits in place; OsqpEigen replaced by a recording stand-in")
T = "trajopt/src/"
prop("P26", "The sco joint costs and constraints agree with their convex models",
     "For each of the joint position, velocity, acceleration and jerk terms of trajopt, the value is the stated function of the finite differences of its step range (weighted squares about the target, weighted excess outside the tolerances), and the convex model has the same value at every point (equality constraints: weighted squared difference as value, weighted difference as model row); too short ranges are refused; trajectory variables, values and joint name subsets are laid out and found as named.",
     ["inputs"], "all coefficients, targets, tolerances, trajectories and step ranges within the bound",
     "The terms are hand expanded per derivative order; a wrong stencil coefficient, row or sign in one copy shows only for particular joints and steps.",
     [T + "trajectory_costs.cpp", T + "utils.cpp"], [("JointVelIneqCost and its 15 siblings", T + "trajectory_costs.cpp"), ("AddVarArrays, getTraj, getSubset", T + "utils.cpp")],
     "2 joints, ranges of up to 2 differences, superset of 3 names")
prop("P27", "The sco trust-region SQP takes improving steps and reports truthfully",
     "Whatever the costs, constraints, their models and the QP solver do, BasicTrustRegionSQP gives the QP exactly the penalised model of the best point within trust box and bounds, moves only to points whose exact merit improves as required, adapts box and penalties as documented, keeps the results in step with the best point, stops within its limits and reports convergence only when every constraint is within tolerance there.",
     ["inputs", "histories", "fault_sequences"], "all values of costs, constraints and models, QP failures and limits within the bound",
     "Which branch of the loop runs depends on the whole history of merit values; the integration tests follow a handful of well behaved runs.",
     [S + "src/optimizers.cpp"], [("BasicTrustRegionSQP::optimize", S + "src/optimizers.cpp")],
     "up to 2 constraints, 3 QP solves (4 thorough), 2-3 penalty rounds; merits positive")
T = "trajopt_common/"
prop("P28", "Collision data: coefficients, filtering, gradients and worst errors",
     "Collision coefficients are looked up independently of link order with the default for unset pairs, and exactly the zero ones are listed. Contact filtering drops exactly the contacts out of reach or entirely at a fixed end. Errors are margin minus distance; gradients are the velocity of the contact point along the normal, split between both states by contact time. The worst error of a set is the maximum over the contacts involving that state.",
     ["inputs", "histories"], "every coefficient history, contact, Jacobian, margin and mix of contact types within the bound",
     "None of this is reached by the unit tests of the build here; sign, reference point and fixed-end cases are combinations of many contact types.",
     [T + "src/collision_types.cpp", T + "src/collision_utils.cpp"],
     [("CollisionCoeffData, GradientResultsSet::add/getMaxError*", T + "src/collision_types.cpp"), ("removeInvalidContactResults, calcGradient, getGradient", T + "src/collision_utils.cpp")],
     "2-3 contacts, 3 objects, 1-2 joints; the kinematics library is a stand-in with an arbitrary Jacobian affine in the joints")
prop("P29", "Collision constraints: rows, coefficients and derivatives follow the contacts",
     "For any contacts an evaluator reports, each row of a collision constraint is the worst error of its contact set (minus the margin buffer when there is none), with the coefficient of its link pair, and its derivative is minus the penetration-weighted mean of the contact gradients, in the columns of the free states only. The per-contact and numeric variants report each contact's error and its exact derivative. Contacts are evaluated once per set of joint values. Bounds can be replaced row by row.",
     ["inputs", "histories", "configurations"], "every contact set, error, gradient, contact type, fixed end and variable layout within the bound, and a change of the joint values",
     "The real collision library is needed to exercise these classes in tests; stale rows after contacts vanish and mixed contact types do not occur in a sampled scene.",
     [C + "src/constraints/collision/discrete_collision_constraint.cpp", C + "src/constraints/collision/continuous_collision_constraint.cpp", C + "src/constraints/collision/discrete_collision_numerical_constraint.cpp", C + "src/constraints/collision/continuous_collision_numerical_constraint.cpp", C + "src/constraints/collision/weighted_average_methods.cpp"],
     [("update/getValues/getJacobian", C + "src/constraints/collision/"), ("getWeightedAvgGradientT0/T1", C + "src/constraints/collision/weighted_average_methods.cpp")],
     "2 nodes, 1-3 joints, up to 3 contact sets of up to 2 contacts, 2 successive states; the evaluator is a mock reporting arbitrary data")
prop("P30", "Collision evaluators: sampling of the motion and selection of contacts",
     "A collision evaluator asks the collision library about the right link poses: the given state, or the fewest equal pieces of the motion that are no longer than the longest valid segment. It reports every contact within margin plus buffer of its pair except pairs with coefficient zero and contacts entirely at a fixed end, grouped by link pair and shape with the pair's coefficient, and when there are too many the worst come first.",
     ["inputs", "configurations"], "every state, motion length, segment length, margin, coefficient and contact distance within the bound",
     "The collision library is absent from the tests built here, and which contacts are cut off depends on the order of their errors.",
     [C + "src/constraints/collision/discrete_collision_evaluators.cpp", C + "src/constraints/collision/continuous_collision_evaluators.cpp"],
     [("calcCollisions, calcCollisionData, calcCollisionsHelper", C + "src/constraints/collision/")],
     "1-2 joints, up to 5 segments, up to 3 contacts; scene, kinematics and collision library are stand-ins; combining sub-segment contacts (tesseract) is modelled by the stand-in")

prop("P31", "Kinematic terms of the sco stack: values and Jacobians",
     "The error calculators return what they document: pose error of the two frames in the selected rows, brought to its tolerance band; tool motion against the limit in both directions; velocity, acceleration and jerk of a joint over points with variable time steps; total time; reciprocal of the smallest singular value. The matching Jacobian calculators return the derivative of exactly that error (difference quotient for poses), in debug and release builds, and inverted or mismatched bands are refused.",
     ["inputs", "configurations"], "every joint value, pose, band, time step and limit within the bound",
     "These calculators need the robot library, so the tests built here do not run them; the formulas are long, and one wrong index shows only for particular time steps.",
     ["trajopt/src/kinematic_terms.cpp", "trajopt/src/utils.cpp"],
     [("CartPose/DynamicCartPose/CartVel calculators", "trajopt/src/kinematic_terms.cpp"), ("Joint*/TimeCost/AvoidSingularity calculators", "trajopt/src/kinematic_terms.cpp")],
     "2 joints, poses affine in the joints; 2..5 points; Jacobians 1x1 and diagonal 2x2 for the singularity term; forward kinematics and pose error are stand-ins")

prop("P32", "Cartesian pose, line and inverse kinematics constraints",
     "A pose constraint reports, for every component with a non-zero coefficient and once per split bound, the error between the two frames with its coefficient and bound; a line constraint the error to the nearest point of the segment in the world; an inverse kinematics constraint the difference to the nearest solution for the seed. Each Jacobian has its entries in the columns of its own variable only and is the derivative of those values, numerically and analytically, also after the target is moved; bounds can be replaced row by row; ill-formed arguments are refused.",
     ["inputs", "configurations"], "every joint value, frame, offset, coefficient and bound within the bound",
     "They need the robot library, so the tests built here do not run them, and upstream tests sample one robot with target frames at the origin and unit lines.",
     [C + "src/constraints/cartesian_position_constraint.cpp", C + "src/constraints/cartesian_line_constraint.cpp", C + "src/constraints/inverse_kinematics_constraint.cpp"],
     [("CartPosConstraint", C + "src/constraints/cartesian_position_constraint.cpp"), ("CartLineConstraint, getLinePoint", C + "src/constraints/cartesian_line_constraint.cpp"), ("InverseKinematicsConstraint", C + "src/constraints/inverse_kinematics_constraint.cpp")],
     "1-2 joints, 1-3 nodes, concrete orientations and angular velocities, arbitrary positions; 4 line shapes; up to 3 solutions; the library functions (pose error, kinematics) are stand-ins")

prop("P33", "Collision cost and constraint of the sco stack",
     "The collision cost is the sum, and the constraint the list, of coefficient times how far each contact is inside the margin of its pair; the convex model of either is, per contact, the same expression with the distance linearized about the evaluation point in exactly the free variables, each end of a motion weighted by the moment of contact. Contacts beyond margin plus buffer, of a pair with coefficient zero or entirely at a fixed end are left out. Motions are tested in as few equal pieces as the longest segment allows (plain continuous ones in one piece), links placed at the joint values; the result used is that of the point asked about, whatever was evaluated before; wrong configurations are refused.",
     ["inputs", "histories", "configurations"], "every distance, margin, coefficient, normal, contact point and joint value within the bound, every history of evaluations",
     "The legacy collision terms need the collision library, so no test built here runs them; upstream tests sample one scene.",
     ["trajopt/src/collision_terms.cpp", "trajopt/include/trajopt/cache.hxx"],
     [("CollisionEvaluator::GetGradient, CollisionsToDistanceExpressions, CalcDistExpressions*", "trajopt/src/collision_terms.cpp"), ("Discrete/Cast/SingleTimestepCollisionEvaluator::CalcCollisions", "trajopt/src/collision_terms.cpp"), ("Cache::get", "trajopt/include/trajopt/cache.hxx")],
     "1-2 joints, 3 link pairs, up to 3 contacts, motions of up to 4 (5) segments, histories of 4 evaluations at 3 points; model terms below 1e-7 may be dropped")


PD = "trajopt/src/problem_description.cpp"
prop("P34", "Problem construction: description to variables, terms and results",
     "ConstructProblem makes one variable per step and joint (and time) with the limits of the robot, the described initial trajectory, equations fixing exactly the fixed steps and joints to it, and one cost or constraint per described term and step over the variables of that step, worth the described function there: joint terms over every difference inside their step range (single steps, reversed, open and overlong ranges included), times from the time variables, poses and user functions at their step, collision per step or motion with the fixed ends left out. Inconsistent descriptions are refused; results name and carry what the optimizer found.",
     ["inputs", "configurations"], "every number in the description and trajectory, every step range, size and combination within the bound",
     "Which step, joint or variable a term reaches depends on combinations of sizes, ranges and flags; upstream tests use a few well formed files and this build runs none of them.",
     [PD, "trajopt/include/trajopt/problem_description.hpp"],
     [("ConstructProblem, generateInitTraj, TrajOptProb::TrajOptProb", PD), ("*TermInfo::hatch", PD), ("TrajOptResult, OptimizeProblem", PD)],
     "1-2 joints, up to 7 steps; kinematics and collision library stand-ins")
prop("P35", "Problem construction: JSON description to typed description",
     "Reading a problem from JSON stores every field given under its documented name in the matching field and documented defaults elsewhere, for each section and each kind of term, as cost and as constraint; missing sections or required fields, unknown fields and term types, wrong sizes, steps, links, limits and choices are refused. Several terms, including kinds registered by the user, are kept each once, in order; building a problem straight from JSON is reading it and then building it.",
     ["inputs", "configurations"], "every number, every field present or absent and every kind of fault within the bound",
     "A field that is dropped, swapped or refused changes the plan silently; tests read a handful of files.",
     [PD, "trajopt/include/trajopt/json_marshal.hpp"],
     [("ProblemConstructionInfo::fromJson", PD), ("*TermInfo::fromJson", PD), ("TermInfo::RegisterMaker", PD), ("ConstructProblem(Json::Value)", PD)],
     "2 joints, 5 steps; every kind of term alone, up to 5 terms of 3 kinds together")

prop("P36", "Settings: equal exactly if every field is equal",
     "Two sets of optimizer parameters or collision settings compare equal when all their fields are equal, and unequal when any single field differs by more than the comparison tolerance; inequality is the negation of equality and both are symmetric.",
     ["inputs", "configurations"], "every field, every value of it in both operands",
     "Profiles are reused or replaced on the answer; tests compare defaults only, so a field left out of the comparison goes unnoticed.",
     [Q + "src/types.cpp", S + "src/optimizers.cpp", "trajopt_common/src/collision_types.cpp"],
     [("SQPParameters::operator==", Q + "src/types.cpp"), ("BasicTrustRegionSQPParameters::operator==", S + "src/optimizers.cpp"), ("TrajOptCollisionConfig::operator==", "trajopt_common/src/collision_types.cpp")],
     "one differing field at a time; differences up to 1e-3 left open; the parts owned by tesseract are stand-ins")
prop("P37", "qpOASES back end: every solve is of the model's current problem",
     "Each time the model is optimized, qpOASES is given exactly the objective, constraint rows and bounds of the current variables and constraints, after any additions, removals and changes; a failed warm start is repeated from scratch with the full number of steps; the status and the solution of every variable are those of the last attempt.",
     ["inputs", "histories"], "every coefficient, sparsity pattern, bound, removal pattern, solver result and step count within the bound",
     "The back end is not built by the tests here, and upstream tests solve a few fixed problems that never fail to warm start.",
     [S + "src/qpoases_interface.cpp", S + "src/solver_utils.cpp", S + "include/trajopt_sco/solver_utils.hpp"],
     [("qpOASESModel::optimize, updateObjective, updateConstraints, update", S + "src/qpoases_interface.cpp"), ("eigenToCSC", S + "include/trajopt_sco/solver_utils.hpp")],
     "3 variables, 3 constraints, 2 solves; qpOASES is a recorder with arbitrary results")
prop("P38", "Collision settings survive being written out and read back",
     "Collision settings archived (cereal) or encoded as YAML and read back are the settings that were written, whatever the receiving object held before; fields absent from a YAML description keep their defaults, present ones take effect, margins are scaled if asked, and descriptions of the wrong shape are refused.",
     ["inputs", "configurations"], "every value of every field, up to 2 link pairs, every subset of fields",
     "Upstream tests round trip one configuration with most fields at their defaults.",
     ["trajopt_common/include/trajopt_common/yaml_extensions.h", "trajopt_common/include/trajopt_common/cereal_serialization.h"],
     [("YAML::convert", "trajopt_common/include/trajopt_common/yaml_extensions.h"), ("serialize", "trajopt_common/include/trajopt_common/cereal_serialization.h")],
     "values are kept as they are: printing and parsing of numbers by yaml-cpp and cereal is outside, as are tesseract's own types")

prop("P39", "Gurobi back end: every solve is of the model's current problem",
     "Each time the model is updated and optimized, Gurobi solves exactly the objective with its constant, the linear and quadratic constraints and the bounds of the current variables and constraints, after any additions, removals and replacements, whatever Gurobi holds back until its next update; the status and the solution of every variable are those Gurobi reports, and no call refers to a variable or row Gurobi does not have.",
     ["inputs", "histories"], "every coefficient, sparsity pattern, bound, removal pattern and status within the bound",
     "The back end needs a commercial solver and is built by no test here.",
     [S + "src/gurobi_interface.cpp", S + "src/solver_interface.cpp"],
     [("GurobiModel", S + "src/gurobi_interface.cpp"), ("simplify2, vars2inds, cnts2inds", S + "src/solver_interface.cpp")],
     "3 variables, 3 constraints, 2 solves; Gurobi is a recorder with lazy updates and arbitrary statuses; update() precedes the use of what was added, as the model interface asks")

prop("P40", "A QP model can be extended by several threads at once",
     "When terms are convexified in parallel, the variables with their bounds and the constraints that different threads add to the one shared QP model are all there afterwards, each exactly once and with its own index, bounds and coefficients, in every interleaving, and no thread is left waiting.",
     ["schedules", "inputs"], "every interleaving with up to 2 preemptions, every value of the bounds",
     "The multi-threaded optimizer loses a bound or corrupts the model only in a window of a few instructions; no test runs two threads.",
     [S + "src/osqp_interface.cpp", S + "src/bpmpd_interface.cpp", S + "src/qpoases_interface.cpp", S + "src/gurobi_interface.cpp", S + "src/solver_interface.cpp", S + "src/optimizers.cpp"],
     [("OSQPModel, BPMPDModel, qpOASESModel, GurobiModel: addVar, addEqCnt, addIneqCnt, setVarBounds", S + "src/osqp_interface.cpp"), ("Model::addVar", S + "src/solver_interface.cpp")],
     "2 threads, 1 or 2 variables and up to 1 constraint each; preemption at heap allocations, releases and mutex operations only; sequentially consistent memory")

prop("P41", "Callbacks report the iterate they are called with",
     "A file callback writes, for every step of the iterate it is called with, that step's joint values, the pose of every link at them (position, then quaternion w x y z), the cost values and the constraint violations, in that order. A plot callback clears, shows one state per step with the joint names and values, lets every pose term show its source and target frame at that iterate and every collision cost the contacts found there, and then waits. The SQP callbacks show the current values of the variables and constraints added to them. With a time column too, joint values stay joint values.",
     ["inputs", "histories"], "every joint value, pose offset, cost and violation, number of steps, joints and terms within the bound",
     "The callbacks are how a user watches an optimization; nothing in the test suite looks at what they write or draw.",
     ["trajopt/src/file_write_callback.cpp", "trajopt/src/plot_callback.cpp", "trajopt/src/kinematic_terms.cpp", "trajopt/src/collision_terms.cpp", "trajopt_optimizers/trajopt_sqp/src/callbacks/joint_state_plotter.cpp", "trajopt_optimizers/trajopt_sqp/src/callbacks/cartesian_error_plotter.cpp", "trajopt_optimizers/trajopt_sqp/src/callbacks/clear_plotter.cpp", "trajopt_optimizers/trajopt_sqp/src/callbacks/wait_for_input.cpp"],
     [("WriteCallback", "trajopt/src/file_write_callback.cpp"), ("PlotCallback, PlotProbCallback", "trajopt/src/plot_callback.cpp"), ("CartPoseErrCalculator::Plot, DynamicCartPoseErrCalculator::Plot", "trajopt/src/kinematic_terms.cpp"), ("SingleTimestepCollisionEvaluator::Plot, DiscreteCollisionEvaluator::Plot, CastCollisionEvaluator::Plot", "trajopt/src/collision_terms.cpp"), ("JointStatePlottingCallback, CartesianErrorPlottingCallback", "trajopt_optimizers/trajopt_sqp/src/callbacks/joint_state_plotter.cpp")],
     "1..3 steps, 1..2 joints, 2 iterates per callback; numbers are followed into the stream, their decimal form is the C++ library's; the header line of the file names costs and constraints in order, its other columns are not judged")
prop("P42", "What is printed or logged states the values it stands for",
     "The text of an affine or quadratic expression and a written model file read back as the same expression, objective, constraints and bounds. Printed results give the status, point, costs, violations and counts they hold. The step tables and log files of both optimizers list, for every cost and constraint by name, its value before and after the step, the improvement the approximation predicted and the one found, and their sums. The listing of a problem gives each set's size, place and number of violated bounds, and each cost's value.",
     ["inputs", "configurations"], "every coefficient, bound, value, name order and number of costs and constraints within the bound",
     "Users tune by reading these; no test looks at what is printed.",
     [S + "src/solver_interface.cpp", S + "src/osqp_interface.cpp", S + "src/optimizers.cpp", Q + "src/trust_region_sqp_solver.cpp", Q + "src/types.cpp", C + "src/core/problem.cpp", C + "src/core/component.cpp", C + "src/core/cost_term.cpp"],
     [("operator<< of Var, AffExpr, QuadExpr", S + "src/solver_interface.cpp"), ("OSQPModel::writeToFile", S + "src/osqp_interface.cpp"), ("operator<< of OptResults, BasicTrustRegionSQPResults::print, writeSolver, writeVars, writeCosts, writeConstraints", S + "src/optimizers.cpp"), ("SQPResults::print", Q + "src/types.cpp"), ("TrustRegionSQPSolver::printStepInfo", Q + "src/trust_region_sqp_solver.cpp"), ("Problem::printCurrent", C + "src/core/problem.cpp")],
     "2 variables, up to 2 costs and 2 constraints (sets); numbers are followed into the stream, their decimal form is the C++ library's; spacing, borders and colours are not judged; Cnt prints a text nothing sets and is left out")

ORACLE = {
    "P42": "the expressions, results and tables put in; a reader of the printed text with a number facet that remembers what is written, so a symbolic value stays one",
    "P41": "the iterate itself and the poses of a symbolic robot at it; a recording visualisation and a number facet that remembers what is written",
    "P40": "the additions of both threads one after the other; a coroutine scheduler plays the threads, the symbolic choice of switches is the schedule",
    "P39": "the QP built in the harness from the expressions it added; fake Gurobi applies changes only at updates and refuses unknown indices",
    "P36": "all fields equal -> equal; one field apart -> unequal, in both directions",
    "P37": "the QP built in the harness from the expressions it added; fake qpOASES records what it is given, reports any result and overwrites its step budget",
    "P38": "the settings before writing, field by field and by every lookup",
}

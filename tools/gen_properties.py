#!/usr/bin/env python3
"""Generates /verif/properties.jsonl from the table below."""
import json, os

P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "observe_at": list(observe), "hook_needed": None}})


S = "src/"
I = "include/hpp/constraints/"

prop("C01", "Equality compares all the data that define an object",
     "Two constraint or function objects (differentiable functions, implicit and explicit constraints, constraint sets) compare equal only if every piece of data that was given to define them and that determines what they compute (joints, frames, reference points, masks, matrices, reference configurations, sub-functions, comparison types, sizes) compares equal, each datum being compared with the same datum of the other object. Temporaries left behind by evaluations never influence the result, and comparing an object with itself or with an equal copy returns true.",
     ["inputs", "histories"],
     "for every pair of objects of the same class, whatever evaluations were performed on them before",
     "Tests compare a few pairs built with one or two different arguments; no test varies each datum of each class, nor compares after an evaluation.",
     [S + "generic-transformation.cc", S + "implicit.cc", S + "explicit.cc", S + "relative-com.cc", S + "convex-shape-contact.cc", I + "affine-function.hh", S + "differentiable-function-set.cc"],
     [("isEqual virtual methods", "src/*.cc, include/hpp/constraints/*.hh"), ("DifferentiableFunction::operator== and Implicit::operator==", "src/differentiable-function.cc, src/implicit.cc")],
     observe=["operator== of DifferentiableFunction and Implicit"])

prop("C02", "An archive round trip restores every datum of the object",
     "Saving an object of a serializable class and loading it back restores every persistent datum its later operations read: each such datum is either written to and read from the archive (the writer and the reader processing the same data in the same order) or recomputed while loading. The data of its base classes are restored as well.",
     ["inputs", "histories"],
     "for every object of a serializable class and every archive type",
     "Tests serialize a handful of objects and compare their printed form or a few values; fields that are not printed are never seen.",
     [S + "implicit.cc", S + "explicit.cc", S + "solver/hierarchical-iterative.cc", S + "solver/by-substitution.cc", S + "generic-transformation.cc", S + "locked-joint.cc", S + "explicit/relative-pose.cc", S + "serialization.hh"],
     [("serialize / save / load templates", "src/*.cc")],
     observe=["boost archives, object used after loading"])

prop("C03", "A copy carries all the data and shares no mutable state",
     "Copying an implicit or explicit constraint, a constraint set or a solver gives an object that has every defining datum of the source (base-class data included) and the same dynamic type, and changing the right hand side of the copy never changes the source. A copied solver owns its own copies of the constraints it holds.",
     ["inputs", "histories"],
     "for every object and every sequence of modifications of the copy or the source after the copy",
     "Tests copy a few constraints and check one or two values; aliasing shows only after a later modification of one of the two objects.",
     [S + "implicit.cc", S + "explicit.cc", S + "locked-joint.cc", I + "implicit-constraint-set.hh", S + "solver/hierarchical-iterative.cc", S + "explicit-constraint-set.cc", S + "solver/by-substitution.cc"],
     [("copy constructors and copy() overrides", "src/implicit.cc, src/explicit.cc, src/solver/*.cc")],
     observe=["copy(), copy construction of solvers"])

prop("C04", "Evaluation writes the whole output",
     "Every evaluation of a value or of a Jacobian that returns normally has assigned every coefficient of the output it was given; nothing in the output is left from before the call. In particular the Jacobian columns of the extra configuration variables, and those of the joints that do not influence the function, are assigned too.",
     ["inputs", "configurations"],
     "for every differentiable function, every input and every previous content of the output buffer",
     "Tests pass zero-initialised matrices and robots without extra configuration variables, so stale coefficients go unnoticed.",
     [S + "generic-transformation.cc", S + "relative-com.cc", S + "com-between-feet.cc", S + "convex-shape-contact.cc", S + "manipulability.cc", S + "distance-between-bodies.cc", I + "affine-function.hh", S + "differentiable-function-set.cc"],
     [("impl_compute / impl_jacobian of each function", "src/*.cc, include/hpp/constraints/*.hh")],
     observe=["DifferentiableFunction::value, ::jacobian"])

prop("C05", "Robot functions read kinematics of the requested configuration",
     "Each evaluation of a robot-based function reads joint placements, joint Jacobians, the centre of mass and collision geometry only after it has set the robot to the configuration passed as argument and recomputed the kinematic quantities it reads. The result never depends on the configuration of an earlier evaluation.",
     ["histories", "inputs"],
     "for every sequence of evaluations, value and Jacobian calls interleaved at different configurations",
     "Tests evaluate each function at isolated random configurations and do not interleave value and Jacobian calls at different configurations.",
     [S + "generic-transformation.cc", S + "relative-com.cc", S + "com-between-feet.cc", S + "convex-shape-contact.cc", S + "manipulability.cc", S + "distance-between-bodies.cc", S + "distance-between-points-in-bodies.cc", S + "qp-static-stability.cc", I + "symbolic-function.hh"],
     [("DeviceSync / currentConfiguration / computeForwardKinematics", "src/*.cc")],
     observe=["DifferentiableFunction::value, ::jacobian"])

prop("C06", "Evaluating a function leaves it and its siblings unchanged",
     "Computing the value, the Jacobian or the equality of a differentiable function, and printing it, never changes data that define the function. Robot-based functions that take a private copy of the robot data for the evaluation read and write kinematic data only in that private copy and modify nothing shared by other threads.",
     ["schedules", "histories"],
     "for every interleaving of evaluations of the same function in several threads and every history of evaluations",
     "Tests are single threaded, and repeated evaluations at the same point hide modifications that are idempotent.",
     [S + "generic-transformation.cc", S + "convex-shape-contact.cc", S + "relative-com.cc", I + "differentiable-function.hh"],
     [("const evaluation methods, mutable members, DeviceSync", "src/*.cc")],
     observe=["members of the function, Device data"])

prop("C07", "Queries and solving do not alter the constraints of a solver",
     "Solving, testing satisfaction, computing errors, projecting, saturating and printing leave the constraints, their right hand sides, comparison types and priorities, the error thresholds, the explicit constraint set and the free variables of a solver unchanged. Extracting from or copying a solver leaves the source unchanged.",
     ["histories", "inputs"],
     "for every sequence of queries on a solver",
     "Tests query a solver once or twice and do not compare its state before and after.",
     [S + "solver/hierarchical-iterative.cc", S + "solver/by-substitution.cc", S + "explicit-constraint-set.cc"],
     [("const methods and pointers to constraints", "src/solver/*.cc")],
     observe=["right hand sides and thresholds after solve / isSatisfied"])

prop("C08", "Solvers report SUCCESS only for a configuration they checked",
     "A solver returns SUCCESS only when the error it last evaluated was below its error threshold and was evaluated at the configuration it returns, or at a configuration it returns restored after having checked it. Failing to converge, leaving the domain of an explicit function or running out of iterations never yields SUCCESS.",
     ["inputs", "histories"],
     "for every constraint set, starting configuration, line search and iteration count",
     "Tests run the solver on random configurations for which it usually converges within the iteration budget.",
     [I + "solver/impl/hierarchical-iterative.hh", I + "solver/impl/by-substitution.hh", S + "solver/hierarchical-iterative.cc"],
     [("solve / impl_solve", "include/hpp/constraints/solver/impl/*.hh")],
     observe=["return value of solve and the configuration it leaves"])

prop("C09", "Explicit constraints hold at every configuration a solver evaluates",
     "In the solver by substitution, whenever the configuration has been modified by an integration step of the solve functions, the explicit constraints are solved again before the implicit constraints are evaluated at it or the configuration is handed back to the caller by solve, oneStep or integrate. An explicit function that is not defined at the configuration makes solve return a failure status instead of letting the error escape or be ignored.",
     ["inputs", "fault_sequences"],
     "for every line search, every step and every explicit function that may be undefined",
     "Tests use explicit functions that are defined everywhere near the configurations they start from.",
     [I + "solver/impl/by-substitution.hh", I + "solver/by-substitution.hh", S + "solver/by-substitution.cc"],
     [("impl_solve, integrate, explicit_.solve", "include/hpp/constraints/solver")],
     observe=["configuration returned by solve, lineSearch"])

prop("C10", "Iterates stay within the joint bounds",
     "Every configuration produced by an integration step of a solver has been passed through the saturation of the solver before it is returned or used as an iterate. Variables recorded as saturated are those the saturation reports, and bounds are applied per configuration variable with the velocity index of that variable.",
     ["inputs"],
     "for every starting configuration, step and bounds",
     "Tests use bounds wide enough not to be active.",
     [S + "solver/hierarchical-iterative.cc", I + "solver/impl/hierarchical-iterative.hh"],
     [("HierarchicalIterative::integrate, saturation::Base::saturate", "src/hierarchical-iterative.cc")],
     observe=["configurations returned by solve"])

prop("C11", "Configuration and velocity dimensions are not mixed up",
     "Quantities that live in the configuration space of a Lie group (values, arguments, right hand sides) are sized and indexed by configuration dimensions, and quantities in its tangent space (errors, steps, Jacobian rows and columns, masks) by tangent dimensions. The two are never interchanged, even though they coincide for vector spaces.",
     ["inputs", "configurations"],
     "for every Lie group including those whose two dimensions differ",
     "On vector spaces both dimensions are equal, so most tests cannot distinguish them.",
     [S + "solver/hierarchical-iterative.cc", S + "explicit-constraint-set.cc", S + "implicit.cc", S + "explicit.cc", S + "locked-joint.cc"],
     [("inputSize/inputDerivativeSize, outputSize/outputDerivativeSize, nq/nv", "src/*.cc")],
     observe=["sizes and offsets"])

prop("C12", "Adding a constraint updates all the bookkeeping of a solver",
     "Whenever a constraint is added to or merged into a solver or a constraint set, every table indexed by constraint or by priority level (right hand side offsets in configuration and in tangent coordinates, comparison types, active rows, per-level buffers, dimensions) is updated before the call returns, so that a solver built by any sequence of additions has the same tables as one built at once. Offsets advance by the size of the constraint added, each in its own unit.",
     ["histories", "inputs"],
     "for every sequence of additions, merges and priority changes",
     "Tests add constraints in one or two fixed orders and look at the total dimension only.",
     [S + "solver/hierarchical-iterative.cc", S + "solver/by-substitution.cc", S + "explicit-constraint-set.cc", I + "implicit-constraint-set.hh", S + "differentiable-function-set.cc"],
     [("add, merge, update, contains", "src/solver, src/explicit-constraint-set.cc")],
     observe=["dimension, rightHandSide offsets, tables"])

prop("C13", "Each comparison type is handled as documented everywhere",
     "Wherever the library distinguishes comparison types, the four types are each handled: Equality keeps the error to the right hand side, EqualToZero ignores any right hand side, Superior counts only shortfalls below the threshold and Inferior only excesses above it, for error and Jacobian alike. A right hand side can be set only on Equality components, and no component of another type ever gets a non-zero right hand side.",
     ["inputs"],
     "for every combination of comparison types and every value",
     "Tests use one or two comparison types per scenario and never all of them in each place.",
     [S + "solver/hierarchical-iterative.cc", S + "explicit-constraint-set.cc", S + "implicit.cc", I + "fwd.hh"],
     [("compareType handling", "src/solver/hierarchical-iterative.cc, src/implicit.cc, src/explicit-constraint-set.cc")],
     observe=["errors, Jacobians, right hand sides"])

prop("C14", "Masked rows never contribute",
     "Rows of a constraint that are not active contribute neither to the error, nor to the Jacobian, nor to the satisfaction test of a solver or of a constraint set, while every active row contributes to all three.",
     ["inputs"],
     "for every mask and every value",
     "Tests use full masks almost everywhere.",
     [S + "solver/hierarchical-iterative.cc", S + "explicit-constraint-set.cc", S + "generic-transformation.cc", I + "symbolic-function.hh"],
     [("active row handling", "src/solver/hierarchical-iterative.cc")],
     observe=["error and Jacobian of a solver"])

prop("C15", "Functions of two joints accept the world in place of a joint",
     "A joint argument that may be empty, meaning the world frame, is never dereferenced without having been tested on the path, in construction, evaluation, comparison, serialization and printing. The pair of joints a constraint reports as depending on is ordered consistently by joint index, the world first, whatever the order in which they were given.",
     ["inputs"],
     "for every function or constraint that takes two joints and each of the possible empty ones",
     "Tests use two actual joints in nearly all cases.",
     [S + "generic-transformation.cc", S + "explicit/relative-pose.cc", S + "convex-shape-contact.cc", S + "locked-joint.cc", S + "implicit.cc", S + "relative-com.cc"],
     [("null tests of JointPtr_t", "src/*.cc"), ("doesConstrainRelPoseBetween, dependsOnRelPoseBetween", "src/*.cc")],
     observe=["no crash; the joint pair reported"])

prop("C16", "Symbolic expressions never use stale or unset intermediate results",
     "An expression of the symbolic calculus reads the value, the cross-product matrix or the Jacobian of an operand only after having computed it for the current configuration. The cached quantities are initially invalid, become valid only by being computed, and invalidating an expression invalidates all its operands.",
     ["histories", "programs"],
     "for every expression tree and every order of value, cross and Jacobian computations",
     "Tests evaluate values before Jacobians, on a few trees, always on fresh configurations.",
     [I + "symbolic-calculus.hh", I + "symbolic-function.hh"],
     [("CalculusBase cache flags", "include/hpp/constraints/symbolic-calculus.hh")],
     observe=["value and Jacobian of expressions"])

prop("C17", "Satisfaction tests check every constraint against the threshold in force",
     "A solver or a constraint set reports that a configuration satisfies its constraints only if each of them, implicit and explicit, at every priority level that is not optional, has been evaluated at that configuration and has its error below the threshold. A change of the error threshold of a solver reaches every part of the solver that tests satisfaction.",
     ["inputs", "histories"],
     "for every constraint set, threshold and configuration",
     "Tests check satisfaction after a successful solve, where all parts agree.",
     [S + "solver/hierarchical-iterative.cc", S + "solver/by-substitution.cc", I + "solver/by-substitution.hh", S + "explicit-constraint-set.cc"],
     [("isSatisfied, isConstraintSatisfied, errorThreshold", "src/solver, src/explicit-constraint-set.cc")],
     observe=["isSatisfied, isConstraintSatisfied"])

prop("C18", "Right hand side setters and getters address the same coefficients",
     "The functions of a solver that set and that return right hand sides, of all constraints, of one constraint or of the whole stack, use the same layout: implicit constraints first, explicit ones last, each constraint at its own offset and with its own size. After the right hand side of a solver has been set, that of each constraint it holds is the corresponding segment, and reading it back returns what was set.",
     ["inputs", "histories"],
     "for every composition of a solver and every order of set and get calls",
     "Tests set right hand sides on solvers with one level or with implicit constraints only.",
     [S + "solver/hierarchical-iterative.cc", S + "solver/by-substitution.cc", S + "explicit-constraint-set.cc"],
     [("rightHandSide, rightHandSideFromConfig, getRightHandSide", "src/solver")],
     observe=["rightHandSide, getRightHandSide"])

prop("C19", "The declared active parameters cover all that a function reads",
     "A function declares active the configuration parameters and the velocity parameters of every joint it depends on, the two declarations being made together for the same joints. Composite functions declare active the union of what their members declare.",
     ["inputs", "configurations"],
     "for every function, robot and composition",
     "Tests compare Jacobian sparsity for a few functions on one robot.",
     [S + "generic-transformation.cc", S + "differentiable-function-set.cc", S + "relative-com.cc", S + "convex-shape-contact.cc", S + "manipulability.cc", S + "function/of-parameter-subset.cc", S + "function/difference.cc"],
     [("activeParameters_, activeDerivativeParameters_", "src/*.cc")],
     observe=["activeParameters, activeDerivativeParameters"])

prop("C20", "Overlap of index intervals is decided correctly for every position",
     "Two intervals of indices are reported as overlapping exactly when they have an index in common, whatever their relative position, containment included, and whichever comes first. Sorting, shrinking, splitting and complementing sets of intervals neither lose nor duplicate an index.",
     ["inputs"],
     "for every pair of intervals",
     "Tests try a few positions of intervals.",
     [S + "matrix-view.cc", I + "matrix-view.hh"],
     [("BlockIndex", "src/matrix-view.cc")],
     observe=["BlockIndex functions"])

prop("C21", "Inconsistent constraint definitions are rejected",
     "Constructing a constraint whose comparison types or mask do not have the size of the tangent space of its function, or adding to a constraint set an explicit constraint whose outputs are already computed by another one or would create a dependency cycle, is refused and leaves the set unchanged.",
     ["inputs", "histories"],
     "for every definition and every sequence of additions",
     "Tests check one or two refusals.",
     [S + "implicit.cc", S + "explicit-constraint-set.cc", S + "explicit.cc", S + "solver/by-substitution.cc"],
     [("checks in constructors and add()", "src/implicit.cc, src/explicit-constraint-set.cc")],
     observe=["exceptions, return value of add, state after a refusal"])

prop("C22", "Derived functions keep value and Jacobian consistent with their source",
     "A function obtained from another by restriction to a line, extraction of parameters or of rows, difference or composition computes its value and its Jacobian at the same argument and with the same parameters of the source function.",
     ["inputs"],
     "for every derived function and argument",
     "Tests check few derived functions, mostly on linear ones.",
     [S + "extracted-function.hh", S + "function/difference.cc", S + "function/of-parameter-subset.cc", S + "explicit/implicit-function.cc", S + "differentiable-function-set.cc"],
     [("impl_compute and impl_jacobian", "src/extracted-function.hh, src/function/*.cc")],
     observe=["value, jacobian"])

prop("C23", "Jacobians are the derivatives of the values",
     "At every configuration where it is differentiable, the Jacobian a function returns is the derivative of its value with respect to the velocity of the robot, expressed in the tangent space of the output.",
     ["inputs"], "for every function and configuration",
     "test-jacobians compares with finite differences at random configurations only.",
     [S + "generic-transformation.cc", S + "relative-com.cc", I + "symbolic-calculus.hh"],
     [("impl_jacobian", "src/*.cc")], observe=["jacobian"])

prop("C24", "Contact, distance and stability values have their geometric meaning",
     "Convex shape contact, distance between bodies and static stability functions return the value defined by the geometry: zero exactly when the shapes are in contact or the robot is stable, and the distance otherwise.",
     ["inputs"], "for every geometry and configuration",
     "Tests sample random configurations of a few shapes.",
     [S + "convex-shape-contact.cc", S + "static-stability.cc", S + "qp-static-stability.cc", I + "convex-shape.hh"],
     [("computeInternalValue", "src/convex-shape-contact.cc")], observe=["value"])

prop("C25", "Newton iterations converge on well-conditioned problems",
     "Started close enough to a regular solution, the solvers converge to a solution within the iteration budget, whatever the line search.",
     ["inputs"], "for every regular problem",
     "Convergence is sampled.",
     [I + "solver/impl/hierarchical-iterative.hh", I + "solver/impl/by-substitution.hh"],
     [("computeDescentDirection, lineSearch", "src/solver/hierarchical-iterative.cc")], observe=["solve"])

prop("C26", "Explicit solutions satisfy their implicit form",
     "Solving an explicit constraint at a configuration gives a configuration where the value of the associated implicit function equals its right hand side.",
     ["inputs"], "for every explicit constraint, configuration and right hand side",
     "Sampled for relative pose only.",
     [S + "explicit.cc", S + "explicit/relative-transformation.cc", S + "explicit/implicit-function.cc"],
     [("outputValue, implicit function", "src/explicit")], observe=["outputValue, function().value"])

if __name__ == "__main__":
    d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    for p in P:
        for f in p["anchors"]["files"]:
            if not os.path.exists("/repo/" + f):
                print("missing", p["id"], f)
    with open(os.path.join(d, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")

TECH["C01"] = (
    "abstract interpretation of equality functions against an "
    "information-flow analysis of constructors and factories",
    "Sound for the listed classes up to the assumptions in the evidence: "
    "every path of every equality function is covered, loops taken at least "
    "once; external equality operators are trusted.")
NUM = ("The property relates real-valued functions (a derivative, a distance, "
       "a limit) for all inputs; no dataflow, typestate or type-level "
       "argument bounds these values, and running or solving them is outside "
       "this family of techniques.")
NA["C23"] = NUM
NA["C24"] = NUM
NA["C25"] = NUM
NA["C26"] = NUM
TECH["C05"] = (
    "typestate analysis of the robot data on all paths of the evaluation "
    "functions",
    "Every path of every evaluation function, helpers inlined, loops taken "
    "at least once; what a kinematic call of hpp-pinocchio sets, computes or "
    "reads is a fixed table.")
TECH["C06"] = (
    "interprocedural effect analysis of evaluation functions against an "
    "information-flow analysis of constructors",
    "Every path of every evaluation, equality and printing function; "
    "external objects behind pointers are treated as working storage.")
TECH["C16"] = (
    "typestate analysis of expression caches on all paths",
    "Every path of every function of the symbolic calculus and of every "
    "function that holds expressions, for all template instances the library "
    "and the witness file instantiate.")
TECH["C04"] = (
    "region-based definite-assignment analysis of evaluation outputs",
    "Every path of every value and Jacobian function, loops taken at least "
    "once; regions are symbolic intervals, and an interval whose extent is "
    "not comparable is taken to cover.")
TECH["C08"] = (
    "typestate analysis of the configuration on all paths of the solve "
    "functions",
    "Every path of every instance of the solve functions for the line "
    "searches of the library, loops iterated to a fixpoint; status, flags "
    "and comparisons of the squared norm tracked path by path.")
TECH["C09"] = (
    "typestate analysis of the configuration on all paths of the solver by "
    "substitution",
    "Every path of every instance of the solve functions, oneStep and "
    "integrate; throwing edges of the explicit constraints included. Values "
    "computed by the explicit functions are not examined.")
TECH["C10"] = (
    "typestate analysis of the configuration in the solve functions, "
    "path-sensitive index and bound analysis of the saturation functions",
    "Every path of every instance of the solve functions, of integrate and "
    "of the saturation functions of the library; user-supplied saturation "
    "functions are trusted.")
TECH["C21"] = (
    "case analysis of the refusal conditions and the update of the "
    "dependency tables, over finite representatives",
    "ExplicitConstraintSet::add, its constructors, and the helpers that "
    "decide overlap, ownership of outputs and cycles: every combination of "
    "the cases distinguished; sizes are those of the cases.")
TECH["C17"] = (
    "case analysis of the satisfaction tests by abstract interpretation with "
    "row-wise tracking of error vectors",
    "Every isSatisfied and isConstraintSatisfied of the solvers and of the "
    "explicit constraint set, computeValue and computeError included, for "
    "every position of the violated constraint among two levels and three "
    "kinds of constraints and four pairs of error norm and threshold; and "
    "the setters of the threshold. Two levels of two constraints stand for "
    "any number.")
TECH["C22"] = (
    "symbolic comparison of the evaluations of inner functions in value and "
    "Jacobian code",
    "Every path of the value and Jacobian functions that evaluate another "
    "function of the library, loops taken at least once; chain rules through "
    "matrices are not examined.")
TECH["C02"] = (
    "event-sequence and information-flow analysis of serialization functions",
    "Every path of every serialization function, for the input and output "
    "archive instances; that an archive format reads back what it wrote is "
    "assumed.")
TECH["C03"] = (
    "information-flow analysis of copy constructors and copy functions",
    "Every path of every copy constructor and copy function of the "
    "constraint, constraint set and solver classes; whether a data member "
    "behind a shared pointer may be shared is decided by its type.")
TECH["C07"] = (
    "interprocedural effect analysis of const and query functions",
    "Every path of every const or query function of the solver and "
    "constraint classes, helpers, line searches and lambdas inlined; "
    "differentiable functions and saturation objects are treated as working "
    "objects.")
TECH["C18"] = (
    "symbolic layout analysis (intervals, units and running offsets) of right "
    "hand side functions",
    "Every path of every function that sets, returns or counts right hand "
    "sides, loops taken at least once; offsets are symbolic, and only "
    "differences in unit, element, level, order or step that are definite "
    "are reported. Tables of offsets are taken from C12.")


TECH["C12"] = (
    "case analysis by abstract interpretation with the content of lists and "
    "vectors followed element by element",
    "Functions that add constraints to solvers, constraint sets, function "
    "sets and explicit constraint sets, and those that merge. Tables holding "
    "one or two constraints beforehand stand for any history; sizes are "
    "symbolic with configuration and tangent dimensions different. The "
    "search for loops and the computation order of explicit constraints "
    "belong to C21.")
TECH["C13"] = (
    "case analysis by abstract interpretation with the content of lists and "
    "vectors followed element by element",
    "Error and Jacobian rows left by computeValue and isConstraintSatisfied "
    "for every comparison type, values on both sides of the threshold and at "
    "different positions; lists of indices, parameter sizes and right hand "
    "sides by comparison types, offsets in configuration and tangent "
    "coordinates. Five rows at one level, four at another stand for any "
    "number.")
TECH["C14"] = (
    "case analysis by abstract interpretation with the content of lists and "
    "vectors followed element by element",
    "Errors, reduced Jacobians and satisfaction tests of solvers and explicit "
    "constraint sets with masked rows whose error would decide; lists of "
    "active rows from masks and per level; right hand sides of the linear "
    "systems. Two levels, up to three constraints each, stand for any "
    "number.")
TECH["C15"] = (
    "nullness typestate over the paths of the functions reading joints, and "
    "an order analysis of the reported pairs",
    "Joints are those declared to be possibly the world (members, arguments "
    "and accessors whose code or documentation accepts an empty pointer); "
    "a dereference is reported only on a path where the pointer is known "
    "empty, or was tested elsewhere and is not tested on the path. Pairs are "
    "decided for each combination of empty / present joints.")

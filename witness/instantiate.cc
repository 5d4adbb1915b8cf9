// Explicit instantiations of the header-only templates of hpp-constraints, so
// that the analyses see their resolved bodies even where the library itself
// does not instantiate them. Only parsed, never linked or run.
#include <hpp/constraints/differentiable-function.hh>
#include <hpp/constraints/matrix-view.hh>
#include <hpp/constraints/symbolic-calculus.hh>
#include <hpp/constraints/symbolic-function.hh>
#include <hpp/constraints/svd.hh>
#include <hpp/constraints/tools.hh>
#include <hpp/constraints/comparison-types.hh>
#include <hpp/constraints/affine-function.hh>
#include <hpp/constraints/solver/by-substitution.hh>
#include <hpp/pinocchio/device.hh>
#include <hpp/pinocchio/center-of-mass-computation.hh>

namespace hpp {
namespace constraints {
template class Difference<PointInJoint, PointInJoint>;
template class Sum<PointInJoint, PointInJoint>;
template class CrossProduct<VectorInJoint, VectorInJoint>;
template class CrossProduct<PointInJoint, PointInJoint>;
template class ScalarMultiply<PointInJoint>;
template class CrossProduct<PointCom, PointInJoint>;
template class MatrixOfExpressions<eigen::vector3_t, JacobianMatrix>;
template class SymbolicFunction<PointInJoint>;
template class SymbolicFunction<JointFrame>;
template class SymbolicFunction<PointCom>;

// FunctionExp and RotationMultiply have copy constructors that are ill-formed
// when instantiated; only their used members are instantiated here.
void saWitnessFunctionExp(FunctionExp<DifferentiableFunction>& f,
                          ConfigurationIn_t q) {
  f.computeValue(q);
  f.computeJacobian(q);
  f.invalidate();
}

namespace solver {
template bool BySubstitution::oneStep(vectorOut_t arg,
                                      lineSearch::Constant& ls) const;
template bool BySubstitution::oneStep(vectorOut_t arg,
                                      lineSearch::Backtracking& ls) const;
template bool BySubstitution::oneStep(vectorOut_t arg,
                                      lineSearch::FixedSequence& ls) const;
template bool BySubstitution::oneStep(vectorOut_t arg,
                                      lineSearch::ErrorNormBased& ls) const;
}  // namespace solver
}  // namespace constraints
}  // namespace hpp

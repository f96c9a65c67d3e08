"""Emits properties.jsonl and MANIFEST.json from one table:  python3-vt -m vlib.meta"""
import json
import os

from .props import PROPS

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, note="", na=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, na=na, observe=observe))


prop("C01", "Every Lie group variable obeys the group axioms",
     "For SO2, SE2, SO3, SE3, VectorVar1..6 and ImuBias, composition is associative, identity is a two-sided neutral element, and inverse gives a two-sided inverse. Compositions and inverses of valid elements are valid (rotations stay unit norm).",
     ["inputs"], "all triples of valid elements of each group",
     "The tests compare a handful of concrete elements (mostly exp of one constant vector), so an error that only shows for particular coordinates or compositions passes.",
     ["src/variables/so2.rs", "src/variables/so3.rs", "src/variables/se2.rs", "src/variables/se3.rs", "src/variables/vector.rs", "src/variables/imu_bias.rs"],
     ["Variable::identity", "Variable::inverse", "Variable::compose"])
prop("C02", "exp and log are mutually inverse on the injectivity region",
     "For every valid element x of each Lie group variable, exp(log(x)) is the same transformation as x, also when a rotation is stored with the opposite quaternion sign. For every tangent vector t with rotation angle below pi, log(exp(t)) equals t, including angles of either sign and at the small-angle threshold.",
     ["inputs"], "all valid elements; all tangent vectors with rotation angle below pi",
     "The tests take one generic tangent vector and one tiny one per group; negative angles, the other quaternion sign and the values next to branch thresholds are not reached.",
     ["src/variables/so2.rs", "src/variables/so3.rs", "src/variables/se2.rs", "src/variables/se3.rs", "src/variables/vector.rs", "src/variables/imu_bias.rs"],
     ["Variable::exp", "Variable::log"])
prop("C03", "exp is the true exponential map of the group",
     "For every tangent vector t, exp(t) is the matrix exponential of hat(t): rotation by the angle |omega| about omega, and translation V(omega)*rho for SE2/SE3, continuous across the small-angle threshold. exp(0) is the identity, exp(-t) is the inverse of exp(t), and the tangent order is rotation first, then translation.",
     ["inputs"], "all tangent vectors, of any magnitude and sign",
     "The tests check a few concrete vectors; a wrong coefficient, a wrong threshold or a sign error that is consistent between exp and log survives a round-trip test.",
     ["src/variables/so2.rs", "src/variables/so3.rs", "src/variables/se2.rs", "src/variables/se3.rs", "src/variables/vector.rs"],
     ["Variable::exp", "MatrixLieGroup::hat"])
prop("C04", "oplus, ominus and minus agree with the chosen perturbation side",
     "For all x and t, oplus(x,t) is x*exp(t) and ominus(y,x) is log(x^-1*y) (exp(t)*x and log(y*x^-1) with the `left` feature), minus(y,x) is y^-1*x, and x oplus (y ominus x) is y. Type-erased variables (oplus through the dynamic interface, dimensions, downcasts) behave identically, and injected perturbations have the same meaning for every scalar type.",
     ["inputs", "configurations"], "all element pairs and tangent vectors, with right (default) and left perturbation",
     "The tests run only in the default configuration on single concrete elements.",
     ["src/variables/traits.rs", "src/variables/so2.rs", "src/variables/so3.rs", "src/variables/se2.rs", "src/variables/se3.rs", "src/variables/vector.rs"],
     ["Variable::oplus", "Variable::ominus", "Variable::minus", "VariableSafe::oplus_mut", "Variable::tangent"])
prop("C05", "The matrix representation is faithful",
     "For SO2, SE2, SO3 and SE3, to_matrix maps composition to matrix product and inverse to matrix inverse, from_matrix inverts to_matrix, and apply acts on points as the matrix does. hat and vee are mutually inverse, hat_swap satisfies hat(t)*p = hat_swap(p)*t, and adjoint(x)*t is the tangent of x*exp(t)*x^-1 for every t; coordinate accessors report the matching entries.",
     ["inputs"], "all valid elements, tangent vectors and points",
     "The tests check one concrete element per group and do not compare adjoint, hat, vee and apply against each other for all groups.",
     ["src/variables/so2.rs", "src/variables/so3.rs", "src/variables/se2.rs", "src/variables/se3.rs", "src/variables/traits.rs"],
     ["MatrixLieGroup::{to_matrix,from_matrix,apply,hat,vee,hat_swap,adjoint}"])
prop("C06", "SO3::dexp is the right Jacobian of exp",
     "For every rotation vector w and every direction v, the derivative of exp(w + s*v) at s = 0 is exp(w) perturbed on the right by dexp(w)*v, and dexp(0) is the identity. It stays accurate across the small-angle threshold.",
     ["inputs"], "all rotation vectors, all directions",
     "The tests compare with numerical differentiation at one vector.",
     ["src/variables/so3.rs"], ["SO3::dexp"])
prop("C07", "Forward-mode differentiation yields exact derivatives",
     "For every function written against the generic numeric type and every evaluation point, ForwardProp jacobian, variable-jacobian and gradient calls return the value of the function together with exactly its derivative with respect to right (or left, by feature) perturbations of its 1 to 6 arguments. Columns are ordered by argument, each argument occupying its own dimension; group-valued outputs are differentiated in their tangent space.",
     ["inputs", "configurations"], "all evaluation points for 1 to 6 arguments of mixed dimensions",
     "The tests differentiate a few functions at a few points; column placement for mixed dimensions and unusual arities is not covered.",
     ["src/linalg/forward_prop.rs", "src/linalg/dual.rs", "src/linalg/mod.rs", "src/variables/traits.rs"],
     ["ForwardProp::jacobian_N", "Diff", "Variable::dual_exp"])
prop("C08", "Numerical differentiation is the central difference in the tangent space",
     "For every function and point, NumericalDiff<p> returns the function value and, column by column, the central difference (f(x+eps e_k) - f(x-eps e_k))/(2 eps) with eps = 10^-p along tangent direction k of the argument it belongs to. Group-valued outputs are subtracted with ominus; all arities 1 to 6 order columns by argument.",
     ["inputs"], "all evaluation points for 1 to 6 arguments of mixed dimensions",
     "The tests evaluate single-argument cases at one point each.",
     ["src/linalg/numerical_diff.rs", "src/linalg/mod.rs"], ["NumericalDiff::jacobian_N"])

prop("C09", "Prior and between residuals measure the claimed error, with exact Jacobians",
     "For every measurement and every variable values, a prior residual is ominus(z, x) and a between residual is ominus(x1*z, x2), so each vanishes exactly at the measurement. The Jacobian returned with the residual is the exact derivative of that residual under the configured perturbation, with one column block per variable in key order.",
     ["inputs", "configurations"], "all measurements and states of SO2, SE2, SO3, SE3 and vector variables",
     "The tests compare against numerical differentiation at one or two concrete states.",
     ["src/residuals/prior.rs", "src/residuals/between.rs", "src/residuals/traits.rs"],
     ["Residual1::residual1", "Residual2::residual2", "residualN_jacobian"])
prop("C10", "IMU preintegration integrates the motion model",
     "For every measurement history, the preintegrated rotation, velocity and position follow the documented recursion for the bias-corrected measurements, elapsed time is the sum of the steps, and the stored bias Jacobian follows the documented recursion H <- A*H + B. The residual vanishes at the state predicted from the first state, the gravity and the bias-corrected deltas; its blocks are the rotation error log(R2^-1 * R1 * exp(theta)), the velocity and position differences to the prediction, and the bias differences. Its Jacobian is the exact derivative.",
     ["inputs", "histories"], "all sequences of measurements (bounded length), biases, time steps, states and gravity vectors",
     "The tests integrate a few constant-rate trajectories; bias correction and long-history Jacobians are only compared numerically at a point.",
     ["src/residuals/imu_preint/delta.rs", "src/residuals/imu_preint/residual.rs", "src/residuals/imu_preint/newtypes.rs"],
     ["ImuDelta::integrate", "ImuDelta::first_order_update", "ImuDelta::predict", "ImuPreintegrationResidual::residual6"])
prop("C11", "IMU preintegration propagates covariance exactly",
     "After every measurement history, the covariance handed to the factor's noise model is the recursion S <- A S A^T + B Q B^T started at 1e-14 times the identity, where A and B are the Jacobians of the integration step and Q holds each configured noise in its own block. The result is symmetric and uses gyro, accelerometer, gyro-bias, accelerometer-bias, integration and initial-bias parameters each exactly where the model says.",
     ["inputs", "histories"], "all measurement sequences (bounded length), all noise parameters",
     "No test checks the covariance values.",
     ["src/residuals/imu_preint/delta.rs", "src/residuals/imu_preint/residual.rs", "src/residuals/imu_preint/newtypes.rs"],
     ["ImuPreintegrator::{integrate,build}", "ImuDelta::{A,B_Q_BT}"])
prop("C12", "Noise models whiten by the square root of the information",
     "For every noise constructor and every vector v, the squared norm of the whitened vector equals v^T * Information * v for the information the constructor's arguments denote (scalar, split, diagonal or full sigma, covariance or information), and whitening a matrix whitens each of its columns. Unit noise leaves vectors and matrices unchanged.",
     ["inputs"], "all valid parameters of each constructor, all vectors and matrices of each supported dimension",
     "The tests check one or two parameter values per constructor.",
     ["src/noise/gaussian.rs", "src/noise/unit.rs", "src/noise/traits.rs"], ["GaussianNoise::from_*", "NoiseModel::whiten_vec", "NoiseModel::whiten_mat"])
prop("C13", "Robust kernels: the weight is the derivative of the loss",
     "For every squared error d2 >= 0 and every kernel parameter, the weight is the derivative of the loss with respect to d2 times two (so weight = rho'(d)/d), the loss is zero at zero, never negative and never decreasing, and the weight lies in [0, 1] and is never increasing (L1: the weight 1/d is only required above its threshold d2 = 1e-3, and is not bounded by 1). Every kernel has its documented formula on both sides of its threshold.",
     ["inputs"], "all non-negative squared errors, all positive kernel parameters, both sides of every threshold",
     "The tests check the derivative relation at a few sampled points with a tolerance.",
     ["src/robust/mod.rs"], ["RobustCost::loss", "RobustCost::weight"])
prop("C14", "A factor's error and linearization match its parts",
     "For every factor and values, error is the robust loss of the squared norm of the whitened residual, and linearization returns, scaled by the square root of the robust weight, the whitened Jacobian A and b = minus the whitened residual, with one column block per key in order. Building through fac! or FactorBuilder, with default or given noise and kernel, gives the same factor.",
     ["inputs", "configurations"], "all values, measurements, noise parameters and kernel parameters; all construction forms",
     "The tests check one factor at one state and never the weighted or robust case.",
     ["src/containers/factor.rs", "src/linear/factor.rs", "src/linalg/dual.rs", "src/linalg/matrix_block.rs"], ["Factor::error", "Factor::linearize", "fac!", "FactorBuilder"])
prop("C15", "Graph error and sparse Jacobian assembly are exact",
     "For every graph and values, the graph error is the sum of factor errors; the assembled sparse Jacobian equals the dense matrix with each factor's blocks at its row offset and at its variables' column offsets, and the right-hand side stacks the factors' b in the same row order. This holds for every insertion order, for repeated keys across factors, and for variables in any key order.",
     ["inputs", "histories"], "all graphs of the bounded shapes, all insertion orders, all numerical values",
     "The tests assemble one small graph with one ordering.",
     ["src/containers/graph.rs", "src/containers/order.rs", "src/linear/graph.rs", "src/linear/factor.rs", "src/linalg/matrix_block.rs"],
     ["Graph::{error,linearize,sparsity_pattern}", "LinearGraph::residual_jacobian"])
prop("C16", "Orderings and linear updates address each variable's own block",
     "For every set of variables, the ordering assigns contiguous, non-overlapping blocks that exactly cover the total dimension; a linear-values vector returns for each key exactly the entries of its block, and applying it to the values perturbs each variable by exactly its own block, leaving variables outside the ordering untouched.",
     ["inputs", "histories"], "all insertion orders and mixtures of dimensions (bounded count), all update vectors",
     "The tests use one or two variables with one ordering.",
     ["src/containers/order.rs", "src/linear/values.rs", "src/containers/values.rs"],
     ["ValuesOrder::from_values", "LinearValues::get", "Values::oplus_mut"])
prop("C17", "Values is a typed map from keys to variables",
     "After every history of inserts, removals, mutations and lookups, a lookup returns exactly the most recently stored variable under that key when asked for its own type and nothing for another type or a missing key; inserting returns the variable it replaces and removing returns the one removed. Length, iteration and filtering agree with the stored content. (What removing with the wrong type does to the entry is unspecified; it returns nothing.)",
     ["histories", "inputs"], "all operation sequences of bounded length over equal and distinct keys and several variable types",
     "The tests perform a few fixed operations.",
     ["src/containers/values.rs", "src/containers/symbol.rs"], ["Values::{insert,insert_unchecked,get,get_unchecked,get_mut,remove,filter}"])
prop("C18", "Symbols map to keys one-to-one and back",
     "Every symbol, any Unicode character with an index below 2^32, packs into a key that decodes to the same character and index, and distinct symbols give distinct keys. Typed symbols yield the same key as the untyped form, and a symbol prints its character and index.",
     ["inputs"], "all characters and all indices below 2^32",
     "The tests check a single symbol.",
     ["src/containers/symbol.rs"], ["Key", "DefaultSymbol", "assign_symbols!"])
prop("C19", "Linear solvers solve the least-squares system",
     "For every full-rank system of the bounded shapes, the Cholesky and LU solvers return the exact solution of the symmetric system they are given and Cholesky/QR least-squares calls return the minimizer of |Ax-b|. Solving again with a solver that has already factored a different matrix of the same pattern gives the same answer as a fresh solver.",
     ["inputs", "histories"], "all entries of systems of bounded size and sparsity pattern, two successive solves",
     "The tests solve one constant system.",
     ["src/linear/solvers.rs"], ["CholeskySolver", "QRSolver", "LUSolver"])
prop("C20", "A Gauss-Newton step solves the normal equations at the current values",
     "For every linear-Gaussian problem one Gauss-Newton step lands on the exact weighted least-squares minimizer, whatever the starting values, and for every other problem the step moves each variable by the solution of A^T A dx = A^T b at the current linearization point. Re-using an optimizer for other values, also with the variables in another order, gives the same result as a fresh one.",
     ["inputs", "histories"], "all starting values, measurements and noise parameters of the bounded graphs",
     "The tests run the optimizer on fixed small problems.",
     ["src/optimizers/gauss_newton.rs", "src/optimizers/macros.rs", "src/linear/solvers.rs"], ["GaussNewton::step"])
prop("C21", "Levenberg-Marquardt accepts only decreasing steps of the damped system",
     "For every problem, each trial solves the normal equations damped by the current lambda (lambda*I or lambda*diag(A^T A)); a trial is accepted exactly when it strictly lowers the linearized error, and the values then move by exactly that solution. Lambda starts at its initial value, is multiplied by lambda_factor after each rejected trial, divided by it after an accepted one but kept at or above lambda_min, and the step fails with FailedToStep once it exceeds lambda_max; so a step on a linear problem always lowers the graph error, and a step at a stationary point fails. Re-using the optimizer for values in another order gives the same result.",
     ["inputs", "histories"], "all starting values and measurements of the bounded problems, all damping parameters within the loop bound",
     "The tests run the optimizer on fixed small problems that converge at the first damping.",
     ["src/optimizers/levenberg_marquardt.rs", "src/optimizers/traits.rs"], ["LevenMarquardt::{step,init}"])
prop("C22", "The optimizer loop stops for the stated reasons and returns the last values",
     "For every sequence of step outcomes, optimize stops successfully exactly when the error, the absolute decrease or the relative decrease falls to its tolerance, passes on the error of a failing step, reports MaxIterations with the current values when the iteration limit is reached, and otherwise returns the values of the last completed step. Observers are called once per completed step, in order, with the values and step index of that step.",
     ["histories", "inputs", "configurations"], "all sequences of step outcomes and error values of bounded length, all tolerance and iteration parameters",
     "The tests observe only successful runs on small problems.",
     ["src/optimizers/traits.rs"], ["Optimizer::optimize", "OptObserverVec"])
prop("C23", "The g2o loader reads every line into the matching variable and factor",
     "For every g2o file of vertex and edge lines, each vertex becomes the variable with that index, rotation and translation, and each edge becomes a between factor between those two variables with that measurement, whose noise has exactly the given information matrix in the variable's own tangent order (rotation first). One prior, at the read pose, anchors the first vertex (unit noise for SE2; covariance 1e-6 for rotation and 1e-4 for translation for SE3); other lines are ignored.",
     ["inputs", "histories"], "all numeric field values and line orders of bounded files",
     "The tests load no file; the loader is only run by examples.",
     ["src/utils.rs"], ["load_g20"])
prop("C24", "Serialized graphs and values deserialize to the same content",
     "Any Values, Graph or symbol serialized and deserialized yields the same variables, factors, noise models and kernels.",
     ["inputs"], "all graphs and values",
     "The serde tests are not compiled in this environment.",
     ["src/containers/factor.rs", "src/containers/values.rs", "factrs-proc/src/lib.rs"], ["serde feature", "factrs::mark"],
     na="The serde feature needs the factrs-typetag submodule, which is empty in this tree: the code cannot be compiled, so there is no program to encode.")
prop("C25", "Conversions to rerun archetypes keep the geometry",
     "With the rerun feature, every conversion of a variable, or of a slice or iterator of variables, into a rerun datatype or archetype (Vec2D/Vec3D, Rotation3D, Transform3D, Points2D/3D, Arrows2D/3D) describes the same geometry: the translation is the position/origin, the arrows are the unit axes rotated by the variable, quaternion components stay in rerun's x,y,z,w order, and a collection gives one entry per element, in order.",
     ["inputs", "collection sizes"], "all variables; collections of 0-3 elements",
     "The tests convert single hand-picked variables, if any; order, axes and component layout have to be right for every value.",
     ["src/rerun.rs"], ["From<...> for rerun::*"])

ASSUME = ("Bounded symbolic execution of the LLVM IR compiled from /repo's current tree; z3 decides every obligation over all values within the bounds stated in the evidence. "
          "Doubles are read as exact reals (rounding, overflow and NaN are outside the claim); transcendental functions are uninterpreted with stated axioms; trusted: rustc 1.85.1 code generation, the IR interpreter (cross-checked by native replay of every path), z3. "
          "Counterexamples are replayed on the natively compiled program before they are reported.")


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=[dict(name=m, where=p["files"][0]) for m in p["mech"]], hook_needed=None))) + "\n")
    checks = [dict(property=p["id"], quick_cmd=f"./check {p['id']} quick", thorough_cmd=f"./check {p['id']} thorough",
                   technique="symbolic execution of the compiled LLVM IR with SMT (z3) deciding each obligation; counterexamples replayed natively",
                   level="model_checking", level_note=(p["note"] + " " + ASSUME).strip()) for p in P if p["id"] in PROPS]
    na = [dict(property=p["id"], reason=p["na"] or "check not built yet") for p in P if p["id"] not in PROPS]
    json.dump(dict(version=1, setup_cmd="./setup", checks=checks, not_applicable=na,
                   hooks=dict(guard="cfg(feature = \"vf-hooks\")", enable="vlib/build.py mirrors /repo to .build/pkg and declares the feature `vf-hooks` in the mirror's Cargo.toml; the C10 and C11 harnesses are compiled with it", source_commits=["669b2b2"]),
                   notes="All other harnesses use the public API only. Fixes of genuine defects are listed in known-findings.txt."),
              open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)


if __name__ == "__main__":
    main()

#!/usr/bin/env python3-vt
"""Texts of the properties. `python3-vt props.py` rewrites properties.jsonl and MANIFEST.json from this file and checks.py."""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
INC = "include/DynamicalPlanner/"; INP = "include/DynamicalPlannerPrivate/"; PV = "src/private/"; CON = INP + "Constraints/"; COS = INP + "Costs/"
def P(id, title, statement, over, text, why, files, mech, observe=()):
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
            "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": list(observe), "hook_needed": None}}
CT = ["DynamicalComplementarityConstraint", "ClassicalComplementarityConstraint", "ClassicalPlanarComplementarityConstraint", "ContactForceControlConstraints", "NormalVelocityControlConstraints", "PlanarVelocityControlConstraints", "ContactFrictionConstraint"]
CS = ["ComplementarityCost", "PhantomForcesCost", "SwingCost", "ForceMeanCost", "ForceRatioCost", "FeetDistanceCost", "MeanPointPositionCost", "FootYawCost", "JointsVelocityForPosturalCost"]
DERIV_TEST = "The derivative tests compare one random state and control against finite differences with a loose tolerance, for one set of parameters; they cannot reach every state, parameter, multiplier, contact point or evaluation order."
ONE = "No test evaluates it; the integration tests only run the optimiser on one model."
PROPS = [
P("C01", "Contact constraints have the specified values and feasible sets",
  "For every state, control and parameter value the contact constraints of a point (dynamical, classical and planar complementarity, force and velocity control limits with their smooth activations, friction cone) evaluate to the functions their documentation specifies, for the chosen foot and point only. Their declared bounds delimit exactly the documented feasible set: non-positive complementarity residuals up to the tolerance, control magnitudes within activation-scaled limits, tangential force inside of the friction cone.",
  ["inputs", "configurations"], "all states, controls, times, positive parameters, feet and points", "Values of the constraints are never asserted by a test, only their derivatives against themselves at one random point.",
  [PV + c + ".cpp" for c in CT], [("evaluateConstraint and bounds of each constraint", PV + CT[0] + ".cpp")], ["Constraint::evaluateConstraint", "Constraint::getLowerBound/getUpperBound"]),
P("C02", "Contact constraints report their exact derivatives",
  "For every state, control, multiplier and parameter value the Jacobians and the second derivatives returned by every contact constraint are the exact derivatives of its value, and entries outside of the declared sparsity patterns are zero. The result depends only on the arguments of the call: not on the order in which the methods are called or on earlier calls at other points.",
  ["inputs", "configurations", "histories"], "all states, controls, multipliers, parameters, feet, points and call orders", DERIV_TEST, [PV + c + ".cpp" for c in CT],
  [("Jacobians, Hessians, sparsity", PV + "PlanarVelocityControlConstraints.cpp")], ["Constraint::constraintJacobian*", "Constraint::constraintSecondPartialDerivative*"]),
P("C03", "Model-free costs have the specified values",
  "For every state, control, time and parameter value the complementarity, phantom force, swing, force mean, force ratio, feet distance, mean point position, foot yaw and joint velocity (postural) costs are half the (weighted) squared norm of the quantity they are documented to penalise, for the chosen foot and point. The yaw cost is zero exactly when the edges of the foot point along the desired yaw, whichever way the nominal rectangle is placed and ordered in the foot frame.",
  ["inputs", "configurations"], "all states, controls, times, weights, references, feet and points; three nominal foot rectangles", "Tests only check the derivatives of these costs against themselves at one random point.",
  [PV + c + ".cpp" for c in CS], [("costEvaluation", PV + "FootYawCost.cpp")], ["Cost::costEvaluation"]),
P("C04", "Model-free costs report their exact derivatives",
  "For every state, control, time and parameter value the gradients and second derivatives returned by the model-free costs are the exact derivatives of their values, and entries outside of the declared sparsity patterns are zero. The result depends only on the arguments of the call, not on call order or earlier calls.",
  ["inputs", "configurations", "histories"], "all states, controls, times, weights, references, feet, points and call orders", DERIV_TEST, [PV + c + ".cpp" for c in CS],
  [("costFirstPartialDerivative*, costSecondPartialDerivative*", PV + "PhantomForcesCost.cpp")], ["Cost::costFirstPartialDerivative*", "Cost::costSecondPartialDerivative*"]),
P("C05", "Base quaternion norm and relative feet height constraints are exact",
  "For every state the base quaternion constraint evaluates to the squared norm of the base quaternion and is feasible exactly for unit quaternions; the relative height constraint evaluates to the height difference of the feet centroids and is feasible exactly within the configured bound. Their Jacobians and second derivatives are exact for every state and multiplier, in every call order.",
  ["inputs", "configurations", "histories"], "all states, multipliers, bounds and call orders", DERIV_TEST, [PV + "QuaternionNormConstraint.cpp", PV + "FeetRelativeHeightConstraint.cpp"],
  [("evaluateConstraint, Jacobians, Hessians", PV + "QuaternionNormConstraint.cpp")], ["Constraint interface"]),
P("C06", "Smooth activations and exponential weight are exact and consistent",
  "For every input and scaling the hyperbolic tangent and secant activations return tanh(Kx) and sech(Kx) with their exact first and second derivatives and a disabled activation is the configured constant with zero derivatives. The exponential weight equals its premultiplier times exp(multiplier*(t-t0)) plus its offset at every time.",
  ["inputs", "configurations"], "all arguments, scalings, offsets and times", ONE, [PV + "HyperbolicSecant.cpp", PV + "HyperbolicTangent.cpp", PV + "SmoothingFunction.cpp", "src/Utilities.cpp"],
  [("eval, evalDerivative, evalDoubleDerivative", PV + "HyperbolicSecant.cpp"), ("ExponentialWeight::get", "src/Utilities.cpp")], ["SmoothingFunction::eval*", "ExponentialWeight::get"]),
P("C07", "Quaternion utilities are exact",
  "For every quaternion and vector of the accepted domain the quaternion helpers return what they are named after: normalisation and its derivatives, the maps between quaternion rates and angular velocity and their mutual inverses, the derivative of a rotated vector, the inverse with its derivative, and the error between two orientations.",
  ["inputs"], "all quaternions with norm between 1/2 and 2, all vectors", "The quaternion test samples one random orientation.", [PV + "QuaternionUtils.cpp", INP + "Utilities/QuaternionUtils.h"],
  [("free functions", PV + "QuaternionUtils.cpp")], ["function results"]),
P("C08", "Rectangular foot distributes any wrench faithfully",
  "For every size, pose, wrench and centre of pressure the corners are those of the given rectangle in that pose, and the corner forces sum to the given force and, inside of the support rectangle, give the given centre of pressure. Corner forces never pull while the centre of pressure is inside; with negligible pressure all forces are zero; foot sizes that are not positive are refused and a refused foot gives no points.",
  ["inputs"], "all positive sizes, poses, wrenches, centres of pressure", "The foot test uses a handful of wrenches on one foot size.", ["src/RectangularFoot.cpp"],
  [("getPoints, getNormalRatiosFromCoP, getForces", "src/RectangularFoot.cpp")], ["RectangularFoot methods"]),
P("C09", "Position reference generator selects the reference and weight active in time",
  "At every time the desired position is the one of the last reference whose range contains that time, and the weight of each axis is the square of one plus its increase times the elapsed fraction of that range (one if the range has no length), whatever the number, order, overlap and kind (bounded, instantaneous, unlimited) of the ranges. Without an active reference the weight and the position are zero, and no value is ever undefined.",
  ["inputs", "configurations"], "all times, positions, ranges, weight increases; up to three references", ONE, ["src/PositionReferenceGenerator.cpp"],
  [("get", "src/PositionReferenceGenerator.cpp")], ["PositionReferenceGenerator::timeVaryingWeight", "PositionReferenceGenerator::get*"]),
P("C10", "Variables labeller partitions the vector and round-trips values",
  "For every sequence of labels and sizes, including rejected duplicates and empty ranges, the labelled ranges are contiguous, disjoint and cover exactly the vector; reading a label returns what was last written to it by name, range, index or position, and writing it changes nothing else.",
  ["inputs", "histories"], "all label sequences within the bound, all values", ONE, [PV + "VariablesLabeller.cpp", INP + "Utilities/VariablesLabeller.h"],
  [("addLabel, getIndexRange, operator()", PV + "VariablesLabeller.cpp")], ["VariablesLabeller interface"]),
P("C11", "State and control containers size, reset and summarise correctly",
  "For every number of joints and points, resizing a state or control gives every part that size, size checks agree with it, and zeroing resets every number to zero with an identity base pose. The feet centroid is the mean of all contact points, and the minimum force on the forward foot is the smallest force magnitude among the points of the foot whose centroid is ahead along the step direction.",
  ["inputs", "configurations"], "all positions and forces; up to three points per foot", ONE, ["src/State.cpp", "src/Control.cpp"],
  [("resize, zero, checkSize, computeFeetCentroid, minimumPointForceOnForwardFoot", "src/State.cpp")], ["State and Control methods"]),
P("C12", "Settings are accepted exactly when they are consistent",
  "A settings structure is accepted if and only if every documented requirement on times, frames, points, limits, weights, references and tolerances of the active costs and constraints holds. A refused structure leaves the previously accepted settings and validity untouched, and the stored settings equal the given ones.",
  ["inputs", "configurations", "histories"], "all numeric fields, activation flags and complementarity types, in groups", "Tests only use one accepted configuration.", ["src/Settings.cpp"],
  [("setFromStruct", "src/Settings.cpp")], ["Settings::setFromStruct", "Settings::isValid", "Settings::getSettings"]),
P("C13", "Walking state machine advances step references as specified",
  "For every pair of current and future states and every reference history the state machine plans the next step only when the feet have reached (or waited too long for) the current target and there is room in the horizon, holds the first step while the forward foot is not loaded, and switches exactly when the step time has elapsed. Positions and time intervals of the two references always follow the documented update, and inconsistent initial parameters are refused.",
  ["inputs", "histories"], "all states, times, step sizes and parameters; one arbitrary step and bounded histories", ONE, ["src/Utilities.cpp"],
  [("SimpleWalkingStateMachine::advance, initialize", "src/Utilities.cpp")], ["SimpleWalkingStateMachine::references"]),
P("C14", "Initial state helpers produce consistent states",
  "For every joint configuration the default initial state is at rest with the centre of mass and base pose of the robot with the left foot as world, contact points placed by the feet poses, and vertical forces that carry the weight, shared between the feet by lateral distance with pressure centres below the centre of mass. Lowering to the minimum contact height shifts the whole robot vertically until the lowest point touches the ground, and the translating guess moves base, points and centre of mass rigidly with the reference and reports its validity.",
  ["inputs"], "all joint positions of a small tree model, all references", ONE, ["src/Utilities.cpp", "src/RectangularFoot.cpp"],
  [("FillDefaultInitialState, SetMinContactPointToZero, TranslatingCoMStateGuess::get", "src/Utilities.cpp")], ["function results"]),
P("C15", "Kinematics are looked up at the closest timing",
  "For every ordered list of timings and every query time the object returned is the one of the closest timing, whatever was asked before and however often the timings were changed, grown or shrunk. Every timing has its own object, and before any timing is set the template is returned.",
  ["inputs", "histories"], "all ordered timings (up to five), all query sequences within the bound", "Tests use two fixed timings.", [PV + "TimelySharedKinDynComputations.cpp"],
  [("getClosestIndex, setTimings", PV + "TimelySharedKinDynComputations.cpp")], ["TimelySharedKinDynComputations::get"]),
P("C16", "Shared kinematics always answer for the state they are asked about",
  "For every sequence of robot states the shared computations return the positions, velocities, momenta, Jacobians and static torques of the state passed in that call, never of a previous one, unless the two states are equal within the update tolerance. Changing gravity, floating base, tolerance or model takes effect on the next call.",
  ["inputs", "histories"], "all joint positions, base poses and velocities of a small tree model; histories of up to three calls", "Tests compare single calls at random states.", [PV + "SharedKinDynComputations.cpp"],
  [("updateRobotState, sameState", PV + "SharedKinDynComputations.cpp")], ["SharedKinDynComputations methods"]),
P("C17", "Shared kinematics report exact derivatives",
  "For every robot state the joint derivatives of the centre of mass velocity, momentum and static torques returned by the shared computations, and the free-floating derivatives of static torques, are the exact derivatives of the corresponding values.",
  ["inputs"], "all joint positions, base poses and velocities of a small tree model", DERIV_TEST, [PV + "SharedKinDynComputations.cpp"],
  [("getStaticForcesJointsDerivative, getFreeFloatingDerivatives", PV + "SharedKinDynComputations.cpp")], ["SharedKinDynComputations methods"]),
P("C18", "Centre of mass constraint ties the CoM to the kinematics exactly",
  "For every state the centre of mass constraint is the kinematic centre of mass of the base pose and joints minus the centre of mass in the state, feasible only at zero. Its Jacobians and second derivatives are exact for every state and multiplier, in every call order.",
  ["inputs", "histories"], "all states and multipliers of a small tree model", DERIV_TEST, [PV + "CoMPositionConstraint.cpp"], [("evaluateConstraint, derivatives", PV + "CoMPositionConstraint.cpp")], ["Constraint interface"]),
P("C19", "Contact point and lateral distance constraints are exact",
  "For every state the contact position constraint is the position of the nominal point carried by its foot minus the contact point in the state, feasible only at zero, and the lateral constraint is the configured coordinate of one foot in the other, feasible only above the configured distance. Their derivatives are exact for every state and multiplier, in every call order.",
  ["inputs", "configurations", "histories"], "all states and multipliers of a small tree model, both feet", DERIV_TEST, [PV + "ContactPositionConsistencyConstraint.cpp", PV + "FeetLateralDistanceConstraint.cpp"],
  [("evaluateConstraint, derivatives", PV + "ContactPositionConsistencyConstraint.cpp")], ["Constraint interface"]),
P("C20", "Momentum constraint ties the momentum to the kinematics exactly",
  "For every state and control the momentum constraint is the angular momentum about the centre of mass generated by the base and joint velocities minus the one in the state, feasible only at zero. Its Jacobians and second derivatives are exact for every state, control and multiplier, in every call order.",
  ["inputs", "histories"], "all states, controls and multipliers of a small tree model", DERIV_TEST, [PV + "CentroidalMomentumConstraint.cpp"], [("evaluateConstraint, derivatives", PV + "CentroidalMomentumConstraint.cpp")], ["Constraint interface"]),
P("C21", "System dynamics are the documented ones with exact derivatives",
  "For every state and control the dynamics move contact points and forces with their controls (with the configured activations and dissipation), change the momentum by gravity and the contact forces about the centre of mass, move the centre of mass with the linear momentum over the total mass, and move base and joints with their velocities. Jacobians and second derivatives are exact in every call order.",
  ["inputs", "configurations", "histories"], "all states, controls and multipliers, activation modes, dissipation ratios", DERIV_TEST, [PV + "DynamicalConstraints.cpp"], [("dynamics, derivatives", PV + "DynamicalConstraints.cpp")], ["DynamicalSystem interface"]),
P("C22", "Frame orientation and angular velocity costs are exact",
  "For every state, control, time and reference the frame orientation cost is half the weighted squared distance of the orientation error from the identity and the frame angular velocity cost is half the squared deviation from the velocity that steers to the desired rotation. Their derivatives are exact in every call order.",
  ["inputs", "histories"], "all states, controls and times of a small tree model", DERIV_TEST, [PV + "FrameOrientationCost.cpp", PV + "FrameAngularVelocityCost.cpp"], [("costEvaluation, derivatives", PV + "FrameOrientationCost.cpp")], ["Cost interface"]),
P("C23", "Static torques cost is exact",
  "For every state the static torques cost is half the weighted squared norm of the joint torques that hold the robot under gravity and the contact forces. Its gradient is exact in every call order.",
  ["inputs", "histories"], "all states of a small tree model, all weights", DERIV_TEST, [PV + "StaticTorquesCost.cpp"], [("costEvaluation, derivatives", PV + "StaticTorquesCost.cpp")], ["Cost interface"]),
P("C24", "Centre of mass velocity cost tracks the scaled velocity reference",
  "For every state and time the centre of mass velocity cost penalises the linear momentum minus the total mass times the desired velocity, with the given weights, and its derivatives are exact.",
  ["inputs"], "all states, times, references, weights", DERIV_TEST, [PV + "CoMVelocityCost.cpp"], [("setLinearVelocityReference", PV + "CoMVelocityCost.cpp")], ["Cost interface"]),
P("C25", "Kinematic expressions equal the robot kinematics with exact derivatives",
  "For every robot state the shared kinematic expressions (base pose, relative and absolute transforms, adjoints, Jacobians, quaternions, velocities, centre of mass, momentum, orientation errors) evaluate to the corresponding quantity of the robot. Every column derivative they offer is the exact derivative of the value, whatever was evaluated before.",
  ["inputs", "histories"], "all robot states of a small tree model", DERIV_TEST, [PV + "ExpressionsServer.cpp", PV + "QuaternionExpressions.cpp", PV + "RelativeJacobianExpression.cpp", PV + "RelativeQuaternionExpression.cpp", PV + "AdjointTransformExpression.cpp", PV + "CoMInBaseExpression.cpp", PV + "MomentumInBaseExpression.cpp"],
  [("evaluate, getNewColumnDerivative", PV + "RelativeJacobianExpression.cpp")], ["levi::Expression::evaluate", "levi::Expression::getColumnDerivative"]),
P("C26", "Expression algebra computes values and derivatives exactly",
  "For every value of the variables an expression built from sums, differences, products, scaling, division, powers, transposes, casts, blocks, stacking and skew operators evaluates to the matrix expression it denotes, and its column derivatives of first and second order are exact. Dimension mismatches are refused.",
  ["inputs", "programs"], "all variable values, small operator trees of each kind", "Expression tests use a few random matrices.", ["extern/levi"], [("operators and derivatives", "extern/levi")], ["Expression evaluate and getColumnDerivative"]),
P("C27", "Expression results never go stale",
  "For every sequence of variable assignments, partial or repeated evaluations and newness resets, an expression evaluates to the value for the current variables: cached results are reused only while none of the variables it depends on has changed.",
  ["inputs", "histories"], "all values, histories of up to three assignments and evaluations", "Tests assign once and evaluate once.", ["extern/levi"], [("isNew, caching, multiple expressions", "extern/levi")], ["Expression evaluate"]),
P("C28", "Solver transfers states and controls without loss",
  "For every initial state, guess and optimiser result the planner hands the optimiser the initial state and guesses variable by variable at the right place, and the trajectories it returns hold, at every returned time, exactly the optimiser's values in the corresponding state and control fields, with the base orientation normalised. No field is swapped, shifted, truncated or left from an earlier solve.",
  ["inputs", "histories"], "all state, control and result values, one to three points per foot", "Integration tests only look at whether the optimiser succeeds.", ["src/Solver.cpp"], [("setVariablesStructure, fillState, fillControl, fillSolution", "src/Solver.cpp")], ["optimizer problem", "Solver::solve"]),
P("C29", "Solver imposes the configured bounds on every variable at every time",
  "For every accepted settings the bounds given to the optimiser at each time are those configured: non-negative heights and normal forces, force, velocity, joint and momentum limits, minimum centre of mass height, centre of mass target box in its range, frozen contacts after the active control fraction of the horizon, and no bound elsewhere.",
  ["inputs", "configurations"], "all limits, times and activation flags", ONE, ["src/Solver.cpp"], [("setBounds, varying bounds", "src/Solver.cpp")], ["bounds of the optimization problem"]),
P("C30", "Solver assembles exactly the configured costs and constraints",
  "For every accepted settings the problem given to the optimiser contains exactly the costs and constraints that are active, each with its own weight, reference, active range and parameters, for every foot and point. The objective and constraint values of the assembled problem equal the weighted sum of the configured terms.",
  ["inputs", "configurations"], "all weights, references, parameters; every activation flag and complementarity type in groups", ONE, ["src/Solver.cpp"], [("setCosts, setConstraints", "src/Solver.cpp")], ["objective and constraints of the optimization problem"]),
P("C31", "Solver refuses calls out of order and mismatched data",
  "Whatever the order of calls, solving before valid settings are specified, unsuitable settings, states of the wrong size, missing guesses, optimisers or integrators are refused without changing the planner, and after any refusal a correct sequence of calls still works. Guesses are used once, and defaults are used otherwise.",
  ["histories", "inputs"], "all call sequences within the bound", ONE, ["src/Solver.cpp"], [("specifySettings, setInitialState, setGuesses, setOptimizer, setIntegrator, solve", "src/Solver.cpp")], ["return values of the Solver"]),
P("C32", "Logged and visualised trajectories match the planned ones",
  "For every trajectory the saved file and the displayed robot show the values of the states, controls and settings they were given, at the given times.",
  ["inputs"], "all trajectories", ONE, ["src/Logger.cpp", "src/Visualizer.cpp"], [("saveSolutionVectorsToFile", "src/Logger.cpp"), ("visualizeState", "src/Visualizer.cpp")], ["files and video"]),
]
NA = {"C32": "the logger and the visualizer are thin loops over matio and the iDynTree/irrlicht visualizer; their observable effect is a binary file or a rendered window produced by libraries that cannot be encoded here (matio is not built in this sandbox, there is no display)"}
TECH = "symbolic execution of the compiled code (floating-point and branches), obligations decided by z3 (polynomial normalisation plus NRA)"
LEVEL = "The real object code of the listed functions is executed with symbolic doubles; every branch on them is forked after a z3 feasibility query and every obligation is discharged by z3 over all values within the stated bounds, or answered with a model that is replayed natively. Trusts: doubles read as reals, the x86 operation semantics of the tracer (cross-checked natively on every path), z3."
def main():
    from checks import CHECKS
    with open(os.path.join(H, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p in PROPS:
        i = p["id"]
        if i in CHECKS:
            c = CHECKS[i]
            checks.append({"property": i, "quick_cmd": f"python3-vt run.py {i}", "thorough_cmd": f"python3-vt run.py {i} --thorough", "evidence_file": f"evidence/{i}.json",
                           "technique": TECH, "level": c.get("level", "model_checking"), "level_note": LEVEL + " Bounds: " + c["bounds"] + ". Outside: " + c.get("outside", "nothing further") + "."})
        else:
            na.append({"property": i, "reason": NA.get(i, "not encoded")})
    m = {"version": 1, "setup_cmd": "python3-vt setup.py", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo: the harnesses compile /repo's sources as they are. known-findings.json lists repaired and open defects."}
    json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
if __name__ == "__main__":
    main()

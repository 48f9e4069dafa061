#!/usr/bin/env python3
"""writes properties.jsonl"""
import json
import os
H = "include/hpp/bezier-com-traj/"
P = []


def prop(id, title, statement, over, text, why, files, mech, state=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


prop("C01", "A transition trajectory meets every imposed boundary condition",
     "Whenever a transition between contact phases is reported solved, the returned center of mass curve starts at time 0, lasts exactly the sum of the phase durations, and has at both ends exactly the position, velocity and acceleration (and jerk) values that the problem imposes; a motion whose final velocity is imposed without a final position ends at rest. Evaluating the returned curve and its derivatives at any time gives the values of that one Bezier curve.",
     ["inputs", "configurations"], "every set of imposed boundary conditions, any number of phases, any durations, initial and final states, solver and cost",
     "The tests sample a handful of flat two- and three-phase problems with one or two sets of boundary conditions and look at the end points only.",
     ["src/computeCOMTraj.cpp", "src/waypoints_definition.cpp", H + "waypoints/waypoints_definition.hh"],
     [("genTraj", "src/computeCOMTraj.cpp:326"), ("computeConstantWaypoints / computeBezierCurve", "src/waypoints_definition.cpp:287")])
prop("C02", "Discretised transitions are dynamically feasible at every sample",
     "Whenever a transition computed with a time discretisation is reported solved, then at every sample of every phase (its first and last instants included) the gravito-inertial wrench of the returned motion lies in the friction-cone polytope of that phase, with at least the safety margin requested. At an instant shared by two consecutive phases it lies in the polytopes of both.",
     ["inputs", "configurations"], "any contact sequence (feet, slopes, friction, mass), state, phase durations, time step or number of points per phase, boundary conditions, cost and solver",
     "Tests replay a few scenarios on flat ground and re-check the constraints with the library's own matrices, so an error in the matrices or in the schedule is invisible to them.",
     ["src/computeCOMTraj.cpp", "src/utils.cpp"],
     [("assignStabilityConstraints / switchContactPhase", "src/computeCOMTraj.cpp:175"), ("updateH (margin)", "src/computeCOMTraj.cpp:121"), ("computeDiscretizedTime", "src/utils.cpp:100")])
prop("C03", "Discretised transitions stay in the reachable region at every sample",
     "Whenever a transition computed with a time discretisation is reported solved, then at every sample of every phase the returned center of mass position satisfies all the kinematic inequalities attached to that phase, and at an instant shared by two consecutive phases those of both.",
     ["inputs", "configurations"], "any kinematic polytopes (different or absent for some of the phases), state, durations, discretisation, boundary conditions, cost and solver",
     "Tests use the same box for all phases and it is hardly ever active.",
     ["src/computeCOMTraj.cpp"], [("assignKinematicConstraints", "src/computeCOMTraj.cpp:211"), ("computeNumIneq", "src/computeCOMTraj.cpp:93")])
prop("C04", "A requested acceleration bound holds at every sample",
     "Whenever a bound on the acceleration is requested and a transition computed with a time discretisation is reported solved, every coordinate of the center of mass acceleration is within plus or minus that bound at every sample of the motion.",
     ["inputs", "configurations"], "any bound, state, durations, discretisation, boundary conditions, cost and solver",
     "Tests switch the bound on in few scenarios and never check the acceleration of the returned curve.",
     ["src/computeCOMTraj.cpp"], [("assignAccelerationConstraints", "src/computeCOMTraj.cpp:260")])
prop("C05", "Continuous formulation: constraints hold at every instant",
     "Whenever a transition computed with the continuous formulation (no time step) is reported solved, the returned motion satisfies at every instant of every phase, not only at samples, the friction-cone polytope (with the requested margin), the kinematic inequalities and the acceleration bound of that phase, whether the dynamics are represented by cone faces or by contact forces.",
     ["inputs", "configurations"], "any contact sequence, phase durations, representation of the dynamics, bounds, boundary conditions, cost and solver; all instants",
     "A property of a continuum of instants: tests only sample a discretisation, and the force representation is barely exercised.",
     ["src/computeCOMTraj.cpp", "src/waypoints_definition.cpp", H + "definitions.hh"],
     [("computeConstraintsContinuous", "src/computeCOMTraj.cpp:402"), ("assignStabilityConstraintsForTimeStepForce", "src/computeCOMTraj.cpp:150"), ("computeWwaypoints", "src/waypoints_definition.cpp:441")])
prop("C06", "A solvable transition problem is never reported infeasible",
     "If some value of the free control point satisfies, with a small margin, all the constraints of the formulation asked for (discretised or continuous), the planner reports success. On a well-formed problem it never throws or crashes.",
     ["inputs", "configurations"], "every well-formed problem: contacts, states, durations, discretisation or continuous form, bounds, cost, solver",
     "Tests count successes on fixed inputs; no test knows whether a failure reported is right.",
     ["src/computeCOMTraj.cpp", "src/eiquadprog-fast.cpp", "src/glpk-wrapper.cpp", "src/common_solve_methods.cpp"],
     [("computeCOMTraj / computeCOMTrajFixedSize", "src/computeCOMTraj.cpp:516"), ("solvers::solve", "src/solver-abstract.cpp:85")])
prop("C07", "The transition returned is optimal for the requested cost",
     "Among all the trajectories of the requested family that satisfy the constraints, none has a lower value of the requested objective (sum of squared accelerations over the samples, distance to the middle of the initial and final positions, or final velocity error) than the one returned; with the linear programming solver only the linear part of the objective counts, and the force representation with the quadratic solver is excepted because it also regularises the forces.",
     ["inputs", "configurations"], "every problem with success, all feasible competitors",
     "Optimality quantifies over all feasible points; the tests never compare costs.",
     ["src/costfunction_definition.cpp", "src/computeCOMTraj.cpp", "src/eiquadprog-fast.cpp", "src/glpk-wrapper.cpp"],
     [("computeCostMidPoint / computeCostEndVelocity / computeCostMinAcceleration", "src/costfunction_definition.cpp:13"), ("genCostFunction", "src/computeCOMTraj.cpp:316")])
prop("C08", "All the parts of a transition result describe the same motion",
     "In a solved transition the returned control point, the curve, the final velocity, the final acceleration, the cost and the angular momentum rate agree: the curve is the one that the control point defines, the final velocity and acceleration are its derivatives at its last instant, the cost is the objective at the control point, and the angular momentum rate is zero for the whole duration.",
     ["inputs", "configurations"], "every problem with success",
     "Tests look at the control points of the curve or at success alone; the other parts of the result are not read.",
     ["src/computeCOMTraj.cpp"], [("genTraj", "src/computeCOMTraj.cpp:326"), ("computeFinalVelocity / computeFinalAcceleration", "src/computeCOMTraj.cpp:308")])
prop("C09", "The quadratic solver returns the true optimum, with its certificates",
     "For a strictly convex quadratic problem with linear equalities and inequalities, the active-set solver answers optimal exactly when the constraints are consistent, and then its point satisfies them, no feasible point has a lower objective, and the objective value, the active constraints and the multipliers it reports are those of that point. The answer does not depend on what the solver object solved before or on the initial content of the result, and the sparse variant gives the same answer as the dense one.",
     ["inputs", "histories"], "problems of any dimension and number of constraints, including degenerate, redundant, infeasible and badly scaled ones; any sequence of solves with one solver object",
     "No unit test calls the solver on its own; transitions use it with three variables and well scaled data.",
     ["src/eiquadprog-fast.cpp", H + "solver/eiquadprog-fast.hpp"],
     [("solve_quadprog", "src/eiquadprog-fast.cpp:230"), ("add_constraint / delete_constraint", "src/eiquadprog-fast.cpp:77"), ("solve_quadprog_sparse", "src/eiquadprog-fast.cpp:655")],
     [("A, u, q", "active set, multipliers, number of active constraints", H + "solver/eiquadprog-fast.hpp")])
prop("C10", "The generic solver entry points solve the problem they are given",
     "Every generic solve entry point, with the quadratic or the linear programming back end, returns success exactly when the inequalities, equalities and variable bounds given (each of which may be absent, and bounds at or beyond the documented unbounded values not being limits for the linear back end) admit an optimum, and then a point that satisfies all of them with the minimal objective and its value. On failure the result says so and carries no cost, and an unknown back end is refused with an exception.",
     ["inputs", "configurations"], "any dimension, constraint matrices (including rows of zeros), bounds present or not, initial guess, back end, overload",
     "Unit tests reach these functions only through transitions, mostly without equalities or bounds and with one back end.",
     ["src/solver-abstract.cpp", "src/glpk-wrapper.cpp", "src/common_solve_methods.cpp"],
     [("solvers::solve", "src/solver-abstract.cpp:85"), ("solveglpk / getType", "src/glpk-wrapper.cpp:27"), ("bezier_com_traj::solve overloads", "src/common_solve_methods.cpp:143")])
prop("C11", "A zero-step stop returned is dynamically valid and really stops",
     "Whenever the zero-step capturability problem is reported solved, the returned curve leaves from the given position and velocity and comes to rest at the returned point after exactly the given time, the angular momentum (when used) goes from its initial value to zero, and the contact wrench required by the motion is feasible at every sample (or at every instant when the continuous form is used). The point where it stops satisfies the kinematic inequalities and the angular momentum control point its own, and the cost and angular momentum rate reported are those of that motion.",
     ["inputs", "configurations"], "any contact, initial position, velocity and angular momentum, duration, time step or continuous form, with or without angular momentum, kinematic and angular bounds present or absent",
     "The zero-step tests sample flat contacts and compare success with a quasi-static criterion; they never recompute the wrench of the returned curve.",
     ["src/solve_0_step.cpp", "src/common_solve_methods.cpp"],
     [("solve0step", "src/solve_0_step.cpp:231"), ("ComputeAllWaypoints / ComputeAllWaypointsAngularMomentum", "src/solve_0_step.cpp:115"), ("compute6dControlPointInequalities", "src/common_solve_methods.cpp:88")])
prop("C12", "A possible zero-step stop is found, and the best one is returned",
     "If some control point (and angular momentum control point, when used) satisfies with a small margin all the constraints of the zero-step problem, it is reported solved, and no feasible control point has a lower cost (squared distance to the initial position plus squared angular momentum control point) than the one returned.",
     ["inputs", "configurations"], "every zero-step problem; all feasible competitors",
     "Tests do not know whether a reported failure is right and never compare costs.",
     ["src/solve_0_step.cpp", "src/common_solve_methods.cpp"],
     [("computeCostFunction", "src/solve_0_step.cpp:177"), ("solve0step", "src/solve_0_step.cpp:231")])
prop("C13", "End-effector trajectories meet their constraints and are optimal",
     "Whenever an end-effector trajectory is reported solved, the curve has the given positions, velocities, accelerations and jerks at both ends and the given duration, satisfies the limits of the problem (no point below the ground level given by its ends, bounded velocity and jerk control points), and minimises the weighted sum of the integral of the squared velocity and the squared distance to the reference path (each normalised by the norm of its Hessian); a feasible problem is not reported infeasible. The published pieces (constraint rows, distance cost, discretised velocity, acceleration and jerk costs, predefined lift-off and landing curves) describe that same problem.",
     ["inputs", "configurations"], "one, three or five free control points; any end states, duration, weight and reference path",
     "There is no unit test of the end-effector functions in C++, and the Python one checks end points for one input.",
     [H + "solve_end_effector.hh", H + "waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh", H + "waypoints/waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh", H + "waypoints/waypoints_c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1.hh"],
     [("solveEndEffector", H + "solve_end_effector.hh"), ("computeEndEffectorConstraints", H + "solve_end_effector.hh"), ("computeEndEffectorCost", H + "solve_end_effector.hh")])
prop("C14", "Every curve expression agrees with the Bezier curve it describes",
     "For every supported set of boundary conditions the constant control points, the symbolic control points, the position, velocity, acceleration and jerk expressions at any time, the velocity, acceleration and jerk control points, the final velocity expression, the velocity cost and the number of free variables, alone or for a list of times, all describe one and the same Bezier curve: the one with the imposed boundary values and the given free control points.",
     ["inputs", "configurations"], "all supported boundary condition sets, all boundary values (zeros included), durations, evaluation times and free points",
     "One unit test compares some expressions of some families at random points of order one; most families and derivatives are untested.",
     ["src/waypoints_definition.cpp"] + [H + "waypoints/waypoints_%s.hh" % w for w in ("c0_dc0_c1", "c0_dc0_dc1", "c0_dc0_dc1_c1", "c0_dc0_ddc0", "c0_dc0_ddc0_c1", "c0_dc0_ddc0_dc1_c1", "c0_dc0_ddc0_ddc1_dc1_c1", "c0_dc0_ddc0_j0_j1_ddc1_dc1_c1", "c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1", "c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1")],
     [("computeConstantWaypoints, evaluateCurveAtTime, ...", "src/waypoints_definition.cpp:68")])
prop("C15", "Time discretisations cover every phase, in order and without drift",
     "A discretisation with a given time step starts at 0, visits the phases in order, begins every phase at its first instant, advances by the step inside a phase, and ends every phase exactly at its last instant, so that the instant shared by two phases is attributed once to each. A discretisation with a given number of points per phase starts at 0, gives every phase that many equally spaced points, the last of which is the end of the phase, and ends at the total duration.",
     ["inputs"], "any number of phases, durations, time step at most half of the shortest phase, any number of points per phase",
     "Not tested directly; drift shows only with many phases or unlucky steps.",
     ["src/utils.cpp"], [("computeDiscretizedTime", "src/utils.cpp:100"), ("computeDiscretizedTimeFixed", "src/utils.cpp:81")])
prop("C16", "Every refusal is a catchable error, and nothing else is refused",
     "A request the library does not support (an unsupported set of boundary conditions for a function, a number of durations different from the number of phases, an unknown cost or solver, a final-velocity cost when the final velocity is already imposed, a motion that must stop given a non-zero final velocity, an operation on expressions of different sizes) is refused with a standard runtime error that can be caught, never with a crash or a made-up result. The supported requests are not refused, and a refusal has no effect on later calls.",
     ["inputs", "configurations", "fault_sequences"], "all combinations of the boundary condition flags, all functions that dispatch on them, all invalid argument combinations, followed by any valid call",
     "Tests exercise valid requests only.",
     ["src/waypoints_definition.cpp", "src/computeCOMTraj.cpp", "src/costfunction_definition.cpp", "src/solver-abstract.cpp", "src/utils.cpp"],
     [("dispatch tables", "src/waypoints_definition.cpp"), ("size check", "src/computeCOMTraj.cpp:516")])
prop("C17", "Computations are pure: no dependence on history, arguments untouched",
     "The answer to a call depends only on its arguments: repeating it, after any history of other calls (successful, failed or refused) in the same process, gives the same answer bit for bit, as does asking in a fresh process. Calls never modify the problem they are given.",
     ["histories", "inputs"], "any sequence of planner, zero-step, end-effector and solver calls with any arguments",
     "Each test case makes isolated calls and never compares answers across histories.",
     ["src/computeCOMTraj.cpp", "src/solve_0_step.cpp", "src/solver-abstract.cpp", "src/glpk-wrapper.cpp", H + "solve_end_effector.hh"],
     [("absence of static state", "src/"), ("const ProblemData&", H + "solve.hh")])
prop("C18", "The wrench expression equals the wrench of the motion, at every time",
     "For every set of boundary conditions that supports it, the symbolic contact wrench curve, for any value of the free control point, equals at every instant the wrench of the corresponding motion: the acceleration minus gravity, and the moment of it about the origin.",
     ["inputs", "configurations"], "all supporting boundary condition sets, boundary values, durations, free points; all instants (polynomial identity)",
     "The unit test compares samples for some families at random points; the identity is about all instants and values.",
     ["src/waypoints_definition.cpp"] + [H + "waypoints/waypoints_%s.hh" % w for w in ("c0_dc0_c1", "c0_dc0_dc1", "c0_dc0_dc1_c1", "c0_dc0_ddc0", "c0_dc0_ddc0_c1", "c0_dc0_ddc0_dc1_c1", "c0_dc0_ddc0_ddc1_dc1_c1", "c0_dc0_ddc0_j0_j1_ddc1_dc1_c1")],
     [("computeWwaypoints", "src/waypoints_definition.cpp:441")])
prop("C19", "The Python interface behaves as the library on what its objects hold",
     "Through the Python bindings, every attribute reads back the value last given to that object; contacts added to a problem are copies that later changes to the contact or its geometry do not affect, while constraints read from a problem are its own; every object stays usable, with its values, as long as any variable needs it, in whatever order the others are dropped. Every call answers as the library owes for the values held at that moment (trajectory, x, cost, rate of angular momentum, success, matrices), refuses by an exception what the library refuses and then changes nothing, and results stay what they were.",
     ["histories", "inputs"], "any sequence of creations, assignments, sharing, drops, queries and calls of a Python program",
     "The Python script of the repository makes isolated calls, keeps everything alive, and compares almost nothing; it is not among the tests that can run.",
     ["python/bezier_com_traj.cpp", H + "data.hh"],
     [("class_ and def declarations", "python/bezier_com_traj.cpp:338"), ("zeroStepCapturability, computeCOMTraj*, computeEndEffector* wrappers", "python/bezier_com_traj.cpp:19"), ("ContactData copies", H + "data.hh:34")],
     [("reference to the contact phase", "raw pointer, kept alive by the Python object", H + "data.hh:51")])
prop("C20", "Constraint preprocessing and curve algebra keep the problem's meaning",
     "Removing empty rows and normalising a system of inequalities leaves its solution set unchanged and reports a system with an impossible empty row as infeasible. Whatever sums, differences, multiples, copies and comparisons a program makes of affine expressions, each result is the mathematical one and no other expression changes; the cross-product matrix and the sampling of a wrench curve of any degree equal their definitions. The inequalities made for a list of wrench control points hold exactly when the contacts can provide all these wrenches and the kinematic and angular momentum inequalities hold.",
     ["inputs"], "any matrices (rows of zeros anywhere, any right-hand side), expressions, vectors, numbers of samples, contacts, wrench control points",
     "Not tested directly; ordinary problems have no empty rows.",
     ["src/common_solve_methods.cpp", "src/utils.cpp"],
     [("removeZeroRows / Normalize", "src/common_solve_methods.cpp:56"), ("ComputeDiscretizedWaypoints", "src/common_solve_methods.cpp:8"), ("waypoint operators, skew", "src/utils.cpp:9")])
prop("C21", "Calls made at the same time from several threads do not disturb each other",
     "Calls of the planners, of the solvers and of the curve and schedule functions made at the same time from several threads, on problems that none of them changes and with a solver object for each, give the same answers as when each is made alone. However the calls overlap, none crashes, none waits for ever for another, and none changes what another is given or returns.",
     ["schedules", "inputs"], "any number of threads, any calls of the planners, the generic solve functions (both back ends), the active-set solver, the end-effector and the expression functions, any overlap",
     "All tests are single-threaded, and no sequence of calls in one thread can show a workspace shared by two.",
     ["src/computeCOMTraj.cpp", "src/solve_0_step.cpp", "src/common_solve_methods.cpp", "src/solver-abstract.cpp", "src/eiquadprog-fast.cpp", "src/glpk-wrapper.cpp", "src/waypoints_definition.cpp", H + "solve_end_effector.hh"],
     [("absence of static state: every call works on its own matrices and solver object", "src/solver-abstract.cpp:112")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")

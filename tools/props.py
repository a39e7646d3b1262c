NOTES = ('Every check re-parses /repo with its own Clang libTooling front end (frontend/mwfront.cpp) and analyses the typed program; '
         'nothing of /repo is executed and no solver is involved. See DESIGN.md.')
TECH = 'static analysis: abstract interpretation of the typed AST in an algebraic value-numbering domain (symbolic sizes, closed-form loop summaries), obligations decided on normal forms'
TRUST = ('Trusted: the Clang front end, the engine in mwsa/, the summaries of Eigen/std operations, exact real arithmetic in place of floating point. '
         'Obligations the normal form cannot settle are reported as undecided in the evidence and are not claimed; an alarm needs a witness assignment of the symbols under which the two summaries differ.')
PROPS = []
def P(id, title, statement, over, q, why, files, mech, note='', tech=TECH, na=None):
    d = dict(id=id, title=title, statement=statement, over=over.split(), q=q, why=why, files=files, mech=mech, tech=tech, note=(note + ' ' + TRUST).strip())
    if na: d['na'] = na
    PROPS.append(d)

P('C01', 'Prediction matrices are the exact responses of the integrator chain',
  'For every horizon length, sampling period and first (feedback) period, the predicted position, velocity, acceleration and centre of pressure at each future sample, computed from the current state and a sequence of inputs through the published prediction matrices, equal the exact response of an integrator chain whose input is constant on the feedback period and then on each sampling period. The matrices have the horizon as their size, no future input has any influence on an earlier sample, and the centre of pressure is that of a linear inverted pendulum with the given height, gravity and mass ratio.',
  'inputs configurations', 'all horizon lengths N>=1, all periods S,T>0, all heights, gravities and masses; both scalar types',
  'The tests evaluate a few entries for one horizon and one or two periods; an error in an entry that needs S different from T, or a late sample, stays invisible.',
  ['src/tools.cpp', 'src/lineardynamic.cpp'], [('constant-jerk prediction matrices', 'src/tools.cpp'), ('matrix container reset', 'src/lineardynamic.cpp')])
P('C02', 'Companion matrices are the true transpose and inverse',
  'Every published prediction carries, next to its input response, the transpose, the inverse and the inverse of the transpose of that response; each of these is exactly what it is named, for every horizon length and every pair of periods.',
  'inputs configurations', 'all horizon lengths, all periods (equal or not), heights, gravities and masses for which the response is invertible; both scalar types',
  'No test looks at the companions of a prediction with a feedback period different from the sampling period.',
  ['src/tools.cpp', 'mpc-walkgen/tools.h'], [('companions stored with the response', 'src/tools.cpp'), ('LU inverse', 'mpc-walkgen/tools.h')],
  note='The numerical inverse is used by its contract (result is the inverse up to the cut-off of tiny entries); the body of the helper is a separate obligation.')
P('C03', 'A model state update integrates a constant jerk exactly',
  'Updating a model state with a jerk held for some period yields exactly the position, velocity and acceleration of a triple integrator after that period, for every state, jerk and period, and changes only the state of the axis that was updated.',
  'inputs', 'all states, jerks and positive periods, every axis of every model; both scalar types',
  'Tests update a state with one or two values only.',
  ['src/tools.cpp', 'src/model/lip_model.cpp', 'src/model/zebulon_base_model.cpp', 'src/model/no_dynamic_model.cpp'],
  [('state integration', 'src/tools.cpp'), ('per-axis update entry points', 'src/model/lip_model.cpp')])
P('C04', 'Published predictions follow the current configuration',
  'At any time after construction, every prediction a model publishes (position, velocity, acceleration, jerk and centre of pressure, for every admissible first period) is the prediction of the configuration the caller last set: number of samples, sampling and feedback period, height, gravity and masses. No setter, in whatever order they are called, leaves a prediction of an earlier configuration behind.',
  'histories configurations', 'every configuration history (inductive step: the generic consistent configuration followed by any setter), all values; both scalar types',
  'Tests configure a model once and look at the result; a stale cache needs a particular setter called last.',
  ['src/model/lip_model.cpp', 'src/model/zebulon_base_model.cpp', 'src/model/no_dynamic_model.cpp'],
  [('pendulum dynamics cache', 'src/model/lip_model.cpp'), ('base dynamics', 'src/model/zebulon_base_model.cpp'), ('point mass dynamics', 'src/model/no_dynamic_model.cpp')])
P('C05', 'Configuration is read back as set, and setting one thing changes nothing else',
  'Every value given to a setter of a model, supervisor or generator is the value its getter returns afterwards, component by component; and a setter changes no other value that can be set and read back.',
  'inputs histories', 'every setter of the eight configurable classes, every argument value, on an object in an arbitrary state; both scalar types',
  'Tests set equal or default values for neighbouring quantities, so a crossed or dropped assignment goes unnoticed.',
  ['src/model/lip_model.cpp', 'src/model/zebulon_base_model.cpp', 'src/model/humanoid_foot_model.cpp', 'src/humanoid_feet_supervisor.cpp', 'src/humanoid_walkgen.cpp', 'src/zebulon_walkgen.cpp', 'src/trajectory_walkgen.cpp'],
  [('setters and getters', 'mpc-walkgen/model/lip_model.h'), ('setters and getters', 'mpc-walkgen/model/zebulon_base_model.h'), ('generator configuration', 'src/zebulon_walkgen.cpp')])
OBJW = ['src/function/zebulon_base_position_tracking_objective.cpp', 'src/function/zebulon_base_velocity_tracking_objective.cpp', 'src/function/zebulon_com_centering_objective.cpp',
        'src/function/zebulon_cop_centering_objective.cpp', 'src/function/zebulon_jerk_minimization_objective.cpp', 'src/function/zebulon_tilt_minimization_objective.cpp',
        'src/function/zebulon_tilt_velocity_minimization_objective.cpp']
OBJT = ['src/function/trajectory_position_tracking_objective.cpp', 'src/function/trajectory_velocity_tracking_objective.cpp', 'src/function/trajectory_jerk_minimization_objective.cpp']
P('C06', 'Every objective hands the solver one consistent convex quadratic',
  'For every objective, configuration and model state, the gradient it reports is an affine function of the decision vector whose slope is exactly the Hessian it reports, the Hessian is symmetric, and both have the size of the decision vector.',
  'inputs configurations', 'all decision vectors, horizon lengths, configurations, states and references; all wheeled-robot and trajectory objectives, with and without base mass; both scalar types',
  'Tests evaluate a gradient or a Hessian at one point; a term present in one and missing in the other shows only for other states.',
  OBJW + OBJT, [('gradient and Hessian', 'src/function/zebulon_cop_centering_objective.cpp'), ('gradient and Hessian', 'src/function/zebulon_tilt_minimization_objective.cpp')])
P('C07', 'Wheeled-robot and trajectory objectives measure what they are named after',
  'The gradient and Hessian of each objective are those of half the squared distance between the predicted quantity and its reference: base position, base velocity, trajectory position and velocity against their world-frame references; the body centre of mass relative to the base against its local reference, shifted so that the weight stays aligned with the contact under a tilted gravity; the centre of pressure of the two masses relative to the base against its reference, also when the reference is given as world-frame trajectories; the jerk; and the predicted tilt angle or angular velocity about the tilt contact point given by the linearised two-mass dynamics.',
  'inputs configurations', 'all states, references, decision vectors, horizons, masses, heights, gravity directions and contact points, with and without base mass; both scalar types',
  'Tests use symmetric numbers or zero references, for which several wrong signs, blocks and coefficients give the same value; the tilt objectives have no test at all.',
  OBJW + OBJT, [('objective definitions', 'src/function/zebulon_cop_centering_objective.cpp'), ('tilt dynamics', 'src/function/zebulon_tilt_minimization_objective.cpp')])
HUMO = ['src/function/humanoid_cop_centering_objective.cpp', 'src/function/humanoid_lip_com_jerk_minimization_objective.cpp', 'src/function/humanoid_lip_com_velocity_tracking_objective.cpp']
P('C08', 'Humanoid objectives measure what they are named after',
  'The gradient and Hessian of each walking objective are those of half the weighted squared distance between the predicted quantity and its reference: the centre of pressure relative to its foot, in foot frame; the jerk of the centre of mass that realises the planned centres of pressure and footsteps; and the velocity of the centre of mass under that jerk against the world-frame velocity reference. The prediction is always the one of the current feedback step, the current model state, the current support foot and the current foot orientations.',
  'inputs configurations', 'all numbers of samples and previewed steps, all states, references, foot orientations, footstep assignments and sample weights, at every feedback step; both scalar types',
  'Tests use one support phase and unit rotations with hand-copied numbers; crossed axes, a wrong feedback step or a wrong step column agree there.',
  HUMO, [('CoP to jerk conversion', 'mpc-walkgen/humanoid_feet_supervisor.h'), ('objective definitions', 'src/function/humanoid_lip_com_velocity_tracking_objective.cpp')],
  note='The feet supervisor enters through its public getters as symbols; what it must guarantee about them is a property of its own.')
P('C09', 'Motion limits bound the predicted velocity and acceleration',
  'The velocity and acceleration rows handed to the solver for the base and for a trajectory are, at every sample and axis, the predicted velocity and acceleration as affine functions of the decision vector, and the bounds are exactly the currently configured limit minus (and minus the limit minus) the current prediction. The tilt-plane constraint is the predicted velocity of body and base across the current heading of the base.',
  'inputs configurations', 'all limits, states, decision vectors, headings and horizon lengths, including limits changed after construction; both scalar types',
  'Tests use one limit for both axes and both quantities and a zero heading.',
  ['src/function/zebulon_base_motion_constraint.cpp', 'src/function/trajectory_motion_constraint.cpp', 'src/function/zebulon_tilt_motion_constraint.cpp'],
  [('limit rows', 'src/function/zebulon_base_motion_constraint.cpp'), ('heading rows', 'src/function/zebulon_tilt_motion_constraint.cpp')])
P('C10', 'The wheeled robot stays over its support polygons',
  'The rows of the centre of pressure and centre of mass constraints hold exactly when the predicted centre of pressure (of both masses) and centre of mass, relative to the base, lie inside the currently configured support polygon at every sample; there is one row per edge and sample, and the reported value is that of the current prediction.',
  'inputs configurations', 'all polygons (vertex positions free, number of vertices enumerated), states, decision vectors, horizons, heights, gravity and masses; both scalar types',
  'Tests use one rectangle symmetric about the base, for which mirrored or exchanged edges are indistinguishable.',
  ['src/function/zebulon_cop_constraint.cpp', 'src/function/zebulon_com_constraint.cpp'],
  [('half planes', 'src/function/zebulon_cop_constraint.cpp'), ('half planes', 'src/function/zebulon_com_constraint.cpp')],
  note='Numbers of vertices enumerated: 3 and 4 (quick), 1 to 8 (thorough).')
P('C11', 'Footstep and foot-level centre of pressure constraints use the right polygon, step and side',
  'Every sample contributes the half planes and box of the polygon of the foot it stands on, applied to its own foot-relative centre of pressure; every previewed step contributes those of its reachable region, applied to the displacement from the previous footstep (from the current support foot for the first one; for the box, whose sides are bounds on single variables, from the previous footstep of the plan the bounds are asked for). Rows, values and bounds agree with one another and the number of rows is the sum over the polygons.',
  'inputs configurations', 'all polygons (any number of rows each), decision vectors and support feet; numbers of samples and steps enumerated; both scalar types',
  'Tests use one polygon for all samples and one previewed step.',
  ['src/function/humanoid_cop_constraint.cpp', 'src/function/humanoid_foot_constraint.cpp'],
  [('rows of the polygons', 'src/function/humanoid_cop_constraint.cpp'), ('step displacements', 'src/function/humanoid_foot_constraint.cpp')],
  note='Numbers of samples and steps enumerated up to 3 (quick) or 5 (thorough).')
GEN = ['src/zebulon_walkgen.cpp', 'src/trajectory_walkgen.cpp', 'src/humanoid_walkgen.cpp']
P('C12', 'The solver receives exactly the weighted cost and the enabled constraints',
  'At every solve, the quadratic program handed to the solver has, in its Hessian and gradient, the sum of the objectives each multiplied by its own configured weight and evaluated at the current plan; it has the rows of exactly the constraints that are switched on, each row with its own bounds, evaluated at the current plan; and row or cost scaling changes neither the minimiser nor the feasible set. A repeated solve does not accumulate anything from the previous one.',
  'inputs histories configurations', 'all horizons, numbers of constraint rows, weights, plans and constraint switch combinations, two solves in a row; walking generator with 0 and 1 previewed steps; both scalar types',
  'Tests look at the trajectory that comes out of a default configuration; a weight applied to the wrong objective or bounds shifted by a block still give a plausible motion.',
  GEN, [('cost and constraint assembly', 'src/zebulon_walkgen.cpp'), ('cost and constraint assembly', 'src/trajectory_walkgen.cpp'), ('cost and constraint assembly', 'src/humanoid_walkgen.cpp')],
  note='Objectives and constraints enter as uninterpreted functions (their own properties are C06-C11).')
P('C13', 'The published states integrate the first input of the accumulated plan',
  'After a solve the state of every model is the exact integral, over the feedback period, of the first jerk of the plan, the plan being the previous one plus the correction the solver returned; the jerk published is that jerk; every axis of every model moves by its own input. For the walking generator the jerk is the one that realises the planned centres of pressure, rotated into the world, through the pendulum of the current first period. This holds whether or not the solver found a solution; a failed solve is reported to the caller.',
  'inputs histories faults', 'all states, plans, solver answers (found or not), horizons and periods, several solves in a row; walking generator with 0 and 1 previewed steps; both scalar types',
  'Tests run a generator with equal periods and identity rotations and look at the end of the motion.',
  GEN, [('state update after the solve', 'src/zebulon_walkgen.cpp'), ('CoP plan to jerk', 'src/humanoid_walkgen.cpp')])
P('C14', 'A configuration change takes effect at the next solve',
  'After any setter of a generator is called, at any time after construction and after earlier solves, the next program handed to the solver is the one a generator freshly built with the current configuration would hand over: no weight, limit, polygon, height, mass, gravity, period, horizon or reference of an earlier configuration survives in an objective, a constraint, a cached constant part or the solver.',
  'histories configurations', 'every setter of the three generators, called after a solve; all values; both scalar types',
  'Tests configure before the first solve; a cache that is not refreshed shows only when a particular setter is called later.',
  GEN + OBJW, [('cached constant part', 'src/zebulon_walkgen.cpp'), ('cached QP solvers', 'src/humanoid_walkgen.cpp'), ('objective caches', 'src/function/zebulon_com_centering_objective.cpp')],
  note='Wheeled polygons with 3 vertices; walking generator with 1 and 2 samples and 1 step.')
P('C15', 'The QP solver reports honestly and solves the program it was given',
  'Whatever solver the factory makes for given dimensions: every solve hands the optimiser the Hessian, gradient, constraint matrix, variable bounds and constraint bounds of the program it was given, each in the role it has in that program; a warm start uses the previous matrices with the new vectors, a first solve never is a warm start; the call returns true exactly when the optimiser reports success, whether or not an output stream is given, and the solution written is the primal solution of that solve, whether or not it succeeded. The program passed in is not modified.',
  'inputs faults histories', 'all programs and dimensions, every history of warm and cold, successful and failing solves up to the depth explored, with and without output stream; both scalar types',
  'Tests solve small feasible programs with one constraint matrix and never make the optimiser fail.',
  ['src/qpsolverfactory.cpp', 'qpsolver/src/qpsolver_qpoases.hxx', 'qpsolver/mpc-walkgen/qpsolver.h'], [('adapter', 'qpsolver/src/qpsolver_qpoases.hxx')],
  note='qpOASES is not installed here and enters by its documented interface; histories of 3 (quick) or 4 (thorough) solves.')
FSM = ['src/humanoid_feet_supervisor.cpp', 'mpc-walkgen/humanoid_feet_supervisor.h']
P('C16', 'The walking state machine previews the right footsteps',
  'While motion is requested the robot alternates left and right single supports of one step period starting on the left foot after the initial double support; when it is revoked the current step is finished and the robot stands. At every call the preview published for the horizon (number of steps, assignment of samples to footsteps, sample weights, support polygons and reachable regions, support foot, calls before the next sample) is the one of these phases; the plan variable always has two entries per sample and per previewed step, keeps the planned values, drops the landed step and places a new step inside the reachable region of the one before. No query changes the answer of another.',
  'histories inputs configurations', 'all histories of requesting and revoking motion up to the depth explored (long ones with few changes), changes of step and double support periods during them, any period lengths of the enumerated ratios, all polygons, foot states and plans; both scalar types',
  'The test of the supervisor walks one sequence with one ratio of periods; a wrong size, column, polygon or support foot shows for other ratios or when the motion is revoked at another instant.',
  FSM, [('state machine and preview', 'src/humanoid_feet_supervisor.cpp')],
  note='Horizons up to 6 samples, 1 to 3 feedback periods per sample, histories of 4 to 16 calls (parameter grid in mwsa/checks/registry.py feet_grid); polygons with 2 and 3 points.')
P('C17', 'The feet follow the plan',
  'In single support, after the first sampling period of the step, the foot in the air moves towards the first previewed step so as to reach it exactly at the end of the step, and vertically to its maximum height over the first half of the flight and back to the ground over the second half; the support foot, and both feet in double support, do not move; after the step the foot has become the support foot.',
  'histories inputs configurations', 'as C16: all histories up to the depth explored, all planned steps, heights and foot states',
  'The tests look at the end of one walk; crossed feet, axes or times give a similar end.',
  FSM, [('updateFeetStates', 'src/humanoid_feet_supervisor.cpp')], note='Same grid as C16; the interpolation itself is C18.')
P('C18', 'Foot trajectories are smooth and reach their objective on time',
  'The interpolated motion of a foot from any state to any objective state over any duration is made of three cubics that join with equal position, velocity and acceleration at one and two thirds; it starts in the current state and ends exactly in the objective state; the published velocity and acceleration are the derivatives of the position with respect to time; the axes are independent and nothing is kept from an earlier interpolation.',
  'inputs', 'all states, objectives, durations and instants; each axis; both scalar types',
  'The test samples one trajectory over a unit duration, for which a missing division by the duration cannot be seen.',
  ['src/interpolator.cpp', 'src/model/humanoid_foot_model.cpp', 'mpc-walkgen/tools.h'], [('spline factors', 'src/interpolator.cpp'), ('evaluation', 'src/model/humanoid_foot_model.cpp')],
  note='Exact arithmetic.')
PG = ['src/convexpolygon.cpp', 'mpc-walkgen/convexpolygon.h']
P('C19', 'A convex polygon is the intersection of its half planes and bounds',
  'For a convex polygon with its corners in counterclockwise order, the constraints it publishes describe exactly the polygon: an edge parallel to an axis sets the bound of its side to its coordinate, every other edge contributes one general constraint a x + b y + c <= 0 that is the closed half plane to the left of the edge, sides without an axis-parallel edge are unbounded (a constant beyond 1e6), and the numbers of vertices and constraints agree with what is published. A polygon without vertices constrains nothing.',
  'inputs', 'all convex polygons with 3 to 5 edges (thorough: 6), with any of the edges parallel to an axis; both scalar types',
  'The tests look at a handful of polygons; an edge direction none of them has can lose its constraint, its sign or its bound.',
  PG, [('half planes and bounds', 'src/convexpolygon.cpp')],
  note='Edges deviate from the axes by more than the tolerance or not at all; exact arithmetic.')
P('C20', 'The vertices of a polygon are the convex hull of the points given',
  'From any points, in any order, with repeated points, points inside and points on an edge, extractVertices returns every corner of their convex hull exactly once, in counterclockwise order, and nothing else; points that are all equal give one vertex, points on a line its two ends, no points none. angleBetweenVecs is the angle from the first to the second vector, positive counterclockwise.',
  'inputs', 'all points whose order type (turn of every triple, order of the heights) is one of the exhausted ones: up to 4 points in any order; 5 points in some orders; both scalar types',
  'The tests extract two point sets; degenerate arrangements (copies, collinear points, ties in height) in particular orders are what breaks a gift-wrapping loop.',
  PG, [('gift wrapping', 'src/convexpolygon.cpp')],
  note='Coordinates, angles and lengths are equal or differ by more than the tolerance.')
P('C21', 'No access outside a container, no operation on matrices of different sizes',
  'Whatever the configuration, state and history within the documented preconditions, every element and every block of a matrix, polygon, reference, dynamic, phase or history that the library reads or writes lies inside its container, and the operands of every matrix operation and assignment have matching sizes: in the prediction matrices, the models, objectives, constraints, polygons, the QP adapter, the foot trajectory, the walking state machine, and solve() of the three generators after any reconfiguration.',
  'inputs configurations histories', 'all horizons, sizes and values in the scenarios of the other properties (horizon symbolic; humanoid samples, steps, edges, points and histories enumerated as there); both scalar types',
  'An off-by-one is out of range only for particular sizes, and reading one element past an end usually goes unnoticed by a test that passes.',
  ['src/tools.cpp', 'src/humanoid_feet_supervisor.cpp', 'src/convexpolygon.cpp', 'src/zebulon_walkgen.cpp', 'src/trajectory_walkgen.cpp', 'src/humanoid_walkgen.cpp'] ,
  [('blocks of the stacked program', 'src/zebulon_walkgen.cpp'), ('phases and samples', 'src/humanoid_feet_supervisor.cpp'), ('contact flags', 'src/model/humanoid_foot_model.cpp')],
  note='Accesses through raw pointers (only the hand-over of arrays to qpOASES) are not covered.')
P('C22', 'A constructed object is complete, at rest, and the same whichever constructor made it',
  'As soon as an object is constructed, by any of its constructors, everything it publishes has a definite value: no quantity that can be read from it, and nothing in the first program a generator hands to its solver (whatever weights and constraint switches are set before) or in the states it publishes afterwards, depends on what the memory held before. States start at rest at the origin (the pendulum at its height). A model constructed with a number of samples and a sampling period publishes what a default constructed one does after these two are set. Weightings and configurations start with every member initialised.',
  'configurations', 'every constructor of the models, feet supervisor, polygon, generators and configuration records; all numbers of samples and sampling periods; every single constraint switch, none and all, with and without weights, in the first solve; both scalar types',
  'Uninitialised memory is often zero when a test runs, and the tests set most members before they look.',
  ['src/model/lip_model.cpp', 'src/model/zebulon_base_model.cpp', 'src/model/no_dynamic_model.cpp', 'src/model/humanoid_foot_model.cpp', 'src/humanoid_feet_supervisor.cpp', 'src/humanoid_walkgen.cpp', 'src/zebulon_walkgen.cpp', 'src/trajectory_walkgen.cpp'],
  [('model constructors', 'src/model/zebulon_base_model.cpp'), ('initial foot state', 'src/model/humanoid_foot_model.cpp'), ('generator buffers', 'src/zebulon_walkgen.cpp')])

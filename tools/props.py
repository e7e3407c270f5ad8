SPECJ = 'TLA+ specification, TLC-judged conformance of recorded runs'
PROPS = [
 dict(id='C01', title='Clock, recorded histories and stored plans stay in step',
  statement='After any sequence of simulation steps (of equal or unequal whole numbers of samples), sleeps, goal changes and restarts, the simulator clock, its list of times and the recorded history of every vehicle and obstacle have advanced by the same number of samples. The time stamps are equidistant with the sample time, and no recorded sample is lost, duplicated or rewritten later. Every recorded sample is stored together with the plan that was in force when it was executed.',
  over=['schedules', 'configurations', 'histories'],
  quant='all update/sample/knot time combinations (including those floats cannot represent), all sequences of step lengths, sleeps, state overrules and restarts, fixed and free end time, one or more vehicles and obstacles',
  why='The examples run one schedule each with sample and update times that happen to divide nicely, and never look at the histories.',
  files=['omgtools/execution/simulator.py', 'omgtools/execution/deployer.py', 'omgtools/vehicles/vehicle.py', 'omgtools/environment/obstacle.py', 'omgtools/problems/problem.py'],
  mech=[('clock and time list of the simulator', 'omgtools/execution/simulator.py: Simulator.step, Simulator.sleep'), ('signals and stored trajectories', 'omgtools/vehicles/vehicle.py: Vehicle.simulate, Vehicle.store'), ('obstacle histories', 'omgtools/environment/obstacle.py: Obstacle.simulate')],
  observe=['vehicle.signals', 'vehicle.traj_storage', 'obstacle.signals', 'simulator.time'],
  technique='TLA+ model of the receding horizon loop (TLC) and TLC-judged traces of the real loop',
  note='Exhaustive on the design model within its bounds; the real simulator is driven through random schedules and every event is judged by TLC. Trusts TLC and the recording harness.'),
 dict(id='C02', title='A re-plan starts from the present state and is published and applied faithfully',
  statement='At every re-plan the optimizer is given, for every vehicle, the state and input that the previously published plan predicts for that moment (the whole plan with ideal prediction, otherwise the last measured state moved along the planned input), the current goal and the present position of every obstacle. The trajectories that are published equal the optimized plan from the current time on, sample by sample, with matching time stamps. The simulated vehicle receives exactly the published inputs (and, with ideal update, states) until the next plan is published.',
  over=['schedules', 'configurations', 'histories', 'inputs'],
  quant='all vehicles with spline-equal states, prediction/update options, late or early updates, measured or enforced states, changes of goal, start times, fixed and free end time',
  why='Tests only run to completion with a solver whose plans barely change between updates, which hides any shift of a sample or of a knot at the seam.',
  files=['omgtools/execution/deployer.py', 'omgtools/execution/simulator.py', 'omgtools/vehicles/vehicle.py', 'omgtools/vehicles/holonomic.py', 'omgtools/problems/problem.py', 'omgtools/problems/point2point.py'],
  mech=[('prediction at the seam', 'omgtools/vehicles/vehicle.py: Vehicle.predict'), ('publication', 'omgtools/problems/point2point.py: store; omgtools/vehicles/vehicle.py: Vehicle.store'), ('measured states', 'omgtools/execution/deployer.py: Deployer.update')],
  observe=['parameters handed to the solver', 'vehicle.trajectories', 'vehicle.signals'],
  technique='TLA+ model of the receding horizon loop (TLC) and TLC-judged traces of the real loop',
  note='The solver is replaced by one that returns arbitrary lively plans so no seam is hidden; some runs use IPOPT. Values compared on a 1e-4 grid.'),
 dict(id='C03', title='Fixed horizon: time offset and warm start follow the clock exactly',
  statement='In a problem with a fixed horizon time, at every update the optimizer is told the time since the last knot, that is the time elapsed since the start modulo the knot interval, in [0, knot interval). Its first guess describes exactly the motion of the previous solution over the part of the horizon they share, however many knots have passed since then. The horizon time handed over never changes.',
  over=['schedules', 'configurations', 'inputs'],
  quant='all horizons, numbers of knot intervals (two or more), sample and update times, early, late and irregular updates, restarts, spline coefficients',
  why='A wrong offset or a guess that is one knot off only slows the solver down in the examples; at particular combinations of times floats hide it completely.',
  files=['omgtools/problems/point2point.py', 'omgtools/problems/problem.py', 'omgtools/basics/spline_extra.py', 'omgtools/basics/optilayer.py'],
  mech=[('time since last knot', 'omgtools/problems/point2point.py: FixedTPoint2point.set_parameters'), ('shift of the primal variables', 'omgtools/problems/point2point.py: init_step; omgtools/basics/spline_extra.py: shiftoverknot_T'), ('transforming all splines', 'omgtools/basics/optilayer.py: transform_primal_splines')],
  observe=['parameters and first guess handed to the solver'],
  technique='TLA+ model of horizon bookkeeping (TLC) and TLC-judged traces of the real loop',
  note='Design model exhaustive within bounds; real loop judged event by event over random schedules. Guess compared as a motion, not as coefficients.'),
 dict(id='C04', title='Free end time: guess and remaining motion time shrink with the clock',
  statement='In a problem with free end time, at every regular update the optimizer starts from the previous solution with the part that has been driven cut off: the motion time guess is reduced by the elapsed time, and the spline guess describes the remaining motion. The planned motion always starts now (zero time offset).',
  over=['schedules', 'configurations', 'inputs'],
  quant='all update times and motion times at least twice the update time, including start times that differ from zero, restarts and changes of goal',
  why='The solver repairs a wrong guess, so examples pass; nothing looks at what it is started from.',
  files=['omgtools/problems/point2point.py', 'omgtools/basics/spline_extra.py'],
  mech=[('guess of a free end time problem', 'omgtools/problems/point2point.py: FreeTPoint2point.init_step')],
  observe=['first guess handed to the solver'],
  technique='TLA+ specification, TLC-judged traces of the real loop',
  note='Plans of the stand-in optimizer are cubics, which the guess can represent without loss on any knots.'),
 dict(id='C05', title='Distributed fleets coordinate exactly, in step, and on the horizon still ahead',
  statement='In distributed formation and rendezvous problems, every agent optimizes once per iteration, given the agreement variables and multipliers of the previous iteration (its own and what its neighbours hold about it), moved along with the horizon over every knot that has passed and no other. The agreed motion is the minimiser of the coordination step over the part of the horizon that is still ahead (equal for all neighbours and, in formations, at rest at the end). Multipliers move by rho times the remaining disagreement, acceleration and its reset follow their rule, and afterwards every agent holds exactly what its neighbours decided. The reported residual is that disagreement.',
  over=['schedules', 'histories', 'configurations'],
  quant='fleets of two or more vehicles, circular and full interconnection, all spline bases, penalty parameters, numbers of iterations, regular, early and late updates passing any number of knots, restarts; ADMM, accelerated and AMA variants, dual decomposition, rendezvous',
  why='The examples converge within an iteration or two and then hardly move, so stale, unshifted or swapped variables only show as slower convergence.',
  files=['omgtools/problems/admm.py', 'omgtools/problems/dualdecomposition.py', 'omgtools/problems/dualmethod.py', 'omgtools/problems/distributedproblem.py', 'omgtools/problems/formation.py', 'omgtools/problems/rendezvous.py'],
  mech=[('iteration', 'omgtools/problems/admm.py: ADMMProblem.dual_update; omgtools/problems/dualdecomposition.py: DDProblem.dual_update'), ('coordination step', 'omgtools/problems/admm.py: ADMM.construct_upd_z, construct_upd_l, construct_upd_res, accelerate'), ('moving along with the horizon', 'omgtools/problems/admm.py: ADMM.init_step; omgtools/problems/dualmethod.py: _transform_spline')],
  observe=['parameters given to the agents\' optimizers', 'var_admm / var_dd', 'residuals'],
  technique='TLA+ model of the exchange protocol (TLC) and TLC-judged traces of real iterations against an integer model of the coordination step',
  note='Protocol model exhaustive over interleavings inside a phase for 2-4 agents; a mutated model without barriers must violate. The agents\' own solvers are stubbed with arbitrary plans.'),
 dict(id='C06', title='Global planner: paths stay on free cells and exist whenever possible',
  statement='For any occupancy of the grid and any free start and goal cell, the planner returns a path whenever one exists and reports that there is none otherwise. Every path runs from the start to the goal through free, adjacent cells and never cuts the corner of a blocked cell. No free cell is ever reported blocked or the other way around when looking for the cell nearest to a point.',
  over=['inputs', 'configurations'],
  quant='all grid sizes, cell sizes, occupancies, start and goal cells',
  why='Two examples use the planner, each on one fixed map.',
  files=['omgtools/problems/globalplanner.py'],
  mech=[('search', 'omgtools/problems/globalplanner.py: AStarPlanner.get_path'), ('neighbours and corner rule', 'omgtools/problems/globalplanner.py: Grid.get_neighbors'), ('snap to grid', 'omgtools/problems/globalplanner.py: Grid.move_to_gridpoint')],
  observe=['AStarPlanner.get_path'],
  technique='TLA+ model of A* checked by TLC for all 3x3 maps; exhaustive conformance on small grids judged by TLC',
  note='Every 3x3 occupancy with every start/goal is run through the real planner and judged; larger mazes randomly.'),
 dict(id='C07', title='Grid occupancy is safe: a cell is free only if no obstacle reaches it',
  statement='After the grid is filled from the environment, every cell whose interior is reached by an (axis aligned, stationary) obstacle enlarged with the vehicle size is blocked, and no cell is blocked without an obstacle touching it.',
  over=['inputs', 'configurations'],
  quant='all obstacle positions, shapes and sizes, vehicle sizes, cell sizes and room positions',
  why='One or two fixed maps in the examples.',
  files=['omgtools/problems/globalplanner.py'],
  mech=[('occupancy', 'omgtools/problems/globalplanner.py: AStarPlanner.fill_environment / Grid.block')],
  observe=['AStarPlanner.grid'],
  technique='TLA+ specification of cell overlap, TLC-judged conformance',
  note='Random environments on an integer lattice judged by TLC.'),
 dict(id='C19', title='Published motions obey the vehicle model and start where the vehicle is',
  statement='Every trajectory a vehicle publishes obeys the equations of motion of that vehicle, sample after sample: positions, headings, steering and trailer angles, attitudes and velocities are the integral of the published inputs. It starts at the state the plan was made for, whatever was measured or stored before. The fleet centre it publishes is the point at its formation offset, seen from its own heading where it has one. The initial values handed to the optimizer are those of the plan being continued. A vehicle reports to have arrived exactly when it is at its goal and at rest within the tolerance.',
  over=['inputs', 'configurations', 'histories'],
  quant='all vehicle types shipped (holonomic in 1, 2, 3 dimensions and with orientation, Dubins, AGV, bicycle, quadrotors, trailer), all spline coefficients within the limits, start states, sampling times, horizons, offsets in the horizon and formation offsets',
  why='Examples watch the position in a plot; an input that does not match the state, a heading that starts at a stale value or a stop criterion that fires while moving cannot be seen there.',
  files=['omgtools/vehicles/dubins.py', 'omgtools/vehicles/agv.py', 'omgtools/vehicles/bicycle.py', 'omgtools/vehicles/quadrotor.py', 'omgtools/vehicles/quadrotor3d.py', 'omgtools/vehicles/trailer.py', 'omgtools/vehicles/holonomic.py', 'omgtools/vehicles/holonomicorient.py', 'omgtools/vehicles/vehicle.py'],
  mech=[('from splines to signals', 'omgtools/vehicles/*.py: splines2signals'), ('equations of motion', 'omgtools/vehicles/*.py: ode; vehicle.py: integrate_ode'), ('initial values', 'omgtools/vehicles/*.py: set_parameters, get_initial_constraints'), ('arrival', 'omgtools/vehicles/*.py: check_terminal_conditions')],
  observe=['vehicle.trajectories', 'vehicle.ode', 'vehicle.check_terminal_conditions', 'parameters handed to the solver'],
  technique='TLA+ equations of motion in integer arithmetic; TLC judges published trajectories (Simpson consistency), right hand sides and stop criteria',
  note='Random smooth splines are published through the real vehicle code and judged sample by sample against an integer model with tabulated sine and cosine. Design model checks the table and the judge itself.'),
 dict(id='C14', title='Plans the optimizer accepts are safe over the whole horizon',
  statement='Whenever the optimizer accepts a plan, then at every moment of the horizon (not only at knots or samples) no part of the vehicle overlaps an obstacle that moves and turns on as announced, leaves the room (when room constraints are on) or overlaps another vehicle with inter vehicle avoidance on, and velocities, accelerations, turning rates, steering and thrusts stay within the limits set for that vehicle, up to the tolerance of the optimizer. The plan ends at rest, with free end time at the goal.',
  over=['inputs', 'configurations', 'histories'],
  quant='all vehicle types (holonomic 2D and 3D, with orientation, Dubins, AGV, bicycle, quadrotors), convex shapes of vehicles, obstacles and rooms, obstacle motions with constant acceleration or turning rate, limits, goals, fixed and free end time, whatever the optimizer prefers among the plans that satisfy its constraints',
  why='The examples use a handful of rectangles and circles, with plans that are optimal for one objective; a constraint that is missing, has a wrong sign or scale, or only holds at samples goes unnoticed unless the optimal plan happens to run into it.',
  files=['omgtools/environment/environment.py', 'omgtools/environment/obstacle.py', 'omgtools/vehicles/vehicle.py', 'omgtools/vehicles/holonomic.py', 'omgtools/vehicles/dubins.py', 'omgtools/vehicles/agv.py', 'omgtools/vehicles/bicycle.py', 'omgtools/vehicles/quadrotor.py', 'omgtools/vehicles/quadrotor3d.py', 'omgtools/problems/point2point.py', 'omgtools/basics/shape.py'],
  mech=[('separating hyperplanes', 'omgtools/environment/environment.py: define_collision_constraints; omgtools/environment/obstacle.py: define_collision_constraints; omgtools/vehicles/vehicle.py: define_collision_constraints_2d/3d'), ('limits', 'omgtools/vehicles/*.py: define_trajectory_constraints'), ('spline constraints hold everywhere', 'omgtools/basics/optilayer.py: define_constraint')],
  observe=['vehicle.trajectories after a successful solve', 'status of the solver'],
  technique='TLA+ geometry and limits in integer arithmetic; TLC judges every plan the real optimizer accepts, half of them under adversarial objectives; TLA+ design model of replanning',
  note='The real problem is built and solved by IPOPT, also with objectives that push the vehicle into obstacles and limits under the unchanged constraints. Sampled along the horizon. Trailer not covered.'),
 dict(id='C11', title='Obstacles move as announced, and the optimizer is told that same motion',
  statement='From its initial state an obstacle moves with constant acceleration and turning rate, plus the increments of position, velocity and acceleration given by its simulation trajectories at their times, and plus the input of its simulation model; how the simulation is cut into portions, sharing initial dictionaries between obstacles or copying the environment makes no difference, and an overruled state is where it goes on from. The motion handed to the optimizer (position and, for a turning obstacle, cosine and sine) is the motion that follows from the present state, over the whole horizon, for any time since the last knot, and over all segments of a horizon of several segments.',
  over=['inputs', 'histories'],
  quant='all initial states, trajectories of increments, inputs, cuts of the simulation, sample times, copies, overrules, horizons and numbers of segments, in 2D and 3D (obstacles that bounce excepted)',
  why='The examples show one or two obstacles that move straight on; a wrong sign, a missed increment or a horizon that starts at the wrong time still looks plausible.',
  files=['omgtools/environment/obstacle.py', 'omgtools/environment/environment.py'],
  mech=[('simulated motion', 'omgtools/environment/obstacle.py: ObstaclexD.prepare_simulation / simulate / set_state, Obstacle2D.simulate'), ('motion in the optimization problem', 'omgtools/environment/obstacle.py: ObstaclexD.init, Obstacle2D.init, set_parameters'), ('copies', 'omgtools/environment/environment.py: copy')],
  observe=['obstacle.signals', 'obstacle.pos_spline, cos, sin, gon_weight'],
  technique='TLA+ specification of the motion with events, TLC-checked design model; TLC judges recorded motions and foretold motions of the real obstacles',
  note='Random environments and histories; every recorded sample is compared with the motion the specification prescribes, in integers.'),
 dict(id='C15', title='Splines are functions: every operation on them means what it says',
  statement='A spline stands for a function of time. Adding, subtracting, multiplying, negating, scaling, differentiating and integrating splines, inserting knots, taking out an interval, writing in a finer basis, extending over an extra knot interval, moving the first knot forwards and backwards, shifting over a knot and putting segments one after the other give the spline of exactly the function that follows, on its domain; evaluating gives the value of that function, with numbers and with symbols.',
  over=['inputs'],
  quant='all degrees, clamped knot sequences (even or not, with multiple knots, without interior knots), coefficients, intervals, shifts, and joints from jumps to fully smooth ones',
  why='The unit tests use two or three splines with even knots; multiple knots, joints, and combinations of different bases are where formulas go wrong.',
  files=['omgtools/basics/spline.py', 'omgtools/basics/spline_extra.py'],
  mech=[('arithmetic', 'omgtools/basics/spline.py: BSpline.__add__ / __mul__ / derivative / insert_knots / scale, BSplineBasis._combine / transform'), ('transformations', 'omgtools/basics/spline_extra.py: knot_insertion_T / get_interval_T / extrapolate_T / shiftoverknot_T / shiftfirstknot_T'), ('joining', 'omgtools/basics/spline_extra.py: concat_splines'), ('symbolic evaluation', 'omgtools/basics/spline_extra.py: evalspline / definite_integral')],
  observe=['BSpline coefficients, knots and values'],
  technique='TLA+ definition of splines as functions (de Boor, Boehm) in integers, TLC-checked design model of knot insertion; TLC judges results of the real operations pointwise',
  note='Random splines on a lattice of knots; the result of every operation is evaluated by the specification and compared with the function it has to be.'),
dict(id='C18', title='A fleet keeps its formation: who talks to whom, and where each one is to be',
  statement='In a fleet every vehicle has the right neighbours (next and previous one on the ring, or all others; never itself, never twice), a configuration (list or dictionary of coordinates, possibly turned) gives each vehicle its place with respect to the fleet centre and to each neighbour, and states and goals reach the vehicle they are meant for. A centrally planned formation accepts a plan if and only if all vehicles are in formation, in the configured coordinates, during the whole plan (up to the allowed deviation when the formation is soft); a vehicle fleet that is led by the optimizer stays in formation; what the negotiating planners (ADMM, dual decomposition) of a formation or rendezvous have to agree on is exactly that all are in formation, or meet, in the configured coordinates (vehicles that turn take their place in the formation along, turned as they are); a vehicle that may choose its meeting place goes there in the coordinates left open, to its goal in the others, and is at rest in the end; a rendezvous stops exactly when every vehicle is in its place with respect to its neighbours.',
  over=['inputs', 'histories'],
  quant='all fleet sizes, interconnections, vehicle types, configured coordinates and configurations, all joint plans in and out of formation, and all joint positions',
  why='The examples that serve as tests have three or four vehicles on a ring with all coordinates configured, and nothing looks at whether formations hold.',
  files=['omgtools/vehicles/fleet.py', 'omgtools/vehicles/vehicle.py', 'omgtools/problems/formation_central.py', 'omgtools/problems/formation.py', 'omgtools/problems/rendezvous.py'],
  mech=[('neighbours and configuration', 'omgtools/vehicles/fleet.py: Fleet.set_neighbors / set_configuration / set_rel_pos_c / set_initial_conditions / set_terminal_conditions'), ('formation constraints', 'omgtools/problems/formation_central.py: FormationPoint2pointCentral.construct'), ('centre', 'omgtools/vehicles/vehicle.py: Vehicle.get_fleet_center'), ('rendezvous', 'omgtools/problems/rendezvous.py: RendezVous.stop_criterium')],
  observe=['Fleet.get_neighbors, get_rel_config, rel_pos_c', 'constraint values of the central problem at chosen plans', 'executed states of a fleet'],
  technique='TLA+ model of fleets and formation couples checked by TLC; TLC judges real fleets, constraint values of real problems at chosen plans, and executed motions',
  note='Couples are shown to tie the fleet together without redundancy for up to 8 vehicles; the real problems are asked about plans in and just out of formation.'),
dict(id='C13', title='What is modelled is what is solved: symbols, values, constraints and bounds',
  statement='Objects that describe an optimization problem together each get a label of their own; a symbol that one object mentions means the one variable or parameter that another object defines under that name, and a problem in which a mentioned name is defined nowhere or more than once is refused. The optimizer is given exactly the constraints, bounds and objective that were written down, evaluated at the variables that were set and at the parameters (given for that moment by whichever object, otherwise as declared; given twice is refused); constraints with a shutdown condition are lifted exactly when it holds; values read back (variables, splines, substitutes, parameters, constraints, objective) are those that were set or follow from them; transforming the splines of some segments changes those splines, each with its own basis, and nothing else.',
  over=['inputs', 'histories'],
  quant='all sets of objects, names, shapes, spline bases, expressions over own and mentioned symbols, bounds, shutdown conditions, orders of assembly, and sequences of setting, reading, shifting and evaluating',
  why='Unit tests do not exercise this layer at all; examples use one way of assembling problems. A symbol bound to the wrong entry only shows as strange motion.',
  files=['omgtools/basics/optilayer.py'],
  mech=[('labels', 'omgtools/basics/optilayer.py: OptiChild._make_label'), ('assembly', 'omgtools/basics/optilayer.py: OptiFather.translate_symbols / construct_* / _substitute_symbols'), ('values', 'omgtools/basics/optilayer.py: OptiFather.set_variables / get_variables / set_parameters / get_parameters / get_constraint / get_objective'), ('bounds', 'omgtools/basics/optilayer.py: OptiFather.update_bounds'), ('spline transformation', 'omgtools/basics/optilayer.py: OptiFather.init_transformations / transform_primal_splines')],
  observe=['constraint values and objective of the built problem', 'bounds', 'get_variables / get_parameters', 'labels and refusals'],
  technique='TLA+ model of objects, names and assembly checked by TLC; randomly written problems are built by the real layer and TLC computes from the written terms what every value, constraint, objective and bound has to be',
  note='Integer coefficients and values, so that the comparison is exact.'),
dict(id='C16', title='Shapes cover what they say; overlap, containment and bouncing are exact', statement='For every shape and every placement, the shape agrees with plane geometry: a polygon, rectangle, regular polygon, cuboid, prisma, disc or sphere reaches as far as its canvas limits say; the half planes of a polygon at a position have unit normals, contain all its corners and carry each side; what is drawn at a pose are its corners turned and moved. A point counts as inside a (clockwise, convex) polygon or a rectangle exactly if it is; a disc and a polygon, two discs, two upright rectangles overlap exactly if they have a common interior point, whoever asks whom, and asking changes nothing; the centre of the overlap of two rectangles is the centre of their intersection; two segments cross exactly if they do, and two lines meet at the point that lies on both (None when parallel); a point moving at constant velocity is found to enter a rectangle within a given time whenever it stays there for more than half a second, and never if it does not come there; a ring runs from its start to its end in the given direction between its radii, and its limits contain it. An obstacle that bounces keeps its speed in each direction, changes its velocity only where it hits something, turns back from the flat side it hits, and never leaves its room (for steps up to half of 0.15 m).', over='shapes with their orientation and placement, pairs of shapes, points, segments, moving points, bouncing histories', quant='every shape and placement up to a resolution of 1e-4; exact on whole coordinates for polygons, boxes, discs, segments and lines; every history of bouncing in a rectangular room', why='The right answer depends on a case split (which corner, which side, rising or falling, inside without touching, which asks which), of which a test takes a few; the tests of the repository contain none. A disc that overlaps a polygon only at its third corner, or at a falling side, went unnoticed.', files=['omgtools/basics/geometry.py', 'omgtools/basics/shape.py', 'omgtools/environment/obstacle.py', 'omgtools/environment/environment.py'], mech=[('circle_polyhedron_intersection', 'omgtools/basics/geometry.py'), ('point_in_polyhedron, point_in_rectangle', 'omgtools/basics/geometry.py'), ('Obstacle.overlaps_with, is_outside_of', 'omgtools/environment/obstacle.py'), ('Polyhedron.get_hyperplanes, get_canvas_limits', 'omgtools/basics/shape.py'), ('Environment.simulate (bouncing)', 'omgtools/environment/environment.py')], observe=['overlaps_with both ways round, the geometry functions, canvas limits, hyperplanes and drawn surfaces', 'position and velocity of a bouncing obstacle after each Environment.simulate'], technique='exact integer geometry in TLA+ (Geo.tla), checked with TLC against itself (GeoModel: apart means no common point, motion and order do not matter) and a state machine of bouncing (BounceModel: stays in the room, always turns back); TLC judges recorded answers and bouncing histories of the real code (GeoTrace.tla)', note='Touching counts either way. Polygons are convex and clockwise, as the constructors make them. Overlap of turned rectangles or of two general polygons raises an error in the code and is not claimed; the beam as an obstacle that bounces neither. Bouncing is claimed for steps of at most 0.075 m; one faster history is a known finding.'),
dict(id='C10', title='G-code is read as the machine means it and its blocks are followed in order', statement='A G-code program of straight (G00, G01) and circular (G02, G03, in the XY-plane, centre given by I, J) blocks is read as a G-code machine would execute it: words left out keep their coordinate, an omitted offset is zero, the first rapid move only places the tool, blocks that move nothing are dropped, comments and empty lines mean nothing; every block starts where the one before ended, with its end, centre, radius and sense of turning as written, and the points drawn for it run from start to end that way round. Division separates moves in z from the rest without losing or doubling a block; the connections are the starts of all blocks and the last end; shifting and scaling (convert_path) moves every block, centres included. The G-code scheduler gives each block one room (two for a circular block of more than 135 degrees if split_circle, three if variable_tolerance and long enough or circular), numbered in order and joined end to start: a rectangle around the line, or a ring sector around the arc, of just the tolerance asked to either side (the small one for middle parts). Solving segment by segment (Deployer.update_segment), the tool visits every segment once, in order (repeating only after a failed solve), with a window of at most n_segments that shrinks at the end; its path keeps within the tolerance of the line or circle through the block and within the limits on velocity, acceleration and jerk, begins and ends each segment where, as fast, and accelerating as its neighbours do, inside the room of the next, and comes to rest at the end of the program.', over='G-code programs (blocks, words left out, comments, numbers, subfile calls), tolerances, splitting options, limits, windows', quant='all programs in the supported vocabulary; tests run one example file through the solver and check no results', why='a wrong arc centre, turn, room or hand-over ruins the workpiece for particular programs only (an omitted word, a clockwise arc through angle zero, equal or collinear blocks, the end of the program)', files=['omgtools/gui/gcode_reader.py','omgtools/gui/gcode_block.py','omgtools/problems/gcodeschedulerproblem.py','omgtools/problems/gcodeproblem.py','omgtools/vehicles/tool.py','omgtools/execution/deployer.py'], mech=[('GCodeReader.run_once, create_GCode, subdivide, convert_path, get_connections', 'omgtools/gui/gcode_reader.py'), ('GCodeBlock and its kinds (get_coordinates, arcs)', 'omgtools/gui/gcode_block.py'), ('convert_GCode_to_room, split_room, split_circle, check_segments, update_segments, get_init_guess', 'omgtools/problems/gcodeschedulerproblem.py'), ('GCodeProblem.construct', 'omgtools/problems/gcodeproblem.py'), ('Deployer.update_segment', 'omgtools/execution/deployer.py')], observe=['blocks, divisions, connections and drawn points of a program read from text', 'environment.room of a GCodeSchedulerProblem', 'segments, block numbers and splines after each update_segment, with real IPOPT solves'], technique='TLA+ machine that executes G-code (GCode.tla) and a model of rooms and moving window (GCodeModel.tla, TLC); TLC judges blocks, rooms and tool paths of the real code on generated programs against it (GCodeTrace.tla)', note='Not claimed: F and S words (never parsed), full circles as one block, arcs in other planes or helical ones, variable tolerance for moves in z, the tool keeping to the ends of a block (rooms are infinite lines and whole rings, as documented); a block that turns back the way the one before came is a known finding.'),
 dict(id='C08', title='Frames are obstacle free parts of the room that lead on to the goal',
  statement='Every frame the scheduler makes lies inside the room and has both its start and its end point at the vehicle size or more from its borders. A corridor frame holds no stationary obstacle, is as large as the room and the obstacles allow, ends at the goal whenever start and goal fit in one free frame, and otherwise goes on to at least the next waypoint whenever that fits; its end is one of its waypoints. A frame of fixed size stays within its limits of movement around the vehicle and has the goal when that is in reach. Exactly the stationary obstacles that reach into the frame, and the moving obstacles that can get there during the time given, are handed to the optimizer. Consecutive frames share the point where one ends and the next starts. A frame is refused only if none of these exists.',
  over=['inputs', 'configurations'],
  quant='all rooms, stationary and moving obstacles (at rest, turned, larger than the frame), paths, positions along them, vehicle sizes and both frame types, with and without the L-shaped frames',
  why='The examples of the scheduler need a window and run two fixed maps; a frame that reaches over an obstacle or out of the room only shows for particular positions of waypoints and borders.',
  files=['omgtools/environment/frame.py', 'omgtools/problems/schedulerproblem.py'],
  mech=[('corridor frames', 'omgtools/environment/frame.py: CorridorFrame'), ('frames of fixed size', 'omgtools/environment/frame.py: ShiftFrame'), ('obstacles in a frame', 'omgtools/environment/frame.py: get_stationary_obstacles, get_moving_obstacles'), ('L-shapes', 'omgtools/environment/frame.py: create_l_shape')],
  observe=['Frame.border', 'Frame.endpoint', 'Frame.waypoints', 'Frame.stationary_obstacles', 'Frame.moving_obstacles'],
  technique='TLA+ model of frame growth checked by TLC for all small maps; frames made by the real code judged by TLC',
  note='Thousands of real frames over random lattice worlds (thin walls, waypoints on borders, obstacles passing by) judged by TLC.'),
 dict(id='C09', title='Scheduler: frame by frame to the goal, always with a problem for where it is',
  statement='The scheduler takes the vehicle from its start to its goal through a chain of joined frames. It keeps the number of frames asked for, or all there are up to the goal; it goes on to the next frame as soon as the vehicle can be in both, not before, never skips or goes back, and keeps its frames otherwise. Each update is planned with a problem for the current frames: their rooms, the stationary obstacles in them, the moving obstacles that can reach them, an initial guess through them, from the current state to the end of the last frame; the problem is made again when frames or moving obstacles change and only then. Motions planned with it stay in the frames, join at their ends, end at rest, and the stored signals all have the same length. It stops when, and only when, the vehicle is at the goal.',
  over=['histories', 'inputs', 'configurations'],
  quant='all worlds in which the goal can be reached, number of frames, frame types, L-shapes, fixed or free end time, vehicles (holonomic, Dubins), update periods, deviations from the plan and moving obstacles that come and go',
  why='Whether a frame is switched too early or a problem is kept although its frames have changed depends on the history of the run.',
  files=['omgtools/problems/schedulerproblem.py', 'omgtools/problems/multiframeproblem.py', 'omgtools/environment/frame.py'],
  mech=[('choice and switch of frames', 'omgtools/problems/schedulerproblem.py: update_frames, create_frame, create_next_frame'), ('problem for the frames', 'omgtools/problems/schedulerproblem.py: generate_problem, get_init_guess'), ('motion through several frames', 'omgtools/problems/multiframeproblem.py'), ('arrival', 'omgtools/problems/schedulerproblem.py: stop_criterium')],
  observe=['SchedulerProblem.frames', 'SchedulerProblem.next_frame', 'SchedulerProblem.local_problem', 'Vehicle.signals', 'Vehicle.traj_storage'],
  technique='TLA+ model of the scheduler (frames, switches, arrival as liveness) checked by TLC; TLC judges recorded histories of the real scheduler',
  note='Histories of the real SchedulerProblem with a stand-in optimizer and disturbed vehicle, and whole runs with IPOPT, judged step by step.'),
 dict(id='C17', title='The exported C++ plans what the Python problem would',
  statement='A point-to-point problem that is exported to C++ builds as it is, and the program then does, update after update, what the Python problem does: it keeps the time of the updates (with delays between them, failed updates, restarts); gives the solver the same parameters (state and input predicted to the start of the plan, obstacles where they will be by then, the time since the last knot), bounds (none for obstacles that need not be avoided) and initial guess (each spline shifted over all knots that were passed, or made anew when asked for); reports truthfully whether it succeeded; finds the same motion; and returns the states and inputs sampled from it, as many as asked for, without touching memory that is not its own. Predictions integrate the vehicle model; splines and their derivatives are evaluated like the Python splines. A distributed problem (formation or rendez-vous by ADMM) that is exported, spelled for each vehicle, keeps to the protocol: each vehicle solves its own problem from what its neighbours sent in the iteration before, keeps, shifts and sends on its plan, its multipliers and its copies of the neighbours as ADMM prescribes, and reports the residuals of that iteration.',
  over=['histories', 'inputs', 'configurations'],
  quant='all fixed-time point-to-point problems with a holonomic vehicle (hard or soft end conditions, end partly free) and fleets of them, obstacles, update and sampling periods, horizon times, trajectory lengths, sequences of delays, failures and restarts',
  why='The tests only export; nothing they run compiles, let alone compares what the exported program does over time.',
  files=['omgtools/export/export.py', 'omgtools/export/export_p2p.py', 'omgtools/export/point2point/Point2Point.cpp', 'omgtools/export/vehicles/Vehicle.cpp', 'omgtools/export/vehicles/Holonomic.cpp', 'omgtools/export/export_admm.py', 'omgtools/export/point2point/admm/ADMMPoint2Point.cpp', 'omgtools/export/point2point/admm/formation/FormationPoint2Point.cpp', 'omgtools/export/point2point/admm/rendezvous/RendezVous.cpp'],
  mech=[('generated functions (parameters, variables, bounds, shift of splines)', 'omgtools/export/export.py: Export.create_functions'), ('update', 'omgtools/export/point2point/Point2Point.cpp: update, solve, extractData'), ('distributed updates', 'omgtools/export/export_admm.py and omgtools/export/point2point/admm: update1, update2, initVariablesADMM, transformSharedSplines'), ('prediction and sampling', 'omgtools/export/vehicles/Vehicle.cpp: predict, integrate, sampleSplines')],
  observe=['what the exported program gives to the solver (x0, p, lbg, ubg)', 'state and input trajectories that it returns', 'return value of update'],
  technique='TLA+ model of the bookkeeping of the exported program checked by TLC; TLC judges lockstep histories of the compiled program and the Python problem, and those of exported distributed problems against the ADMM protocol (ADMMTrace)',
  note='Every exported program is compiled with memory checks and driven together with its Python original, which is put in the same state after each update.'),
 dict(id='C12', title='A drawn environment is the environment that was drawn',
  statement='The graphical assistant hands out the environment that the user drew. A shape put down with the mouse (whatever the window is scrolled to) lies on the corner of the grid next to the click, with the size, velocity and bouncing asked for; one without size or larger than the frame is not made. A click in selection mode picks up an obstacle that covers that corner, or none if none does; the arrow buttons move and Remove takes away the one picked up, or else the one drawn last, and no other; the canvas shows every obstacle where it is. Right clicks mark the start and goal, the last two count; a mark outside the frame is brought inside when asked for with a margin. Ready builds the environment only with both marks, with a room that is the frame (wherever its top left corner was placed) and an obstacle for each that is shown; a saved environment comes back by Load as it was (frame, cells, obstacles, marks), and a load that is cancelled changes nothing. Loading a drawing (svg, in pixels or in millimeter; shapes in the outer level or in a group within up to two groups with translations) replaces the obstacles by its rectangles, circles, and upright or level lines and polylines with their stroke around them, upwards and in meter. A chain of lines and arcs in a drawing becomes G-code that traces that chain in its order, arcs around their centre and turning the way they were drawn, whichever end they were drawn from.',
  over=['histories', 'inputs'],
  quant='all sequences of actions of the user (draw, select, move, remove, mark, save, load, cancel, ready), frames (size, place, cells, scale), and drawings in the supported vocabulary',
  why='Nothing in the tests opens the assistant or reads a drawing; an obstacle that ends up half its width away, or a wrong one that is removed, shows for particular histories and drawings only, and then as a collision.',
  files=['omgtools/gui/gui.py', 'omgtools/gui/svg_reader.py'],
  mech=[('drawing, selecting, moving, removing', 'omgtools/gui/gui.py: EnvironmentGUI.make_obstacle / move_obstacle / remove_obstacle'), ('canvas and world', 'omgtools/gui/gui.py: EnvironmentGUI.pixel_to_world / world_to_pixel / snap_to_grid'), ('environment, save and load', 'omgtools/gui/gui.py: EnvironmentGUI.build_environment / save_environment / load_environment / load_svg'), ('shapes of a drawing', 'omgtools/gui/svg_reader.py: SVGReader.convert_basic_shapes / convert_lines / compute_transform'), ('G-code of a drawing', 'omgtools/gui/svg_reader.py: SVGReader.get_gcode_description')],
  observe=['what is on the canvas after each action', 'get_clicked_positions', 'get_environment (room, obstacles)', 'the .nc file made of a drawing'],
  technique='TLA+ state machine of the assistant (Drawing.tla) checked by TLC for all short sessions; recorded sessions of the real assistant, drawings it reads and G-code it writes are judged by TLC against it (DrawingTrace.tla)',
  note='The assistant runs with a tkinter that has no screen but remembers its widgets and canvas; buttons and clicks are the ones it installs. Not claimed: Bezier shapes as obstacles (not supported), diagonal lines (refused), view boxes that do not begin at 0, 0.'),
 dict(id='C20', title='Figures show what was recorded, for the moment asked for',
  statement='A figure of a signal, or of the scene, shows one moment of the run. Without further ado that is the present one, and while the run goes on the figure goes along; asked for a sample it is that sample, asked for a time (within the run, or beyond it) it is the sample closest to that time. The figure then shows the history recorded up to that moment and no further, the plan that was followed then (the one over the interval that begins there, at the end the last one), with knots and the predicted start of that plan when asked for, component by component under the label given; the scene shows the outlines of room, obstacles and vehicles (with their wheels, trailers and rotors) where they were at that moment, turned, steered and tilted as they were, and for each vehicle its path so far and its plan; the scene of a scheduler shows besides the frames it planned in at that moment and the way found on the grid. The figures of residuals of a fleet show every iteration so far. A movie begins at the beginning, goes forward at an even pace, has the number of frames asked for when there are that many, and gets to the end.',
  over=['histories', 'inputs'],
  quant='all lengths of runs, cuts into updates, sample times, numbers of vehicles, shapes, obstacles, signals, moments (samples, times in between, beyond the end), options, and figures that stay open while the run goes on',
  why='The tests run without a screen and never look at a figure; a plan that is shown with the wrong moment, or a picture of the last sample that fails, depends on the moment and on how the run was cut.',
  files=['omgtools/execution/plotlayer.py', 'omgtools/execution/simulator.py', 'omgtools/vehicles/vehicle.py', 'omgtools/vehicles/dubins.py', 'omgtools/vehicles/bicycle.py', 'omgtools/vehicles/agv.py', 'omgtools/vehicles/trailer.py', 'omgtools/vehicles/quadrotor.py', 'omgtools/vehicles/quadrotor3d.py', 'omgtools/problems/problem.py', 'omgtools/problems/schedulerproblem.py', 'omgtools/problems/admm.py', 'omgtools/problems/dualdecomposition.py', 'omgtools/environment/environment.py', 'omgtools/environment/obstacle.py'],
  mech=[('which moment', 'omgtools/execution/plotlayer.py: PlotLayer.plot / update_plots / plot_movie; omgtools/execution/simulator.py: Simulator.time2index'), ('signals', 'omgtools/vehicles/vehicle.py: Vehicle.update_plot, store (traj_storage)'), ('scene', 'omgtools/problems/problem.py: Problem.update_plot; omgtools/environment/environment.py: Environment.draw; omgtools/environment/obstacle.py: draw; omgtools/vehicles/vehicle.py: draw')],
  observe=['data of the lines and outlines in matplotlib figures', 'frames of a movie as they are drawn'],
  technique='TLA+ specification of a run that is looked at (Figures.tla), TLC-checked design model; TLC judges the lines and outlines of real figures of recorded runs against it (FiguresTrace.tla)',
  note='The optimizer is replaced by one that answers arbitrary plans; figures are read back from matplotlib (Agg). Scenes of schedulers are those of real plans by IPOPT. Colours, limits of axes, tikz and gif output are not judged.'),
]

#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run from anywhere; rewrites the file)."""
import json, pathlib

B = "src/dg_commons/"
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    a = {"files": [B + f for f in files], "mechanism": [{"name": n, "where": B + w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe:
        a["observe_at"] = list(observe)
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text},
                  why_tests_cant=why, anchors=a))


# ------------------------------------------------------------------ simulation loop
p("S01", "A simulation log is a faithful record of what happened",
  "After a simulation run, the log of every player contains exactly one state per simulation step in which that player was active (plus the state in which it completed its mission), at exactly the simulation times of those steps, and each logged state equals the physical state of the player's model at that time. "
  "Each logged command (and each non-empty extra) equals what the agent returned at that time, at exactly the instants at which the agent was asked, even if the agent later modifies or reuses the command object it returned. "
  "Querying the log between samples interpolates states linearly and holds the last commands.",
  ["histories", "configurations"],
  "every mix of players, models, agents, missions, step sizes, command periods, collisions and mission completion times",
  "The existing simulation tests run four fixed scenarios and only look at whether the run finishes; no test compares the log with what the models and agents actually did.",
  ["sim/simulator.py", "sim/simulator_structures.py"],
  [("per-player loggers filled in the update step", "sim/simulator.py"), ("log structures and interpolation", "sim/simulator_structures.py")],
  [("player log", "timestamped states, commands, extras, info")], ["models' update calls", "agents' replies", "context log"])

p("S02", "Agents are polled on schedule and commands are held in between",
  "Every agent is initialised exactly once, before any other call, with its own name, the context seed, its own goal and its own model's geometry and parameters. "
  "Each active agent is asked for commands exactly once at the first step and then at every first step at which at least the command period has elapsed since the previous poll; in every step each active player's model is advanced exactly once, by exactly one simulation step, with the agent's latest commands, and a player whose mission is complete is neither polled nor advanced any more.",
  ["histories", "configurations"],
  "all step sizes and command periods (also not multiples of each other), numbers of players, start times and mission completions",
  "Tests use the default 0.05/0.1 s periods, where an off-by-one in the schedule or a wrong hold is invisible because nothing checks calls.",
  ["sim/simulator.py", "sim/agents/agent.py"],
  [("need-to-update-commands test against the last poll time", "sim/simulator.py"), ("held last commands per player", "sim/simulator.py")],
  [("last poll time", "when agents were last asked"), ("held commands", "latest command per player")])

p("S03", "Observations are a consistent snapshot of all active players",
  "Whenever agents are asked for commands, the observations passed to each agent's sensor contain exactly the players that are active at that time, each with the state and the footprint its model had before anybody moved in that step, stamped with the current simulation time. "
  "All agents polled at the same instant observe the same snapshot, whatever the order in which players are stored, and the agent receives exactly what its own sensor produced from that snapshot.",
  ["histories", "configurations"],
  "all player sets, insertion orders, sensors, command periods and mission completion times",
  "A leak of an already updated state to later players or a stale set of players changes no test outcome; tests never inspect observations.",
  ["sim/simulator.py", "sim/sim_perception.py", "sim/simulator_structures.py"],
  [("observation snapshot built before the update step", "sim/simulator.py"), ("per player sensor filter", "sim/sim_perception.py")])

p("S04", "Agents cannot alter physical states or records except via commands",
  "Whatever an agent does to the objects it is handed (observations, states, its goal, its copy of the scenario) and to objects it handed over earlier (commands already returned), the physical evolution of all models, the mission outcomes and the recorded log are the same as if it had not touched them. "
  "The scenario and the missions of the simulation itself are left unmodified by a run.",
  ["histories", "programs"],
  "every agent program, including ones that mutate everything reachable from their inputs at every call",
  "Test agents are well behaved, so aliasing between internal state and what is handed out is never exercised.",
  ["sim/simulator.py", "sim/simulator_structures.py"],
  [("copies of state handed out", "sim/simulator_structures.py"), ("copies of scenario and goal on initialisation", "sim/simulator.py")])

p("S05", "A simulation ends exactly when its stopping rule first holds",
  "A run stops at the first step after which the time exceeds the maximum simulation time, or exceeds the first collision time by more than the allowed time after collision, or no active player is left, or every player that has a mission has completed it (runs without missions are not stopped by the last rule); it never stops earlier and never continues past it. "
  "A player with a mission leaves the simulation at the first post-step time at which its goal is fulfilled by its state at that time, never before, and players without mission stay until the end.",
  ["histories", "configurations"],
  "all combinations of time limits, collisions, missions on subsets of players, time-varying goals and step sizes that do not divide the limits",
  "Only default limits are run; boundary equality, time varying goals and partial missions never decide the end of a tested run.",
  ["sim/simulator.py", "sim/goals.py"],
  [("termination condition", "sim/simulator.py"), ("removal of finished players", "sim/simulator.py")],
  [("simulation clock", "advances by the step size"), ("first collision time", "earliest reported collision")])

p("S06", "Every collision is reported when it happens and no other is",
  "After every non-final step, each pair of active players whose footprints overlap and each active player whose footprint meets a static obstacle (road boundaries included) gets exactly one collision report stamped with the current time and naming exactly the colliding parties, unless the two are already separating at the contact; a report never names players whose footprints do not intersect, or that already left. "
  "The first collision time of the simulation is the time of the earliest report (infinite if there is none), and the players named in reports that carry details of the impact are marked as collided; moving obstacles bouncing off the static environment are resolved without being reported.",
  ["histories", "inputs"],
  "all player and obstacle geometries, poses and velocities, and all numbers of players and obstacles",
  "Tests contain a handful of hand-placed collisions and assert nothing on completeness or spurious reports.",
  ["sim/simulator.py", "sim/collision.py", "sim/scenarios/structures.py"],
  [("pairwise footprint test", "sim/simulator.py"), ("spatial index over obstacles", "sim/scenarios/structures.py"), ("separation test", "sim/collision.py")])

p("S07", "Simulations are reproducible and replayable",
  "Running the same simulation context twice from equal initial data gives identical logs, collision reports and end time, in the same process and in fresh interpreter processes irrespective of their hash randomisation. "
  "Replaying the commands logged in a run, through non-playing agents that observe without delay in an otherwise identical context, reproduces exactly the same states, collisions and end time.",
  ["histories", "configurations"],
  "all scenarios, agents (lane followers included), seeds and interpreter hash seeds",
  "No test compares two runs; tests pin one hash seed.",
  ["sim/simulator.py", "sim/agents/agent.py", "sim/agents/lane_follower.py"],
  [("time-indexed command plan replay", "sim/agents/agent.py"), ("deterministic stepping", "sim/simulator.py")])

p("S08", "Several simulations do not interfere with each other",
  "The outcome of a simulation (logs, collisions, end time) does not depend on any other simulation: it is the same when its simulator object is reused after other runs, when other simulations run nested inside an agent's call, when the steps of several simulations are interleaved, and when several simulations run concurrently in threads.",
  ["schedules", "histories"],
  "all interleavings of steps of several simulators with overlapping or different player names",
  "Tests run one simulation at a time with a fresh simulator; shared state between simulators shows only under interleaving.",
  ["sim/simulator.py", "sim/utils.py", "maps/lanes.py"],
  [("per-simulator state", "sim/simulator.py")],
  [("loggers, held commands, last poll time", "must belong to one run")])

# ------------------------------------------------------------------ collisions
p("C01", "Collision impulses obey rigid-body physics",
  "Every resolved collision changes linear and angular velocities by one impulse along the reported unit contact normal, applied with opposite signs at the reported impact point: total linear momentum and total angular momentum are conserved, tangential relative motion at the contact gets no impulse, and the normal relative velocity at the contact is reversed and scaled by the smaller restitution coefficient of the two (a static obstacle acting as infinite mass). "
  "Consequently total kinetic energy (translation plus rotation) never increases, the reported energy change of each party is the change of its translational kinetic energy, and the outcome does not depend on the world frame nor, when the bodies' centres lie on opposite sides of a simple two-point contact, on which party is named first.",
  ["inputs"],
  "all pairs of models, masses, inertias, restitution coefficients, poses, velocities and overlaps",
  "Two collision tests only look at whether reports exist; physics laws are universally quantified over states.",
  ["sim/collision.py", "sim/collision_utils.py"],
  [("impulse response", "sim/collision_utils.py"), ("velocity updates", "sim/collision.py")])

p("C02", "Collision velocities are really applied and velocity access is consistent",
  "Setting a model's velocity and reading it back, in the body or in the global frame, returns the same linear and rotational velocity for every model whose state carries them (for the kinematic vehicle: the longitudinal component), with body and global readings related by the heading, and leaves pose and all other state untouched. "
  "After a collision each such model's velocity equals the reported velocity after impact, the reported velocity before impact equals its velocity before, and no pose jumps.",
  ["inputs", "histories"],
  "all models, states, headings and velocities",
  "No test reads a velocity back after setting it for all models.",
  ["sim/models/vehicle.py", "sim/models/vehicle_dynamic.py", "sim/models/pedestrian.py", "sim/models/spacecraft.py", "sim/models/spaceship.py", "sim/models/rocket.py", "sim/models/obstacles_dyn.py", "sim/collision.py"],
  [("velocity setters and getters of the models", "sim/models/vehicle_dynamic.py"), ("application of the impulse", "sim/collision.py")])

p("C03", "Contact geometry is well formed and never breaks the simulation",
  "For every way in which a player's footprint can meet another footprint or an obstacle (partial overlap, exact touching, containment in either direction, coincident centres, non-convex shapes, line, ring and multi-part obstacles) the step completes and yields either no report (separating or merely touching bodies) or a report. "
  "When a report carries geometry, the normal has unit length and points out of the first party, the impact point lies within (the convex hull of) both shapes, and for two bodies crossing at two boundary points it is the midpoint between them with the normal perpendicular to the line joining them; merely touching gives no report, and bodies of which one contains the other or whose centres coincide a report at least without details (impact point and normal may be missing, but are valid if given).",
  ["inputs"],
  "all shapes and relative poses, degenerate ones included",
  "Degenerate contacts have measure zero in hand-written tests, yet occur with grid-aligned scenarios.",
  ["sim/collision_utils.py", "sim/collision.py", "sim/simulator.py"],
  [("impact geometry", "sim/collision_utils.py"), ("fallback to an empty report", "sim/simulator.py")])

p("C04", "Combining collision reports is an order-independent summary",
  "Combining two reports of the same players gives a report with the earlier report's time, impact point, normal, footprints, fault and velocities before, the later report's velocities after, all impact locations of both and the sum of the energy changes; it does not depend on argument order when the times differ, any grouping of a chain in time order gives the same result, reports of parties without details do not break it, and reports about different players are refused. "
  "The inputs are not modified.",
  ["inputs"],
  "all sequences of reports, also empty ones and equal times",
  "One fixed simulation folds its reports in one order.",
  ["sim/collision_structures.py"],
  [("report combination", "sim/collision_structures.py")])

p("C05", "Fault attribution follows the lanes",
  "In a collision between two players on a road network, a player is at fault exactly if there is no lane at the impact point in which it is positioned inside the lane and headed along the lane's direction (within 90 degrees); with no lane at the impact point both are at fault, and with no map nobody is. "
  "A player colliding with the environment is always at fault and the environment never is.",
  ["inputs"],
  "all lane layouts, impact points and poses",
  "No test asserts fault flags over poses; the rule quantifies over lanes and poses.",
  ["sim/collision_utils.py", "sim/collision.py", "maps/lanes.py"],
  [("illegal lane pose rule", "sim/collision_utils.py")])

p("C06", "Impact zones cover the body and name the right side",
  "The impact zones of a model lie within its footprint, jointly cover it, and the zones called front, back, left and right are on the corresponding side in the body frame, for every pose and geometry. "
  "The impact locations in a collision report are exactly the zones of that player that intersect the other party, with at least one. In the report of a collision with an obstacle, the environment is a party at rest and without fault, in the place and outline of the obstacle.",
  ["inputs"],
  "all models, geometries and poses",
  "Sides depend on vertex ordering of generated outlines; tests cover one orientation.",
  ["sim/models/vehicle.py", "sim/models/diff_drive.py", "sim/collision.py", "sim/collision_structures.py"],
  [("mesh from footprint vertices", "sim/models/vehicle.py"), ("impact location search", "sim/collision.py")])

# ------------------------------------------------------------------ models
p("M01", "Actuation and state limits hold under any commands",
  "Whatever finite commands are given, a vehicle's speed (of the dynamic vehicle: when driving straight) and steering angle, a pedestrian's speed, a differential drive's wheel speeds, a moving obstacle's and a spacecraft's yaw rate and a rocket's or spaceship's nozzle angle never leave their limits by more than what one simulation step at the maximal rate allows, and the rates of change never exceed the actuator limits (acceleration, steering rate, turning rate, thrust, nozzle rate). "
  "A saturated command acts exactly like the limit value, and a command within limits in a state within limits is applied unchanged, also when it leads away from a limit that has been reached.",
  ["inputs", "histories"],
  "all parameter sets, initial states within limits, command sequences (huge values included) and step sizes",
  "Tests run a few commands well within limits.",
  ["sim/models/model_utils.py", "sim/models/vehicle_utils.py", "sim/models/pedestrian_utils.py", "sim/models/vehicle.py", "sim/models/diff_drive.py", "sim/models/rocket.py"],
  [("limit functions", "sim/models/model_utils.py"), ("steering constraint", "sim/models/vehicle_utils.py")])

p("M02", "Models integrate their documented equations of motion",
  "One update of a model (kinematic vehicle, pedestrian, differential drive, spacecraft, rocket, spaceship, moving obstacle) moves its state along the solution of its documented differential equations for exactly the given time, within integration tolerance, so that splitting a step in two gives the same result; zero commands at rest leave it at rest. "
  "Every model, the dynamic vehicle included, commutes with rotations and translations of the world and (except where body geometry is asymmetric) with left-right mirroring.",
  ["inputs"],
  "all states, parameters, commands within limits and step lengths",
  "Tests check that updates run, not where the models end up.",
  ["sim/models/vehicle.py", "sim/models/vehicle_dynamic.py", "sim/models/pedestrian.py", "sim/models/diff_drive.py", "sim/models/spacecraft.py", "sim/models/rocket.py", "sim/models/spaceship.py", "sim/models/obstacles_dyn.py"],
  [("state derivatives and numerical integration", "sim/models/vehicle.py")])

p("M03", "States and commands form a vector space and convert losslessly",
  "For every state and command type, addition, subtraction, scaling from either side and division act component by component on all components, subtraction of itself gives zero, and operands are never modified. "
  "Converting to an array and back preserves every component at its declared index and the concrete type, equal objects hash equally, and mixing different types is refused.",
  ["inputs"],
  "all state and command types and component values",
  "Linear interpolation of logs depends on this for every type; tests touch two types.",
  ["sim/models/vehicle.py", "sim/models/vehicle_dynamic.py", "sim/models/pedestrian.py", "sim/models/diff_drive.py", "sim/models/spacecraft.py", "sim/models/rocket.py", "sim/models/spaceship.py", "sim/models/obstacles_dyn.py"],
  [("operator definitions of the state and command classes", "sim/models/vehicle.py")])

p("M04", "A model's footprint is its outline rigidly placed at its pose",
  "For every model, geometry and state, the footprint is the geometry's outline rotated by the heading and translated to the position: same area and perimeter, moving rigidly with the state, and containing the reference point; the model's pose is exactly the position and heading of its state. "
  "Outlines respect the declared dimensions (length, width, radius).",
  ["inputs"],
  "all geometries and states, large coordinates and headings beyond one turn included",
  "Tests use default geometries at few poses.",
  ["sim/models/vehicle.py", "sim/models/vehicle_structures.py", "sim/models/diff_drive_structures.py", "sim/models/spacecraft_structures.py", "sim/models/rocket_structures.py", "sim/models/spaceship_structures.py", "sim/models/obstacles_dyn.py", "geo.py"],
  [("outline and placement", "geo.py")])

p("M05", "After a collision models stop obeying their agent as documented",
  "Once it has collided, a pedestrian, a differential drive, a spacecraft, a rocket, a spaceship and any vehicle that is not a car evolve independently of the commands given; a car (and a moving obstacle) keeps responding to its commands. "
  "Before a collision commands always take effect, and one instance having collided never affects other instances. "
  "After a collision friction wears off the velocities (longitudinal, lateral, rotational) of pedestrians and of dynamic vehicles.",
  ["histories"],
  "all models, states, commands and interleavings of collided and healthy instances",
  "No test compares post-collision evolutions under different commands.",
  ["sim/models/vehicle.py", "sim/models/pedestrian.py", "sim/models/spacecraft.py", "sim/models/rocket.py", "sim/models/spaceship.py", "sim/models/diff_drive.py", "sim/simulator_structures.py"],
  [("has-collided flag gating commands", "sim/models/vehicle.py")])

p("M06", "Fuel is consumed with thrust and an empty tank gives no thrust",
  "The mass of a rocket or spaceship changes exactly by the thrust coefficient times the applied (saturated) thrust over time, so it never increases under non-negative thrust, and is constant with the engines off. "
  "Once the mass has reached the dry mass, engines produce neither acceleration nor torque nor mass change, whatever is commanded, and the mass never drops below the dry mass by more than one step's consumption.",
  ["inputs", "histories"],
  "all thrust histories and fuel levels",
  "No test burns a tank empty.",
  ["sim/models/rocket.py", "sim/models/spaceship.py"],
  [("fuel cut-off and mass flow", "sim/models/rocket.py")])

p("M07", "A model's reported velocity is the rate of change of its pose",
  "For every model that carries velocities in its state, the linear velocity it reports in the global frame is the time derivative of its position, and (pedestrians and dynamic vehicles at walking pace or less excepted) its rotational velocity is the time derivative of its heading. "
  "This is what collision resolution and observers rely on.",
  ["inputs"],
  "all models, states, headings and small steps",
  "A frame mix-up is invisible at zero heading, where tests start.",
  ["sim/models/vehicle.py", "sim/models/vehicle_dynamic.py", "sim/models/rocket.py", "sim/models/spaceship.py", "sim/models/spacecraft.py", "sim/models/pedestrian.py", "sim/models/obstacles_dyn.py"],
  [("velocity getters", "sim/models/rocket.py"), ("position derivatives", "sim/models/rocket.py")])

p("M08", "The dynamic vehicle behaves like a vehicle on tyres",
  "Without steering the dynamic vehicle runs straight; coasting (no acceleration commanded) dissipates kinetic energy; steering turns it to that side; side slip is opposed by the tyres; its acceleration never exceeds what friction and its actuators allow; and at low speed with gentle steering it moves like the kinematic vehicle. Longitudinal and lateral tyre forces share the available grip. "
  "Braking loads the front axle and accelerating the rear axle, in the proportion given by the height of the centre of gravity. Running straight without being accelerated, it is slowed by nothing but rolling resistance, a share of the weight on its axles, and the drag of the air, which grows with the square of the speed. "
  "The lateral tyre force follows the magic formula (with and without curvature): odd in the slip, growing with small slip and bounded by its peak value.",
  ["inputs", "histories"],
  "all dynamic vehicles (car, truck, bicycle), states, parameters and commands within limits",
  "Tests plot tyre curves and run the model without asserting any law.",
  ["sim/models/vehicle_dynamic.py", "sim/models/tires.py"],
  [("tyre slip angles, load transfer and drag", "sim/models/vehicle_dynamic.py"), ("tyre force curve", "sim/models/tires.py")])

# ------------------------------------------------------------------ sequences
p("Q01", "Sampled sequences are well-formed, immutable and hash consistently",
  "A sampled sequence can be created exactly from equally many timestamps and values with strictly increasing, numeric, comparable timestamps (not mixing decimal with binary numbers), and everything else is refused at creation or when building it up; it preserves what it was given. "
  "It cannot be changed afterwards, neither through its attributes nor through the containers it was made from, and equal sequences hash equally.",
  ["inputs", "histories"],
  "all timestamp/value lists, also NaN, infinities, decimals, duplicates and unsorted ones",
  "A handful of constructions are tested.",
  ["seq/sequence.py"],
  [("construction checks", "seq/sequence.py"), ("incremental builder", "seq/sequence.py")])

p("Q02", "Sequence lookups agree with the mathematical definition",
  "Exact lookup returns the value at that very timestamp or fails; lookup at-or-before returns the value of the latest timestamp not after the query or fails before the start; interpolation is linear between the two neighbouring samples, exact at samples and constant beyond both ends. "
  "Sub-sequences contain exactly the samples within the closed interval, shifting moves all timestamps by the same amount, transforming maps values in place (dropping those mapped to nothing), and iteration yields consecutive intervals with their true durations.",
  ["inputs"],
  "all sequences (float, integer or decimal timestamps) and query times between, at and outside samples",
  "Tests check a few queries on one sequence.",
  ["seq/sequence.py"],
  [("bisection lookups", "seq/sequence.py")])

p("Q03", "Sequence calculus matches its mathematical meaning",
  "Integration gives at each timestamp after the first the exact integral of the piecewise-linear signal, differentiation gives the slope of each interval at its midpoint, and accumulation gives running sums at the same timestamps; all are linear in the signal and differentiation inverts integration up to averaging. "
  "Crossing search returns, in increasing order, exactly one time for each interval in which the signal changes sign strictly relative to the threshold, at the linear-interpolation zero, for float and decimal timestamps alike; a passage through samples lying exactly on the threshold counts once, at such a sample.",
  ["inputs"],
  "all signals, sampling patterns, time types and thresholds",
  "Three fixed signals are tested.",
  ["seq/seq_op.py"],
  [("integration, differentiation, accumulation, crossings", "seq/seq_op.py")])

# ------------------------------------------------------------------ planning
p("P01", "Trajectory operations preserve the underlying motion",
  "Merging connectable trajectories concatenates their samples dropping the duplicated junction, with the empty trajectory as neutral element, and unconnectable ones are refused; up-sampling keeps every original sample and inserts the requested number of equidistant, linearly interpolated ones between each pair. "
  "Applying a rigid transformation to a trajectory moves every pose by it and leaves speeds, steering and timestamps unchanged (composition and inverse included), and commands extracted from a trajectory reproduce its speed and steering profile.",
  ["inputs"],
  "all trajectories, transformations, up-sampling factors and time types",
  "Tests use one or two trajectories.",
  ["planning/trajectory.py"],
  [("merge, upsample, transform, command extraction", "planning/trajectory.py")])

p("P02", "Generated motion primitives and sampled commands are feasible",
  "Every generated motion primitive respects the vehicle's acceleration and steering-rate limits, starts at the requested state, has the requested sampling, ends at a grid value of speed and steering, and every feasible grid transition is generated while no infeasible one is. "
  "Every sampled-command trajectory is, within the accuracy of the dynamics' integration, one dynamics step of an admissible command from the given state, with the full grid of commands present; parameters derived from a vehicle's own limits are always accepted, and ranges beyond the vehicle's limits are refused.",
  ["configurations", "inputs"],
  "all vehicle limits, grids, horizons and initial states",
  "One parameter set is tested, only for running.",
  ["planning/motion_primitives.py", "planning/commands_sampler.py", "dynamics/bicycle_dynamic.py"],
  [("input constraint check", "planning/motion_primitives.py"), ("parameter validation", "planning/commands_sampler.py")])

p("P03", "A trajectory tree returns exactly the branches put into it",
  "For a trajectory graph grown as a tree from one root, the set of all trajectories (node states) and of all transitions (edge data) contains exactly one per leaf, equal to the sequence of states and transitions inserted along the branch, and commands along a branch are those stored on its edges in time order. "
  "Each node's generation is its parent's plus one, also when equal physical states recur at different times, and queries about nodes that are absent or unreachable are refused.",
  ["histories"],
  "all insertion histories that form a tree, with recurring states",
  "The graph is exercised on one example without assertions on branches.",
  ["planning/trajectory.py"],
  [("graph insertion and path extraction", "planning/trajectory.py")])

# ------------------------------------------------------------------ maps
p("L01", "Lane coordinates are consistent",
  "Along any lane, conversion between control-point progress and travelled distance is a strictly increasing, continuous bijection that is mutually inverse, with zero at the first control point and the lane length at the last, the lane length being the sum of its segment lengths. "
  "The centre point and half-width at a control point's progress are exactly that control point's, and interpolate continuously in between (the linear variant agreeing at control points and turning the shorter way in between); cached results equal uncached ones for any number and interleaving of lanes and threads.",
  ["inputs", "histories", "schedules"],
  "all lanes (curved, non-uniform, many), progress values inside and beyond the lane and cache evictions",
  "Tests look at one lane; caches have bounded size and are shared between lanes.",
  ["maps/lanes.py"],
  [("progress/distance conversion", "maps/lanes.py"), ("bounded caches", "maps/lanes.py")])

p("L02", "Lane pose describes position and heading relative to the lane truthfully",
  "For any pose near a gently curved lane, the reported lateral offset, distance along the lane and relative heading reproduce the pose: moving from the reported centre point by the lateral offset (positive to the left) gives the position and turning by the relative heading gives the heading; the anchor is the closest centreline point. "
  "All flags and distances in the record are mutually consistent (inside iff within both the lateral and longitudinal extent, exactly one of inside/left/right laterally, correct direction iff within 90 degrees, distances to borders and centre from the lateral offset).",
  ["inputs"],
  "all lanes, poses on, beside, before and beyond them and headings",
  "Few poses on one lane are tested.",
  ["maps/lanes.py"],
  [("closest point search", "maps/lanes.py"), ("lane pose record", "maps/lanes.py")])

p("L03", "Road boundaries enclose the road and stay open only at its gates",
  "The road boundary obstacles built for a scenario lie on the outline of the union of the (buffered) lanes, cover that whole outline except around the entry and exit sections of lanes that have no predecessor or successor, and leave those sections open; every hole of the road is fully bounded. "
  "This holds for any road layout, including loops without gates, dead ends and disconnected pieces, and any positive buffer.",
  ["inputs", "configurations"],
  "all lanelet layouts and buffers",
  "One scenario is built in tests without checking geometry.",
  ["maps/road_bounds.py", "sim/scenarios/structures.py"],
  [("union of lanes minus gates", "maps/road_bounds.py")])

p("L04", "Converting a recorded scenario preserves its obstacles",
  "Converting a recorded road scenario accounts for every obstacle: each recorded static obstacle and each recorded obstacle whose final position is its initial one becomes a static obstacle occupying the recorded place, each other supported obstacle becomes one player whose initial position, heading and speed are the recorded ones and whose body dimensions follow the recorded ones, and only unsupported types (moving pedestrians among them) are skipped. The model of a single recorded obstacle, a pedestrian's too, starts at its recorded pose and speed (a vehicle with its wheels turned the way it is turning, straight if it is not, whatever the world frame), and there is none for unsupported types. "
  "The agent created for a player follows a lane that starts where the player starts, aligned with it, and reaches its recorded final position.",
  ["inputs", "configurations"],
  "all scenarios with mixtures of obstacle kinds, types, placements and motions",
  "Three shipped scenarios are loaded; none contains placed static obstacles.",
  ["sim/scenarios/factory.py", "sim/scenarios/model_from_dyn_obstacle.py", "sim/scenarios/utils_dyn_obstacle.py", "sim/scenarios/convert_from_commonroad.py"],
  [("replica of a recorded scenario", "sim/scenarios/factory.py"), ("lane inference", "sim/scenarios/utils_dyn_obstacle.py")])

p("G01", "Goals are fulfilled exactly by the states they describe",
  "A polygon goal is fulfilled exactly by states positioned strictly inside the polygon, a pose goal exactly by states whose pose matches within the tolerance, and a reference-lane goal exactly by states close to the lane's cross-section at the requested travelled distance that have passed it. "
  "Goal geometry for display is that same region, goals never change when evaluated, and fulfilment is unaffected by moving goal and state together.",
  ["inputs"],
  "all polygons, poses, lanes, progress values and states",
  "Goals are checked at one or two states on one lane.",
  ["sim/goals.py"],
  [("goal predicates", "sim/goals.py"), ("goal region from lane", "sim/goals.py")])

# ------------------------------------------------------------------ perception
p("V01", "Field-of-view sensing sees what is visible and nothing else",
  "A ranged sensor's field of view never extends beyond its range or opening angle nor behind an obstacle, and covers every point within range and opening that has a free line of sight (up to the angular resolution of its rays). "
  "A field-of-view filtered observation always contains the observing player, contains other players with unmodified data exactly if part of them lies in the field of view with static obstacles and other players blocking the sight, keeps the time stamp and leaves the full observation untouched.",
  ["inputs"],
  "all sensor poses, ranges, opening angles and obstacle/player arrangements",
  "One arrangement is tested.",
  ["perception/sensor.py", "sim/sim_perception.py", "geo.py"],
  [("ray casting", "perception/sensor.py"), ("filter", "sim/sim_perception.py")])

p("V02", "Delayed sensing never leaks fresh information",
  "A delayed sensor with latency L returns at time t the most recent inner observation made at or before t-L (the first one ever made while none is old enough), re-stamped with the time it was made plus L; contents are otherwise those of the inner sensor at that time. "
  "Nested delays compose additively when polled on a common grid, delays compose with other filters, and nothing depends on observations made later; an observation that is still owed is never forgotten, however many polls the latency spans.",
  ["histories"],
  "all latencies (zero, multiples and non-multiples of the polling period), polling patterns and inner filters",
  "One latency that is a multiple of the period is tested.",
  ["sim/sim_perception.py"],
  [("history of shifted observations", "sim/sim_perception.py")],
  [("observation history", "past observations with shifted times")])

p("V03", "Ghosting hides exactly the ghost, exactly beyond its distance",
  "A ghosting sensor removes precisely the ghosted player, precisely when its distance from the observer exceeds the threshold, and changes nothing else; the ghost itself sees everything, an absent ghost changes nothing, and the identity sensor changes nothing at all. "
  "Distances are those of the inner sensor's observation (a late one if that sensor is late), and nesting ghost filters removes exactly the union of what each hides.",
  ["inputs"],
  "all player sets, positions, thresholds and nestings",
  "One threshold is tested.",
  ["sim/sim_perception.py"],
  [("distance test and removal", "sim/sim_perception.py")])

# ------------------------------------------------------------------ controllers
p("K01", "The PID controller saturates, tracks and does not wind up",
  "The output is always within the output limits, the reference in effect is the requested one clipped to its limits, the integral contribution always stays within its anti-windup limits, and within the linear range the output equals proportional plus integral plus derivative action of the tracking error sampled at the call times. "
  "Repeated calls at one time with nothing new neither integrate nor differentiate, and controllers derived from a vehicle's parameters never request more than that vehicle's acceleration or steering-rate limits.",
  ["histories"],
  "all gains, limits, reference, measurement and time sequences",
  "Closed loop tests only plot or check convergence for one setting.",
  ["controllers/pid.py", "controllers/speed.py", "controllers/steer.py"],
  [("discrete PID with clipping", "controllers/pid.py")],
  [("integral state", "accumulated integral action"), ("last error and time", "for the derivative")])

p("K02", "Pure pursuit steers towards its lookahead point on the path",
  "The goal point lies on the path ahead of the vehicle, at least the minimum distance further along and no more than that plus the lookahead, and at lookahead distance from the vehicle whenever such a point exists there and the path leads away from the vehicle; the lookahead grows with speed within its limits. "
  "The steering angle is atan(length * 2 sin(alpha) / lookahead), with alpha the direction of the goal point seen from the rear axle: zero when aligned, left when the goal is to the left, mirrored on mirrored situations and independent of the world frame.",
  ["inputs"],
  "all paths, poses, speeds and parameters",
  "One scenario is run in closed loop.",
  ["controllers/pure_pursuit.py"],
  [("goal point search and steering law", "controllers/pure_pursuit.py")])

p("K03", "The speed behaviour yields consistently and safely",
  "The speed reference is never negative nor above the nominal speed, is zero whenever yielding or an emergency is required, never increases when another player is added, does not depend on the order or names of other players, on the world frame, or on the player's own entry; with nobody relevant around it is the nominal speed. "
  "A vehicle crossing from the right within yield distance causes yielding, one crossing from the left within that distance or an oncoming one within the braking distance causes an emergency, and closing up on a vehicle ahead within the safety distance gives a reference not above that vehicle's speed; vehicles beyond those distances, slower than the minimum yielding speed, behind or in a neighbouring lane have no effect.",
  ["inputs"],
  "all configurations of players, relative poses and speeds, parameters",
  "No direct test; closed loops see few configurations.",
  ["controllers/speed.py"],
  [("yield, emergency and cruise rules", "controllers/speed.py")])

p("K04", "The lane follower stays on its lane and obeys its limits",
  "A lane-following vehicle started on its lane, roughly aligned, follows the lane's centre line within lane width at all times, makes monotone progress to its end, converges to the nominal speed on a free road, never requests more than its vehicle's limits, and after an emergency stops and stays stopped. "
  "The speed behaviour and path tracker supplied by the user are the ones used, an agent started anew behaves as a fresh one, and only if asked to it logs, at every poll, its line of sight from its rear axle to a point on the lane\'s centre.",
  ["histories", "configurations"],
  "all smooth lanes, initial offsets, vehicles and traffic",
  "Only a few lanes are driven and only completion is observed.",
  ["sim/agents/lane_follower.py", "controllers/pure_pursuit.py", "controllers/speed.py", "controllers/steer.py"],
  [("lane follower agent", "sim/agents/lane_follower.py")])

p("A01", "Scripted agents do what they were told, at the simulation's time",
  "An agent following a command plan returns, at every simulation time, the command its plan holds at or most recently before that time (the last one for ever after the plan's end), and refuses to act before the plan starts; the plan is never altered. "
  "An agent with a policy returns, at every call, what its policy says for the observed state of that very player, asking it once per call.",
  ["histories", "inputs"],
  "all plans (integer, float and decimal time stamps, single commands), policies, query times, players around and player names",
  "Plans are replayed in one scenario, at a grid that coincides with the plan; no test uses a policy.",
  ["sim/agents/agent.py"],
  [("command lookup by simulation time", "sim/agents/agent.py"), ("policy applied to own state", "sim/agents/agent.py")])

# ------------------------------------------------------------------ geometry and helpers
p("T01", "Poses compose and act on points and shapes as rigid motions do",
  "Interpolating between two poses follows the shortest constant-twist motion from the first (0) to the second (1), independently of the reference frame and of the end it is seen from; relative poses compose to the pose they relate and are expressed in the frame of the base; the distance between poses is the length of that motion. "
  "Applying a pose to a point, to a list of points or to any shape gives the same result vertex by vertex, preserves areas, lengths, holes and orientation, composes and inverts, and never modifies its argument; converting poses between matrix, transform and vehicle state loses nothing.",
  ["inputs"],
  "all poses including half turns, tiny rotations and far positions, all geometry types",
  "The tests check a few values of two helpers.",
  ["geo.py", "sim/collision_utils.py"],
  [("interpolation and relative poses", "geo.py"), ("action on points and shapes", "geo.py")])

p("T02", "Collision shapes cover exactly what they stand for",
  "Converting a polygon for the collision checker gives one collision shape with the same corners which contains exactly the points of the polygon, whatever its orientation or convexity; converting a line or ring gives one shape per segment, each covering its whole segment one centimetre to either side and nothing else, closing segment included. "
  "Rays meet the converted shapes exactly when they cross the original, anything else is refused with ValueError, and the original is left alone.",
  ["inputs"],
  "all polygons, lines and rings, all probe points and rays",
  "The tests never convert shapes (the triangulation is not available in this build).",
  ["geo.py"],
  [("sPolygon2crPolygon, sLine2crPolygon, shapely2crPolygons", "geo.py")])

p("T03", "Generated star polygons have the shape that was asked for",
  "A star polygon has eight vertices at the requested distances on the axes and diagonals, going once around its centre without crossing itself. "
  "A random star-shaped polygon has the requested number of whole-pixel vertices in counter-clockwise order around the centre, none further than twice the average radius, evenly spaced without irregularity and all on the circle without spikiness, varying within what was requested otherwise, with spread parameters limited to [0, 1] and equal seeds giving equal polygons.",
  ["inputs"],
  "all centres, radii, spreads, numbers of vertices and seeds",
  "Not tested.",
  ["maps/shapes_generator.py"],
  [("create_random_starshaped_polygon", "maps/shapes_generator.py")])

p("D01", "The planners' bicycle moves like a bicycle and like the simulated car",
  "BicycleDynamics: the rate of change of a state is that of a vehicle whose rear axle moves along its heading at the vehicle's speed and whose front wheel rolls where it points, with the commands as rates of speed and steering. "
  "successor is exactly one forward step of it with the commands saturated to the vehicle's limits and the reached speed and steering kept within theirs, and converges to the exact motion with the step. "
  "successor_ivp is the solution under a constant command - circles with the steering held, divisible into parts, and what the simulated vehicle does within its limits. Given states and commands stay as they are, whatever number type the step length has.",
  ["inputs", "configurations"],
  "all vehicles, states, commands and step lengths",
  "Only used as an ingredient of trajectory generator tests that assert nothing about the motion.",
  ["dynamics/bicycle_dynamic.py"],
  [("successor", "dynamics/bicycle_dynamic.py"), ("successor_ivp", "dynamics/bicycle_dynamic.py")])

p("N01", "Scenarios and lanes are found exactly",
  "Loading a scenario by name, with or without its extension, returns the file of exactly that name wherever it lies below the given folder (links followed), with its lanelets and its obstacles assigned to them, and otherwise raises FileNotFoundError; without a folder the scenarios folder next to the project's src is searched wherever the project lies. "
  "The lane of a position begins with a lanelet the position is on and runs along successors to the end of the road, every such lanelet and every branch is selectable, and a position off the road has no lane.",
  ["inputs", "configurations"],
  "all folder trees with similar names, links and hidden folders; all road layouts and positions",
  "The tests load three files from one flat folder.",
  ["sim/scenarios/utils.py"],
  [("load_commonroad_scenario", "sim/scenarios/utils.py"), ("dglane_from_position", "sim/scenarios/utils.py")])

p("U01", "The small helpers mean what they say",
  "Iterating the combinations of the players' options yields each combination exactly once as an immutable mapping, in the order of the options, and nothing if some player has none; filtering and mapping dictionaries keeps exactly the right entries and freezes them; timing a function changes neither its result, exceptions, arguments nor identity and logs each call once, failed ones too. "
  "Poses, positions and velocities extracted from states are those of the state or refused, unit conversions are mutually inverse and exact, running a simulation is what the simulator does, and those who collided are exactly those named in the collision reports.",
  ["inputs"],
  "all collections, functions, states and simulations",
  "Not tested, or for one value.",
  ["utils_toolz.py", "time.py", "sim/models/utils.py", "sim/utils.py"],
  [("iterate_dict_combinations", "utils_toolz.py"), ("time_function", "time.py"), ("who_collided", "sim/utils.py")])

# ------------------------------------------------------------------ rendering
p("R01", "An animation shows exactly what the log says",
  "Every frame of an animation shows every logged player, and nobody else, with its true outline and colour at the pose the log gives for the instant of that frame (linear between the samples, the last state after a player's log ends), together with its name, its wheels at the logged steering, its thrusters and flames at the logged commands and its lights at the command in force; likewise the static obstacles, the goals at that instant and the trajectories last logged by then. "
  "The frames begin with the log, advance by the requested interval, end with the log, and the clock shows their time; a requested focus follows the player, unknown focus falls back to automatic limits, and rendering changes neither the log nor what a second rendering shows.",
  ["inputs", "histories"],
  "all logs of all models, sample times, light commands, goals, logged trajectories and animation parameters",
  "The tests only check that a video file comes out.",
  ["sim/models/vehicle_structures.py", "sim/models/rocket_structures.py", "sim/models/spaceship_structures.py", "sim/models/spacecraft_structures.py", "sim/models/diff_drive_structures.py", "sim/simulator_animation.py", "sim/simulator_visualisation.py", "sim/models/vehicle_ligths.py"],
  [("per-frame update of the artists", "sim/simulator_animation.py"), ("drawing of the models", "sim/simulator_visualisation.py")],
  [("logs", "states, commands and extras by time")])

p("R02", "Vehicle lights are a function of command, braking and time",
  "The colours of the four lamps of a vehicle depend on nothing but its present light command, whether it is braking and the time: indicators blink on the commanded side only, hazard lights blink on all four together, headlights light the front only, braking brightens the rear lamps that are not blinking, and everything else is at rest. "
  "No earlier query, other vehicle or other simulation influences them; models without lights have none.",
  ["inputs", "histories"],
  "all light commands, accelerations, times and sequences of queries",
  "The tests sample no colours.",
  ["sim/simulator_animation.py", "sim/models/vehicle_ligths.py"],
  [("command to phases to colours", "sim/simulator_animation.py"), ("light commands and their phases", "sim/models/vehicle_ligths.py")])

p("R03", "Shapes are drawn exactly where they are",
  "A shape drawn with ShapelyViz covers exactly the pixels the shape covers, in its colour: the interior of polygons including every part of a multi-part one and not their holes, the course of lines and rings, every point of points and collections, nothing for an empty shape, on the axes it was given. "
  "Drawing neither alters the shape nor depends on the orientation of its rings.",
  ["inputs"],
  "all shapely geometries with and without holes, parts and nesting, and styles",
  "The tests draw a couple of shapes and look at nothing.",
  ["maps/shapely_viz.py"],
  [("dispatch by geometry type", "maps/shapely_viz.py")])

p("R04", "Plots of collisions and logs show the report and the log",
  "The plot of a collision shows the reported impact point and normal and, for every player involved, its reported outline, name, velocities before and after the impact at one common scale, velocity at the impact point, rotational velocities and impact locations, and nothing else. "
  "The plot of a player's log shows, in the given figure only, one named curve per component of the states and commands with exactly the logged samples, commands holding from the instant they are given; only the selected players are plotted and the log is not modified.",
  ["inputs"],
  "all collision reports of all models and environments, all logs, selections and figures",
  "The tests do not look at the plots.",
  ["sim/collision_visualisation.py", "sim/log_visualisation.py"],
  [("plot_collision", "sim/collision_visualisation.py"), ("plot_player_log and plot_players_logs", "sim/log_visualisation.py")])

# ------------------------------------------------------------------ evaluation
p("E01", "Comfort and efficiency metrics match their definitions",
  "Travelled distance is the length of the polyline of positions; maximal jerk is the largest absolute acceleration backward difference quotient of consecutive commands at a sample within the time window (boundaries included); the weighted RMS acceleration is that of the frequency-weighted signal sampled every 0.1 s for any number of samples. "
  "All are non-negative, scale with the signal, do not depend on the sign of the signal or (distance) the world frame, and time windows include exactly the samples within them.",
  ["inputs"],
  "all command and state histories, sample counts (odd ones too) and windows",
  "One recorded log is evaluated.",
  ["eval/comfort.py", "eval/efficiency.py"],
  [("metric functions", "eval/comfort.py")])

p("E02", "Safety metrics match the geometry of the log",
  "The minimum distance over a log is the smallest distance between the ego's and any other still active vehicle's body at a logged ego time within the window, attributed to that vehicle and the first such time; time-to-collision is the first time at which constant-velocity motion makes the bodies touch, at multiples of 0.1 s up to 3 s, for vehicles whose centres approach each other, infinite if none; the overall minimum is over the logged times in the window. "
  "Players that fulfilled their mission are ignored, a collision involves the ego exactly if a report names it, and a finished ego yields infinities.",
  ["inputs", "histories"],
  "all logs, vehicle sets, missions and windows",
  "One recorded log is evaluated.",
  ["eval/safety.py"],
  [("distance and time-to-collision search", "eval/safety.py")])

p("E03", "Goal-lane evaluation always answers and answers correctly",
  "Deciding whether a state has reached a desired lane always terminates, on any road network (loops and kinked joints included), and is true for states centred on and aligned with the lane or a lane reached from it forwards or backwards along a road without branches, and false for states laterally off it or misaligned unless the goal itself is fulfilled. "
  "The reported time is the first logged time at which this holds, and none if it never does.",
  ["inputs"],
  "all lane networks, goals and states",
  "One map and log are evaluated; loops are not on it.",
  ["eval/efficiency.py"],
  [("walk along successors and predecessors", "eval/efficiency.py")])

out = pathlib.Path(__file__).resolve().parents[1] / "properties.jsonl"
assert all(len(x["title"]) <= 80 for x in P), [x["id"] for x in P if len(x["title"]) > 80]
assert len({x["id"] for x in P}) == len(P)
for x in P:
    for f in x["anchors"]["files"]:
        assert (pathlib.Path("/repo") / f).exists(), f
out.write_text("".join(json.dumps(x, ensure_ascii=False) + "\n" for x in P))
print(len(P))

"""Writes /verif/properties.jsonl (kept as code so the statements stay editable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=(), state=(), hook=None):
  assert len(title) <= 80, title
  P.append(dict(id=id, title=title, statement=statement,
    quantifier=dict(over=over, text=qtext), why_tests_cant=why,
    anchors=dict(files=['waymax/'+f for f in files],
      state=[dict(name=a, meaning=b, where='waymax/'+c) for a,b,c in state],
      mechanism=[dict(name=a, where='waymax/'+c) for a,c in mech],
      observe_at=list(observe), hook_needed=hook)))

I, C, H = ['inputs'], ['inputs','configurations'], ['histories']

p('P01','A simulation step rewrites exactly one future frame and nothing else',
 'Stepping the multi-agent environment or the planning environment advances the simulation clock by exactly one, and changes the simulated trajectory of every object only at the frame just after the old clock value. All earlier and later simulated frames, the logged trajectory, the logged traffic lights, the object metadata, the road graph and the routes come out exactly as they went in.',
 ['inputs','histories','configurations'],'every state, action, dynamics model and environment configuration, batched or not',
 'The environment tests need dataset files and sample a few episodes; they cannot quantify over every field, frame and configuration.',
 ['env/base_environment.py','env/planning_agent_environment.py','dynamics/abstract_dynamics.py','datatypes/operations.py'],
 [('state transition','env/base_environment.py: BaseEnvironment.step'),('frame write','dynamics/abstract_dynamics.py: apply_trajectory_update_to_state'),('slice update','datatypes/operations.py: update_by_slice_in_dim')],
 ['state returned by step'])
p('P02','Reset replays exactly the warm-up history and invalidates the rest',
 'Resetting the environment, for any incoming state and any positive number of warm-up steps, yields a state whose clock is the number of warm-up steps minus one and whose simulated trajectory equals the log on the warm-up frames and is marked invalid (minus one for numbers, false for flags) on every later frame. No other field of the state changes.',
 ['inputs','configurations'],'every incoming state (also one already advanced) and every warm-up length','Reset tests need dataset files and use one warm-up length.',
 ['env/base_environment.py','datatypes/simulator_state.py','datatypes/object_state.py'],
 [('reset','env/base_environment.py: BaseEnvironment.reset'),('log replay','datatypes/simulator_state.py: update_state_by_log'),('invalid fill','datatypes/object_state.py: fill_invalid_trajectory')],['state returned by reset'])
p('P03','Only controlled objects obey actions; all others follow the log',
 'In the frame written by a step, the position, heading and velocity of an object selected for control come from the dynamics update of its action, and those of every other object are exactly the logged values of that frame. Size and elevation are carried over from the current frame and the time stamp is the logged one, for all objects; with the fallback option, a controlled object whose update is invalid moves at constant velocity instead.',
 ['inputs','configurations'],'every control mask, action, state and dynamics model','Tests compare one or two hand-written trajectories.',
 ['dynamics/abstract_dynamics.py','dynamics/state_dynamics.py','env/base_environment.py'],
 [('field merge','dynamics/abstract_dynamics.py: apply_trajectory_update_to_state'),('model dispatch','dynamics/abstract_dynamics.py: DynamicsModel.forward')],['trajectory returned by forward'])
p('P04','Objects appear or vanish only by the documented validity rule',
 'In the frame written by a step, an object that is controlled and currently valid stays valid; without object injection any other object is valid only if it is valid now and in the log, and with object injection exactly when it is valid in the log.',
 ['inputs','configurations'],'every validity pattern, control mask and injection setting','Tests pin a few validity patterns; the rule ranges over all mask combinations and both flags.',
 ['dynamics/abstract_dynamics.py','env/base_environment.py'],
 [('validity rule','dynamics/abstract_dynamics.py: apply_trajectory_update_to_state'),('flag forwarding','env/base_environment.py: BaseEnvironment.step')],['valid field of the stepped trajectory'])
p('P05','A dynamics update is valid only for a valid action on a valid object',
 'Every kinematic model (bicycle, global delta, local delta, and their discretised versions) marks an object\'s update valid exactly when the action is valid and the object is currently valid; the direct state-setting model marks it valid exactly when the action is valid.',
 I,'every action and trajectory','Dynamics forward tests are few and only use hand-picked masks.',
 ['dynamics/bicycle_model.py','dynamics/delta.py','dynamics/state_dynamics.py','dynamics/discretizer.py'],
 [('update validity','dynamics/bicycle_model.py: compute_update'),('update validity','dynamics/delta.py: compute_update')],['compute_update result'])
p('P06','Inferred actions need both endpoints valid and respect declared bounds',
 'The action a dynamics model infers between two consecutive frames is marked valid exactly when the object is valid in both frames (for the direct state-setting model: in the later frame), is zero where it is not valid for the bicycle and delta models, and reads only those two frames. The inferred action of the bicycle and delta models always lies inside the bounds the model declares, the heading change after being wrapped to half a turn.',
 I,'every trajectory, start frame and model','Inverse tests check a few round trips on sampled data.',
 ['dynamics/bicycle_model.py','dynamics/delta.py','dynamics/state_dynamics.py','dynamics/discretizer.py'],
 [('inverse','dynamics/bicycle_model.py: compute_inverse'),('inverse','dynamics/delta.py: inverse'),('inverse','dynamics/state_dynamics.py: inverse')],['inverse result'])
p('P07','Bicycle dynamics implement the documented kinematics',
 'The bicycle model moves an object by its velocity plus half acceleration along its heading, turns it by the steering curvature times the distance travelled at current speed, and sets its velocity along the new heading with the speed increased by acceleration times the step; actions are first clipped to the declared bounds and, when normalised, scaled by the maximum acceleration and steering. The inverse recovers acceleration and steering by the matching formulas, with zero steering at low speed and inverse scaling when normalised.',
 C,'every state and action, normalised or not','Numeric tests cover a handful of states.',
 ['dynamics/bicycle_model.py'],[('forward','dynamics/bicycle_model.py: InvertibleBicycleModel.compute_update'),('inverse','dynamics/bicycle_model.py: compute_inverse')],['compute_update, inverse'])
p('P08','Delta dynamics displace the pose by the action in the documented frame',
 'The global delta model adds the displacement to position and heading and derives the velocity as displacement over the step; the local model rotates the displacement from the object frame to the global frame by the current heading first. The inverse of each returns the difference of the two poses with wrapped heading, expressed in the same frame and clipped to the declared bounds, so that within the bounds the two directions agree.',
 I,'every pose, heading and action','Tests try a few headings; sign errors can hide on axis-aligned samples.',
 ['dynamics/delta.py','utils/geometry.py'],[('delta','dynamics/delta.py: DeltaGlobal'),('delta','dynamics/delta.py: DeltaLocal')],['compute_update, inverse'])
p('P09','Discretised actions map bins to the range of the continuous model and back',
 'A discretised dynamics model decodes each index to the grid point at its lower bound plus bin index times bin width (the packed index being mixed-radix over the dimensions, and an index past the last decoding like the last), and encodes a continuous action as the nearest grid point, both being inverse to each other on the grid. The wrapped model receives the decoded action with unchanged validity, the declared integer bounds match the number of bins, and the search-based inverse returns, for every object, the bin whose predicted next pose is nearest to the logged one.',
 C,'every bin count, bound and action','Discretizer tests use one or two grids.',
 ['dynamics/discretizer.py'],[('discretizer','dynamics/discretizer.py: Discretizer'),('wrapper','dynamics/discretizer.py: DiscreteActionSpaceWrapper')],['make_discrete, make_continuous, compute_update, inverse'])
p('P10','Planning steps merge ego and simulated agents with the documented priority',
 'In a planning step the ego vehicle follows the decoded planner action unless a simulated agent claims it, every object steered by simulated agents follows the last simulated agent that controls it, objects overlapping another object in the first logged frame are never steered by simulated agents, and everything else replays the log. Each simulated agent receives its own parameters, its own carried state, its own random key and the current simulator state, and its returned state is carried to its next call.',
 C,'every number of simulated agents, control masks, initial overlaps and random keys','No stable test runs the planning environment; the rule ranges over agent counts and masks.',
 ['env/planning_agent_environment.py'],[('merge','env/planning_agent_environment.py: PlanningAgentEnvironment.step'),('overlap mask','env/planning_agent_environment.py: _get_initially_overlap')],['planning step result'])
p('P11','Planning outputs describe the planned agent only',
 'The reward, action specification and metrics of the planning environment are those of the ego vehicle alone: per-object metrics are reduced to the ego entry, the kinematic metric refers to the ego motion of the last step and counts only after the warm-up, and the planner action affects only the ego.',
 C,'every state and configuration','No stable test covers it.',
 ['env/planning_agent_environment.py','datatypes/operations.py'],[('metrics','env/planning_agent_environment.py: metrics'),('reward','env/planning_agent_environment.py: reward')],['metrics, reward, action_spec'])
p('P12','Rewards are the configured weighted sum of valid metric values',
 'The linear reward of each agent equals the sum over the configured metrics of weight times metric value, where invalid metric values count as zero and agents outside the agent mask get zero. The environment passes it the mask of the configured controlled objects, and an environment without reward configuration returns zero for every agent.',
 C,'every weight table, metric result and mask','Tests sample small weight tables.',
 ['rewards/linear_combination_reward.py','env/base_environment.py'],[('sum','rewards/linear_combination_reward.py: LinearCombinationReward.compute')],['compute, reward'])
p('P13','Metrics look only at the current frame of the simulation',
 'Every built-in metric depends on the simulated trajectory only at the current frame (the kinematic metric also at the one before), and never on later frames; only the log-divergence metric and the progression metric may read the log, the former only at the current frame. No metric reads the simulated future or another batch entry.',
 I,'every state and every built-in metric','Independence from a frame is a two-run property over all contents of that frame.',
 ['metrics/overlap.py','metrics/roadgraph.py','metrics/imitation.py','metrics/comfort.py','metrics/route.py'],[('metrics','metrics/metric_factory.py: run_metrics')],['metric results'])
p('P14','Collision, off-road, divergence and comfort metrics score as documented',
 'The overlap metric of an object is one exactly when its box intersects the box of another object, both valid in that frame; off-road is one exactly when some box corner lies on the wrong side of the nearest valid road edge; log divergence is the planar distance between simulated and logged position; kinematic infeasibility is one exactly when the acceleration or steering inferred from the last step exceeds its limit. Their results are marked valid when the object is valid in the simulated frame (overlap), always (off-road), in both simulation and log (divergence), and at both endpoints of the step (kinematic), respectively.',
 I,'every scene and validity pattern','Tests use few hand-made scenes.',
 ['metrics/overlap.py','metrics/roadgraph.py','metrics/imitation.py','metrics/comfort.py','utils/geometry.py'],[('overlap','metrics/overlap.py: OverlapMetric.compute'),('offroad','metrics/roadgraph.py: OffroadMetric.compute')],['compute'])
p('P15','Route metrics score the ego against its valid route points only',
 'The route metrics (wrong way, off route, progression) are computed for the ego vehicle\'s current position against the valid points of its stored paths only, compare with the documented distance thresholds, and report an invalid result where the ego is invalid (off route, progression). The off-route and progression metrics refuse states without stored paths.',
 I,'every set of paths and ego poses','Tests sample few paths.',
 ['metrics/route.py','metrics/roadgraph.py'],[('off route','metrics/route.py: OffRouteMetric'),('progression','metrics/route.py: ProgressionMetric'),('wrong way','metrics/roadgraph.py: WrongWayMetric')],['compute'])
p('P16','The metric registry maps each name to one implementation',
 'Running metrics yields exactly one result per requested name, computed by the implementation registered under that name; an unknown name raises, an existing name cannot be silently replaced, every documented name is registered, and the planning-only names never fail in the registry lookup of the environments that serve them.',
 C,'every configuration of metric names and every registration history','Tests request one or two names.',
 ['metrics/metric_factory.py','env/base_environment.py','env/planning_agent_environment.py'],[('registry','metrics/metric_factory.py: run_metrics'),('registration','metrics/metric_factory.py: register_metric')],['run_metrics, register_metric, metrics'])
p('P17','Environments, dynamics, metrics, rewards and agents are pure functions',
 'Outside construction, explicit registration and the stateful single-episode wrapper, no operation of an environment, dynamics model, metric, reward, agent or data type modifies its arguments, its own attributes, module globals or external state. Equal inputs therefore always yield equal outputs under any call order.',
 ['inputs','histories','schedules'],'every call sequence','Absence of hidden state over all histories cannot be sampled.',
 ['env','dynamics','metrics','rewards','agents','datatypes','utils'],[('functional updates','datatypes/simulator_state.py: SimulatorState')],['all public methods'])
p('P18','Simulation code stays traceable: no host decisions on array values',
 'No traced array value decides Python control flow, is converted to a host number, string or host array, or indexes a Python container anywhere in the code reachable from environment, dynamics, metric, reward, agent and observation operations. They therefore trace under compilation, vectorised mapping and scanning for every input.',
 ['inputs','programs'],'all reachable code','A jit test exercises one entry point and shape.',
 ['env','dynamics','metrics','rewards','agents','datatypes','utils'],[('tracing','env/base_environment.py: BaseEnvironment')],['all public methods'])
p('P19','Random keys are never reused',
 'Within every operation that receives a random key, each key value is consumed at most once: a key that was split or handed to a consumer is not handed to another one, distinct agents and distinct time steps get distinct derived keys, and no operation creates its own fixed key when the caller supplied one.',
 ['inputs','configurations','histories'],'every rollout length, agent count and key','Key reuse does not fail any test: results are merely correlated.',
 ['env/rollout.py','env/planning_agent_environment.py','agents/actor_core.py'],[('key splitting','env/rollout.py: rollout')],['rollout, step, init, select_action'])
p('P20','The single-episode wrapper enforces the episode life cycle',
 'The wrapper offering the standard single-episode interface refuses to step before a reset and after an episode ended, and restarts cleanly whenever reset is called; the first step of an episode is marked first without reward or discount, every later one reports the reward of the executed action in the state it was taken in and the observation of the state after it. It marks the last step as a termination (no discount) or truncation (full discount) exactly when the wrapped environment says so, exposes the state it stands in, and refuses batches of which only some episodes have ended.',
 ['histories','configurations'],'every call sequence of reset and step','No stable test covers the wrapper; life-cycle rules quantify over histories.',
 ['env/wrappers/dm_env_wrapper.py'],[('life cycle','env/wrappers/dm_env_wrapper.py: DMEnvWrapper')],['reset, step'])
p('P21','The brax-style wrapper reports one consistent transition',
 'A brax-style step returns the state reached by the wrapped environment, the observation of that new state, the reward and metrics of the state the action was taken in, a done flag that is termination or truncation of the new state, and a discount that is zero exactly on termination of the new state. Reset returns the wrapped reset with its observation and metrics, zero reward, unit discount and a done flag that is set when the start state is terminated.',
 ['inputs','histories'],'every state and action','No stable test covers it.',
 ['env/wrappers/brax_wrapper.py'],[('transition','env/wrappers/brax_wrapper.py: BraxWrapper.step')],['step, reset'])
p('P22','Rollouts record aligned states, actions, observations, metrics and rewards',
 'A rollout calls the actor on the current state, steps the environment with that very action, and records at each index the state, observation and metrics before the action, the action and its reward, followed by one final entry holding the last state. The number of steps is as requested and the actor state is carried from each call to the next.',
 ['inputs','histories','configurations'],'every actor, environment, horizon','No stable test covers rollouts.',
 ['env/rollout.py'],[('scan body','env/rollout.py: rollout')],['rollout output'])
p('P23','Episodes end exactly when the log is exhausted',
 'The episode is truncated exactly when no logged frame remains after the clock, the number of remaining steps is the number of logged frames minus the clock minus one, the done flag agrees with it, and no environment reports termination.',
 I,'every log length and clock value','Tests sample few clock values.',
 ['datatypes/simulator_state.py','env/base_environment.py','env/planning_agent_environment.py'],[('clock','datatypes/simulator_state.py: is_done, remaining_timesteps')],['truncation, termination, is_done'])
p('P24','Observations hold exactly the requested window, objects and validity',
 'An observation contains, for each observing object, the requested number of frames ending at the current one of every object\'s trajectory and of the traffic lights, the requested number of nearest road points, and never a frame after the clock. An entry is valid only if the underlying data is valid and the observing pose is valid, and the ego marker is set exactly for the observing object.',
 C,'every state, window length and road-point count','Observation tests are not part of the reliable suite.',
 ['datatypes/observation.py','datatypes/roadgraph.py'],[('observation','datatypes/observation.py: observation_from_state, sdc_observation_from_state')],['observation functions'])
p('P25','Observations express every position, velocity and heading in the observer frame',
 'Every geometric quantity of an observation (trajectories, traffic lights, road points, routes and headings) is transformed with the one pose of the observing object: positions are translated then rotated by minus its heading, directions and velocities only rotated, headings reduced by its heading. Quantities without geometry are copied unchanged.',
 I,'every pose and scene','Sampled poses do not settle sign and order of transforms for all fields.',
 ['datatypes/observation.py','utils/geometry.py'],[('transform','datatypes/observation.py: transform_trajectory, transform_roadgraph_points, transform_traffic_lights')],['observation functions'])
p('P26','Dataset records are mapped to the matching state fields',
 'Parsing a dataset record puts each recorded feature into the state field of the same meaning, joins past, current and future frames in that order along time, copies the mean valid size over all frames, and derives the ego, modelled, valid and interest flags from the recorded markers. The named codes of object types, map element types and light states are the integers the dataset uses for them. Every feature read is requested from the record with its shape and type, no state field is filled from a different object, time or map element, and a freshly parsed state has its clock at zero with only the first simulated frame filled.',
 C,'every record content and shape configuration','Factory tests check few fields on one record; most need dataset files.',
 ['dataloader/womd_factories.py','dataloader/womd_utils.py','datatypes/operations.py'],[('factories','dataloader/womd_factories.py: simulator_state_from_womd_dict'),('aggregation','dataloader/womd_utils.py: aggregate_time_tensors'),('features','dataloader/womd_utils.py: get_features_description')],['simulator_state_from_womd_dict'])
p('P27','Exported states carry the same features that parsing reads',
 'Exporting a simulator state writes, under each dataset key that parsing reads, the data of the matching field, with the simulated trajectory split at the clock into past, current and future parts of the declared lengths and the future blanked with minus one. Metadata of invalid objects is blanked with minus one, and parsing an exported state again yields the same past and current positions, headings, velocities, flags, lights and roads.',
 I,'every state','Round trip is only tested with dataset files.',
 ['dataloader/womd_utils.py','dataloader/womd_factories.py'],[('export','dataloader/womd_utils.py: simulator_state_to_womd_dict')],['export dictionary'])
p('P28','Data containers validate, compare and blank out all of their fields',
 'The validation of each data container checks every array field for its documented shape and element type, equality compares every field (containers with different optional parts are unequal), and the zero, empty or invalid constructors set every field; a container lacking or mistyping any one field is never accepted. The derived views (stacked coordinates, speed, velocity direction, counts and shapes, the current frames of a state, the parts of a pose) are computed from the fields they name, with minus one for the speed of invalid entries and current meaning exactly the frame at the clock.',
 I,'every field of every container','Tests corrupt one or two fields.',
 ['datatypes/object_state.py','datatypes/action.py','datatypes/array.py','datatypes/roadgraph.py','datatypes/route.py','datatypes/traffic_lights.py','datatypes/simulator_state.py','datatypes/observation.py'],[('validate','datatypes/object_state.py: Trajectory.validate')],['validate, __eq__, zeros'])
p('P29','Implementations honour the interfaces they are used through',
 'Every concrete environment, dynamics model, metric, reward, agent and wrapper implements all operations of its interface with parameters compatible in name, order, number and default value, so that any call legal on the interface is legal on the implementation and means the same. The environment wrappers and the planning dynamics forward every operation to the wrapped object with the same arguments.',
 ['programs','configurations'],'every implementation and call form','A test calls each implementation in one form only.',
 ['env','dynamics','metrics','rewards','agents'],[('interfaces','env/abstract_environment.py: AbstractEnvironment'),('interfaces','dynamics/abstract_dynamics.py: DynamicsModel')],['public methods'])
p('P30','Every dataset setting reaches the loading stage it configures',
 'Each option of the dataset configuration (path, format, shard, repeat, batch sizes, shuffling, drop-remainder, distribution, object, road, path and time limits) reaches exactly the loading stage it documents, with stages in the order read, repeat, shuffle, parse, batch; invalid environment, agent and dataset configurations are rejected with an error at construction.',
 ['configurations'],'every configuration','Loader tests need dataset files.',
 ['dataloader/dataloader_utils.py','dataloader/womd_dataloader.py','config.py'],[('pipeline','dataloader/dataloader_utils.py: tf_examples_dataset')],['dataset construction'])
p('P31','Geometry primitives follow one orientation convention',
 'Rotations are counter-clockwise for positive angles, box corners are the rotated half extents listed counter-clockwise from the front right, the pose transform maps the pose origin to zero and its heading to the first axis, and wrapped angles lie within half a turn and differ from the input by a whole number of turns. Box overlap is symmetric, tested along the edge normals of both boxes, and pairwise overlap never reports a box against itself; boxes given with five or seven numbers mean the same and other widths are refused.',
 I,'every angle, pose and box','Sampled angles cannot settle it for all.',
 ['utils/geometry.py'],[('geometry','utils/geometry.py')],['geometry functions'])
p('P32','Waypoint-following agents produce consistent, non-negative motion',
 'A path-following agent moves each object by the mean of its old and new speed times 0.1 s along its heading, projects that onto the line through the nearest valid logged pose (taking its heading), keeps the velocity along the current heading and marks it valid only if valid now; at the end of the logged path (within 5 cm, or over 5 m off it) it keeps its velocity or, when so configured, stops and drops objects still faster than 1 m/s, and invalid objects are filled with -1. The intelligent-driver speed is the documented formula of its own parameters, never negative, with the leader being the slowest other valid object met at the first occupied look-ahead position, never the object itself. Agents report exactly their control mask: all but the ego by default, ego or non-ego when built from configuration, other settings being refused.',
 C,'every scene, path and parameter choice','One utility function is tested.',
 ['agents/waypoint_following_agent.py','agents/sim_agent.py'],[('agent','agents/waypoint_following_agent.py: WaypointFollowingPolicy, IDMRoutePolicy')],['select_action, update_trajectory, update_speed'])
p('P33','Expert, constant-speed and merged actors output what they document',
 "The expert actor returns the action its dynamics model infers for moving each object from its simulated current frame to its logged next frame; the constant-speed actor infers the action for a next frame 0.1 s later with the same heading and sizes, the current velocity (or the given speed, zero included, along the heading) and the position advanced by it, valid only for controlled and currently valid objects. Both report exactly their control predicate (the ego by default for the expert). Merging actor outputs takes for each object the action and validity of the last actor that controls it, or the first actor's where none does, and refuses an empty list; actors built from functions forward every argument and result.",
 C,'every state, mask and number of actors','Tests sample one state.',
 ['agents/expert.py','agents/constant_speed.py','agents/actor_core.py'],[('expert','agents/expert.py: create_expert_actor'),('merge','agents/actor_core.py: merge_actions')],['select_action, merge_actions'])
p('P34','Drawing shows only valid elements and never changes its input',
 'Rendering a trajectory, simulator state, observation or Brax timestep draws only objects, road points, lights and route points marked valid at the drawn time, each at its own position: every valid object of the drawn step appears in its category (highlighted, context, overlapping) with a full-size outline at its heading (its mark joining both sides to the front) and other steps only as reduced marks, every valid road point of the shown types (1,2,3,15-19) and every valid light of that step and no other appears, light states get their red/yellow/green colour and every shown type and state has a colour; the view spans the configured distances around the ego or the requested agent, at the configured pixels per metre; a scene without map or routes and a drawing without a highlighted step work, a step past the end or a trajectory without the two axes (objects, steps) is refused, like boxes or colours of another shape; and the state, observation and caller-supplied arrays are never modified.',
 I,'every scene','The rendering tests need dataset files and compare no pixels.',
 ['visualization/viz.py','visualization/utils.py','visualization/color.py'],[('plots','visualization/viz.py: plot_trajectory, plot_roadgraph_points, plot_traffic_light_signals_as_points')],['plot functions'])
p('P35','Masked updates, one-hot selection and slicing act alike on every field',
 'The structural helpers treat every array of a nested container alike: a masked update takes the new value exactly where the mask is set, a one-hot selection returns the selected entry, a dynamic slice or index reads the requested positions, and a slice update replaces exactly the requested window, also when each batch entry has its own index. The masked mean averages exactly the masked entries, and blanking fills numbers with minus one and flags with false.',
 I,'every container, mask and index, with or without batch dimensions','Tests use small unbatched examples.',
 ['datatypes/operations.py','datatypes/array.py'],[('operations','datatypes/operations.py')],['operations'])
p('P36','The controlled-object setting selects exactly the documented objects',
 'The control mask selects the ego for the ego setting, the objects marked for prediction for the modelled setting and the valid objects for the valid setting, and any other setting (also the non-ego one) raises; simulated agents control all objects but the ego by default, and the ego or all others when built from a configuration naming them, other settings being refused. The environment steps with that mask, restricted for the valid setting without object injection to objects valid at the end of the warm-up, and rewards the objects the setting names.',
 ['inputs','configurations'],'every setting and validity pattern','Tests pin one setting.',
 ['datatypes/simulator_state.py','env/base_environment.py'],[('mask','datatypes/simulator_state.py: get_control_mask'),('env mask','env/base_environment.py: _get_control_mask')],['get_control_mask, step'])
p('P37','Declared action, reward, discount and observation specs match what is produced',
 'The declared action specification of each dynamics model and environment has the shape, type and bounds of the actions it accepts and infers (one row of bounds per object in the multi-agent environment), the reward and discount specifications have the shape of the reward and discount it returns, and the bounds of the discretised action equal the number of index values; the single-episode wrapper describes its (possibly scalar) actions and every array of its observations without the batch dimensions.',
 ['configurations'],'every configuration','Specs are compared with one output only.',
 ['env/base_environment.py','env/planning_agent_environment.py','env/wrappers/brax_wrapper.py','env/wrappers/dm_env_wrapper.py','dynamics'],[('specs','env/base_environment.py: action_spec, reward_spec, discount_spec')],['specs'])
p('P38','Road points: selection keeps nearest valid points with their own attributes',
 'Selecting road points for a reference position returns, for each requested slot, one existing road point with all of its own attributes (position, direction, type, identifier, validity), ordered by planar distance with invalid points last. Asking for all points returns them as they are, asking for more points than exist or with a mismatched reference shape is an error.',
 I,'every road graph and reference position','Tests use tiny road graphs with small identifiers.',
 ['datatypes/roadgraph.py'],[('top-k','datatypes/roadgraph.py: filter_topk_roadgraph_points')],['filter_topk_roadgraph_points'])
# --- declined -------------------------------------------------------------
p('N01','Simulation outputs stay finite',
 'No sequence of bounded valid actions produces a non-finite position, heading, velocity, metric or reward.',
 ['inputs','histories'],'every bounded action sequence','Quantifies over floating-point values.',['dynamics','metrics'],[('numerics','dynamics/bicycle_model.py')])
p('N02','Simulated traffic does not collide with its leader',
 'A vehicle steered by the intelligent-driver agent does not run into a leading vehicle that it can follow safely.',
 ['histories'],'every scene','Closed-loop behaviour over runtime values.',['agents/waypoint_following_agent.py'],[('IDM','agents/waypoint_following_agent.py: IDMRoutePolicy.update_speed')])
p('N03','Box-overlap and off-road decisions are exact in floating point',
 'The overlap and off-road decisions equal the exact geometric ones for every finite input, also for touching boxes and points on an edge.',
 I,'every finite input','Floating-point rounding.',['utils/geometry.py','metrics/roadgraph.py'],[('geometry','utils/geometry.py')])
p('N04','Shuffling and sharding deliver every scenario',
 'Over one unrepeated pass each stored scenario is delivered exactly once across all processes, for every shard, shuffle buffer and prefetch setting.',
 ['schedules','configurations'],'every file layout and scheduling of the input pipeline','Decided inside the TensorFlow runtime.',['dataloader/dataloader_utils.py'],[('pipeline','dataloader/dataloader_utils.py')])
p('N05','Rounding-free forward and inverse round trip',
 'Applying the inferred action of a feasible motion reproduces that motion up to a fixed small tolerance for every dynamics model.',
 I,'every feasible motion','Tolerance over floating-point values.',['dynamics'],[('round trip','dynamics/bicycle_model.py')])
if __name__ == '__main__':
  out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
  with open(out, 'w') as f:
    for q in P: f.write(json.dumps(q) + '\n')
  print(len(P))

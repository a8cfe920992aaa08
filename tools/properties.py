#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a table here because it is easier to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [], "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}})

ENVF = ["src/Environment.cpp", "include/DynamicObstacleAvoidance/Environment.hpp"]
AGGF = ["src/Utils/ObstacleGeneration/Aggregation.cpp", "src/Obstacle/Aggregate.cpp", "include/DynamicObstacleAvoidance/Obstacle/Aggregate.hpp"]
HULL = ["src/Obstacle/StarShapeHull.cpp", "include/DynamicObstacleAvoidance/Obstacle/StarShapeHull.hpp"]
ELL = ["src/Obstacle/Ellipsoid.cpp", "include/DynamicObstacleAvoidance/Obstacle/Ellipsoid.hpp", "src/Obstacle/Obstacle.cpp"]
MOD = ["src/Modulation.cpp"]
AGT = ["src/Agent.cpp", "include/DynamicObstacleAvoidance/Agent.hpp"]
POSE = ["include/DynamicObstacleAvoidance/State/Pose.hpp", "src/State/Pose.cpp", "src/State/State.cpp", "include/DynamicObstacleAvoidance/State/State.hpp"]

prop("C01", "The environment is a map from names to the obstacles its users added",
     "Whatever the order in which additions, removals, lookups, mode switches and refreshes arrive, a lookup by name returns the very object that was added under that name; adding a name that is taken, or removing or looking up a name that is absent, is refused with the documented exception naming the obstacle and changes nothing. The name of a cluster resolves, to the published cluster object, exactly while aggregation is on and the cluster is in the list published by the last refresh; a registered obstacle of the same name takes precedence.",
     ["histories", "schedules", "fault_sequences"],
     "all histories of registry operations delivered through a channel that drops, duplicates, delays and reorders, with controller restarts",
     "tests add and remove two obstacles once in a fixed order; they do not replay duplicated, late or reordered requests nor look up clusters after the map changed",
     ENVF, [("obstacle map", "Environment::add_obstacle / remove_obstacle"), ("lookup with fallback to published clusters", "Environment::operator[]")],
     ["Environment::add_obstacle", "Environment::remove_obstacle", "Environment::operator[]"])
prop("C02", "The published obstacle list is a complete snapshot changed only by refreshes",
     "The list of obstacles an environment publishes changes only when the environment is refreshed. After a refresh every registered obstacle is represented exactly once (on its own, or as a member of exactly one cluster of two or more obstacles if aggregation is on) and nothing else is; obstacles on their own appear in name order and a cluster is named 'aggregate' followed by '_' and each member name in sorted order. Lists and objects obtained before stay valid and unchanged, even after the obstacle is removed.",
     ["histories", "schedules", "fault_sequences"],
     "all histories of registry and obstacle changes between refreshes, with aggregation switched at any time",
     "tests refresh once after set-up and never look at the list after later changes",
     ENVF + AGGF, [("copy of the map at update", "Environment::update"), ("aggregate naming", "Aggregate::add_primitive")],
     ["Environment::get_obstacle_list", "Environment::update"])
prop("C03", "Clusters are exactly the connected groups of overlapping outlines",
     "With aggregation on, after a refresh two obstacles are in the same cluster if and only if a chain of obstacles with pairwise overlapping planar outlines (margins included) connects them, in whatever order they were registered, named or moved, so no obstacle is lost, duplicated or attached to the wrong cluster when groups are discovered late and merged.",
     ["inputs", "histories"],
     "all sets of planar ellipses up to 12 obstacles, thin or round, in any registration order, after any history of moves",
     "tests use one hand-made configuration of three to seven boxes in one order",
     AGGF + ELL, [("incremental union of clusters with index renumbering", "Aggregation::aggregate_obstacles"), ("outline overlap test", "Ellipsoid::is_intersecting_ellipsoid")],
     ["Environment::update", "Environment::get_obstacle_list"])
prop("C04", "A refresh forgets history: same map, same behaviour as a fresh start",
     "After a refresh an environment cannot be told from a freshly started one that was given the same obstacles: same clusters, reference points, distances, normals, containment answers and commands everywhere. Refreshing an unchanged map again changes nothing.",
     ["histories", "crash_points", "fault_sequences"],
     "all histories (moves, joins, departures, mode switches, restarts) leading to a map",
     "each test builds one environment and uses it once, so state left over from earlier refreshes is never observable",
     ENVF + AGGF + HULL, [("rebuilt clusters", "Environment::update"), ("hull recomputation", "StarShapeHull::compute_from_primitives"), ("reference points given back", "Environment::update")],
     ["Environment::get_obstacle_list", "Modulation::modulate_velocity"])
prop("C05", "Clusters share one reference point and give it back on departure",
     "After a refresh every member of a cluster has the reference point of the cluster, which is the mean of the members' centres; moving the cluster's reference point moves it for all its members. An obstacle that leaves its cluster gets its own centre back as reference point at the next refresh, and nothing else ever changes the reference point its owner gave to an obstacle.",
     ["histories", "schedules"],
     "all histories in which obstacles move, join, leave, are removed, or aggregation is switched",
     "no test lets an obstacle leave a cluster",
     ENVF + AGGF, [("reference propagation", "Aggregate::set_reference_position"), ("mean of member positions", "Aggregate::add_primitive"), ("release", "Environment::update")],
     ["Obstacle::get_reference_position"])
prop("C06", "Running out of memory never leaves an environment half changed",
     "If an allocation fails inside a refresh, registration, removal, lookup or command, the failure reaches the caller and the registry, the published list, the geometry it answers with and the agent are as before the call, nothing is leaked, and the call succeeds when repeated with the result it would have had. Only the reference points of obstacles may be left unsettled until the next successful refresh.",
     ["fault_sequences", "histories"],
     "failure of any single allocation inside any of these calls, at any point of any history",
     "tests never fail an allocation",
     ENVF + AGGF + MOD, [("build the new list aside, then assign", "Environment::update"), ("RAII and shared_ptr ownership", "Aggregation::aggregate_obstacles")],
     ["Environment::update", "Environment::get_obstacle_list", "Environment::operator[]"])
prop("C07", "An agent that follows its commands never enters an obstacle",
     "An agent that starts outside and follows the commanded velocity in small steps never penetrates the margin-enlarged surface of an obstacle on its own, in the plane or in space, as long as obstacles stay apart from each other, whatever velocity it is asked to follow; this holds for off-centre reference points inside the obstacle, rounded-box shapes (integer curvature), and obstacles that translate and rotate with the velocities they report. At the surface the commanded velocity relative to the moving surface never points inwards.",
     ["schedules", "fault_sequences", "inputs"],
     "all start points, desired velocities (also corrupted or adversarial), tick jitter, retargeting, restarts and map changes away from the agent; obstacles that stay separated",
     "tests follow a handful of fixed trajectories with a fixed step and do not check the distance along them",
     MOD + ELL, [("zero eigenvalue along the normal at the surface", "Modulation::compute_diagonal_eigenvalues"), ("tangent basis", "Modulation::compute_basis_matrices"), ("moving frame", "Modulation::compute_relative_velocities"), ("distance and normal", "Ellipsoid::compute_distance_to_point / compute_normal_to_agent")],
     ["Modulation::modulate_velocity"])
prop("C08", "Agents reach their target once disturbances stop",
     "Among separated static obstacles, an agent that is sent to a target outside of them arrives within a bounded simulated time after the last disturbance (glitched velocities, displacement to another free place, also in contact with an obstacle, lost control periods, controller restarts, retargeting), in the plane and in space. It does not get stuck except on the measure-zero line behind an obstacle's reference point, which actuation noise leaves.",
     ["schedules", "fault_sequences"],
     "all disturbance sequences that end; targets and start points in free space",
     "tests print or plot the trajectory; whether it arrives is not asserted, and nothing is disturbed",
     MOD + ELL, [("full rank modulation with tangential gain", "Modulation::modulate_velocity"), ("weights", "Modulation::weight_obstacles")],
     ["Modulation::modulate_velocity"])
prop("C09", "With repulsion an agent caught inside an obstacle gets out",
     "An agent that finds itself inside a static obstacle on its own (localisation jump, obstacle dropped onto it, margin enlarged) and follows commands computed with repulsion leaves the obstacle within a bounded simulated time and stays out, unless it sits exactly on the reference point.",
     ["fault_sequences", "inputs"],
     "all positions inside the obstacle away from its centre, all desired velocities, speed limited by the actuator",
     "tests activate the option while the agent stays outside",
     MOD + ELL, [("push away from the reference point", "Obstacle::generate_repulsion"), ("repulsion vector", "Ellipsoid::compute_repulsion_vector")],
     ["Modulation::modulate_velocity"])
prop("C10", "Corrupted readings never yield a wild command and leave no trace",
     "With at least one obstacle published and global avoidance, the command is finite whatever was measured: infinite, undefined, huge or degenerate positions, velocities, orientations, sizes or margins of the agent or of obstacles give a finite (possibly null) command and never crash a refresh or a query. Once the readings are good again the commands are those of a system that never saw the bad ones.",
     ["fault_sequences", "histories", "inputs"],
     "all sequences of corrupted and good readings",
     "tests feed finite, well-scaled values only",
     MOD + ELL + AGT + HULL, [("final finiteness guard", "Modulation::modulate_velocity"), ("envelope recomputed from the state", "Agent::update_envelope")],
     ["Modulation::modulate_velocity", "Environment::update"])
prop("C11", "Free motion is untouched; local avoidance acts exactly when needed",
     "With nothing published the command is exactly the desired velocity. In local mode the command is exactly the desired velocity as long as the agent's look-ahead envelope overlaps no published obstacle, and exactly the command of global mode otherwise.",
     ["inputs", "histories"],
     "all agents and maps along arbitrary histories, including clusters",
     "one test compares one configuration of local mode",
     MOD + AGT + ELL, [("empty list shortcut", "Modulation::modulate_velocity"), ("envelope overlap test", "Obstacle::is_intersecting")],
     ["Modulation::modulate_velocity"])
prop("C12", "Queries are read-only and safe to interleave",
     "Computing commands (other than planar ones), distances, normals, containment, overlap or path queries and printing never change an environment, its obstacles or the agents, and threads that run them at the same time on a shared environment get the answers they would get alone, whatever the interleaving.",
     ["schedules"],
     "all interleavings, at basic block granularity, of queries of several threads over a shared environment",
     "tests are single threaded and do not compare objects before and after queries",
     MOD + ELL + HULL + AGT, [("const queries without shared scratch state", "all const member functions")],
     ["Modulation::modulate_velocity", "Obstacle queries", "Agent::exist_path", "Agent::in_obstacle"])
prop("C13", "Independent controllers do not influence each other",
     "Several controllers in one process, each with its own environment, obstacles and agents, behave exactly as if each ran alone, whatever the interleaving of their operations, including refreshes, commands in any mode, failures and restarts of some of them.",
     ["schedules", "fault_sequences"],
     "all interleavings, also inside of calls, of the operations of two or three controllers",
     "tests run one controller per process",
     ENVF + MOD + AGGF + HULL, [("no global mutable state", "whole library")],
     ["all public operations"])
prop("C14", "Copies of an agent are independent",
     "A copied, assigned or transformed agent has the state, margin and look-ahead envelope of its source at that moment, and afterwards no change of one of them (state, margin, destruction) is ever visible in the other.",
     ["histories"],
     "all histories of constructing, copying, assigning, transforming, changing and destroying agents",
     "tests never copy an agent and change the original",
     AGT, [("deep copy of the envelope", "Agent::Agent(const Agent&) / operator=")],
     ["Agent getters", "Agent::get_envelope"])
prop("C15", "The look-ahead envelope always matches the agent",
     "At every moment, whatever combination of constructors and setters produced the agent, its envelope is the ellipse that covers it: centred half a unit ahead of its position along its direction of motion, oriented along the horizontal direction of motion, half a unit plus m long and m wide where m is the safety margin or 0.1 if that is larger, and the disc of radius m around its position if it does not move.",
     ["histories", "inputs"],
     "all histories of agent operations",
     "tests do not look at the envelope",
     AGT, [("envelope recomputed by every constructor and setter", "Agent::update_envelope")],
     ["Agent::get_envelope"])
prop("C16", "Same history, same results, whatever the memory, clock or randomness",
     "A history of operations has one outcome: results do not depend on the former contents of memory, on the addresses at which objects are placed, on the time, on random numbers, or on whether the diagnostics stream accepts output.",
     ["histories", "configurations", "fault_sequences"],
     "all histories, replayed under different memory contents, address orders, clocks, random seeds and stream states",
     "a test run sees one memory layout; uninitialised or address-dependent values often look right",
     MOD + AGGF + HULL + ELL + ENVF, [("initialised members", "constructors"), ("name ordered containers", "Environment, Aggregate")],
     ["all public operations"])
prop("C17", "Moving the map frame moves everything with it",
     "If all poses and velocities known to the system (agent, obstacles, reference points, targets) are expressed in another map frame, that is rotated about the vertical and translated, the command is the same vector in the new frame, at any moment of a mission; for obstacles on their own this holds for any spatial rotation, for clusters for translations.",
     ["histories", "fault_sequences"],
     "all relocalisation jumps at any instant of any history",
     "tests use one frame",
     MOD + ELL + HULL, [("geometry in obstacle frames", "Ellipsoid, StarShapeHull"), ("frame free combination of directions", "Modulation::modulate_velocity")],
     ["Modulation::modulate_velocity"])
prop("C18", "Poses stay rigid over long missions",
     "Whatever orientations are reported (also badly normalised) and however many increments are composed, orientations of agents and obstacles stay unit length, a pose composed with its inverse is the identity, and undoing a sequence of moves in reverse order returns to the start.",
     ["histories", "inputs"],
     "histories of thousands of composed increments and set operations with unnormalised orientations",
     "tests compose two poses",
     POSE + AGT, [("normalisation at construction and assignment", "Pose constructors, Pose::set_orientation"), ("composition and inverse", "Pose::operator*=, Pose::inverse")],
     ["Pose", "Agent::transform", "Agent::transformed"])
prop("C19", "Plots show the situation faithfully and never disturb it",
     "A plot shows every published obstacle exactly once (clusters through each member), with a closed solid outline on its body and a dashed one on its margin, its name at its centre and its reference point, and shows the agent, the goal and the whole trajectory at their coordinates in the plane of the subplot; it is saved only under the requested name and shown only on request. Plotting changes neither the environment nor the agent, also when the plotting device fails half way.",
     ["fault_sequences", "histories", "inputs"],
     "all maps and trajectories, failure of any call of the plotting device",
     "tests draw but cannot look at the pictures, and the device never fails",
     ["src/Utils/Plotting/PlottingTools.cpp", "src/Obstacle/Ellipsoid.cpp", "src/Obstacle/Aggregate.cpp", "src/Obstacle/StarShapeHull.cpp"],
     [("outline sampling", "Ellipsoid::draw"), ("layout of the figure", "PlottingTools::plot_configuration")],
     ["calls received by the plotting device"])
prop("C20", "Every command follows the published modulation law",
     "At every control period the command equals the one prescribed by the published method for the current situation: each obstacle stretches motion along its surface by 1+1/d and shrinks motion along the reference direction by 1-1/d (d its distance value, 1 inside), in the frame of the surrounding motion fading with distance; several obstacles are combined by their distance weights, in magnitude and in angle; repulsion, critical distance, weight power and the vertical (planar) option act as documented. Clusters enter with the distance, normal and reference point they report and without velocity.",
     ["histories", "inputs", "schedules"],
     "every tick of every simulated mission, in any mode, with moving obstacles, clusters and lossy map updates",
     "tests check a few properties of single matrices and one velocity",
     MOD + ELL, [("modulation pipeline", "Modulation::modulate_velocity")],
     ["Modulation::modulate_velocity"])
prop("C21", "Situation queries agree with the geometry at every instant",
     "Along any history, the answers to 'is this point inside', 'do these overlap', 'is the agent in this obstacle', 'is this cluster closed' and 'does a path exist' agree with the current planar geometry of the obstacles (margins included): an agent is in an obstacle when the disc of its margin (at least 0.1) touches its outline, and no path exists exactly when a closed obstacle contains one of agent and target but not the other.",
     ["histories", "inputs"],
     "all situations reached by moving obstacles, agents and targets, for single obstacles and clusters",
     "tests ask two or three questions in fixed configurations",
     AGT + ELL + HULL + AGGF, [("containment and overlap", "Ellipsoid::point_is_inside, is_intersecting_ellipsoid"), ("path test", "Agent::exist_path, in_obstacle"), ("closedness", "StarShapeHull::is_closed")],
     ["Agent::exist_path", "Agent::in_obstacle", "Obstacle::is_intersecting", "Obstacle::point_is_inside", "Obstacle::is_closed"])
prop("C22", "Vertical avoidance never deflects sideways",
     "With the vertical (planar) option, when all published obstacles are static, upright, on their own and crossed by the line of the desired heading, the command stays in the vertical plane of the heading, so the agent flies over or under them: it stays in that plane for the whole mission and does not penetrate the obstacles.",
     ["schedules", "fault_sequences", "inputs"],
     "all missions with tick jitter, glitches along the heading and obstacles that come and go on the line",
     "the test draws one 3D scene and asserts nothing",
     MOD + ["src/Obstacle/Obstacle.cpp", "src/Obstacle/Ellipsoid.cpp"], [("reference point moved to the middle of the crossed chord", "Obstacle::shift_reference_point"), ("line intersection", "Ellipsoid::compute_interesection_points")],
     ["Modulation::modulate_velocity", "Obstacle::get_reference_position"])
prop("C23", "The surface of a cluster follows its members",
     "After each refresh the surface of a cluster lies, in each direction from its reference point in which the members' outlines are smooth, at the farthest crossing of a member's outline (margins included, at least 0.5): distance is the ratio to it outside, and the ratio of the nearest crossing to the own radius inside; containment follows it and the normal is perpendicular to it and has unit length. It does not matter in which order or through which calls the cluster was built.",
     ["histories", "inputs"],
     "all clusters of planar ellipses after any history of moves",
     "tests compute one hull and do not compare it with the members",
     AGGF + HULL + ELL, [("radial sampling with smoothing", "StarShapeHull::compute_from_primitives"), ("lookup by angle", "MathTools::find_closest_points")],
     ["Obstacle::compute_distance_to_point", "Obstacle::compute_normal_to_agent", "Obstacle::point_is_inside"])
prop("C24", "Diagnostics print the true state and survive a failing stream",
     "Printing a pose, state, agent, obstacle or cluster writes the current name, position, orientation, velocities, reference point, margins and sizes of exactly the object and, for a cluster, of each member once; it returns the stream it was given, never changes the object, and a stream that fails or throws after any number of characters leaves everything as it was and later prints complete.",
     ["fault_sequences", "histories"],
     "all objects along histories, stream failure after any number of characters",
     "tests print to the console and do not read it",
     ["include/DynamicObstacleAvoidance/State/Pose.hpp", "include/DynamicObstacleAvoidance/State/State.hpp", "include/DynamicObstacleAvoidance/Agent.hpp", "include/DynamicObstacleAvoidance/Obstacle/Obstacle.hpp", "include/DynamicObstacleAvoidance/Obstacle/Ellipsoid.hpp", "include/DynamicObstacleAvoidance/Obstacle/Aggregate.hpp"],
     [("stream operators", "operator<<, Obstacle::print")], ["operator<<"])
# pure functions: listed, not claimed
prop("C25", "Grid, interpolation and polar helpers are exact",
     "Evenly spaced ranges contain their two ends and have equal steps, grids enumerate every combination once, conversion to polar coordinates and back is the identity away from the poles, and sorting columns by angle is a permutation.",
     ["inputs"], "all finite arguments", "the helpers are hardly tested", ["src/Utils/MathTools.cpp"], [("helpers", "MathTools")], ["MathTools"])
prop("C26", "Obstacle weights are convex and favour close obstacles",
     "The weights of a set of distances are non-negative, sum to one, decrease with the distance and are shared equally among the obstacles within the critical distance.",
     ["inputs"], "all vectors of distances", "one test checks three vectors", ["src/Modulation.cpp"], [("weights", "Modulation::weight_obstacles")], ["Modulation::weight_obstacles"])
prop("C27", "The surface area estimate of an ellipsoid is Knud Thomsen's formula",
     "The area reported for an ellipsoid is within two percent of its true surface area and does not depend on the order of its axes.",
     ["inputs"], "all axis lengths and margins", "no test calls it", ["src/Obstacle/Ellipsoid.cpp"], [("area", "Ellipsoid::area")], ["Ellipsoid::area"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))

#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line). Edit here, run, commit both."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files, "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                  "mechanism": [dict(name=a, where=b) for a, b in mech],
                  "observe_at": list(observe), "hook_needed": None}})
I = "include/DynamicObstacleAvoidance/"

prop("C01", "Poses are rigid transformations under any history",
 "Whatever sequence of construction, assignment, setting, composition and inversion produced it, a pose is a rigid motion: its orientation is a unit quaternion equal to the rotation that was given, it maps a point by rotating and then translating it, and it preserves distances. Composing two poses (in place or not, also with itself) acts on points like applying the right one and then the left one, composition is associative, and a pose composed with its inverse is the identity. Values set on poses, states and obstacles are read back unchanged and changing one field changes no other.",
 ["inputs", "histories"], "all positions, all non-zero quaternions (any norm, either sign) and all histories of up to some hundred pose operations",
 "Five unit tests multiply or invert two fixed poses; none constructs from a non-unit quaternion, chains operations, or checks the action on points.",
 ["src/State/Pose.cpp", I + "State/Pose.hpp", I + "State/State.hpp", "src/State/State.cpp"],
 [("normalisation on construction and in the orientation setter", "src/State/Pose.cpp, Pose.hpp"), ("operator*=, operator*, inverse", I + "State/Pose.hpp")],
 [("position, orientation", "translation and unit quaternion", "Pose")], ["Pose getters and operators"])

prop("C02", "Ellipsoid distance and normal describe the inflated surface",
 "For an ellipsoid with any pose, axis lengths, per-axis safety margin and positive integer curvature factors, the reported distance of a point is the sum over the axes of (local coordinate / (axis length + margins)) to the power twice the curvature factor, an axis of (near-)zero inflated length (1e-4 or less) counting as length one: 1 on the surface, below 1 inside, above 1 outside. The normal reported for an agent is the unit outward gradient direction of that same level function at the agent, in the obstacle's frame. A margin given to the query or carried by the agent inflates the obstacle exactly as the same margin on the obstacle would.",
 ["inputs", "configurations"], "all ellipsoid poses, lengths, margins, curvature factors and query points",
 "Six tests use a unit sphere with identity orientation, no margin and curvature one.",
 ["src/Obstacle/Ellipsoid.cpp", "src/Obstacle/Obstacle.cpp"],
 [("compute_distance_to_point", "src/Obstacle/Ellipsoid.cpp"), ("compute_normal_to_agent", "src/Obstacle/Ellipsoid.cpp"), ("compute_distance_to_agent", "src/Obstacle/Obstacle.cpp")],
 [], ["distance and normal queries"])

prop("C03", "Plan-view footprint: containment, contour, line crossings, area",
 "In plan view an ellipsoid obstacle (rotated about the vertical axis) is the closed ellipse given by its position, yaw and axis lengths plus safety margin: a point is reported inside exactly when it lies in that ellipse, and the contour samples lie on the ellipse's boundary (with or without the margin, as asked) and go once round it in equal parameter steps. A line through two distinct points, in any direction, is reported to cross the obstacle exactly when it meets the ellipse, and then the two returned points are the boundary points of the line. The reported area is the ellipsoid's surface area to within 1.5 percent.",
 ["inputs", "configurations"], "all yaw angles, axis lengths, margins, query points and line directions, including lines parallel to the obstacle's axes",
 "Containment, sampling and line crossing are only exercised indirectly, on a handful of intersection examples; area is never called.",
 ["src/Obstacle/Ellipsoid.cpp"],
 [("point_is_inside", "src/Obstacle/Ellipsoid.cpp"), ("sample_from_parameterization", "src/Obstacle/Ellipsoid.cpp"), ("compute_interesection_points", "src/Obstacle/Ellipsoid.cpp"), ("area", "src/Obstacle/Ellipsoid.cpp")],
 [], ["query results"])

prop("C04", "Intersection tests are sound, symmetric and complete to resolution",
 "Two obstacles are reported as intersecting only if their plan-view footprints (margins included) really overlap, always if one contains the other's centre or if a contiguous stretch of more than one ninetieth of the contour of either (in its parameter) lies inside the other, and the answer does not depend on which of the two is asked. An aggregate intersects something exactly when one of its members does, a list is intersected exactly when one of its elements is, and obstacles without a footprint (base class, bare hulls) intersect nothing. An agent is reported in an obstacle under the same rule applied to the disc of its safety margin (at least 0.1) around it.",
 ["inputs", "configurations"], "all pairs of ellipsoids (size ratios up to 100), ellipsoid/aggregate pairs in both orders, lists, and agents",
 "Five fixed pairs of similar size are tested; no aggregate, list or agent query is.",
 ["src/Obstacle/Ellipsoid.cpp", "src/Obstacle/Obstacle.cpp", "src/Agent.cpp"],
 [("is_intersecting dispatch by type", "src/Obstacle/Obstacle.cpp"), ("is_intersecting_ellipsoid", "src/Obstacle/Ellipsoid.cpp"), ("in_obstacle", "src/Agent.cpp")],
 [], ["is_intersecting, in_obstacle"])

prop("C05", "Aggregation partitions the obstacles by chains of intersection",
 "Aggregating a list of obstacles returns every given obstacle exactly once, either alone (the very same object) or as a member of exactly one aggregate, and two obstacles are in the same aggregate exactly when a chain of pairwise intersecting obstacles links them; no aggregate has fewer than two members. The grouping is the same for every order of the list. Each aggregate keeps its members sorted by name, is named after them, sits at the mean of their positions, and it and all its members have that point as reference point; obstacles that stay alone are not modified. An aggregate put together by hand, from a list or member by member in any order, is the same one, and its members follow its reference point when that is set.",
 ["inputs", "histories"], "all intersection graphs on up to a dozen obstacles and all list orders (merges of several aggregates, chains, stars, isolated obstacles)",
 "One test aggregates two circles, then three; the code that merges two existing aggregates is only run by an example without assertions.",
 ["src/Utils/ObstacleGeneration/Aggregation.cpp", "src/Obstacle/Aggregate.cpp"],
 [("aggregate_obstacles", "src/Utils/ObstacleGeneration/Aggregation.cpp"), ("add_primitive", "src/Obstacle/Aggregate.cpp")],
 [("aggregate_indexes", "which aggregate each obstacle belongs to", "Aggregation.cpp")], ["the returned list, Aggregate::get_primitives"])

prop("C06", "The environment is a faithful registry with snapshot updates",
 "Over any history of adding, removing, moving, looking up, toggling aggregation and updating, looking up a registered name gives exactly the object added under it, adding a taken name and removing or looking up an unknown name raise the dedicated already-exists / not-in-environment error naming the obstacle and change nothing. The obstacle list changes only at an update, when it becomes exactly the registered obstacles (grouped into aggregates if and only if aggregation is on), each present once; aggregates are found by name only while aggregation is on. The environment never destroys or copies a user's obstacle and keeps no hold on one that was removed, once updated.",
 ["histories"], "all histories of registry operations over a small set of names, with aggregation on, off or toggled",
 "Three tests follow single scripted histories without a failing operation.",
 ["src/Environment.cpp", I + "Environment.hpp"],
 [("obstacle_map and obstacle_list", "src/Environment.cpp"), ("Exceptions", I + "Exceptions")],
 [("obstacle_map", "registered obstacles by name", "Environment"), ("obstacle_list", "list computed by the last update", "Environment")], ["operator[], get_obstacle_list, exceptions"])

prop("C07", "Hull surfaces follow their primitives in every direction",
 "In the horizontal plane of its primitives, the surface of a star-shaped hull lies, in every direction around its reference point including across the +/-180 degree seam, at the farthest (outer hull) or nearest (inner hull) boundary point of its primitives along the ray in that direction, never nearer than the minimum radius, up to the angular resolution and the slight smoothing between neighbouring samples. It depends only on where the current primitives are and on the reference point (by default the mean of their positions), not on earlier computations, the hull's own orientation or the primitives' reference points. Containment, distance (1 on the surface), normal (unit, perpendicular to the surface) and closedness agree with that surface, and an aggregate answers with its inner hull inside and its outer hull outside, a point being inside when it is within the outer hull or any member.",
 ["inputs", "histories", "configurations"], "all sets of primitives, reference points, hull kinds, resolutions, directions, and histories of recomputation",
 "No test queries a hull; one test looks at an aggregate's reference point.",
 ["src/Obstacle/StarShapeHull.cpp", "src/Obstacle/Aggregate.cpp", "src/Utils/MathTools.cpp"],
 [("compute_from_primitives", "src/Obstacle/StarShapeHull.cpp"), ("find_closest_points", "src/Utils/MathTools.cpp"), ("inner/outer selection", "src/Obstacle/Aggregate.cpp")],
 [("polar_surface_points", "sampled radius per direction", "StarShapeHull")], ["distance, containment, normal, is_closed of hulls and aggregates"])

prop("C08", "Agent look-ahead region follows the state; agents are independent values",
 "At every moment the agent's look-ahead region is determined by its current position, linear velocity and safety margin alone, however the agent got there: a horizontal ellipse centred half a unit ahead of the agent in its direction of motion (on the agent when it stands still), turned to its planar heading, its reference point at its centre, with half-axes of that offset plus m along it and m across, m being the safety margin but at least 0.1. Copying, assigning or transforming an agent gives an agent with the same state, margin and region that shares nothing with the original, so that later changes to either never show in the other. Transforming an agent composes its pose with the transformation on the left and keeps velocities and margin.",
 ["histories", "inputs"], "all histories of setters, copies, assignments and transformations",
 "No test reads the region or copies an agent.",
 ["src/Agent.cpp", I + "Agent.hpp"],
 [("update_envelope called by every setter", "src/Agent.cpp, Agent.hpp"), ("copy constructor", "src/Agent.cpp")],
 [("envelope", "look-ahead ellipsoid", "Agent")], ["get_envelope, getters, transformed"])

prop("C09", "A path is denied exactly when a closed obstacle separates agent and target",
 "A free path to a target is reported as missing exactly when some closed obstacle contains exactly one of the agent's position and the target. Ellipsoids are always closed; an aggregate is closed exactly when its outer hull has no gap, i.e. is farther than the minimum radius in every direction. The answer is therefore symmetric in agent and target, never becomes positive by adding obstacles, does not depend on their order, and is positive for an empty list.",
 ["inputs", "configurations"], "all positions, targets and lists of ellipsoids and (open or closed) aggregates",
 "No test calls it with a result check.",
 ["src/Agent.cpp", "src/Obstacle/Aggregate.cpp", "src/Obstacle/StarShapeHull.cpp"],
 [("exist_path", "src/Agent.cpp"), ("is_closed", "src/Obstacle/StarShapeHull.cpp")], [], ["exist_path"])

prop("C10", "Obstacle weights form a distance-ordered partition of unity",
 "The weights given to obstacles are non-negative, sum to one and are listed in the order of the distances. If any distance is at or below the critical distance, exactly those obstacles share the weight equally and all others get zero; otherwise the weights are proportional to (distance - critical distance) to the power minus the weight power. Hence reordering obstacles reorders their weights, equal distances get equal weights and a nearer obstacle never weighs less.",
 ["inputs"], "all finite distance vectors, critical distances and positive weight powers",
 "Three fixed five-element vectors with one critical distance and power.",
 ["src/Modulation.cpp"], [("weight_obstacles", "src/Modulation.cpp")], [], ["weight_obstacles"])

prop("C11", "The modulation matrix has the prescribed eigenstructure",
 "For any obstacle and agent position off the reference point, the modulation matrix scales the direction from the obstacle's reference point to the agent by 1-1/d and every direction tangent to the obstacle's level surface at the agent by 1+1/d, where d is the obstacle's distance value, with 0 and 2 for every d up to 1; it does so in world coordinates for every obstacle orientation, and d is returned with it. The eigenvalues alone obey the same formula with d raised to 1 over the reactivity factor, so that they move monotonically and continuously from 0 and 2 to 1 as d grows. The obstacle's local basis is orthonormal and right-angled to the surface: its first vector is the surface normal.",
 ["inputs", "configurations"], "all ellipsoids (pose in 3D, lengths, margins, curvature, reference point inside) and agents, and aggregates in the plane",
 "Two tests check the matrices for a unit sphere, where normal and reference direction coincide.",
 ["src/Modulation.cpp"], [("compute_modulation_matrix", "src/Modulation.cpp"), ("compute_basis_matrices", "src/Modulation.cpp"), ("compute_diagonal_eigenvalues", "src/Modulation.cpp")], [], ["the three functions"])

prop("C12", "No velocity into an obstacle at its surface",
 "For an agent on the inflated surface of an ellipsoid that does not overlap another one, the modulated velocity has no component into the obstacle relative to the obstacle's own motion at that point (linear and angular velocity), whatever the desired velocity, the other obstacles, their motion and the reference point inside the obstacle; without repulsion the component along the normal is zero. This holds in the plane and in space, for every orientation, margin, curvature and with planar modulation on.",
 ["inputs", "configurations"], "all surface points of all ellipsoids (2D and 3D, moving, rotating), desired velocities and surrounding obstacles",
 "The only test of the modulated velocity fails at this commit and covers one configuration of unit spheres.",
 ["src/Modulation.cpp", "src/Obstacle/Ellipsoid.cpp"], [("zero eigenvalue along the reference direction, tangential basis, critical weights, relative velocities", "src/Modulation.cpp")], [], ["modulate_velocity"])

prop("C13", "Without obstacles near, the desired velocity is kept",
 "With no obstacle in the environment's list, or in local mode with no obstacle intersecting the agent's look-ahead region, the modulated velocity equals the desired velocity exactly; local mode otherwise changes nothing. With static obstacles the deviation from the desired velocity is bounded by a constant times the desired speed over the smallest distance value, so it vanishes far away. Outside all obstacles a non-zero desired velocity with static obstacles never yields a zero velocity, and a zero one yields zero.",
 ["inputs", "configurations"], "all agents and environments, near and far",
 "Not tested at all.",
 ["src/Modulation.cpp"], [("early returns and eigenvalues tending to one", "src/Modulation.cpp")], [], ["modulate_velocity"])

prop("C14", "Modulation is independent of frame, units, order and names",
 "Moving the whole scene (agent, obstacles, reference points and all velocities) by a rigid motion moves the modulated velocity by the same rotation, mirroring the scene mirrors it, scaling all lengths together leaves it unchanged for static obstacles, and scaling all velocities scales it. Renaming obstacles, adding them in another order, or, while the agent is at or inside some obstacle, adding further obstacles farther than the critical distance does not change it. Giving the agent and all obstacles the same additional velocity adds exactly that velocity to the result when the agent is on an obstacle's surface.",
 ["inputs", "configurations"], "all scenes of static or moving ellipsoids in space and all transformations",
 "A unit test fixes one frame; a relation between two runs is never tested.",
 ["src/Modulation.cpp", "src/State/Pose.cpp", "src/Obstacle/Ellipsoid.cpp"], [("computation in obstacle frames and mapping back", "src/Modulation.cpp")], [], ["modulate_velocity"])

prop("C15", "Several obstacles are blended in magnitude and direction",
 "With any number of obstacles the modulated velocity relative to the obstacles' blended velocity has the weighted mean of the speeds that each obstacle's own modulation matrix would give, and the direction obtained by averaging, with the same weights, the rotation each of them applies to the relative velocity (angle and axis around the direction of motion). The obstacles' blended velocity is the weighted sum of each obstacle's velocity at the agent (linear plus angular part), damped by exp(-(d-1)) beyond its surface, and is subtracted before and added back after. With one obstacle this is just the modulation matrix applied to the relative velocity.",
 ["inputs", "configurations"], "all scenes of up to a dozen static or moving ellipsoids or aggregates, in the plane and in space, all weight powers and critical distances",
 "The one test of it fails at this commit (it never updates the environment).",
 ["src/Modulation.cpp"], [("modulate_velocity, compute_relative_velocities", "src/Modulation.cpp")], [], ["modulate_velocity, compute_relative_velocities"])

prop("C16", "Repulsion pushes out near obstacles and is absent elsewhere",
 "The repulsion of an obstacle is zero when the agent's distance value is at or above the threshold; below it, an ellipsoid pushes the agent straight away from its reference point with strength 2/d times the agent's offset from it, and an aggregate with 20/d, towards its reference point when the agent is inside and away from it otherwise. With repulsion requested, the modulated velocity is the one without it plus the sum of all obstacles' repulsions at threshold 1.1; without the request no repulsion is added.",
 ["inputs", "configurations"], "all obstacles, margins, thresholds and agents inside, at, near or far from the surface",
 "Never asserted.",
 ["src/Obstacle/Obstacle.cpp", "src/Obstacle/Ellipsoid.cpp", "src/Obstacle/Aggregate.cpp", "src/Modulation.cpp"], [("generate_repulsion, compute_repulsion_vector", "src/Obstacle"), ("add_repulsion", "src/Modulation.cpp")], [], ["generate_repulsion, modulate_velocity"])

prop("C17", "Planar modulation moves reference points to the middle of the path's chord",
 "Planar modulation (and shifting a reference point directly) sets the reference point of each ellipsoid whose plan-view footprint is met by the straight line along the agent's heading to the middle of the chord that line cuts, at the obstacle's height, for every heading direction; hence the reference point stays inside the obstacle. Obstacles not met by the line, and all obstacles when the agent has no planar heading, keep theirs. Nothing else about the obstacles changes, and without planar modulation computing a velocity changes no obstacle at all.",
 ["inputs", "configurations", "histories"], "all ellipsoids, agents and headings, including headings along the obstacle's axes",
 "Only run by an example without assertions.",
 ["src/Obstacle/Obstacle.cpp", "src/Obstacle/Ellipsoid.cpp", "src/Modulation.cpp"], [("shift_reference_point", "src/Obstacle/Obstacle.cpp"), ("compute_interesection_points", "src/Obstacle/Ellipsoid.cpp")], [], ["get_reference_position before and after"])

prop("C18", "Results are determined by the inputs and finite",
 "Every value that the library returns or lets a user read back is a function of the values the user supplied: no result depends on uninitialised memory, for any way of constructing the objects and also for the base-class default answers. For finite inputs the modulated velocity is always finite, including degenerate situations (zero or vertical velocity, agent at an obstacle's centre or reference point, flat obstacles, coinciding obstacles); it is zero where no direction is defined, exactly at an obstacle's reference point. Running the same program twice gives bit-identical results.",
 ["inputs", "configurations", "histories"], "all constructors, queries and degenerate configurations",
 "A test prints an uninitialised reference point and still passes.",
 ["src/Obstacle/Obstacle.cpp", "src/Modulation.cpp", "src/Obstacle/StarShapeHull.cpp"], [("member initialisation", "src/Obstacle/Obstacle.cpp"), ("final guard against non-numbers", "src/Modulation.cpp")], [], ["all query results"])

prop("C19", "Memory-safe and leak-free under any API history",
 "No sequence of valid calls (constructing, copying, assigning, destroying agents, obstacles, hulls, aggregates and environments, also through base-class pointers, querying them at any point and in any direction, printing them) reads or writes outside live objects, triggers undefined behaviour, violates a library assertion or terminates the process. After all objects of a history are gone, all memory they allocated is released. Invalid arguments (fewer than two samples) raise a standard exception that can be caught as such.",
 ["histories", "inputs"], "all histories of API calls, including queries exactly on axes and seams",
 "Tests run without sanitizers and touch few calls, in one order.",
 ["src", "include"], [("value types, shared pointers, Eigen containers", "src")], [], ["sanitizer reports, allocation balance"])

prop("C20", "Queries are pure and safe to run concurrently",
 "Queries and non-planar modulation leave agents, obstacles and environments unchanged and return bit-identical results when repeated, whatever other queries on other objects ran in between. Any number of threads may run them at the same time on shared agents and environments without data races, and each gets the result of a sequential run. Threads that update disjoint environments and agents do not affect each other.",
 ["schedules", "histories"], "all interleavings of concurrent read-only queries and of operations on disjoint objects",
 "No test uses threads or repeats a query.",
 ["src/Modulation.cpp", "src/Obstacle", "src/Utils/MathTools.cpp"], [("no shared mutable state", "src")], [], ["ThreadSanitizer reports, result comparison"])

prop("C21", "Numeric utilities keep their contracts",
 "A linear space of n points starts and ends exactly at its bounds and is evenly spaced; a grid is the full product of its two axes, first axis slowest; fewer than two points is refused. Polar and Cartesian coordinates convert back and forth without loss for every vector including zero, with radius equal to the length, inclination in [0, pi] and azimuth in (-pi, pi]. Random floats stay between their bounds and spread over the whole range; sorting columns by the second row permutes the columns into ascending order; the nearest-sample search returns the first sample at or after the value, wrapping round to the first one past the last, and its cyclic successor, always valid indices; sign is -1, 0 or 1.",
 ["inputs"], "all finite inputs and sizes",
 "No test checks any of them.",
 ["src/Utils/MathTools.cpp", I + "Utils/MathTools.hpp"], [("the functions themselves", "src/Utils/MathTools.cpp")], [], ["return values"])

prop("C22", "Plots show the true geometry",
 "Drawing an ellipsoid (of curvature factor one) in a colour and plane (xy or xz) plots, in that colour, its contour without (solid) and with (dashed) the safety margin: closed curves going once round the section of the respective surface by its local xy or xz plane; and its name, or its centre if it has none, at its position, and its reference point, nothing else. Drawing a hull plots its surface, drawing an aggregate every member and both hulls (in the xz plane seen edge-on). Plotting a configuration draws every obstacle of the list once per panel, each in one colour and any six consecutive ones in different colours, the agent at its position and the goal and every trajectory point in order, in the coordinates of the panel's plane, showing -10 to 10 along both axes (to 20 to the right in the single-panel guard view), the xy panel above the xz panel when both are asked for, saves under the requested file name exactly when one is given, and shows the figure exactly when asked.",
 ["inputs", "configurations"], "all obstacles, agents, trajectories and plot options",
 "Examples draw pictures that nothing looks at.",
 ["src/Utils/Plotting/PlottingTools.cpp", "src/Obstacle/Ellipsoid.cpp", "src/Obstacle/StarShapeHull.cpp", "src/Obstacle/Aggregate.cpp"], [("draw functions and plot_configuration", "src/Utils/Plotting/PlottingTools.cpp")], [], ["calls received by the plotting backend"])

prop("C23", "Closed-loop motion avoids obstacles and reaches the goal",
 "An agent that follows the modulated velocity (of the global mode) in small time steps towards a goal never enters a static or moving ellipsoid by more than the discretisation (distance value below 0.98 at steps of 2 ms and speeds near 1), also among several disjoint ones, in the plane and in space, with and without repulsion and planar modulation. With one static convex obstacle and a goal outside it, without planar modulation, the agent gets near the goal (0.05) within a bounded time (60 s for distances up to 25), unless it starts on the line that heads exactly for the obstacle's reference point. Inside a closed aggregate of walls it never gets through a wall, with or without repulsion. Round a cluster of overlapping static ellipses that all contain its reference point (a star-shaped aggregate) it also gets to the goal without entering the outline by more than a twentieth, unless it heads within 18 degrees of straight through the reference point.",
 ["histories", "inputs"], "all start positions, goals, obstacle scenes and motions, over whole trajectories",
 "One example runs a loop without assertions (and without updating the environment, so without obstacles).",
 ["src/Modulation.cpp", "src/Obstacle", "src/Agent.cpp", "src/Environment.cpp"], [("the whole control loop", "src")], [], ["the trajectory"])

prop("C24", "Printed descriptions tell exactly what an object holds",
 "Printing a pose, state, agent, obstacle, ellipsoid, hull or aggregate to a stream writes all it holds, each value once, labelled and in a fixed order: position, orientation quaternion followed by the same rotation as angle and unit axis, velocities, and then reference point and safety margin, axis lengths and curvature factors where it has them, headed by type (Ellipsoid, StarShapeHull, Aggregate; none for a base obstacle) and name; an aggregate is followed by the full description of every member in its order. It prints the current values as the stream's precision says, through a base-class reference too, changes neither the object nor the stream's format, and returns the same stream.",
 ["inputs", "histories"], "all contents, after any setters, with any stream precision",
 "A test prints objects and looks at nothing.",
 [I + "State/Pose.hpp", I + "State/State.hpp", I + "Agent.hpp", I + "Obstacle/Obstacle.hpp", I + "Obstacle/Ellipsoid.hpp", I + "Obstacle/Aggregate.hpp"], [("operator<< and print", I + "Obstacle")], [], ["the printed text"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), max(len(p["title"]) for p in P))

#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below and checks.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from checks import CHECKS

P = []


def prop(id, title, statement, over, qtext, why, files, mech, note):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        rec=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                 anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech])),
        note=note))


A = 'planner/src/algo/'
U = 'planner/src/utils/'
S = 'planner/src/state_validator/'
G = 'planner/src/geometry/'
PA = 'planner/src/paths/'

prop('C01', 'A* returns a cheapest path whenever one exists, and reports failure otherwise',
     'For every finite graph with non-negative edge costs, start, goal and heuristic that never overestimates (consistent, for the graph-search variant), '
     'a search succeeds exactly when the goal is reachable, and the returned path starts at the start, ends at the goal, follows edges of the graph, and its reported cost is the sum of its edges and the minimum over all paths. '
     'A planner object can be searched again any number of times, with other starts and goals, and each answer is as if it came from a fresh object; after an initialisation that was refused (a missing propagator or heuristic) searches fail. '
     'The expanded states are reported in an order and with path costs consistent with best-first search (each explored state is reported with a parent chain whose costs add up).',
     ['inputs', 'histories'], 'all graphs, costs, heuristics, start/goal pairs, and sequences of searches on one planner object',
     'The unit tests search one 2-D lattice with one start and goal; they never compare with an independent shortest path, use parallel edges, unreachable goals, ties or repeated searches.',
     [A + 'a_star.h', A + 'path_planner.h', U + 'frontier.h', U + 'node.h'],
     [('best-first expansion and replacement of a worse frontier node', A + 'a_star.h'), ('ordered frontier with lookup', U + 'frontier.h')],
     'Design models AStarMC explore every graph over 3-4 nodes with small costs; conformance replays thousands of searches of the real planner event by event against the specification, with the reachable set and optimal cost computed by TLC.')

prop('C02', 'Bidirectional A* returns a cheapest path whenever one exists',
     'For every finite graph with non-negative edge costs, start, goal and balanced pair of heuristics (the averaged pair or zero), a bidirectional search succeeds exactly when the goal is reachable. '
     'The returned path starts at the start, ends at the goal, follows edges of the graph with no state repeated at the meeting point, and its reported cost is the sum of its edges and the minimum over all paths. '
     'The averaged heuristics of the two directions are half the difference of the given ones plus a constant that makes each zero at the end it searches for, so that they add up to the same value at every state, and are derived from the start and goal of the current search, so that a planner object can be searched again with other start and goal; after an initialisation that was refused searches fail.',
     ['inputs', 'histories'], 'all graphs, costs, heuristic pairs, start/goal pairs, and sequences of searches on one planner object',
     'The unit test runs one lattice search; the stop criterion is only wrong on graphs where the first meeting is not on a shortest path.',
     [A + 'bidirectional_a_star.h', A + 'a_star.h', A + 'heuristics.h'],
     [('stop criterion over both frontiers', A + 'bidirectional_a_star.h'), ('averaged heuristics', A + 'bidirectional_a_star.h')],
     'Design models BiAStarMC explore every small graph and every interleaving of the two directions; conformance replays real searches.')

prop('C03', 'The search frontier behaves as a priority queue with keyed lookup',
     'After any history of push, pop, remove, find, clear and iteration, the frontier holds exactly the elements pushed and not removed since. '
     'The element on top is always a least one under the ordering, popping returns it and removes just it, and lookup finds an element exactly when an element equal to the key is stored. '
     'Removing by key or by handle removes only elements equal to that key, and reports size and emptiness that match the content.',
     ['histories'], 'all sequences of operations, element types, orderings and hash functions, including equal priorities and hash collisions',
     'The unit test performs a handful of pushes and pops on integers; sequences mixing removal, duplicates and collisions are not sampled.',
     [U + 'frontier.h'], [('ordered multiset plus hash index kept in step', U + 'frontier.h')],
     'FrontierMC explores every history on a small universe; conformance replays long random histories and compares the full content after each step.')

prop('C04', 'Grid planning finds shortest free paths and only them',
     'On every occupancy grid, planning between two free cells succeeds exactly when they are connected through free cells by moves to the eight neighbours. '
     'The returned path visits only free cells inside the grid, moves between neighbours only, and has minimum cost, counted with the documented cost of straight and diagonal moves. '
     'Planning again after the map changed, in the same planner, takes the change into account.',
     ['inputs', 'histories'], 'all grids, start/goal cells, and interleavings of map edits and plans',
     'There is no unit test for the grid planner on a map with obstacles.',
     [A + 'a_star_n2.h', A + 'a_star_n2.cpp', S + 'obstacle_list_occupancy_map.cpp'],
     [('neighbour generation and validity filter', A + 'a_star_n2.cpp')],
     'GridPlanMC explores every small grid; conformance replays real plans with the optimum recomputed by TLC.')

prop('C05', 'The occupancy map is always the union of the obstacles it contains',
     'After any history of adding, removing and moving obstacles, a cell is occupied exactly when it is covered by an obstacle that was added and not removed since, with the shape and pose it had when it was added. '
     'Adding an obstacle twice or removing one that is not there changes nothing and reports failure; obstacles that overlap, share cells, or lie partly or entirely outside of the map are handled alike. '
     'Every cell reports an obstacle that really covers it.',
     ['histories'], 'all sequences of additions, removals and moves of overlapping obstacles',
     'No unit test edits an occupancy map.',
     [S + 'obstacle_list_occupancy_map.h', S + 'obstacle_list_occupancy_map.cpp', S + 'occupancy_map.h', S + 'occupancy_map.cpp', S + 'obstacle.cpp'],
     [('cells recorded per obstacle and restored on removal', S + 'obstacle_list_occupancy_map.cpp')],
     'OccupancyMC explores every history of three overlapping obstacles; conformance replays random histories on the real map.')

prop('C06', 'The obstacle distance map equals the distance to the nearest obstacle cell',
     'After any history of occupying and freeing cells followed by an update, each cell reports its Euclidean distance to the nearest occupied cell and which cell that is, and a map without obstacle reports an infinite (maximal) distance. '
     'The result depends only on the current set of occupied cells, not on the order in which they were occupied, freed or updated. '
     'On maps larger than 12 cells a side the reported distance may exceed the true one by less than a quarter of a cell, and is never below it.',
     ['histories', 'inputs'], 'all sequences of cell updates and incremental updates',
     'No unit test covers the incremental distance transform; its errors appear only after particular raise/lower wave interactions.',
     [S + 'gvd.h', S + 'gvd.cpp'], [('raise and lower brushfire waves', S + 'gvd.cpp')],
     'BrushfireMC explores every history on 2x3 (quick) to 3x3/2x4 grids and every processing order of the waves; conformance compares the whole map with the exact distance after every update.')

prop('C07', 'Rasterised shapes cover their outline, inside the map only',
     'The outline of an obstacle is its shape (polygon, rectangle, regular polygon or circle) rotated by its heading and moved to its position, and the cells it lists form a closed line without gap (8-connected) through the cells of consecutive vertices, every listed cell being on that line up to one cell. '
     'Cells outside the map are never listed, and the part of the outline inside the map is complete even when the shape is partly outside. '
     'A composite lists exactly the cells of its parts.',
     ['inputs'], 'all shapes, sizes, poses and map frames',
     'No unit test rasterises a shape.',
     [S + 'obstacle.h', S + 'obstacle.cpp', S + 'occupancy_map.cpp'], [('line rasterisation between transformed vertices', S + 'obstacle.cpp')],
     'RasterMC checks the line algorithm for every pair of cells up to 7x7 (10x10 thorough); conformance compares the cells of real shapes with the outline computed in the specification.')

prop('C08', 'World, local and grid coordinates convert consistently',
     'Converting a cell to a position and back yields the same cell, and every position inside the map lies in the cell it converts to, for positions on every side of the origin. '
     'World and local frames differ exactly by the position of the map, also after the map was moved, and a moved map answers for the cell now at that place. '
     'A position is reported inside the map exactly when its cell indices are within the number of rows and columns.',
     ['inputs', 'configurations', 'histories'], 'all resolutions, sizes, origins and positions, before and after moving the map',
     'No unit test converts coordinates.',
     [S + 'occupancy_map.h', S + 'occupancy_map.cpp', U + 'grid.h', U + 'grid.cpp'], [('frame conversions', S + 'occupancy_map.cpp')],
     'FrameMC enumerates small frames; conformance checks exact (dyadic) and rounded frames of the real map.')

prop('C09', 'A pose is reported free exactly when it is in bounds and clear of obstacles',
     'A pose is valid exactly when its position and heading are within the bounds of the state space and the distance from its cell to the nearest occupied cell is at least the configured safety radius. '
     'A pose outside the bounds or the map is never valid, and the answer follows additions and removals of obstacles once the map was updated.',
     ['inputs', 'histories'], 'all maps, poses, safety radii and histories of obstacles',
     'Unit tests use an empty map or only accept-everything validators.',
     [S + 'state_validator_occupancy_map.h', S + 'state_validator_occupancy_map.cpp', S + 'gvd.cpp', 'planner/src/state_space/state_space.h'],
     [('bounds and clearance test', S + 'state_validator_occupancy_map.cpp')],
     'ValidMC explores bounds and clearances; conformance decides poses of the real validator against the distance computed by TLC.')

prop('C10', 'A path reported valid never collides, and the first collision is located',
     'A path is reported valid only if every pose along it, up to the interpolation step and the size of a cell, is in bounds and clear of obstacles by the safety radius, including its first and last pose. '
     'A path all of whose poses are clear by a margin of a cell is reported valid. '
     'When a path is invalid, the reported last valid ratio marks a valid prefix of the path and is not beyond the first collision.',
     ['inputs'], 'all paths (straight, constant-steer, Reeds-Shepp), maps, obstacles and safety radii',
     'Unit tests only check paths in free space.',
     [S + 'state_validator_occupancy_map.cpp', S + 'state_validator.h', S + 'state_validator_free.h'], [('clearance-driven stepping along the path', S + 'state_validator_occupancy_map.cpp')],
     'PathValidMC checks the stepping scheme for every small clearance profile; conformance samples every real path densely.')

prop('C21', 'The Voronoi diagram and its cost field match the obstacles, for every history',
     'After any history of obstacle additions and removals followed by an update, the edges of the Voronoi diagram are the cells lying between two different obstacles given the current nearest-obstacle field (no edge is missing, and none is left behind by a removed obstacle), and every cell reports its distance to, and the cell of, the nearest edge. '
     'The path cost of every cell is the Voronoi field a/(a+dO) * dV/(dO+dV) * (dmax-dO)^2/dmax^2 of its current distances to obstacle and edge, and 0 beyond the range dmax or when there is no obstacle or no edge. '
     'The result does not depend on whether the diagram was created before or after the obstacles, and queries by world position agree with the cell and are refused outside the map.',
     ['histories', 'inputs'], 'all histories of obstacles and creation orders',
     'No unit test covers the Voronoi diagram.',
     [S + 'gvd.h', S + 'gvd.cpp'], [('edge detection during the brushfire and path cost', S + 'gvd.cpp')],
     'VoronoiMC explores histories on small grids; conformance checks the field of the real map after every update.')

# --- more properties appended below
prop('C11', 'Every Reeds-Shepp path is drivable and ends exactly at the requested pose',
     'For every start pose, goal pose and turning radius, the returned Reeds-Shepp path starts at the start and, followed motion by motion, ends at the goal (position and heading). '
     'Along it the vehicle only drives straight or on a circle of exactly the turning radius in the direction of its motion, the reported driving direction is the one followed, and the length of the path is the sum of the lengths of its motions. '
     'This holds for the shortest path and for the path of least cost with any forward/reverse multipliers and switching cost, also when goal and start coincide, are aligned or are far apart.',
     ['inputs', 'configurations'], 'all start and goal poses, radii, cost multipliers and switching costs, and all 48 words',
     'The unit tests compare the solver on a sampled grid of goals with one radius; a wrong formula of a single word is only seen for the goals where that word wins.',
     [G + 'reeds_shepp.h', G + 'reeds_shepp.cpp', PA + 'path_reeds_shepp.h', PA + 'path_reeds_shepp.cpp'],
     [('one function per word with its reconstruction of the motions', G + 'reeds_shepp.cpp'), ('interpolation along motions', PA + 'path_reeds_shepp.cpp')],
     'RSMC drives every word on an exact quarter-turn lattice; conformance samples every returned path every 0.25 rad and checks each step against the exact arc or line.')

prop('C12', 'Reeds-Shepp solutions are optimal, and distance, word and path agree',
     'No Reeds-Shepp word reaches the goal with a smaller length than the returned shortest path, nor with a smaller cost (length weighted by the forward or reverse multiplier plus the switching cost per change of driving direction) than the returned least-cost path. '
     'The reported shortest distance (in units of the turning radius) is the length of the shortest path, the reported optimal word and segment are those of the returned path, and the cost recomputed from its motions is the reported one. '
     'The shortest distance is symmetric in exchanging start and goal, is never below the straight-line distance, and does not depend on where in the plane the pair of poses lies.',
     ['inputs', 'configurations'], 'all start and goal poses, radii, cost multipliers and switching costs',
     'Optimality is a statement about all 48 words for every goal; the tests have no independent optimum to compare with.',
     [G + 'reeds_shepp.h', G + 'reeds_shepp.cpp'], [('minimum over the 48 words', G + 'reeds_shepp.cpp')],
     'The optimum on the quarter-turn lattice is computed by TLC; elsewhere every goal is generated as the end of a random instance of each of the 48 words, whose cost is an upper bound on the optimum.')

prop('C13', 'A path is the same curve however it is queried, and truncation keeps its prefix',
     'For every path type (straight in the plane, straight with heading, constant-steer, Reeds-Shepp), the state at ratio r is the state at r times the length along the curve, ratio 0 is the initial and ratio 1 the final state, straight paths interpolate linearly, and interpolating several ratios at once gives the same states as one at a time. '
     'Truncating at a ratio keeps exactly that first part of the curve: the length, the final state, the states in between, the driving directions and the cusp points are those of the prefix; truncating several times in a row is the same as once, and the cost of a Reeds-Shepp path, whole or truncated, is that of the motions it keeps. '
     'The driving direction at each ratio is that of the piece driven there, and the cusp points are exactly the ratios at which the driving direction changes; paths of length zero are handled.',
     ['inputs', 'histories'], 'all paths, ratios and sequences of truncations',
     'Unit tests interpolate a few ratios of a few paths and never truncate twice.',
     [PA + 'path.h', PA + 'path_r2.h', PA + 'path_se2.h', PA + 'path_reeds_shepp.h', PA + 'path_reeds_shepp.cpp', PA + 'path_constant_steer.h', PA + 'path_constant_steer.cpp'],
     [('interpolation and truncation', PA)],
     'PathMC explores every history of cutting small directed paths; conformance records points of the fresh path and compares after every truncation.')

prop('C14', 'A composite path is the concatenation of its segments, through any edit history',
     'After any sequence of appending segments and truncating, a composite path is the curve made of its segments in order: its length is their total, the state at every ratio is that of the segment found at that length, and its initial and final states are those of the first and last segment. '
     'Truncating removes just what lies beyond the ratio, later appends continue from there, and the number of segments is consistent. '
     'For non-holonomic composites the direction at each ratio is that of the segment driven there and the cusp points are exactly the ratios of the whole path at which the direction changes, within or between segments. An empty composite refuses interpolation, and null segments are handled.',
     ['histories', 'inputs'], 'all sequences of appends and truncations of segments of every type',
     'Unit tests build at most a two-segment path and truncate it once.',
     [PA + 'path_composite.h', PA + 'path_composite.cpp'], [('segment lookup by accumulated length', PA + 'path_composite.h')],
     'PathMC explores every history of appending and cutting; conformance replays random histories on the real composite with a twin of each segment as the oracle.')

prop('C15', 'The node hierarchy stays a forest with every node owned exactly once',
     'After any history of creating nodes, adding children, removing a child, replacing a child (with or without the replacement adopting the children), rewiring a node below another one (also below one of its own descendants, or when it is the root) and deleting a root, the nodes form a forest: '
     'each node has the parent, children, depth, siblings, ancestors and descendants that the history implies, traversals visit every node of a tree once in pre-order or post-order, a removed or replaced node is handed to the caller alive, '
     'no other node is lost, and each node is deleted exactly once, with its owner. A node that replaces another one is assumed to have no children of its own.',
     ['histories'], 'all histories of structural operations on forests of any shape',
     'The unit tests build one small tree and check single operations; rewiring below a descendant or at the root and sequences of operations are not sampled.',
     [U + 'node.h'], [('ownership of children and non-owning parent links kept in step', U + 'node.h'), ('rewiring', U + 'node.h')],
     'TreeMC explores every history of operations on up to 4-5 nodes; conformance dumps every node of the real forest after every operation of random histories.')

prop('C16', 'The search tree answers nearest-node queries exactly over all nodes ever added',
     'After any history of creating a root, extending, rewiring, clearing and creating a new root, the tree contains exactly the states added since the last root, each once: its size is their number, and a node belongs to the tree exactly when it is one of them; the nodes of a tree that is cleared or replaced are deleted. '
     'The nearest node to a state is one at minimum distance over all nodes in the tree, and the k nearest nodes are min(k, size) different nodes with none outside them closer. '
     'Extending to a new state adds one node below the given source, or below a nearest node when no source is given; extending to a state already in the tree returns the node with that state and changes nothing. On an empty tree queries and extension return no node.',
     ['histories', 'inputs'], 'all histories of operations and all point sets, including clustered, collinear and repeated states',
     'The unit test adds a few points and asks for one neighbour; rebuilding of the spatial index, clearing and ties are not sampled.',
     [U + 'tree.h', U + 'node.h'], [('node map, k-d tree and hierarchy kept in step', U + 'tree.h')],
     'TreeMC explores the hierarchy under every history; conformance compares every query of the real tree with an exhaustive search done by TLC over exact coordinates.')

prop('C17', 'RRT grows a tree of validated edges and succeeds exactly on reaching the goal',
     'In every search the tree grows one step per iteration: from the node nearest to the sample (or to the goal), along the connecting path, truncated at the maximum connection distance, and the new state is added only if the validator accepts that path. '
     'The search succeeds exactly when it adds a state that the goal condition accepts (closer than 1 to the goal), and then stops; the path starts at the start, ends at that state and follows the edges of the tree. '
     'It gives up only when the limit on iterations or on nodes is reached, exceeds neither, and then has an empty path. A planner can search again any number of times, each search starting from a new tree.',
     ['inputs', 'histories', 'configurations'], 'all worlds, random samples, connections, parameters and sequences of searches on one planner object',
     'The unit test runs one search in an empty world and checks the status only.',
     [A + 'rrt.h', U + 'tree.h', PA + 'path_r2.h'], [('growth loop', A + 'rrt.h'), ('reconstruction of the path', A + 'rrt.h')],
     'RRTMC explores every sequence of samples on small worlds; conformance records every connection and validation of real searches and checks each step against the specification.')

prop('C18', 'RRT* connects each new state through the cheapest valid near connection',
     'In every search the tree grows one step per iteration from the node nearest to the sample (or the goal), truncated at the maximum connection distance and accepted only if the validator accepts the path. '
     'The new state becomes the child of the node that gives the least cost from the start over valid connections from the nearest nodes (as many as the floor of the logarithm of the number of nodes, at least one); if none of these connects, it is connected from where the step began. Only validated paths become edges, and the cost of a state is the sum of the lengths of the edges to it. '
     'The search succeeds exactly when the goal state itself has been added, the path then leads from start to goal along tree edges; it gives up only at the limit on iterations or nodes, exceeds neither, and then has an empty path. Searches are independent of earlier ones.',
     ['inputs', 'histories', 'configurations'], 'all worlds, random samples, connections, parameters and sequences of searches on one planner object',
     'The unit test runs one search in an empty world and checks the status only.',
     [A + 'rrt_star.h', U + 'tree.h'], [('choice of the parent', A + 'rrt_star.h')],
     'RRTMC explores every sequence of samples on small worlds; conformance records every connection and validation of real searches and checks each choice of parent against the specification.')

prop('C24', 'A singleton has exactly one fully constructed instance under every schedule',
     'The first request creates the instance and every later one returns that same instance until it is released; initialising again does not create another one. Releasing deletes the instance, and the next request creates a new one. '
     'For the thread-safe singleton this holds for any number of threads requesting at the same time: at most one instance is constructed, and no thread receives an instance before its construction is complete. (Release happens while no thread uses it.)',
     ['schedules', 'histories'], 'all interleavings of requesting threads and all histories of initialise, get and release',
     'There is no test for the singletons; a race in first use needs a particular interleaving.',
     [U + 'singleton.h', 'planner/src/debug/profiler.h'], [('double-checked creation under a mutex', U + 'singleton.h')],
     'SingletonMC explores every interleaving of the creation protocol; conformance runs real threads with slow constructors and checks the order of events, and single-thread histories of all singletons.')

prop('C25', 'State spaces validate, enforce and sample their bounds',
     'A state is in bounds exactly when each of its coordinates lies in the closed interval given for it. Enforcing the bounds moves each coordinate to the closest value in its interval, leaves states in bounds unchanged, and yields a state in bounds. '
     'Bounds given at construction are kept, with one interval per dimension. Uniform and Gaussian samples are as many as requested and always in bounds; uniform samples cover each interval evenly and Gaussian samples are spread around their mean with the given deviation. The same holds for the plane and for poses with heading.',
     ['inputs'], 'all bounds (also degenerate), all states including the bounds themselves and neighbouring doubles, all draws',
     'There is no unit test for the state spaces.',
     ['planner/src/state_space/state_space.h', 'planner/src/state_space/state_space_r2.h', 'planner/src/state_space/state_space_se2.h', U + 'random.h'],
     [('bounds', 'planner/src/state_space/state_space.h'), ('sampling', U + 'random.h')],
     'BoundsMC explores the laws on a small universe; conformance checks states on, beside and beyond exact bounds, and thousands of samples.')

prop('C26', 'Poses, angles, points and grid cells obey their algebra',
     'Adding poses is moving one pose in the frame of the other: the sum is associative, has the null pose as identity, and the difference of two poses undoes the sum and conversely. Headings that result are wrapped to [-pi, pi] and denote the same direction; the heading of an integer (grid) pose is left as it is. '
     'Equality holds exactly when all components are equal and equal poses, points and cells have equal hashes; as keys of a hashed container, poses whose headings denote the same direction up to whole turns are the same key. The modulo operation yields the value in [0, m) congruent to its argument, also for negative ones. '
     'The neighbours of a grid cell are the up to eight other cells around it that lie in the grid, adjacency and diagonal adjacency agree with that, and cells with a negative index are invalid.',
     ['inputs'], 'all poses, angles, points, cells and grid sizes',
     'The unit tests check a few constants.',
     [G + '2dplane.h', G + '2dplane.cpp', U + 'maths.h', U + 'grid.h'], [('pose arithmetic', G + '2dplane.h')],
     'PoseMC verifies the algebra exactly on the quarter-turn lattice; conformance checks thousands of random real poses, angles and cells.')

prop('C27', 'The bicycle model drives circular arcs that compose and can be reversed',
     'Driving a distance at a constant steering angle moves the rear axle along its heading while the heading turns by distance * tan(steering angle) / wheelbase, so that the rear axle describes a circular arc (a line without steering), forward or backward, for any position of the reference point. '
     'Driving a distance in one or in several steps leads to the same pose, driving it back returns to the start, resulting headings are wrapped, and the constant-steer path agrees with the model at every ratio and has the length driven. '
     'The steering angle for a turning radius of the reference point is the one with which the reference point turns with that radius, and a quarter turn when the radius is too small.',
     ['inputs'], 'all wheelbases, reference points, steering angles, distances, directions and poses',
     'The unit test drives one arc; composition and reversal are not checked.',
     ['planner/src/models/kinematic_bicycle_model.h', 'planner/src/models/kinematic_bicycle_model.cpp', PA + 'path_constant_steer.cpp'],
     [('arc integration', 'planner/src/models/kinematic_bicycle_model.cpp')],
     'BikeMC explores the exact quarter-turn motions; conformance checks random drives of the real model step by step.')

prop('C22', 'The obstacle heuristic is the shortest grid distance to the goal',
     'After each update for a goal, the value at a position on the map is the smaller cost multiplier times the length of a shortest path over free cells from the cell of the goal (steps of one cell, or of a diagonal that does not squeeze between two occupied cells), less one cell diagonal, and never less than the smaller multiplier times the straight-line distance. '
     'Where no such path exists, and off the map, it is the smaller multiplier times the straight-line distance. A new update reflects the obstacles and the goal as they are then.',
     ['inputs', 'histories'], 'all maps, obstacles, goals, positions, multipliers and sequences of updates',
     'There is no unit test for the heuristics; the order in which cells are reached only matters around obstacles.',
     [A + 'heuristics.cpp', A + 'heuristics.h'], [('wave from the goal with replacement in the frontier', A + 'heuristics.cpp')],
     'DijkstraMC explores the wave on every pattern of a small grid; conformance compares values of the real heuristic with distances computed by TLC.')

prop('C23', 'The non-holonomic heuristic is the Reeds-Shepp cost from the state to the goal',
     'For every state and goal the value is the least Reeds-Shepp cost, with the given turning radius, forward and reverse multipliers and switching cost, of driving from the state to the goal, taken at the relative pose rounded to the nearest vertex of a table that covers the bounds, for headings of either sign; '
     'it depends only on the pose of the goal relative to the state and is zero at the goal. Outside the table it is the straight-line distance times the smaller multiplier. A combination of heuristics is their largest value, for the goal set last.',
     ['inputs', 'configurations'], 'all bounds, resolutions, turning radii, multipliers, states and goals',
     'There is no unit test for the heuristics.',
     [A + 'heuristics.cpp', A + 'heuristics.h', A + 'a_star.h'], [('table of optimal costs', A + 'heuristics.cpp'), ('combination', A + 'a_star.h')],
     'HoloMC explores drives on the quarter-turn lattice against a table of relative poses; conformance compares looked-up values with the Reeds-Shepp solver (itself decided by C11 and C12), with the rounding done by TLC.')

prop('C19', 'Hybrid A* finds drivable valid paths, misses none at its resolution',
     'In every search the tree contains only paths that the validator accepts and that respect the minimum turning radius, each starting where its parent ends: motions at a constant steering angle spread evenly up to the maximum in both directions of travel, and Reeds-Shepp paths that end at the goal. '
     'From every expanded state every valid motion is followed unless the cell it leads to (position and heading at the given resolution) is already taken, and the Reeds-Shepp path to the goal is used whenever it is valid and the goal is near (heuristic below 10), so that a search fails only if no sequence of motions leads to such a state; also when start and goal are in one cell, equal, or head backwards. '
     'The cost is the sum over the path of the forward and reverse multipliers times length, the switching cost for each change of direction (also between motions), and the Voronoi cost, and is not higher than that of any way to the goal that was in reach. '
     'The returned path starts at the start, ends at the goal, contains all points where the direction changes, is sampled at the requested distance, then smoothed with the given parameters (or left as it is where smoothing fails), and is valid when smoothed; on failure it is empty. Searches are independent of earlier ones, see the current obstacles, and are as those of a fresh object after the planner was initialised again.',
     ['inputs', 'histories', 'configurations'], 'all maps, starts, goals, parameters and sequences of searches on one planner object',
     'Unit tests run one search in an empty map and compare the ends with a tolerance of 10 cm.',
     [A + 'hybrid_a_star.h', A + 'hybrid_a_star.cpp', A + 'a_star.h'],
     [('propagation by motions and Reeds-Shepp shots', A + 'hybrid_a_star.cpp'), ('cells of the configuration space', A + 'hybrid_a_star.h'), ('sampling of the path', A + 'hybrid_a_star.cpp')],
     'HybridMC explores best-first search over states told apart by cells only; conformance rebuilds the tree of each real search and lets TLC decide closure, costs and the result.')

prop('C20', 'Smoothing descends its objective, keeps ends and cusps, reports collisions',
     'Smoothing a path of at least five poses repeats gradient descent: each iteration moves every pose that has two neighbours on either side and no cusp among these five by the learning rate against the gradient of the weighted objective: distance from the given path (pulls back to it), second differences of the positions (smoothness), intrusion within the safe radius times (1 + ratio) of the nearest obstacle (pushes away), the Voronoi potential, and the excess of turn over segment length above the maximum curvature, whose gradient also moves the two neighbours. Without an obstacle or a Voronoi edge the terms for them are absent. '
     'All other poses, in particular both ends and every cusp, stay exactly where they are, headings and the number of poses never change. '
     'The run ends after the first iteration whose largest gradient is below the step tolerance, or at the limit of iterations (which is what is reported if both apply); a path of fewer than five poses is returned unchanged (PathSize). If and only if a resulting pose is not valid, or the smoother was not initialised successfully, a negative status is returned. The result depends only on the path, the cusps, the map and the parameters, not on earlier runs.',
     ['inputs', 'configurations', 'histories'], 'all paths, cusp sets, maps, weights, rates, limits and tolerances',
     'There are no unit tests of the smoother: its effect is a sum of small real-valued steps for which a test would need an independent statement of the gradient.',
     [A + 'smoother.h', A + 'smoother.cpp'],
     [('selection of the poses and iterations', A + 'smoother.cpp'), ('curvature term', A + 'smoother.cpp'), ('final validation', A + 'smoother.cpp')],
     'SmoothMC explores the selection scan for all lengths and cusp sets and the loop protocol; conformance checks each real iteration against the gradient stated in TLA+.')

prop('C28', 'The profile is a well-formed record of every scope, under every schedule',
     'While a profiling session is open, and after it was closed, its file is a well-formed JSON document (once its end is added, if the session is open), whatever the threads did and whatever the names of the scopes are: '
     'it contains, for each thread, exactly one complete event for each scope, function, timer or result the thread has finished, in that order, and nothing else. An event has the name of the scope (without "__cdecl ", and single quotes for double ones), the thread, and the start and duration measured, so that scopes lie inside the ones around them. '
     'A timer stopped early counts once. Ending a session and beginning another one starts an empty file; a file that cannot be opened is not an error for the program.',
     ['schedules', 'histories', 'crash_points'], 'all interleavings of threads that finish scopes, all nestings and names of scopes, all histories of sessions, the file as it is at any quiescent point',
     'There is no test of the profiler; it is compiled out of the tests.',
     ['planner/src/debug/profiler.h', 'planner/src/debug/profiler.cpp', U + 'singleton.h'],
     [('one event written and flushed under a mutex', 'planner/src/debug/profiler.cpp'), ('timer of a scope', 'planner/src/debug/profiler.h')],
     'ProfilerMC explores every interleaving of buffered writes of several threads over several sessions, with the process stopping at any point; conformance runs real threads and reads the file back with a strict reader.')

prop('C29', 'The Python module does what the library does and keeps objects alive',
     'Through the Python module the planners, occupancy maps, obstacles, validators, poses, paths, state spaces, Reeds-Shepp connections, Voronoi diagrams and parameters behave as they do in C++: '
     'arguments arrive in their places and units, results come back unchanged (also as sets, lists and enumerations), and no documented operation raises an exception. '
     'Heuristics, maps, validators, paths, connections and planners implemented in Python have their overrides called exactly as the library would call the C++ ones, with the arguments given and their result returned. '
     'An object implemented in Python lives as long as Python holds it or a living planner, propagator, validator or diagram it was given to uses it, in whatever order references are dropped, and is freed afterwards.',
     ['inputs', 'histories'], 'all arguments and histories of calls through the module, all orders of creating, handing over and dropping objects',
     'The Python tests check a few values of points and poses and run one Hybrid A* search without looking at its result.',
     ['interfaces/python/src/pyplanning.cpp'],
     [('bindings of classes, overrides and lifetimes', 'interfaces/python/src/pyplanning.cpp')],
     'The module is built from the tree and driven from Python; its traces are decided by the same specifications as those of the library (GridPlan, Occupancy, Raster, Frame, Valid, PathValid, Pose, Path, Space, Voronoi, Hybrid), by PyTrace for parameters and overrides, '
     'and by Lifetime, whose reference-counting design LifeMC explores exhaustively.')

prop('C30', 'Pictures of diagrams and heuristics show what the objects hold',
     'A picture of a Voronoi diagram or of an obstacle heuristic is a well-formed binary portable pixmap as wide as the map has rows and as high as it has columns, with exactly one pixel for each cell (rows to the right, columns upwards) and nothing left of an older file. '
     'In a picture of the diagram occupied cells, and all cells of a map without obstacles, are black; any other cell has the hue of the label of its nearest obstacle, and is the darker the higher its path cost. '
     'In a picture of the heuristic cells from which the goal cannot be reached are black, and the others fade linearly with their distance from white at the goal to black at the farthest. '
     'If the file cannot be written nothing happens.',
     ['inputs', 'histories'], 'all maps, obstacles, goals and histories of obstacles added and removed between pictures',
     'No test writes a picture.',
     ['planner/src/state_validator/gvd.cpp', 'planner/src/algo/heuristics.cpp'],
     [('picture of the diagram', 'planner/src/state_validator/gvd.cpp'), ('picture of the heuristic', 'planner/src/algo/heuristics.cpp')],
     'PictureMC checks that the layout is a bijection between cells and pixels and that the colour circle distinguishes labels and is monotone in brightness; files written by the library are read back and each pixel is decided by PicTrace.')

#MORE


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            if p['rec']['id'] in CHECKS:
                f.write(json.dumps(p['rec']) + '\n')
    checks = [dict(property=p['rec']['id'], quick_cmd='python3 run.py ' + p['rec']['id'], thorough_cmd='python3 run.py %s --thorough' % p['rec']['id'],
                   technique='TLA+ specification model-checked with TLC; traces recorded from the real code checked against it',
                   level='model_checking', level_note=p['note'] + ' Bounded: the models are finite instances, the conformance inputs are a seeded sample; trusted: TLC, the harness that records the traces, the compiler.')
              for p in P if p['rec']['id'] in CHECKS]
    m = dict(version=1, setup_cmd='python3 run.py --build-all', checks=checks, not_applicable=[],
             notes='No hooks in /repo: the harnesses use the public interface only. Specifications are TLA+ (spec/), checked with TLC.')
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()

"""What each check runs: conformance runs (harness -> trace -> TLC) and design models."""

CHECKS = {
    'C01': dict(
        runs=[dict(harness='h_astar', trace='AStarTrace', mode='uni', cases=1600)],
        mc=[dict(module='AStarMC', min_states=10000), dict(module='AStarMC', cfg='AStarMC4.cfg', min_states=10000, thorough_only=True, workers=6, timeout=1500),
            dict(module='AStarMC', cfg='AStarMC3.cfg', min_states=10000, thorough_only=True)],
        rule='random weighted digraphs (2-30 nodes, parallel edges, self loops, zero and very large costs), consistent or (tree search) '
             'admissible heuristics, several searches per planner object; a case is non-trivial if at least one search expands a state',
    ),
    'C02': dict(
        runs=[dict(harness='h_astar', trace='BiAStarTrace', mode='bi', cases=1600)],
        mc=[dict(module='BiAStarMC', min_states=10000), dict(module='BiAStarMC', cfg='BiAStarMC3.cfg', min_states=10000, thorough_only=True)],
        rule='as C01 with averaged and zero heuristic pairs, graph and tree searches',
    ),
    'C03': dict(
        runs=[dict(harness='h_frontier', trace='FrontierTrace', cases=1600)],
        mc=[dict(module='FrontierMC', min_states=1000)],
        rule='random histories of push/pop/top/remove/find/clear/iterate over several element types, orders, hashes and sizes up to 300; '
             'a case is non-trivial if it performs at least one operation',
    ),
    'C04': dict(
        runs=[dict(harness='h_n2', trace='GridPlanTrace', cases=800)],
        mc=[dict(module='GridPlanMC', min_states=5000)],
        rule='random occupancy maps up to 9x9 (some up to 26x26 or 3x140) with walls, diagonals and noise, obstacles added and removed between plans',
    ),
}
CHECKS['C05'] = dict(
    runs=[dict(harness='h_map', trace='OccupancyTrace', mode='occ', cases=900)],
    mc=[dict(module='OccupancyMC', min_states=300), dict(module='OccupancyMC', cfg='OccupancyMC3.cfg', min_states=3000, thorough_only=True)],
    rule='random histories of adding, removing and moving up to 7 overlapping, shared or outside obstacles (points, polygons, rectangles, '
         'circles, composites) on maps up to 9x9; a case is non-trivial if it performs at least one operation',
)
CHECKS['C06'] = dict(
    runs=[dict(harness='h_map', trace='DistMapTrace', mode='dist', cases=1200)],
    mc=[dict(module='BrushfireMC', cfg='BrushfireMC23.cfg', min_states=10000), dict(module='BrushfireMC', cfg='BrushfireMC33.cfg', min_states=10000, thorough_only=True, workers=4),
        dict(module='BrushfireMC', cfg='BrushfireMC24.cfg', min_states=10000, thorough_only=True, workers=4)],
    rule='random histories of setting and clearing cells (directly, repeated, and through obstacles) with updates in between, grids up to 24x24 (some up to 50x50 or 3x300)',
)
CHECKS['C07'] = dict(
    runs=[dict(harness='h_map', trace='RasterTrace', mode='raster', cases=900)],
    mc=[dict(module='RasterMC', min_states=5000), dict(module='RasterMC', cfg='RasterMC10.cfg', min_states=50000, thorough_only=True)],
    rule='random polygons, rectangles, regular polygons, circles and composites, rotated and moved, inside, across and outside maps up to 14x14 (some up to 30x30, or 300 cells long with edges as long)',
    assumptions=['vertices lie at least 6 % of a cell away from cell borders (the cell of a vertex on a border is decided by rounding)'],
)
CHECKS['C08'] = dict(
    runs=[dict(harness='h_map', trace='FrameTrace', mode='frame', cases=2400)],
    mc=[dict(module='FrameMC', min_states=5000)],
    rule='maps with dyadic (exact, including cell borders) and decimal resolutions, sizes that are or are not a multiple of the resolution, moved before and after they are sized',
)
CHECKS['C09'] = dict(
    runs=[dict(harness='h_map', trace='ValidTrace', mode='valid', cases=1200)],
    mc=[dict(module='ValidMC', min_states=10000)],
    rule='poses inside, on and around the bounds of maps up to 12x12 with obstacles added and removed, with varying safety radius and heading bounds',
    assumptions=['obstacles are added after the validator has sized the map', 'the bounds of the state space are centred'],
)
CHECKS['C10'] = dict(
    runs=[dict(harness='h_map', trace='PathValidTrace', mode='path', cases=800)],
    mc=[dict(module='PathValidMC', min_states=10000)],
    rule='straight, constant-steer and Reeds-Shepp paths crossing maps up to 10 m with thin and large obstacles; sampled every 5 cm',
    assumptions=['obstacles are added after the validator has sized the map', 'clearance is decided up to the interpolation step and the size of a cell'],
)
CHECKS['C21'] = dict(
    runs=[dict(harness='h_map', trace='VoronoiTrace', mode='voro', cases=900)],
    mc=[dict(module='VoronoiMC', min_states=10000), dict(module='VoronoiMC', cfg='VoronoiMC33.cfg', min_states=10000, thorough_only=True, workers=4)],
    rule='obstacles added and removed with the diagram created before or after, maps up to 20x20 and 3x45 (exact up to 12x12)',
)
CHECKS['C11'] = dict(
    runs=[dict(harness='h_rs', trace='RSKinTrace', mode='kin', cases=400)],
    mc=[dict(module='RSMC', min_states=10000), dict(module='RSMC', cfg='RSMC7.cfg', min_states=100000, thorough_only=True, workers=6)],
    rule='random and axis-aligned start/goal pairs and ends of random words of all 48 shapes, radii 0.3-5 m, shortest and least-cost paths; every path sampled every 0.25 rad',
)
CHECKS['C12'] = dict(
    runs=[dict(harness='h_rs', trace='RSOptTrace', mode='opt', cases=800)],
    mc=[dict(module='RSMC', min_states=10000), dict(module='RSMC', cfg='RSMC7.cfg', min_states=100000, thorough_only=True, workers=6)],
    rule='goals at the ends of random instances of all 48 words (also with null parameters), all quarter-turn lattice goals within 3 radii, random multipliers and switching costs',
    assumptions=['costs with multipliers are compared with candidates whose parameters are at least 0.05 rad, where all words are defined by the published formulae'],
)
CHECKS['C13'] = dict(
    runs=[dict(harness='h_path', trace='PathTrace', mode='path', cases=1200)],
    mc=[dict(module='PathMC', min_states=1000), dict(module='PathMC', cfg='PathMC13.cfg', min_states=1000),
        dict(module='PathMC', cfg='PathMC3.cfg', min_states=100000, thorough_only=True, workers=4)],
    rule='straight paths with and without heading, Reeds-Shepp and constant-steer paths, also of length zero; up to 4 truncations in a row, each followed by queries',
)
CHECKS['C14'] = dict(
    runs=[dict(harness='h_path', trace='PathTrace', mode='comp', cases=800)],
    mc=[dict(module='PathMC', min_states=1000), dict(module='PathMC', cfg='PathMC13.cfg', min_states=1000),
        dict(module='PathMC', cfg='PathMC3.cfg', min_states=100000, thorough_only=True, workers=4)],
    rule='histories of up to 12 appends and truncations of composite paths of all segment types, also null segments and truncation at joints and cusps',
)
CHECKS['C26'] = dict(
    runs=[dict(harness='h_path', trace='PoseTrace', mode='pose', cases=1600)],
    mc=[dict(module='PoseMC', min_states=4000)],
    rule='random triples of poses (a quarter with headings of whole quarter turns), headings up to 60 rad, dyadic poses for equality and hashing, cells of grids up to 6x6',
)
CHECKS['C27'] = dict(
    runs=[dict(harness='h_path', trace='BikeTrace', mode='bike', cases=1600)],
    mc=[dict(module='BikeMC', min_states=1000)],
    rule='wheelbases 1-4 m, reference points 0-2.5 m ahead of the rear axle, steering up to 56 degrees both ways, forward and backward, up to 30 steps of at most 1 m and 0.25 rad; turning radii above and below the minimum',
)
CHECKS['C15'] = dict(
    runs=[dict(harness='h_tree', trace='NodeTrace', mode='node', cases=1200)],
    mc=[dict(module='TreeMC', min_states=500), dict(module='TreeMC', cfg='TreeMC5.cfg', min_states=3000, thorough_only=True, workers=4)],
    rule='random histories of up to 40 operations (create, add, remove, replace with and without adoption, rewire also below itself and at the root, delete) on forests of up to 12 nodes; every node is compared after every operation',
    assumptions=['a node that replaces another one has no children of its own'],
)
CHECKS['C16'] = dict(
    runs=[dict(harness='h_tree', trace='NearTrace', mode='near', cases=1600)],
    mc=[dict(module='TreeMC', min_states=500)],
    rule='random histories of up to 60 operations, some of hundreds on trees of up to 700 nodes (root, extend with and without source, repeated states, rewire, clear, queries for up to 12 neighbours, queries on the empty tree) with clustered, collinear and spread exact coordinates',
)
CHECKS['C17'] = dict(
    runs=[dict(harness='h_rrt', trace='RRTTrace', mode='rrt', cases=480)],
    mc=[dict(module='RRTMC', min_states=10000), dict(module='RRTMC', cfg='RRTMC6.cfg', min_states=100000, thorough_only=True, workers=4)],
    rule='worlds of 6-20 m with up to 5 walls, straight and cornered connections, continuous and gridded (repeating) samples, connection distances from 2 mm to unlimited, up to 120 iterations, small node and iteration limits, repeated searches',
)
CHECKS['C18'] = dict(
    runs=[dict(harness='h_rrt', trace='RRTTrace', mode='star', cases=480)],
    mc=[dict(module='RRTMC', cfg='RRTMCStar.cfg', min_states=10000), dict(module='RRTMC', cfg='RRTMCStar6.cfg', min_states=100000, thorough_only=True, workers=4)],
    rule='worlds of 6-20 m with up to 5 walls, straight and cornered connections, continuous and gridded (repeating) samples, connection distances from 2 mm to unlimited, up to 120 iterations, small node and iteration limits, repeated searches',
)
CHECKS['C24'] = dict(
    runs=[dict(harness='h_misc', trace='SingletonTrace', mode='single', cases=800), dict(harness='h_misc', trace='SingletonTrace', mode='threads', cases=480)],
    mc=[dict(module='SingletonMC', min_states=500), dict(module='SingletonMC', cfg='SingletonMC5.cfg', min_states=5000, thorough_only=True, workers=4)],
    rule='histories of init/get/release of the three singletons; 2-6 threads asking at once or with delays for an instance whose constructor takes up to 1.5 ms, over up to 3 epochs',
    assumptions=['the thread-safe singleton is released while no thread uses it'],
)
CHECKS['C25'] = dict(
    runs=[dict(harness='h_misc', trace='SpaceTrace', mode='space', cases=1600)],
    mc=[dict(module='BoundsMC', min_states=500), dict(module='BoundsMC', cfg='BoundsMC2.cfg', min_states=5000, thorough_only=True)],
    rule='boxes in the plane and with heading, also degenerate; states on, one rounding step beside, inside and outside the bounds; 1200 samples per space',
)
CHECKS['C22'] = dict(
    runs=[dict(harness='h_heur', trace='ObstHeurTrace', mode='obst', cases=560)],
    mc=[dict(module='DijkstraMC', min_states=10000), dict(module='DijkstraMC', cfg='DijkstraMC4.cfg', min_states=100000, thorough_only=True, workers=4)],
    rule='maps of 1x1 to 14x14 cells (some up to 22x22 or 2x140) at any place, obstacle densities 0-50%, 1-3 updates with obstacles added and removed and goals anywhere on or off the map, multipliers 0.25-2.5',
)
CHECKS['C23'] = dict(
    runs=[dict(harness='h_heur', trace='HoloHeurTrace', mode='holo', cases=800)],
    mc=[dict(module='HoloMC', min_states=1000), dict(module='HoloMC', cfg='HoloMC2.cfg', min_states=1000), dict(module='HoloMC', cfg='HoloMC3.cfg', min_states=1000),
        dict(module='HoloMC', cfg='HoloMC5.cfg', min_states=10000, thorough_only=True, workers=4)],
    rule='tables of 1 to 7 cells a side and 1 to 30 headings, multipliers 0.25-3, switching costs 0-2, relative poses inside and outside of the table and at its vertices, any place of the two poses',
)
CHECKS['C19'] = dict(
    runs=[dict(harness='h_hybrid', trace='HybridTrace', mode='search', cases=480)],
    mc=[dict(module='HybridMC', cfg='HybridMC3.cfg', min_states=5000), dict(module='HybridMC', min_states=500000, thorough_only=True, workers=4)],
    rule='worlds of 5-10 m with up to 5 rectangles changed between the searches, planners initialised again for other worlds, 3-9 motions, turning radii 0.8-2.5 m, multipliers 0.5-2, switching and Voronoi costs 0-2, goals also in the cell of the start, at the start, heading backwards and unreachable; the whole tree of each search is checked, and the path with and without smoothing against the sampled path and what the smoother makes of it',
    assumptions=['the parts (Reeds-Shepp paths, bicycle model, path validation, Voronoi costs, heuristics) are those decided by C10-C14, C21-C23, C27'],
)
CHECKS['C20'] = dict(
    runs=[dict(harness='h_smooth', trace='SmoothTrace', mode='smooth', cases=800)],
    mc=[dict(module='SmoothMC', min_states=30000), dict(module='SmoothMC', cfg='SmoothMC13.cfg', min_states=300000, thorough_only=True, workers=4)],
    rule='maps of 6-18 m with up to 4 rectangles (changed between runs; smoothers used before in other maps), paths of 0-16 poses with and without sharp turns and cusps anywhere, weights 0-0.5, rates 0.005-0.1, curvature bounds 0.06-1.25, each run for every number of iterations up to 5 and with step tolerances next to the steps taken',
)
CHECKS['C28'] = dict(
    runs=[dict(harness='h_prof', trace='ProfilerTrace', mode='prof', cases=480)],
    mc=[dict(module='ProfilerMC', min_states=10000), dict(module='ProfilerMC', cfg='ProfilerMC3.cfg', min_states=50000, thorough_only=True, workers=4)],
    rule='1-6 threads with nested scopes whose names have quotes, control characters, bytes above 127 and calling conventions, function scopes, timers stopped early and results written directly, calm and in storms of up to 60 scopes a thread, 1-3 sessions of up to 4 phases, the file read after each phase and after the session; also a file that cannot be opened',
    assumptions=['the profiler is initialised before, and released after, the threads that use it', 'the text "__cdecl " does not occur twice in a row in a name'],
)

_py = lambda trace, mode, cases, shards=2: dict(harness='py_nav', trace=trace, mode=mode, cases=cases, shards=shards)
CHECKS['C29'] = dict(
    runs=[_py('GridPlanTrace', 'plan', 200), _py('OccupancyTrace', 'occ', 120), _py('RasterTrace', 'raster', 120), _py('FrameTrace', 'frame', 200), _py('ValidTrace', 'valid', 160),
          _py('PathValidTrace', 'vpath', 100), _py('PoseTrace', 'pose', 300), _py('PathTrace', 'path', 160), _py('SpaceTrace', 'space', 100), _py('PyTrace', 'rs', 60),
          _py('PyGvdTrace', 'gvd', 120), _py('PyTrace', 'hyb', 60, 4), _py('PyTrace', 'api', 200, 1), _py('LifeTrace', 'life', 200)],
    mc=[dict(module='LifeMC', min_states=1000), dict(module='LifeMC', cfg='LifeMC5.cfg', min_states=10000, thorough_only=True, workers=4)],
    rule='the module built from the tree and driven from Python: grid planning with maps and heuristics implemented in Python or given as functions, obstacles, frames, validation, poses, '
         'paths, state spaces, Reeds-Shepp connections, the Voronoi diagram, Hybrid A*, parameters, overridden classes, and objects dropped in any order while others use them',
    assumptions=['overrides have the names of the C++ methods', 'output parameters of C++ methods are not visible in Python'],
)
CHECKS['C30'] = dict(
    runs=[dict(harness='h_map', trace='PicTrace', mode='pic', cases=640), dict(harness='h_heur', trace='PicTrace', mode='pic', cases=640)],
    mc=[dict(module='PictureMC', min_states=2000)],
    rule='pictures of diagrams and heuristics of maps up to 9x9 (diagrams: long maps up to 48x9 too) with obstacles added and removed between pictures, goals on and off the map or unreachable, written over older pictures and where no file can be written',
)

# these are quick for their size
for _c in ('C01 C02 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C19 C20 C23 C25 C26 C27 C30').split():
    for _r in CHECKS[_c]['runs']:
        _r.setdefault('thorough_cases', _r['cases'] * 8)
        _r['cases'] *= 2

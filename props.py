"""What each check runs: parts (harness, build flavour, case counts per tier), counting rule, assumptions, classes that must be reached."""
TRUST = ['g++/clang++, their sanitizer runtimes, libstdc++ and Eigen behave as documented', 'the oracles in /verif/harness, written independently of the library, state the property correctly']
def P(harness, quick, thorough, flavour='asan', **k):
    return dict(harness=harness, quick=quick, thorough=thorough, flavour=flavour, **k)
def C(rule, *parts, must_see=(), assumptions=(), probes=()):
    return dict(rule=rule, parts=list(parts), must_see=list(must_see), probes=list(probes), assumptions=TRUST + list(assumptions))
PROPS = {
 'C02': C('random ellipsoids (3D pose, lengths, per-axis margins, curvature factors 1 to 4, flat axes) with six query points at aimed levels; non-trivial: a level and point was compared; distinct by level values and coordinates',
          P('c02.cpp', 40000, 2000000), must_see=['asked again after one attribute changed', 'inside', 'outside', 'on surface', 'normal on surface', 'curved (factor above 1)', 'flat axis', 'thin axis']),
 'C01': C('histories of 5 to 150 pose operations on four poses, state and obstacle construction/setter histories; every step is one judged event; distinct by the sequence of resulting values',
          P('c01.cpp', 30000, 1500000), must_see=['self composition', 'inverse', '*', '*=', 'associativity', 'ellipsoid construction', 'obstacle construction', 'state set_pose', 'obstacle set_pose', 'ellipsoid copy']),
 'C03': C('random planar ellipsoids, points near and far from the boundary, contours of 3 to 200 samples, lines in random, world-axis and local-axis directions; distinct by level and discriminant values',
          P('c03.cpp', 8000, 400000), must_see=['asked again after one attribute changed', 'point inside', 'point outside', 'contour with margin', 'contour without margin', 'negative yaw', 'yaw 0 or 180 degrees', 'line crossing', 'line missing', 'line parallel to the local y axis', 'area with margin', 'point with exact coordinates', 'area of a needle or a disc']),
 'C04': C('pairs of ellipses at random, touching and nested placements with size ratios to 100, and groups of 3 to 7 split into aggregates and lists; distinct by overlap arc and position',
          P('c04.cpp', 16000, 800000), must_see=['asked again after one attribute changed', 'overlap with a centre inside', 'overlap without centre inside', 'narrowly disjoint', 'size ratio 20 to 100', "only b's contour sampled inside a", "only a's contour sampled inside b", 'agent in obstacle', 'agent clear', 'ellipsoid meets aggregate', 'ellipsoid clear of aggregate', 'aggregates meet', 'aggregates clear', 'agent in aggregate', 'obstacle without footprint', 'other unit of length']),
 'C05': C('scenes of 0 to 12 planar ellipses (random, chains, grids, one late obstacle joining many) whose pairwise relation is unambiguous, each aggregated in three orders; aggregates put together by hand; distinct by edge count and positions',
          P('c05.cpp', 6000, 250000, flavour='fast'), must_see=['grouped again after an obstacle changed in place', 'existing groups merged', 'obstacles at different heights', 'hundreds of obstacles', 'several merges in one scene', 'several aggregates', 'group of five or more', 'no intersection', 'empty list', 'aggregate from a list', 'member added by hand', 'scene with other kinds of obstacles', 'hand-made aggregate joined to others']),
 'C06': C('histories of 5 to 40 registry operations over 2 to 7 names, judged after every step; distinct by history',
          P('c06.cpp', 9000, 600000), probes=['headers_twice.cpp'], must_see=['add', 'add refused', 'remove', 'remove refused', 'lookup', 'lookup refused', 'lookup of a removed obstacle before the update', 'aggregate looked up', 'aggregate lookup refused', 'toggle', 'move', 'rename', 'update with aggregation', 'update without aggregation', 'update built an aggregate', 'copied environment', 'other kind of obstacle']),
 'C07': C('hulls and aggregates of 1 to 8 planar ellipses (random clusters, closed and open rooms), reference point at the mean or given, resolutions 16 to 700, recomputation histories, 25 directions each with the seam and the axes over-represented; distinct by measured radii',
          P('c07.cpp', 6000, 400000, flavour='fast'), must_see=['inner hull radius', 'outer hull radius', 'recomputed hull', 'window across an edge', 'direction at the seam', 'clamped to the minimum radius', 'normal compared', 'normal compared at the seam', 'closed hull', 'hull with a gap', 'inside a member', 'inside the aggregate', 'outside the aggregate', 'closed aggregate', 'aggregate with a gap', 'aggregate made by aggregation', 'members changed in place and hull updated', 'hull recomputed after a member changed in place', 'reference moved', 'turned hull', 'members with shifted reference points']),
 'C08': C('histories of 5 to 25 operations on a pool of four agents; after each, every agent is compared with its own model; distinct by the states reached',
          P('c08.cpp', 12000, 600000), must_see=['constructed', 'set_position', 'set_orientation', 'set_linear_velocity', 'set_pose', 'set_safety_margin', 'copied', 'assigned', 'self-assigned', 'transform', 'transformed', 'swapped', 'in a container']),
 'C09': C('lists of 1 to 5 ellipsoids and aggregates (closed and open rooms, clusters) with ten agent/target pairs each; distinct by positions',
          P('c09.cpp', 4000, 160000, flavour='fast'), must_see=['path', 'no path', 'path out of an open obstacle', 'several obstacles separate', 'close together', 'close to each other on both sides of an outline', 'ellipsoid', 'closed aggregate', 'open aggregate', 'hull in the list', 'base obstacle in the list']),
 'C10': C('1 to 20 distances (critical, equal, just above the critical distance, far), random critical distances and powers; distinct by distances',
          P('c10.cpp', 60000, 3000000), must_see=['none critical', 'some critical', 'all critical', 'exactly critical', 'one obstacle', 'no obstacle', 'extreme distances']),
 'C11': C('random ellipsoids in 3D and plane with agents at aimed levels, aggregates in the plane, sorted distances for the eigenvalues; distinct by level and position',
          P('c11.cpp', 30000, 1500000), must_see=['asked again after one attribute changed', 'inside or on', 'outside', 'slanted normal', 'vertical normal', 'shifted reference point', 'aggregate from inside', 'aggregate from outside', 'eigenvalues']),
 'C21': C('one utility per case with random, boundary and degenerate arguments; distinct by arguments',
          P('c21.cpp', 120000, 5000000), must_see=['linspace', 'too few points refused', 'square grid', 'oblong grid', 'zero vector', 'vector on an axis', 'azimuth near 180 degrees', 'random floats', 'columns sorted', 'value past the last sample', 'last sample', 'sample found', 'sign']),
 'C12': C('scenes of 1 to 6 ellipsoids in plane and space with the agent on the inflated surface of one of them and outside the others, speeds from 1e-9 to 1e6, sizes from 0.01 to 100 times; distinct by the resulting velocities and positions',
          P('c12.cpp', 30000, 1500000), must_see=['plane', 'space', 'other obstacles around', 'one obstacle', 'planar modulation', 'repulsion', 'moving obstacle', 'turning obstacle', 'heading into the obstacle', 'agent margin', 'aggregating environment', 'oblique reference direction', 'local mode']),
 'C15': C('scenes of 1 to 6 ellipsoids in plane and space (independent model) and planar scenes with aggregates (composition of the library matrices); distinct by resulting velocity',
          P('c15.cpp', 30000, 2000000), must_see=['called again after one thing changed', 'one obstacle', 'several obstacles', 'several with weight', 'several critical', 'one critical', 'none critical', 'moving obstacles', 'turned by more than one radian', 'hardly turned', 'aggregate in the list', 'aggregate among others', 'blended velocity helper', 'planar modulation']),
 'C13': C('environments without obstacles in the list, look-ahead regions just meeting or missing obstacles, static scenes near and far; distinct by velocities and positions',
          P('c13.cpp', 30000, 2000000), must_see=['obstacles not yet updated', 'all obstacles removed', 'empty environment', 'local mode, obstacle in the region', 'local mode, region clear', 'local mode differs from global mode', 'local mode with aggregates', 'local mode, standing still', 'far away', 'near', 'just outside']),
 'C14': C('pairs of scenes related by a rigid motion, a mirror, a change of units, renaming, reordering, additional far obstacles, a common velocity or another construction; distinct by resulting velocity',
          P('c14.cpp', 40000, 2000000), must_see=['moved rigidly', 'plane scene tilted', 'mirrored', 'lengths scaled', 'planar modulation', 'velocities scaled', 'renamed and reordered', 'renamed with aggregates', 'irrelevant obstacles added', 'common velocity added', 'built differently']),
 'C16': C('single ellipsoids and aggregates (clusters, rooms) around their thresholds, modulation with and without repulsion of up to 5 obstacles; distinct by distances and repulsions',
          P('c16.cpp', 24000, 2000000), must_see=['ellipsoid below the threshold', 'ellipsoid at or above the threshold', 'own threshold', 'aggregate inside, below the threshold', 'aggregate outside, below the threshold', 'aggregate inside, above the threshold', 'aggregate outside, above the threshold', 'modulation without repelling obstacle', 'modulation with one repelling obstacle', 'modulation with several repelling obstacles', 'modulation with repelling aggregates', 'aggregate with a moved reference']),
 'C17': C('planar scenes of 1 to 6 ellipsoids at various heights, headings random and along the local axes; every obstacle is judged; distinct by resulting reference positions',
          P('c17.cpp', 60000, 3000000), must_see=['line meets', 'line misses', 'heading along the local y axis', 'heading along the local x axis', 'obstacle behind the agent', 'obstacle at another height', 'no planar heading', 'no planar modulation', 'shifted directly', 'through the modulation', 'local mode']),
 'C18': C('API histories of 5 to 60 operations and degenerate modulation scenes, run over differently filled heap and stack and compared bit by bit, and under valgrind memcheck with every returned value tested for definedness; distinct by history',
          P('c18.cpp', 12000, 600000, flavour='plain'), P('c18.cpp', 400, 12000, flavour='plain', wrap=['valgrind', '-q', '--error-exitcode=0', '--leak-check=no', '--undef-value-errors=yes', '--max-stackframe=4000000'], watchdog=300), must_see=['under memcheck', 'agent very far away', 'repeated over other memory contents', 'degenerate scene', 'zero velocity', 'agent at the centre of obstacles', 'agent exactly at a reference point', 'base obstacle made', 'hull made', 'aggregate made', 'agent made', 'environment updated', 'modulated', 'obstacle copied', 'query']),
 'C19': C('API histories of 10 to 60 operations, each run twice under ASan and UBSan with the heap balance taken over the second run; distinct by history',
          P('c19.cpp', 1800, 300000), must_see=['ellipsoid made', 'base obstacle made', 'hull made', 'hull recomputed', 'aggregate made', 'member added', 'deleted through the base class', 'obstacle copied', 'obstacle changed', 'query', 'agent made', 'agent changed', 'environment made', 'obstacle added', 'addition refused', 'obstacle removed', 'removal refused', 'lookup', 'lookup refused', 'environment updated', 'environment copied', 'modulated', 'obstacle dropped', 'environment dropped', 'aggregated', 'utilities']),
 'C20': C('2 to 6 threads with 10 to 40 queries each on shared agents, obstacles, hulls, aggregates and environments (after and before sequential runs), or with environments and agents of their own, with random delays, under ThreadSanitizer; distinct by seed of the schedule',
          P('c20.cpp', 1600, 80000, flavour='tsan'), must_see=['shared objects', 'first questions asked by threads', 'shared aggregate', 'objects of their own', "queries overlapping another thread's", 'queries in threads']),
 'C22': C('single ellipsoids, hulls and aggregates in both planes, and whole configurations (with agent, without, guard) with random options; every call that reaches the plotting backend is recorded and judged; distinct by positions and sizes',
          P('c22.cpp', 2000, 60000), must_see=['ellipsoid in xy', 'ellipsoid in xz', 'named', 'unnamed', 'with margin', 'pose in space', 'hull in xy', 'hull in xz', 'named hull', 'aggregate in xy', 'aggregate in xz', 'xy panel', 'xz panel', 'one panel', 'two panels', 'saved', 'shown', 'configuration with agent', 'configuration without agent', 'guard configuration', 'aggregate in a configuration', 'nothing to draw', 'more obstacles than colours', 'colours compared']),
 'C23': C('whole trajectories of up to 30000 steps of 2 ms towards a goal: one or several static obstacles, moving and turning ones, rooms of 4 to 7 walls, clusters of 2 to 4 ellipses seen from outside; every step is judged; distinct by end position and length',
          P('c23.cpp', 3000, 250000, flavour='fast', watchdog=120), must_see=['one static obstacle', 'several static obstacles', 'moving obstacles', 'plane', 'space', 'near pass', 'touching pass', 'repulsion', 'planar modulation', 'goal reached past one obstacle', 'goal reached after a near pass', 'room with repulsion', 'room without repulsion', 'at the wall of a room', 'round an aggregate', 'round an aggregate with repulsion', 'near pass of an aggregate']),
 'C24': C('poses, states, agents, base obstacles, ellipsoids, hulls and aggregates with random contents after setter calls, printed with various stream formats; distinct by contents',
          P('c24.cpp', 8000, 400000), must_see=['pose', 'state', 'agent', 'base obstacle', 'ellipsoid', 'ellipsoid through its base', 'aggregate', 'hull', 'nested aggregate']),
}

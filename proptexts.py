D = 'src/routing/dijkstra.rs'
B = 'src/network/graph/building.rs'
prop('C01', 'Dijkstra returns a cheapest path, or none exactly if dst is unreachable',
 'For every graph, routing-config and pair of nodes, a plain Dijkstra-query returns a contiguous path of existing edges from src to dst whose alpha-weighted cost is minimal among all paths, up to the documented accuracy. It returns no path exactly if dst is unreachable from src, and the empty path if src equals dst. Negative alphas yield no path instead of an endless search.',
 ['inputs', 'configurations'], 'all directed multigraphs with non-negative metrics (self-loops, parallel edges, dead ends), all non-negative alphas, all pairs of nodes',
 'The tests compare a few fixed maps with hand-written paths; optimality is a statement over all graphs, weights and ties.',
 [D, 'src/network/graph/mod.rs', 'src/helpers/mod.rs'], [('bidirectional search and stop-criterion', D), ('offset-arrays of leaving and incoming edges', 'src/network/graph/mod.rs')],
 'Exhaustive within bounds: all graphs of 4 edges on 3 nodes, all weights of a small dyadic set on K4 and other shapes, symbolic alphas.')
prop('C02', 'CH-Dijkstra on a contracted graph finds the costs of the original graph',
 'For every graph that was contracted correctly in any node-order, a CH-query finds a path exactly if the original graph has one, with the same minimal cost as in the original graph. After flattening, the path consists only of original edges, is contiguous from src to dst and has that cost.',
 ['inputs', 'configurations'], 'all weights, contraction-orders, uncontracted cores, pruned or complete sets of shortcuts, pairs of nodes',
 'The tests contain two contracted maps with fixed levels; stop-criterion and level-pruning only matter for particular combinations of level and weight.',
 [D, B, 'src/routing/paths.rs'], [('level-pruned search, needs edges sorted by level', D), ('edges sorted by descending level of their other end', B), ('flattening', 'src/routing/paths.rs')],
 'Exhaustive within bounds: all orders of contraction of 4 nodes with symbolic weights, cores of equal level, pruned shortcuts, two metrics. Hierarchies are built by an independent contraction in the harness.')
prop('C03', 'A reused Dijkstra-instance answers like a new one',
 'Whatever queries an instance has answered before - on any graphs, of any size, with either algorithm, successful, failed or rejected - the answer to the next query has the same existence and cost as the one of a new instance, and never panics.',
 ['histories', 'inputs'], 'all sequences of queries over graphs of different sizes and both algorithms',
 'The tests reuse an instance on one graph with one algorithm; leftovers only show for particular sequences.',
 [D], [('reuse of cost-, predecessor- and visited-arrays', D)],
 'Exhaustive within bounds: all sequences of two and selected sequences of three queries over two graphs and both algorithms with symbolic weights.')
prop('C04', 'The graph contains exactly the inserted edges, duplicates collapsed',
 'After building, iterating the edges leaving or entering the nodes yields every inserted edge exactly once with its src, dst, id and metrics, where only edges with equal id, src, dst and approximately equal metrics are collapsed into one. Forward and backward view agree, no matter in which order edges are inserted. Conflicting edge-ids and negative or vanishing metrics are reported as error.',
 ['inputs', 'histories'], 'all multisets and orders of insertion of edges, including parallel edges, self-loops and nodes without leaving or incoming edges, with and without ids',
 'Tests build a handful of fixed maps without parallel edges or dead ends.',
 [B, 'src/network/graph/mod.rs'], [('sorting, deduplication, offset-arrays', B), ('edge-accessors', 'src/network/graph/mod.rs')],
 'Exhaustive within bounds: any 3 (and 4) edges on 3 nodes with symbolic metrics and ids, metrics at the limits of the accuracy.')
prop('C05', 'The graph contains exactly the nodes of its edges, found by id',
 'After building, the nodes are exactly the ones occurring in inserted edges, each once, sorted by id, each with the coordinate and level given for its id; looking up an id returns the node with this id, or nothing for other ids. Nodes without any edge are refused, and a node without coordinate makes building fail with an error.',
 ['inputs', 'histories'], 'all node-ids of i64, all sequences of edges and nodes',
 'Tests use small positive ids in fixed order.',
 [B, 'src/network/graph/mod.rs'], [('collection of node-ids with look-back', B), ('lookup by binary search', 'src/network/graph/mod.rs')],
 'Exhaustive within bounds: ids -9..9 and extreme values, all sequences of 3 (4) edges over 4 (5) nodes, any subset of coordinates.')
prop('C06', 'Shortcuts refer to the same two edges after sorting and deduplication',
 'Whatever order edges and shortcuts are inserted in, and however edges are sorted and duplicates are collapsed while building, each shortcut of the built graph refers to the two edges it was inserted with (or the edge they were collapsed into), in the same order. Edges inserted without such references are no shortcuts.',
 ['inputs', 'histories'], 'all orders of insertion, all references between edges, duplicates anywhere',
 'Only the fixed contracted map of the tests has shortcuts, without duplicates that shortcuts refer to.',
 [B, 'src/network/graph/mod.rs'], [('remapping of shortcut-references', B), ('shortcut-offsets', 'src/network/graph/mod.rs')],
 'Exhaustive within bounds: all orders of insertion of 5 edges with nested shortcuts, any references of two shortcuts, duplicates.')
prop('C07', 'Flattening a path keeps its route and cost and always ends',
 'Flattening replaces every shortcut, at any nesting, by the original edges it stands for, in travel-order, so the result contains no shortcut, and keeps edges that are no shortcuts. Costs of a path are the sums of the metrics of its flattened edges. Cyclic references are reported instead of searching forever.',
 ['inputs'], 'all nestings of shortcuts and all paths, also cyclic references',
 'Tests flatten only the few shortcuts of one fixed map.',
 ['src/routing/paths.rs'], [('flattening with explicit stack', 'src/routing/paths.rs')],
 'Exhaustive within bounds: any references between 3 (4) edges including cyclic ones, nesting of depth 3, costs of any path of 3 edges.')
prop('C08', 'Normalised metrics are the metrics divided by their remembered mean',
 'If normalisation is requested, every metric of every edge (given or generated) ends up divided by the mean of that metric over all edges, stays positive, and the mean is remembered for undoing it. A vanishing mean or a graph without edges is reported as error. Without the request, values stay as they are and no mean is kept.',
 ['inputs', 'configurations'], 'all metric-values of all edges, any number of metrics, normalisation on, off or unmentioned',
 'The tests normalise one map and look at routing-results only.',
 [B, 'src/network/graph/mod.rs'], [('computing and dividing by means', B)],
 'Within bounds (3-4 edges, symbolic values from tables and dyadic ranges, up to three metrics); tolerance 1e-9 relative.')
prop('C09', 'Generated metrics get the configured values and leave all others alone',
 'Each configured generation-step (copy, convert, calculation, constant, distance of coordinates, values of a file, meta-infos), also on top of earlier steps, yields for every edge exactly the configured value under the configured id and unit, and changes nothing else. Values, ids, units and the config of the graph stay consistent. Steps that are not possible (unknown or existing ids, units that do not fit, broken files) are reported as error.',
 ['inputs', 'configurations'], 'all metric-values, all kinds of steps and their orders, all ids',
 'Tests use a few fixed configs and do not compare generated values with their sources.',
 [B, 'src/configs/parsing/generating/edges/mod.rs', 'src/configs/parsing/generating/edges/metrics.rs'], [('generation-steps', B), ('units', 'src/configs/parsing/generating/edges/metrics.rs')],
 'Within bounds: four edges with symbolic metrics, every step, all compatible pairs of steps, files of two lines.')
prop('C10', 'Units are converted without changing the quantity, or refused',
 'Converting a value between units of the same quantity keeps the quantity, to the same unit or from/to a plain number keeps the value bit by bit, and every other combination is an error. Times are calculated only from kilometres and km/h, speeds only from kilometres and hours, with the right factor.',
 ['inputs', 'configurations'], 'all pairs and triples of units, all f64 but NaN',
 'Tests convert hardly any unit; two separate tables have to agree.',
 ['src/configs/parsing/generating/edges/metrics.rs', 'src/configs/parsing/edges/metrics.rs'], [('conversion-tables', 'src/configs/parsing/edges/metrics.rs'), ('conversion-tables and calculation', 'src/configs/parsing/generating/edges/metrics.rs')],
 'Complete over all units and every non-NaN f64 (floating-point theory).')
prop('C11', 'Map-files (fmi) are read as they are written',
 'For every fmi-file and config, the parsed graph has exactly the nodes and edges of the file: ids, coordinates, levels, metrics, ids of edges (also "ch"-ids) and shortcut-references stand in the configured columns, in any order and with ignored columns between. Comments, header-lines, kinds of line-end and blanks do not matter, and exactly as many lines as counted are read.',
 ['inputs', 'configurations'], 'all values, orders of columns, edges and layouts of a file',
 'Tests read a handful of fixed files with one layout.',
 ['src/io/parsing/network/graph/fmi.rs', 'src/io/parsing/network/graph/mod.rs'], [('counts, nodes- and edges-lines', 'src/io/parsing/network/graph/fmi.rs'), ('two passes over the file', 'src/io/parsing/network/graph/mod.rs')],
 'Within bounds: files of up to 4 nodes and 4 edges with symbolic digits, edges, columns and layouts.')
prop('C12', 'Malformed and missing files are reported as error',
 'Whatever bytes stand in a map-file (fmi), edges-info-file, routes-file or config, reading it ends with a result or an error-message, never with a crash. A value that is no number of the expected kind, refers to a missing node or edge, or is no valid metric is refused; proper values are accepted. Missing or unsupported files are errors.',
 ['inputs', 'environments'], 'all bytes in place of any value of a file, all lengths of a file',
 'A test can sample some broken files only; bytes of other kinds panic unnoticed.',
 ['src/io/parsing/network/graph/fmi.rs', 'src/io/parsing/network/edges.rs', 'src/io/parsing/routing/routes.rs', 'src/io/mod.rs', 'src/configs/parsing/mod.rs'], [('parsing lines', 'src/io/parsing/network/graph/fmi.rs'), ('parsing routes', 'src/io/parsing/routing/routes.rs'), ('reading edges-info', 'src/io/parsing/network/edges.rs'), ('reading configs', 'src/configs/parsing/mod.rs')],
 'Exhaustive over all bytes: 2-4 arbitrary bytes in place of each value, whole files of 4 bytes, each byte of a config.')
prop('C13', 'Written maps and edges-infos hold the graph, and are read back as the same graph',
 'Writing a graph as fmi-file and parsing it with the matching config yields the same nodes, edges, ids, levels, metrics (every bit) and shortcuts; edges-info-files hold, in each configured column, the right information of each edge. Shortcuts are left out unless requested; normalised metrics are multiplied by their mean only on request. Unknown ids are refused, existing files are never overwritten.',
 ['inputs', 'configurations', 'histories'], 'all graphs, shortcuts, values, ids and orders of columns',
 'Tests write one map with one config.',
 ['src/io/writing/network/graph/fmi.rs', 'src/io/writing/network/mod.rs', 'src/io/writing/network/edges.rs', 'src/io/parsing/network/graph/fmi.rs'], [('writing nodes', 'src/io/writing/network/graph/fmi.rs'), ('writing edges', 'src/io/writing/network/mod.rs'), ('external values', 'src/io/writing/network/edges.rs')],
 'Within bounds: graphs of up to 5 edges with any ends and references; tables of unusual values; ids of up to 4 digits.')
prop('C14', 'Files of routes hold existing routes and are read as written',
 'Writing routes yields only pairs of different nodes a path exists for, each once, at most as many as wanted, all of them if at least node-count squared are wanted, and the same ones for the same seed. Reading such a file yields exactly these pairs and counts, whatever comments, headers and blanks it has. Paths written for SMARTS list all their nodes in travel-order.',
 ['inputs', 'configurations', 'histories'], 'all graphs, seeds, numbers of routes; all values and layouts of a file; all paths',
 'Tests write routes of one map and look at their number.',
 ['src/io/writing/routing/random_or_all.rs', 'src/io/parsing/routing/routes.rs', 'src/network/routes.rs', 'src/io/writing/smarts.rs'], [('choosing routes', 'src/io/writing/routing/random_or_all.rs'), ('reading routes', 'src/io/parsing/routing/routes.rs'), ('SMARTS', 'src/io/writing/smarts.rs')],
 'Within bounds: any graphs of up to 4 nodes and 3 edges, files of up to 3 routes with symbolic digits.')
prop('C18', 'What could not be written or read is reported',
 'If a file (map, edges-info, external values, routes, SMARTS) can not be written completely, because writing fails at any point, the writer returns an error; it reports success only if the whole content is in the file. If reading a map, edges-info, routes-file or config fails at any point, this is an error, too, instead of a crash or a partial result.',
 ['environments', 'inputs'], 'all points in time at which reading or writing starts to fail',
 'Tests run on a healthy disk only.',
 ['src/io/writing/network/graph/fmi.rs', 'src/io/writing/network/edges.rs', 'src/io/writing/routing/random_or_all.rs', 'src/io/writing/smarts.rs', 'src/io/parsing/network/graph/fmi.rs'], [('writing with buffers', 'src/io/writing/network/graph/fmi.rs'), ('writing edges', 'src/io/writing/network/edges.rs')],
 'Every point of failure of files of up to three buffers is explored.')
PBF = 'src/io/parsing/network/graph/pbf.rs'
prop('C15', 'Streets of an osm.pbf-file become exactly the edges of the graph',
 'For every osm.pbf-file, each way that is a street for the configured vehicle and driver yields one edge per pair of consecutive nodes and direction allowed by the oneway-tag, with the speed and lanes of its tags; other ways, lone nodes and nodes no edge uses are left out. Nodes keep id and coordinates. A block that can not be decoded, a node missing in the file or a column that pbf-files do not provide is an error.',
 ['inputs', 'configurations'], 'all ways over the nodes (loops, repetitions), oneway-tags, vehicles, speeds, block-layouts, missing nodes, broken blocks',
 'Tests count nodes and edges of one downloaded file, which is not even part of the repository.',
 [PBF, 'src/defaults.rs', B], [('ways to edges', PBF), ('tags', 'src/defaults.rs')],
 'Within bounds: up to 2 ways of up to 4 references on 4 nodes. The real osmpbfreader decodes the file; only its thread-pool (par-map) is replaced by a sequential one of the same order.')
prop('C16', 'Tags of streets are understood as documented',
 'A street has the default speed, lanes and users (cars, bicycles, pedestrians) of the documented table; drivers that are not picky use all streets picky ones do. A numeric maxspeed is taken, but at least 5 km/h; known texts have their speed, anything else means the default of the street, so speeds are always between 5 and 65535 km/h. oneway is forward for yes and 1, reverse for -1, otherwise both directions; no text of a tag causes a crash, and case and blanks of speeds and directions do not matter.',
 ['inputs', 'configurations'], 'all texts of a tag up to the bound, all numbers of up to 6 digits, all streets, vehicles and drivers',
 'Tests do not look at tags at all.',
 ['src/defaults.rs', 'src/network/mod.rs'], [('tables of streets, speeds and directions', 'src/defaults.rs'), ('documentation of the table', 'src/network/mod.rs')],
 'Complete for the tables of streets and users; texts of any 1 to 6 (thorough: 14) ASCII bytes. Where documentation and code disagree (cars on service and road) only the order of picky and unpicky drivers is checked.')
prop('C17', 'Approximate comparisons are a consistent order of numbers, options and vectors',
 'Numbers closer than the accuracy (1e-6) are the same, numbers further than twice the accuracy apart are ordered as they are; all operators agree with each other and are symmetric. None is less than any value; vectors are the same (less, greater) if all their values are, and less-or-equal (greater-or-equal) if no value is greater (less); coordinates are the same if latitude and longitude are.',
 ['inputs'], 'all differences around the accuracy next to numbers of different magnitude, all combinations of vectors',
 'Tests compare a few numbers; the tolerance makes the operators of one type easily contradict each other.',
 ['src/approximating.rs', 'src/defaults.rs'], [('comparisons', 'src/approximating.rs'), ('accuracy', 'src/defaults.rs')],
 'Within bounds: multiples of 2^-23 up to 40 around 8 base values, two symbolic numbers in -1.5..1.5, vectors of up to 4 values.')
prop('C19', 'Configs mean what the blueprint documents',
 'A config yields exactly the files, columns in order, units, vehicles, alphas and scales it states. What may be left out has its documented default (alpha 1, 0 for metrics not mentioned, no tolerated scale, cars, picky drivers, no normalisation, no shortcuts, unit F64, value 0, header, seed 42). Unknown metrics, algorithms, units, vehicles, extensions of files, misspelled keys and duplicate ids of edges are refused.',
 ['configurations', 'inputs'], 'all combinations of optional and given values; ids, numbers, extensions and keys are symbolic',
 'Tests read a few fixed configs and hardly look at the result.',
 ['src/configs/routing.rs', 'src/configs/parsing/mod.rs', 'src/configs/writing/mod.rs', 'resources/blueprint.yaml'], [('configs of routing', 'src/configs/routing.rs'), ('configs of parsing', 'src/configs/parsing/mod.rs'), ('kinds of files', 'src/io/mod.rs')],
 'Within bounds: configs with up to three metrics and columns of every kind; serde_yaml itself is executed, too.')
prop('C20', 'Matrices, vectors and lines are computed as in mathematics',
 'A matrix of any shape returns each cell as given by its rows. Solving a linear system yields a vector fulfilling every row if the matrix is regular, and nothing if it is singular (exactly so in two dimensions). Sums, differences, weighted sums and the order of vectors of any dimension are those of their values; a line of a file counts exactly if it is neither empty nor starts with #.',
 ['inputs'], 'all cells of matrices and vectors from small sets or dyadic ranges, all bytes of a line',
 'There are no tests of the algebra besides square matrices used by the exploration.',
 ['src/helpers/algebra.rs', 'src/helpers/mod.rs'], [('matrix and linear systems', 'src/helpers/algebra.rs'), ('vectors and lines', 'src/helpers/mod.rs')],
 'Within bounds: matrices up to 4x4, systems of two and three unknowns with cells of {0, 1, -1, 2, -2} and {0, 2} (thorough: {0, 1, -2}), vectors of up to 4 values. nalgebra itself is executed.')
prop('C21', 'Exploration returns every best alternative once, and only tolerated ones',
 'Exploring alternatives ends and returns paths from source to target with their real costs, no two of the same costs, and none if the target is unreachable; every cost of a considered metric is at most its tolerated scale times the optimum. Without tolerances an optimum of each considered metric is returned. For two considered metrics (whatever others are ignored) and three different optima for the first, the second and both metrics, the tolerated alternatives include the optimum of every positive weighting.',
 ['inputs', 'configurations', 'histories'], 'costs of all alternatives, which metrics are considered, tolerated scales, queries answered before',
 'The exploration is behind a feature whose C++ library is not built for the tests, so it is not tested here at all.',
 ['src/routing/explorating.rs', 'src/helpers/algebra.rs'], [('exploration of the convex hull', 'src/routing/explorating.rs'), ('linear systems', 'src/helpers/algebra.rs')],
 'Within bounds: 4 to 6 alternatives with costs from small tables or symbolic ranges. The C++ library for triangulations is replaced by a stand-in (harness/nd-triangulation) of the same interface with exact hulls; feature gpl is switched on for this check only.')
prop('C22', 'A step of balancing updates the metric as documented',
 'The new value of an edge is old + (new - old) * correction or (iteration * old + new) / (iteration + 1), where new is the workload divided by the mean workload; values below the minimum become the minimum. Then all are divided by their mean, which is kept if the graph is normalised; all else in the graph stays. Without any workload, or for a zero without minimum (unless allowed), an error is returned and nothing changes. Results list every edge with its id and workload; options left out of a config have their documented default.',
 ['inputs', 'configurations', 'histories'], 'workloads, old values, methods, minima and iterations; edges in any order; options given or not',
 'The balancer is behind a feature that is not built for the tests.',
 ['src/defaults.rs', 'src/io/writing/evaluating_balance.rs', 'src/configs/balancing.rs', 'src/configs/evaluating_balance.rs'], [('update of the metric', 'src/defaults.rs'), ('results', 'src/io/writing/evaluating_balance.rs'), ('config', 'src/configs/balancing.rs')],
 'Within bounds: 2 or 3 edges, workloads and old values of small sets, one or two updates. Feature gpl is switched on for this check, with the stand-in of the triangulation.')
prop('C23', 'Balancing evaluates every route as often as it counts, in any schedule',
 'Whatever the number of threads and their schedule, evaluating a list of routes (each with a count, possibly 0) ends with every thread joined and nobody else owning the graph. Every edge of the original graph gets as workload how often the counted routes use it, a shortcut none; unreachable routes are skipped. The returned paths are the best path of each route (with exploration: any of its alternatives), as often as the route counts.',
 ['schedules', 'inputs'], 'schedules of the threads (which one continues whenever one waits or could interfere), routes, their counts, number of threads',
 'The balancer is behind a feature that is not built for the tests; schedules could not be tested anyway.',
 ['src/bin/osmgraphing/balancing/multithreading.rs'], [('master and workers', 'src/bin/osmgraphing/balancing/multithreading.rs')],
 'Within bounds: 1 to 4 threads, 0 to 84 routes on a graph of 4 nodes, up to 1 to 3 (thorough: 5) interruptions of threads able to continue, unbounded switches of waiting threads. Threads and channels of the standard library are replaced by a model (harness/src/mstd.rs) with a symbolic schedule.')
prop('C24', 'The programs do each requested step and report the ones that fail',
 'The program osmgraphing writes the graph, its edges, routes and evaluated workloads exactly if this is requested; routing shows, for every requested route, the optimal costs (or that there is no path). It never overwrites existing files, and ends with an error if a step fails. Balancing contracts and evaluates the graph once per iteration (one more than updates), in a directory of its own: with the config of the iteration, the metric as updated by the iteration before (ignored in the first one), the external tool being started with exactly the configured settings; it stores the workloads, the updated metric and finally the balanced graph. A failing or missing tool ends the program with an error, and nothing is started after it.',
 ['configurations', 'inputs', 'faults'], 'steps requested, missing and existing files, options of the tool, failing starts of programs, updates and counts of routes',
 'The programs are not tested at all.',
 ['src/bin/osmgraphing/mod.rs', 'src/bin/osmgraphing/balancing/mod.rs', 'src/bin/multi-ch-constructor.rs', 'src/multi_ch_constructor/mod.rs', 'src/multi_ch_constructor/configs.rs'], [('steps of the program', 'src/bin/osmgraphing/mod.rs'), ('iterations', 'src/bin/osmgraphing/balancing/mod.rs'), ('external tool', 'src/multi_ch_constructor/mod.rs')],
 'Within bounds: a map of 3 nodes, every subset of steps, up to 2 (thorough: 4) updates. Threads, starts of programs and copies of files are replaced by models (harness/src/mstd.rs); the started tool is replaced by a copy of the graph.')

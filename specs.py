"""Which harness entries decide which property, with their bounds and the points each run has to reach."""
Q, T = ('quick', 'thorough'), ('thorough',)
SPECS = {}
def spec(pid, bounds, outside, harnesses, assumptions=()):
    SPECS[pid] = {'bounds': bounds, 'outside': outside, 'assumptions': list(assumptions), 'harnesses': harnesses}
def h(entry, what, bounds, covers=(), tiers=Q, **kw):
    d = {'entry': entry, 'what': what, 'bounds': bounds, 'covers': list(covers), 'tiers': tiers}
    d.update(kw)
    return d

spec('C01', 'graphs of up to 6 nodes and up to 12 edges, weights from small dyadic sets, up to two metrics', 'larger graphs; weights closer together than the accuracy of 1e-6; contracted graphs (C02)', [
    h('c01_struct3', 'any 4 edges on 3 nodes (self-loops, parallels, unreachable parts), any src and dst', '3 nodes, 4 edges, weights k/2 for k in 1..6', ['path', 'no path']),
    h('c01_struct4', 'any 5 edges on 4 nodes, src and dst fixed', '4 nodes, 5 edges without self-loops, weights k/2 for k in 1..4', ['path', 'no path'], tiers=T),
    h('c01_k4', 'complete digraph on 4 nodes, all weights free', '12 edges, weights 1..4', ['path']),
    h('c01_ladder', 'two chains with a crossing, all weights free', '6 nodes, 7 edges, weights 1..4', ['path']),
    h('c01_alpha', 'two metrics and free alphas', '3 nodes, 3 edges, metrics 1..4, alphas k/2 for k in 0..3', ['path']),
    h('c01_neg', 'negative alphas', 'two alphas k/2 for k in -4..4', ['neg', 'pos']),
    h('c01_small', 'metrics at and above zero', '4 nodes, 6 edges, metrics from {0, 0.25, 1, 1.5}', ['path']),
    h('c01_struct3_t', 'any 5 edges on 3 nodes, any src and dst', '3 nodes, 5 edges, weights k/2 for k in 1..8', ['path', 'no path'], tiers=T),
    h('c01_struct4_t', 'any 5 edges on 4 nodes, any src and dst', '4 nodes, 5 edges, weights k/2 for k in 1..6', ['path', 'no path'], tiers=T),
    h('c01_k4_t', 'complete digraph on 4 nodes, all weights free', '12 edges, weights 1..16', ['path'], tiers=T),
])

spec('C02', 'contracted graphs of up to 5 base nodes, 9 base edges, every order of contraction of 4 nodes, complete or pruned shortcuts, cores of equal level', 'larger graphs; hierarchies that are not valid for the weights in use', [
    h('c02_levels', 'any order of contraction, any src and dst', '4 nodes, 6 base edges, weights 1..3', ['path', 'flattened']),
    h('c02_core', 'some nodes stay uncontracted and share the highest level', '4 nodes, 6 base edges, weights 1..4', ['path', 'flattened']),
    h('c02_k4', 'dense graph, shortcuts pruned by existing edges', '4 nodes, 7 base edges, weights 1..3', ['path']),
    h('c02_pruned', 'any order of contraction, shortcuts only where no cheaper edge exists', '4 nodes, 6 base edges, weights 1..4', ['path', 'flattened']),
    h('c02_struct', 'any 3 edges on 3 nodes with contraction', '3 nodes, weights 1..3', ['path', 'no path', 'flattened']),
    h('c02_two', 'two metrics and free alphas', '3 nodes, metrics 1..3, alphas k/2 for k in 0..2', ['path', 'flattened']),
    h('c02_struct_t', 'any 4 edges on 3 nodes with contraction', '3 nodes, weights 1..4', ['path', 'no path', 'flattened'], tiers=T),
    h('c02_k4_t', 'dense graph, shortcuts pruned by existing edges', '4 nodes, 7 base edges, weights 1..8', ['path'], tiers=T),
    h('c02_chain5', 'chain with nested shortcuts, any order of contraction', '5 nodes, 6 base edges, weights 1..4', ['path', 'flattened'], tiers=T),
])
spec('C03', 'sequences of up to three queries on up to two graphs with both algorithms', 'longer histories; other sizes of graphs', [
    h('c03_two', 'two queries on a larger and a smaller graph in any order, any src, dst and algorithm', '4 and 2 nodes', ['path', 'no path', 'end']),
    h('c03_three', 'large, small, large graph', '4 and 2 nodes, weights 1..3', ['path', 'no path', 'end']),
    h('c03_same', 'two queries on the same graph', '4 nodes, 5 base edges, weights 1..4', ['path', 'end']),
    h('c03_ch', 'a rejected query in between', '3 nodes', ['path', 'end']),
    h('c03_mixed', 'three queries on one graph, both algorithms in any order', '4 nodes, 4 base edges, weights 1..2', ['path', 'no path', 'end']),
    h('c03_three_t', 'large, small, large graph', 'weights 1..5', ['path', 'no path', 'end'], tiers=T),
])
spec('C04', 'up to five edges on three nodes', 'more edges than one chunk of the builder; metrics between 1.25e-6 and 1.6e-6 apart', [
    h('c04_order', 'any three edges in any order, several level-assignments, equal, nearly equal and different metrics', '3 nodes, 3 edges', ['built', 'collapsed', 'parallel']),
    h('c04_ids', 'edge-ids: none, equal, different, extreme', '3 edges, ids of {none, 5, 0, 2^64-1}', ['built', 'id conflict', 'id', 'collapsed', 'parallel']),
    h('c04_metric', 'metrics around zero and below', '3 edges, 2 metrics of {0, -0, +-4.8e-7, 9.5e-7, +-1.9e-6, 0.125, 4096, -0.5}', ['built', 'negative']),
    h('c04_nan', 'metrics that are no number, infinite, negative, tiny or huge', '13 values', ['built', 'refused']),
    h('c04_loops', 'self-loops and parallel edges', '5 edges', ['built', 'collapsed', 'parallel']),
    h('c04_order_t', 'any four edges in any order', '3 nodes, 4 edges', ['built', 'collapsed', 'parallel']),
    h('c04_ids_t', 'edge-ids of four edges', '4 edges', ['built', 'id conflict', 'id', 'collapsed', 'parallel'], tiers=T),
])
spec('C05', 'up to four edges, up to five nodes, ids over the whole range of i64', 'larger graphs', [
    h('c05_any', 'any ids', '3 nodes, ids -9..9, all orders', ['end']),
    h('c05_far', 'extreme ids', '3 nodes and an unused one, ids from 7 values between the limits of i64', ['end']),
    h('c05_any_t', 'any ids', '4 nodes, ids -9..9, all orders', ['end']),
    h('c05_seq', 'any sequence of edges', '3 edges, 4 nodes', ['end', 'unused']),
    h('c05_missing', 'any subset of coordinates', '4 nodes', ['built', 'error']),
    h('c05_again', 'any order of nodes', '4 nodes', ['end']),
    h('c05_chain', 'long and branching sequences of edges', '7 edges, 5 shapes', ['end']),
    h('c05_seq_t', 'any sequence of edges', '4 edges, 5 nodes', ['end', 'unused'], tiers=T),
])
spec('C06', 'up to nine edges, two shortcuts with any references, all orders of insertion of five edges', 'larger graphs', [
    h('c06_perm', 'nested shortcuts, any order of insertion', '5 edges', ['shortcut', 'end']),
    h('c06_dups', 'duplicates of edges and shortcuts, any of them referred to', '9 edges', ['shortcut', 'end']),
    h('c06_any', 'any edges behind the shortcuts', '5 edges', ['shortcut', 'end']),
    h('c06_perm_t', 'nested shortcuts with a duplicate, any order of insertion', '7 edges', ['shortcut', 'end'], tiers=T),
    h('c06_any_t', 'any edges behind the shortcuts', '6 edges', ['shortcut', 'end'], tiers=T),
])
spec('C07', 'paths of up to three edges, up to three levels of nesting, any references between four edges', 'larger graphs', [
    h('c07_any', 'any references (also cyclic ones), any path', '3 edges, up to 2 shortcuts, path of 2', ['flat', 'error']),
    h('c07_nested', 'any nesting along a chain', '4 base edges, 3 shortcuts', ['deep', 'end']),
    h('c07_costs', 'costs of any path', '3 edges, path up to 3', ['end']),
    h('c07_any_t', 'any references (also cyclic ones), any path', '4 edges, up to 2 shortcuts, path of 2', ['flat', 'error'], tiers=T),
])
spec('C08', 'up to four edges, up to three metrics, values from tables or dyadic ranges', 'larger graphs; numerical error of long sums', [
    h('c08_two', 'two metrics', '3 edges, metrics k/2 for k in 1..6 and {0.5, 3, 40}', ['normalised']),
    h('c08_zero', 'metrics at and around zero', '4 edges, metrics of {0, 9.5e-7, 1.9e-6, 1}', ['error', 'normalised']),
    h('c08_wide', 'metrics of very different size', '3 edges, metrics of {0, 1/4, 2^10, 2^26}', ['error', 'normalised', 'tiny']),
    h('c08_off', 'switched off, not mentioned, empty graph', '4 edges, metrics k/2 for k in 1..9', ['off', 'empty']),
    h('c08_gen', 'generated metrics are normalised as well', '3 edges, 3 metrics', ['normalised']),
    h('c08_shortcut', 'shortcuts count like any other edge', '6 edges, up to two of them shortcuts, metrics of {1/2, 3}', ['normalised']),
    h('c08_dup', 'duplicates count once', '3 edges, one of them inserted thrice, metrics k/2 for k in 1..4', ['normalised']),
    h('c08_genzero', 'zeros among generated metrics', '3 edges, up to 2 merged lines with values of {0, 1/2, 64}', ['normalised', 'error']),
])
spec('C09', 'four edges with three metrics and ids, every kind of generated metric, chains of four steps, files of two lines', 'longer chains; larger files', [
    h('c09_each', 'every kind of generated metric', 'distance k/2 for k in 1..6, speed of {0.5, 30, 50}, plain number 1..9', ['copy', 'convert', 'retype', 'hours', 'minutes', 'seconds', 'custom', 'custom default', 'misfit']),
    h('c09_chain', 'two kinds after each other, within a copy of a copy', 'as before, all compatible pairs', ['end']),
    h('c09_meta', 'every meta-info', 'all kinds', ['edge', 'node']),
    h('c09_ids', 'an id exists already or is generated twice', 'all kinds, 6 ids each', ['edge', 'node']),
    h('c09_ids_convert', 'conversions giving ids that exist or not, followed or preceded by another step', '5 ids each', ['refused', 'renamed']),
    h('c09_unknown', 'reference to an unknown metric', 'all kinds', ['end']),
    h('c09_merge', 'merging a file into any edges', 'up to 2 lines, any edges, header or not', ['end']),
    h('c09_merge_value', 'merged values of any precision and size', '14 numbers, any edge', ['end']),
    h('c09_merge_bad', 'broken files', '11 kinds of defect', ['end']),
    h('c09_invalid', 'constants and merged values that are no metrics', '6 values', ['end']),
    h('c09_haversine', 'distance between ends of edges', '3 fixed coordinates, all units', ['distance', 'refused']),
])
spec('C10', 'all pairs and triples of units; every f64 but NaN where a value is converted', 'NaN', [
    h('c10_convert', 'all pairs of units while parsing and generating', 'every f64 but NaN', ['same', 'incompatible', 'scaled']),
    h('c10_calc', 'time from distance and speed, speed from distance and time', 'every two f64 but NaN', ['end']),
    h('c10_calc_bad', 'all other triples of units', 'every two f64', ['end']),
    h('c10_back', 'converting there and back', '7 values', ['end']),
])
spec('C11', 'files of up to 4 nodes and 4 edges; every digit of a number, every edge, every order of columns, every place of comments and line-ends within the given shapes', 'longer files; numbers of other shapes (parsing of numbers belongs to the standard library)', [
    h('c11_values', 'coordinates, levels and metrics of any digits', '3 nodes, 2 edges, 14 free digits', ['end']),
    h('c11_edges', 'any edges between any nodes, with ids', '4 nodes, 3 edges, ids 10..39', ['end']),
    h('c11_layout', 'comments, headers, blanks, line-ends', '8 headers, 3 separators, 2 line-ends, 3 comments at 7 places', ['end']),
    h('c11_columns', 'order of columns, ignored columns', '5 columns of nodes, 6 columns of edges', ['end']),
    h('c11_shortcuts', 'references of a shortcut', '4 edges, one of them a shortcut with any references', ['end']),
    h('c11_numbers', 'numbers of any size and precision in each column', '9 ids of nodes, 11 ids of edges, 10 coordinates, 5 levels, 12 metrics', ['end']),
    h('c11_counts', 'number of nodes and edges, further counts', '2..4 nodes, 1..3 edges', ['end']),
])
spec('C12', 'any 2 to 5 bytes (all 256 values each) in place of any value of a file, files cut anywhere, any byte of a config replaced', 'longer replacements; broken pbf-files (decoded by a library)', [
    h('c12_edge', 'any bytes instead of any column of an edge', '3 bytes, 6 columns', ['accepted', 'refused']),
    h('c12_node', 'any bytes instead of any column of a node', '2 bytes, 4 columns', ['accepted', 'refused']),
    h('c12_count', 'any bytes or huge numbers instead of a count', '3 bytes', ['accepted', 'refused']),
    h('c12_cut', 'the file ends anywhere', 'file of 7 lines', ['accepted', 'refused']),
    h('c12_tiny', 'a file of any bytes', '4 bytes', ['accepted', 'refused']),
    h('c12_csv', 'any bytes in an edges-info-file', '2 bytes, 3 columns', ['accepted', 'refused']),
    h('c12_routes', 'any bytes in a routes-file', '3 bytes, 3 columns and count', ['accepted', 'refused']),
    h('c12_yaml', 'any byte anywhere in a config', '1 byte at each of 230 places', ['accepted', 'refused']),
    h('c12_missing', 'missing and unsupported files', '9 cases', ['end']),
    h('c12_node_t', 'any bytes instead of any column of a node', '3 bytes', ['accepted', 'refused'], tiers=T),
    h('c12_count_t', 'any bytes instead of a count', '4 bytes', ['accepted', 'refused'], tiers=T),
    h('c12_tiny_t', 'a file of any bytes', '5 bytes', ['accepted', 'refused'], tiers=T),
    h('c12_csv_t', 'any bytes in an edges-info-file', '3 bytes', ['accepted', 'refused'], tiers=T),
    h('c12_routes_t', 'any bytes in a routes-file', '4 bytes', ['accepted', 'refused'], tiers=T),
    h('c12_yaml_t', 'any two bytes anywhere in a config', '2 bytes at each of 230 places', ['accepted', 'refused'], tiers=T),
])
spec('C13', 'graphs of up to 4 nodes and 5 edges; values from tables of 10, ids of up to 4 digits, any edges, any references of two shortcuts, orders of columns', 'larger graphs; other numbers (printing and parsing of numbers belongs to the standard library)', [
    h('c13_values', 'values of any size keep every bit', '10 metrics, 10 latitudes, 4 longitudes, 3 ids', ['end']),
    h('c13_ids', 'any ids and levels', 'edge-ids 0..9999, levels 0..999, node-ids -999..999', ['end']),
    h('c13_edges', 'any edges', '3 nodes, 3 edges', ['end']),
    h('c13_shortcuts', 'any shortcuts, written or left out', '5 edges, 2 shortcuts with any references', ['end']),
    h('c13_columns', 'order of columns, ignored and unknown ones', '4 columns of nodes, 5 of edges', ['end', 'unknown']),
    h('c13_infos', 'every kind of information in an edges-info-file', '3 edges between 3 nodes, 14 columns', ['end']),
    h('c13_mean', 'normalised metrics', '3 edges, 4 values', ['end']),
    h('c13_external', 'values of others', '3 edges between 3 nodes', ['end']),
    h('c13_exists', 'existing and unsupported files', '6 files, 3 writers', ['exists', 'new']),
    h('c13_edges_t', 'any edges', '4 nodes, 4 edges', ['end'], tiers=T),
])
spec('C14', 'graphs of up to 4 nodes and 3 edges with any ends, up to 10 wanted routes, three seeds; routes-files of up to 3 lines with any digits; up to two paths of three edges', 'larger graphs, other seeds', [
    h('c14_all', 'as many routes wanted as possible', '3 nodes, 3 edges', ['end']),
    h('c14_random', 'any number of routes wanted', '3 nodes, 2 edges, 0..5 routes, 3 seeds', ['all', 'random']),
    h('c14_empty', 'graph without nodes', '0..2 routes', ['end']),
    h('c14_parse', 'layout and values of a routes-file', 'up to 3 lines of any digits, any count, 3 comments at 5 places', ['end']),
    h('c14_into', 'nodes of a route', '4 nodes, 2 edges', ['end']),
    h('c14_smarts', 'paths as vehicles', 'up to 2 paths of up to 3 edges', ['end']),
    h('c14_random_t', 'any number of routes wanted', '4 nodes, 3 edges, 0..10 routes, 3 seeds', ['all', 'random'], tiers=T),
])
spec('C18', 'the disk is full after 0..4 writes, reading fails after 0..24 reads; files of up to 3 buffers', 'other faults (for example while closing a file); pbf-files', [
    h('c18_full', 'the disk is full after any number of writes', '5 writers, 2 sizes, 0..4 writes', ['written', 'full']),
    h('c18_read', 'reading fails at any point', '4 readers, 0..24 reads', ['read', 'failed']),
    h('c18_dirs', 'directories', '5 writers, directory missing, existing, or in place of the file', ['written', 'failed']),
])
spec('C15', 'up to 2 ways of up to 4 references to 3 nodes in 1-2 blocks, one street-tag per way, 4 broken blocks', 'larger files; compressed blocks; decoding itself (osmpbfreader, which panics on truncated files) and its thread-pool', [
    h('c15_way', 'any way', '0..4 references to 3 nodes, 4 directions, dense or simple nodes', ['edges', 'empty']),
    h('c15_ways', 'ways together', '2 ways of 2-3 references to 2 nodes, 4 kinds, 3 layouts of blocks', ['edges', 'empty']),
    h('c15_tags', 'streets, vehicles, drivers, speeds', '9 streets, 3 vehicles, 2 drivers, 5 speeds', ['edges']),
    h('c15_coords', 'ids and coordinates', '6 latitudes, 6 longitudes, 4 ids', ['end']),
    h('c15_missing', 'nodes that are not part of the file', '3 references to 3 nodes, 0..3 known', ['missing', 'edges', 'empty']),
    h('c15_columns', 'columns', '18 columns', ['accepted', 'refused']),
    h('c15_broken', 'blocks that can not be decoded', '4 kinds in front or at the end', ['broken', 'edges']),
    h('c15_other', 'any other tag beside highway, oneway', 'any key and value of 1-10 letters', ['edges']),
    h('c15_other_t', 'any other tag beside highway, oneway', 'any key and value of 1-16 letters', ['edges'], tiers=T),
    h('c15_ways_t', 'ways together', '2 ways of 2-3 references to 3 nodes, 4 kinds, 3 layouts of blocks', ['edges', 'empty'], tiers=T),
])
spec('C16', 'texts of up to 6 (thorough: 14) ASCII bytes, numbers of up to 6 digits, known texts in any case', 'longer texts; misspelled values of highway-tags (which street they mean is a matter of taste)', [
    h('c16_access', 'defaults of streets', '19 streets, 3 vehicles, 2 drivers', ['allowed', 'forbidden']),
    h('c16_highway', 'names of streets in any case', '19 names', ['end']),
    h('c16_other', 'any highway-tag', '0..6 bytes', ['street', 'none']),
    h('c16_digits', 'any number as maxspeed', '1..6 digits, 3 streets', ['too large', 'slow', 'value']),
    h('c16_speeds', 'known speeds in any case, blanks around', '22 texts, 3 streets', ['end']),
    h('c16_speed', 'any maxspeed', '0..4 bytes', ['letters', 'other']),
    h('c16_oneway', 'known directions in any case, blanks around', '8 texts, 19 streets', ['end']),
    h('c16_oneway_any', 'any direction', '0..4 bytes', ['yes', 'reverse', 'no']),
    h('c16_other_t', 'any highway-tag', '7..14 bytes', ['street', 'none'], tiers=T),
])
spec('C17', 'differences of up to 40/2^23 in steps of 2^-23 from 8 numbers; two numbers k/2, |k| <= 3; vectors of up to 4 values', 'NaN and infinite numbers; differences between the accuracy and twice the accuracy may count as either', [
    h('c17_number', 'differences around the accuracy', '8 numbers, 81 differences', ['same', 'less', 'greater']),
    h('c17_wide', 'any two numbers', 'k/2 with |k| <= 3, symbolic', ['same', 'less', 'greater']),
    h('c17_order', 'order of three numbers', '8 numbers, 17x17 differences', ['sorted']),
    h('c17_option', 'optional numbers', '13x13 values or none', ['none', 'some']),
    h('c17_vector', 'vectors', '1..3 values, 5 differences each', ['same', 'less', 'greater', 'le', 'incomparable']),
    h('c17_coord', 'coordinates', '8 latitudes, 9x9 differences', ['same', 'different']),
    h('c17_vector_t', 'vectors', '4 values, 7 differences each', ['same', 'less', 'greater', 'le', 'incomparable'], tiers=T),
])
spec('C19', 'ids of 1 byte, 3 metrics, texts of up to 3 bytes, numbers of up to 4 digits, one misspelled key', 'broken yaml (serde_yaml), configs of features that are not built (gpl)', [
    h('c19_routing', 'routing-configs', '0..2 metrics of 4, 4 alphas, 5 scales, 3 algorithms, file or text', ['accepted', 'refused']),
    h('c19_alpha', 'any alpha', '3 digits, or 2 digits with a fraction', ['integer', 'fraction']),
    h('c19_scale', 'any text as tolerated scale', '1..2 bytes', ['accepted', 'refused']),
    h('c19_ids', 'ids of columns', '3 ids of 3 letters, metric or meta', ['duplicate', 'unique']),
    h('c19_data', 'columns', '8x8 units, 3 normalisations, 4 map-files', ['accepted', 'refused']),
    h('c19_vehicles', 'vehicles and drivers', '4 vehicles or none, pickiness or none', ['accepted', 'refused']),
    h('c19_generating', 'generated metrics', '3 units, 3 defaults, 3 headers', ['end']),
    h('c19_writing', 'written maps and edges-infos', '3x3 options each, 2 kinds of files', ['accepted', 'refused']),
    h('c19_routes', 'written routes', 'any 2 digits as count, any seed or none, 3 kinds of files', ['accepted', 'refused']),
    h('c19_keys', 'misspelled keys', '9 keys, 4 places, 26 letters', ['same', 'misspelled']),
    h('c19_ext', 'kinds of files', 'any 3 bytes as extension, with directory or without', ['unknown', 'pbf', 'fmi']),
    h('c19_routing_t', 'routing-configs', '3 metrics of 4, 4 alphas, 5 scales, 3 algorithms, file or text', ['accepted', 'refused'], tiers=T),
])
spec('C20', 'matrices up to 4x4, systems of 2 and 3 unknowns, vectors of up to 4 values, lines of up to 3 bytes', 'larger systems; badly conditioned matrices', [
    h('c20_index', 'cells of a matrix', 'shapes 1..4 x 1..4, cells k/2 with |k| <= 9', ['square', 'oblong']),
    h('c20_solve2', 'systems of two unknowns', 'cells of {0, 1, -1, 2, -2}, 3 right sides', ['solved', 'singular']),
    h('c20_solve3', 'systems of three unknowns', 'cells of {0, 2}, 2 right sides', ['solved', 'singular']),
    h('c20_scaled', 'rows of very different size', 'powers of two between 2^-84 and 2^44 as cells', ['solved', 'singular']),
    h('c20_vec', 'sums, differences and order of vectors', 'dimension 0..4, values k/2 with |k| <= 9', ['empty', 'values']),
    h('c20_dot', 'weighted sums', 'dimension 0..4, weights of {0, 1, 1/2, -2}, values k/2 with |k| <= 9', ['empty', 'values']),
    h('c20_line', 'lines', 'any 0..3 ASCII bytes', ['end']),
    h('c20_solve3_t', 'systems of three unknowns', 'cells of {0, 1, -2}, 2 right sides', ['solved', 'singular'], tiers=T),
])
spec('C21', '2 and 3 metrics, 4 to 6 alternatives of small dyadic costs, up to 5 nodes', 'three considered metrics: completeness (facets of mixed signs are not explored); fewer than three different optima at the start; the real triangulation (C++)', [
    h('c21_hull', 'alternatives of two metrics', '5 alternatives, costs of tables', ['three initial alternatives', 'further alternatives']),
    h('c21_free', 'alternatives of two metrics', '5 alternatives, symbolic costs', ['three initial alternatives', 'further alternatives']),
    h('c21_diamond', 'alternatives of several parts', '4 nodes, 5 alternatives', ['three initial alternatives', 'unreachable']),
    h('c21_ch', 'alternatives on a contracted graph', '4 nodes, 5 alternatives', ['three initial alternatives']),
    h('c21_ignored', 'an ignored metric at any place', '5 alternatives of three metrics, 2 scales', ['three initial alternatives', 'further alternatives']),
    h('c21_one', 'one considered metric', '2 alternatives, symbolic costs 1..5', ['end']),
    h('c21_tol', 'tolerated scales', '5 alternatives, 4x4 scales', ['three initial alternatives', 'further alternatives']),
    h('c21_tie', 'several optima of a metric', '5 alternatives', ['three initial alternatives', 'further alternatives']),
    h('c21_three', 'three considered metrics', '6 alternatives', ['end']),
    h('c21_reuse', 'an explorator used before', '4 queries before', ['three initial alternatives', 'further alternatives', 'unreachable']),
    h('c21_hull_t', 'alternatives of two metrics', '6 alternatives, costs of tables', ['three initial alternatives', 'further alternatives'], tiers=T),
    h('c21_free_t', 'alternatives of two metrics', '5 alternatives, symbolic costs', ['three initial alternatives', 'further alternatives'], tiers=T),
])
spec('C22', '2 or 3 edges, workloads of {0, 1, 6}, old values of {0.5, 3 or 4}, up to 2 updates, iterations 0..2', 'the processes around a step (contraction by an external program, directories of results)', [
    h('c22_update', 'an update', '2 edges, 3 workloads and 2 old values each, 3 methods, 3 minima, 3 iterations, normalised or not', ['updated', 'refused']),
    h('c22_twice', 'updates one after another', '3 edges, 2 updates', ['updated', 'refused']),
    h('c22_config', 'configs of the balancer', 'each of 8 options given or not', ['end']),
    h('c22_results', 'files of results', '3 edges, any values of a digit, 3 orders of ids, 2 of edges', ['written', 'refused']),
    h('c22_existing', 'files that exist already', '4 names', ['existing', 'free']),
    h('c22_update_t', 'an update', '3 edges, 3 workloads and 2 old values each, 3 methods, 3 minima, 2 iterations, normalised or not', ['updated', 'refused'], tiers=T),
])
spec('C23', '1..4 threads, up to 84 routes, graph of 4 nodes, up to 1-3 (thorough: 3-5) interruptions of threads able to continue, any number of switches where threads wait', 'more interruptions, threads and routes; memory-orders below the channels of the standard library', [
    h('c23_routes', 'any routes', '0..2 of 6 routes with counts 0..2, both algorithms, paths returned or not', ['end']),
    h('c23_schedule', 'any schedule of two threads', '83 routes, up to 3 interruptions', ['end', 'threads in any order']),
    h('c23_schedule3', 'any schedule of three threads', '83 routes, up to 2 interruptions', ['end', 'threads in any order']),
    h('c23_threads', 'number of threads', '1..4 threads, 80..81 routes, up to 1 interruption', ['end', 'threads in any order']),
    h('c23_explore', 'exploration', 'one of 4 routes with count 0..3, 2 seeds, 2 threads, any schedule', ['end']),
    h('c23_explore_t', 'exploration', 'two of 4 routes with counts 0..3, 2 seeds, 2 threads, any schedule', ['end'], tiers=T),
    h('c23_schedule_t', 'any schedule of two threads', '84 routes, up to 5 interruptions', ['end', 'threads in any order'], tiers=T),
    h('c23_schedule3_t', 'any schedule of three threads', '84 routes, up to 3 interruptions', ['end', 'threads in any order'], tiers=T),
])
spec('C24', 'maps of 3 nodes and 4 edges; every subset of the steps with one of 14 disturbances; up to 2 (thorough: 4) updates of the metric, one of the first 4 (thorough: 9) starts of a program failing', 'other maps and layouts of files; the programs started (cmake, multi-ch), which are replaced by a copy of the graph; content of the log except for the costs shown by routing', [
    h('c24_steps', 'steps of the program', 'any of 2^5 subsets of the steps, 14 kinds of missing or existing files and parts of the config', ['done', 'failed']),
    h('c24_routing', 'searching routes', 'any of 4 algorithms, 2 preferences and up to 3 of 5 routes, some of them without a path', ['path', 'alternatives', 'warned']),
    h('c24_tool', 'contraction by the external program', '2 to 3 values of each of 6 options, each of 3 starts failing in 3 ways', ['done', 'failed']),
    h('c24_balance', 'iterations of balancing', '0..2 updates, 2 methods, counts 1..2, each of 4 starts failing in 3 ways, 7 kinds of missing files and parts of the config', ['done', 'failed', 'routes move']),
    h('c24_balance_t', 'iterations of balancing', '0..4 updates, 2 methods, counts 1..2, each of 9 starts failing in 3 ways, 7 kinds of missing files and parts of the config', ['done', 'failed', 'routes move'], tiers=T),
])

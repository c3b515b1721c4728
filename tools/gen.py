#!/usr/bin/env python3
# writes properties.jsonl and MANIFEST.json from the table below
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []; NA = []
def p(id, title, statement, over, text, why, mech, level_note, files=('tg.c', 'tg.h'), observe=('return values and public accessors of tg.h',), state=None, na=None):
    a = dict(files=list(files), mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None)
    if state: a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))
    if na: NA.append(dict(property=id, reason=na))
    else: N[id] = level_note
N = {}
p('P01', 'Parsing untrusted binary input is memory safe and total',
  'Parsing any byte string as WKB, hex WKB, GeoBIN or "any format", and querying a GeoBIN buffer in place, reads only inside the given buffer, never performs undefined behaviour, terminates and leaks nothing. The result is a usable geometry or an object that carries an error message.',
  ['inputs'], 'every byte string of the stated lengths: truncated at any point, with any count, type, dimension and byte-order field',
  'tests feed a few hand-made good and bad buffers; a wrong bound shows only for one particular count or truncation point',
  [('length and count checks before reads', 'tg.c: parse_wkb*, wkb_parse_*'), ('GeoBIN head checks', 'tg.c: tg_parse_geobin_ix, tg_geobin_fullrect'), ('hex decoding', 'tg.c: tg_parse_hexn_ix')],
  'bounded symbolic execution: any 13 and 21 bytes; longer buffers with fixed type header (polygon 80 bytes); collections of 1-2 children with varied headers and counts; text/hex/GeoBIN templates with up to 24 arbitrary bytes. Larger buffers are outside the claim')
p('P02', 'Parsing untrusted text is memory safe and total',
  'Parsing any text as WKT or GeoJSON reads only inside the given length, never performs undefined behaviour, terminates and leaks nothing, at every nesting depth. The result is an object with an error message or a geometry of a real type that survives being written and read back.',
  ['inputs'], 'texts in which arbitrary bytes stand at arbitrary places of valid and invalid documents; nesting from shallow to beyond the limit',
  'tests use about a hundred fixed strings; over-reads at the end of the input or after unusual separators need specific bytes',
  [('WKT scanner', 'tg.c: parse_wkt*, wkt_*'), ('JSON scanner', 'tg.c/deps/json.c: json_validn, json_first, json_next'), ('GeoJSON builder', 'tg.c: parse_geojson*')],
  'bounded symbolic execution of the parsers over about 50 templates with 2 to 6 fully arbitrary bytes each, and nesting depths around every power of two up to 1100', files=('tg.c', 'deps/json.c', 'deps/fp.c'))
p('P03', 'Accepted WKB means exactly what its bytes say',
  'Whenever WKB is accepted, the geometry has the type, dimensions, child structure, coordinates (bit for bit) and extra Z/M values that an independent reading of the bytes gives, for both byte orders, for ISO and EWKB headers and for mixed byte orders of children. Input whose fields contradict each other or run past the end is rejected with an error.',
  ['inputs'], 'all byte strings of the stated forms, including counts that do not fit, children of the wrong type or dimension, and both byte orders',
  'tests compare a few fixed encodings; field confusion shows for specific combinations of byte order, dimension and child header',
  [('WKB reader', 'tg.c: parse_wkb*'), ('extra coordinates', 'tg.c: tg_geom_new_*_z/_m/_zm')],
  'bounded symbolic execution against an independent WKB reader in harness/cat.h; trailing bytes after a complete geometry are ignored by tg and by the property; the EWKB Z/M flag bits are outside the supported form')
p('P04', 'GeoJSON is accepted only when the whole text is valid JSON',
  'A GeoJSON text is accepted only if the whole of it is valid JSON as RFC 8259 defines it, including string escapes, UTF-8, numbers and nesting of members that are not part of the geometry. Any valid JSON value is accepted in a foreign member.',
  ['inputs'], 'every text obtained by putting arbitrary bytes into strings, numbers, literals, member lists and trailing positions',
  'validity depends on single bytes; tests hold a handful of malformed documents',
  [('JSON validation', 'deps/json.c and the copy in tg.c: vstring, vnumber, vany')],
  'bounded symbolic execution against an independent RFC 8259 recogniser over templates with up to 6 arbitrary bytes', files=('tg.c', 'deps/json.c'))
p('P05', 'Binary writers and readers are inverse to each other',
  'Writing any geometry as WKB, hex or GeoBIN gives bytes that an independent reader decodes to the same geometry, and parsing them back gives an equal geometry: same type, dimensions, children, coordinates and Z/M values bit for bit.',
  ['inputs'], 'every geometry type, dimension, emptiness and nesting form, with every non-NaN 64-bit pattern for each coordinate and every pattern for each Z/M value',
  'tests sample a few coordinates; a lost sign, swapped Z/M or byte-order error shows for particular values or shapes',
  [('WKB writer', 'tg.c: write_geom_wkb'), ('hex writer', 'tg.c: tg_geom_hex'), ('GeoBIN writer', 'tg.c: tg_geom_geobin')],
  'bounded symbolic execution: catalogue of 39 geometry forms (up to 4 positions per series, 3 children per collection, nesting 3), all coordinates symbolic 64-bit values')
p('P06', 'Text writers and readers are inverse to each other',
  'Writing any geometry as WKT or GeoJSON and parsing the text gives back the same type, children and coordinates bit for bit (the shortest text that reads back exactly), and writing again gives the same text. GeoJSON, which cannot say "M without Z", keeps the extra values in their positions.',
  ['inputs'], 'every geometry form with coordinates from a table of doubles that are hard to print and read',
  'a wrong digit, exponent or separator shows only for particular magnitudes and forms',
  [('number output', 'deps/fp.c (in tg.c): fp_dtoa'), ('number input', 'tg.c: parse_double and the pow10 fast path'), ('WKT and GeoJSON writers', 'tg.c: write_geom_wkt, write_geom_geojson')],
  'symbolic execution over 39 geometry forms; two coordinates vary over 10 (thorough: 20) hard doubles, the rest are fixed: number conversion loops over symbolic digits are outside what the engine encodes', files=('tg.c', 'deps/fp.c'))
p('P07', 'Writers respect the buffer they are given',
  'Every writer returns the full length whatever the buffer size, writes nothing past the given size, writes a prefix of the full output when the buffer is short, and terminates text with NUL whenever the size is not zero.',
  ['inputs'], 'every geometry form, feature and error object, each of the five formats, buffer sizes from 0 to the length plus one',
  'tests call the writers with large buffers and a few short ones; off-by-one errors appear at one size for one format',
  [('bounded output', 'tg.c: struct writer, write_char, write_nullterm')],
  'symbolic execution; sizes are the first few, selected middle ones and those within 33 of the length')
p('P08', 'Automatic format detection never changes the meaning',
  'Parsing through the "any format" entry gives the same result as parsing with the specific reader of the format the input is in, and what no specific reader accepts is not accepted.',
  ['inputs'], 'inputs of every format with arbitrary leading bytes',
  'tests detect a handful of samples; the decision looks at single bytes',
  [('format detection', 'tg.c: tg_parse_ix')],
  'bounded symbolic execution over templates with arbitrary leading bytes')
p('P10', 'Point in polygon is exact with every index',
  'Whether a point meets a polygon (boundary included) agrees with the exact even-odd rule, for every ring orientation and starting vertex, with no index, the natural index and the y-stripes index, and for rings large enough to be indexed.',
  ['inputs', 'configurations'], 'every simple ring of 3 or 4 vertices and point of a grid; rings of 64 (thorough: 200) vertices with a symbolic point and a symbolic vertex, under each index',
  'the error cases are points level with vertices, on edges, or in a particular stripe; tests sample few of them',
  [('ray casting', 'tg.c: tg_ring_contains_point, raycast'), ('y-stripes', 'tg.c: ystripes'), ('natural index', 'tg.c: struct index')],
  'bounded symbolic execution with exact integer reference, grid 8x8 for triangles, 4x4 for quadrilaterals; rounding error of non-grid coordinates is outside the claim')
p('P11', 'Segment intersection is exact',
  'Two segments are reported to intersect exactly when they share a point, including touching endpoints, collinear overlap and degenerate segments, whichever way round each is given and in whichever order.',
  ['inputs'], 'all pairs of segments with grid coordinates',
  'collinear and endpoint cases are rare; tests list a few',
  [('segment intersection', 'tg.c: tg_segment_intersects_segment')],
  'all pairs on an 8x8 grid, decided by the solver; coordinates where products round are outside the claim')
p('P12', 'Ring measurements and orientation are right',
  'The area, perimeter, orientation and convexity reported for a ring, and the length and orientation of a line, agree with the exact values for every starting vertex and direction.',
  ['inputs'], 'all triangles and quadrilaterals of a grid',
  'convexity and orientation errors need specific vertex orders or collinear runs',
  [('ring processing', 'tg.c: process_points'), ('area and perimeter', 'tg.c: tg_ring_area, tg_ring_perimeter')],
  'all triangles on an 8x8 grid and quadrilaterals on a 4x4 grid against integer reference values')
p('P13', 'Rectangle operations obey their algebra',
  'Expanding a rectangle by a point or rectangle gives the least rectangle holding both, rectangles and points intersect exactly when they share a point (edges included), and the centre lies inside; all are symmetric, idempotent and monotone.',
  ['inputs'], 'all rectangles and points of a grid, and all non-NaN 64-bit patterns',
  'comparison slips show only at equal edges or extreme values',
  [('rect operations', 'tg.c: tg_rect_expand, tg_rect_expand_point, tg_rect_intersects_rect, tg_rect_intersects_point, tg_rect_center')],
  'decided for every bit pattern (raw doubles) and again on a grid')
p('P14', 'Indexes never change an answer',
  'Whatever index a ring, hole or line carries (none, natural, y-stripes, any spread), every predicate gives the same answer as the exact definition, so turning an index on or choosing another one changes only speed.',
  ['inputs'], 'all points, segments, rectangles and triangles on a grid against indexed polygons and lines, and all indexed triangles and quadrilaterals against points',
  'an index pruning error needs a geometry large enough to be indexed and a query at the edge of an index node',
  [('natural index', 'tg.c: fill_nat_ixs, stripes_new, ring_search, line_search, pip_nat, pip_ystripes'), ('spread', 'tg.c: tg_env_set_index_spread, calc_num_keys, calc_num_levels')],
  'index spread is set to 2 or 3 so that small rings have several index levels; the oracle is an exact arrangement computed in the harness')
p('P15', 'An index is the exact tree of bounding boxes it describes',
  'The index of a ring or line has the spread it was asked for, the number of levels and rectangles that spread implies, and every rectangle holds exactly the box of its segments up to outward float rounding, for every coordinate; the global settings and the constructor argument decide whether there is an index; copies and clones have the same one; an index or level outside the range answers empty.',
  ['inputs', 'configurations'], 'all spreads and index kinds, all vertices on a grid, and extreme coordinates',
  'a box that is too small loses answers only for a query that falls into the gap, and extreme coordinates are never tested',
  [('index building', 'tg.c: process_points, fill_in_upper_index_levels, tg_rect_to_ixrect, calc_index_size'), ('settings', 'tg.c: tg_env_set_index, tg_env_set_index_spread, tg_index_extract_spread'), ('accessors', 'tg.c: tg_ring_index_level_rect, tg_line_index_level_rect')],
  'up to 12 segments, spreads 2, 3 and 5; extreme coordinates from a table of 32 hard doubles rather than every bit pattern')
p('P16', 'Predicates follow the shared-point definitions',
  'For valid geometries, intersects is true exactly when they share a point, covers exactly when no point of the second lies outside the first, contains and touches follow the interior and boundary definitions, and the converse predicates agree with them; degenerate contact (shared edges, vertices on edges, holes, concave corners) is treated exactly.',
  ['inputs'], 'every point, segment, line, rectangle and triangle on a grid against fixed convex, concave and holed polygons and lines, in both orders',
  'wrong answers come from rare alignments (a collinear run, a vertex on an edge, contact in a concave corner); tests list some of them',
  [('predicates', 'tg.c: tg_geom_intersects, tg_geom_covers, tg_geom_contains, tg_geom_touches'), ('ring and line algorithms', 'tg.c: tg_ring_contains_ring, tg_ring_contains_line, tg_line_covers_line, tg_line_intersects_line, tg_poly_covers_poly, tg_poly_touches_line')],
  'first geometry is one of seven polygons or five lines, second is every geometry of its kind on an 8x8 grid (triangles: two vertices on a coarser grid); valid geometries only; contains with contact at the boundary follows the shared-interior definition only where the project fixes it')
p('P17', 'Predicates on multi geometries follow from their parts',
  'A multi geometry or collection, however nested, intersects another when some pair of parts does, covers it when each non-empty part is covered by a part, contains it only if it covers it and some part is contained, touches it when parts touch and none meet otherwise; empty parts do not count, and the converse predicates, disjoint and equals agree.',
  ['inputs'], 'all points, segments and rectangles on a grid as a part of several collection shapes, against several multi geometries',
  'each pair of types has its own code path and the mistakes need a particular nesting, an empty part, or one part crossing while another touches',
  [('folds', 'tg.c: point_covers_base_geom, line_touches_base_geom, base_geom_covers_geom, base_geom_touches_geom, multiiter, tg_geom_foreach')],
  'first geometry is one of seven multi geometries (nested, with empty parts, 70 points with an index) with disjoint parts; up to two parts in the second')
p('P18', 'Searching a multi geometry visits exactly the matching children',
  'A rectangle search over a multi geometry or collection calls back exactly once for each child whose bounding rectangle meets the rectangle, with the right index, and stops when told to; this does not depend on the number of children or on whether an index exists.',
  ['inputs', 'configurations'], 'all query rectangles of a grid over collections, multipoints and multilinestrings of 20 to 70 children, with and without the child index',
  'an index that loses one child shows only for queries that touch that child alone',
  [('child index', 'tg.c: multi index, geom_search'), ('Hilbert ordering', 'tg.c: hilbert_scale, boxed points')],
  'bounded symbolic execution: query corners 6 bits, width 3 bits, fixed children layout of 20 and 70 children')
p('P19', 'Segment searches are complete and ordered',
  'The nearest-segment iteration yields every segment once in order of non-decreasing distance, and the search for intersecting segment pairs of two lines or rings yields exactly the intersecting pairs once, with the right indices, under every index.',
  ['inputs', 'configurations'], 'all placements of the target on a grid, lines long enough to be indexed and short ones, every index kind',
  'missed pairs need a specific geometry of index boxes',
  [('nearest search', 'tg.c: tg_line_nearest_segment, tg_ring_nearest_segment'), ('pair search', 'tg.c: tg_line_line_search, segment_search')],
  'bounded symbolic execution with brute-force reference')
p('P20', 'Reference counting keeps what is held and frees the rest',
  'Under any sequence of clone, copy, wrap, take-apart and free operations, an object stays intact as long as the caller or another object holds it, everything is released with the last reference, and nothing is released twice; with atomic and with plain counters.',
  ['histories', 'configurations'], 'all operation sequences of 3 (thorough: 4) steps over lines, rings, polygons, geometries, features and error objects, then release in reverse order',
  'a missing or extra reference shows only for a particular sequence such as wrapping, cloning the child and freeing the parent first',
  [('counters', 'tg.c: tg_geom_clone, tg_geom_free, tg_poly_free, tg_line_free, rc_retain, rc_release')],
  'bounded symbolic execution of all histories of the stated length in both counter configurations')
p('P21', 'Running out of memory is handled everywhere',
  'When any allocation during parsing, construction, cloning or copying fails, the call does not crash, leaks nothing and returns NULL, an error object or the correct result; it never returns a partial geometry, and its inputs stay usable.',
  ['fault_sequences'], 'every way in which up to two allocations fail, for every reader, constructor, clone and copy over representative inputs',
  'tests fail allocations at random; each failure point needs its own cleanup to be right',
  [('error paths', 'tg.c: every tg_malloc/tg_realloc caller')],
  'bounded symbolic execution with a symbolic failure flag per allocation, at most two failures')
p('P22', 'Accessors and predicates are total',
  'Every accessor, writer and predicate accepts NULL, error objects, empty geometries and any 32-bit index, and answers out-of-range requests with NULL, zero or false; in-range requests give the element.',
  ['inputs'], 'every geometry form and every 32-bit index',
  'off-by-one bounds show for one index on one type',
  [('accessors', 'tg.c: tg_geom_*_at, tg_line_*_at, tg_ring_*_at, tg_poly_hole_at')],
  'symbolic execution with a fully symbolic 32-bit index over the 39 catalogue forms, NULL and error objects')
p('P23', 'Copies and clones are equal and independent',
  'A clone or deep copy shows exactly what the original shows through every accessor and writer, whether or not it is indexed, and a deep copy stays intact after the original is released.',
  ['inputs', 'histories'], 'every geometry form with arbitrary coordinates, with and without index, features included',
  'shared interior pointers survive ordinary tests and fail only after the original is gone',
  [('copying', 'tg.c: tg_geom_copy, tg_poly_copy, tg_line_copy, geom_clone')],
  'symbolic execution over the 39 catalogue forms plus indexed geometries; all coordinates symbolic')
p('P24', 'Bounding rectangles are tight',
  'The bounding rectangle of a geometry is the least rectangle holding all its positions, empty children do not count, the full rectangle does the same for Z and M, and reading the rectangle or point from GeoBIN without parsing gives the same answer.',
  ['inputs'], 'every geometry form with grid coordinates',
  'one wrong comparison shows only when a particular child or dimension is the extreme one',
  [('rectangles', 'tg.c: geom_rect, tg_geom_fullrect'), ('GeoBIN header', 'tg.c: tg_geobin_fullrect, tg_geobin_rect, tg_geobin_point')],
  'symbolic execution over the catalogue with 2-bit grid coordinates in every position')
p('P25', 'WKT is accepted exactly when it is well formed and read as written',
  'Text that follows the WKT grammar (any letter case, spacing, Z/M/ZM tags, EMPTY, nesting) is accepted, text that does not is rejected, and the geometry has exactly the type, dimensions, parts, order and coordinate values the text spells out.',
  ['inputs'], 'every value of the free bytes in 90 templates that cover each production of the grammar',
  'tests hold fixed texts; one byte in an unusual place decides between acceptance, rejection and another geometry',
  [('WKT parser', 'tg.c: parse_wkt, parse_wkt_posns, parse_wkt_*')],
  'symbolic execution of the parser next to an independent reading of the grammar, 1-3 arbitrary bytes per template')
p('P26', 'GeoJSON is accepted exactly when it is well formed and read as written',
  'A JSON text that is a GeoJSON object by RFC 7946 is accepted, one that is not is rejected, and the geometry has exactly the type, dimensions, parts, order, values, feature structure and foreign members the text spells out, whatever the order of members or the escapes in their names.',
  ['inputs'], 'every value of the free bytes in 89 templates over coordinates, members and features',
  'tests hold fixed texts; the reading of a member depends on every byte before it',
  [('GeoJSON parser', 'tg.c: parse_geojson, parse_geojson_*'), ('JSON reader', 'tg.c: json_*')],
  'symbolic execution of the parser next to an independent reading of JSON and RFC 7946, 1-2 arbitrary bytes per template')
p('P27', 'Predicates see nothing but the positions',
  'Z and M values, feature wrapping, foreign members, the direction of lines and rings, the first vertex of a ring, the order of parts, an index, copying and a trip through WKB change no predicate; a geometry equals, covers and intersects each of its forms and does not touch it; the rectangle and x/y entry points agree with the predicate on that rectangle and point.',
  ['inputs'], 'pairs of 9 kinds of geometry in 12 forms, one shifted against the other by a symbolic offset',
  'each form takes its own dispatch path in every predicate; tests use one form',
  [('predicates', 'tg.c: tg_geom_intersects, tg_geom_covers, tg_geom_contains, tg_geom_touches and their per-type dispatch'), ('derived', 'tg.c: tg_geom_equals, tg_geom_intersects_rect, tg_geom_intersects_xy')],
  'symbolic execution; the shift between the two geometries is symbolic (4x4 offsets quick, 8x8 thorough; two multi geometries sideways only)')
def main():
    with open(os.path.join(R, 'properties.jsonl'), 'w') as f:
        for x in P: f.write(json.dumps(x) + '\n')
    m = dict(version=1, setup_cmd='python3 check.py --setup', checks=[dict(property=i, quick_cmd='python3 check.py ' + i, thorough_cmd='python3 check.py %s --tier thorough' % i,
        technique='symbolic execution of the LLVM IR of the current sources with SAT/BDD deciding (symx), counterexamples replayed natively', level='model_checking', level_note=N[i]) for i in N], not_applicable=NA)
    json.dump(m, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1); open(os.path.join(R, 'MANIFEST.json'), 'a').write('\n')
    for x in P: assert len(x['title']) <= 80, x['title']
main()

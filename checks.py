# property -> tasks; a task is one harness compiled with some definitions and executed symbolically
GEO = ['--mw', '--bdd', '3000000']; BIN = ['--mw']; TXT = ['--no-merge']
def T(h, d='', a=[], **k): return dict(h=h, defs=['-D' + x for x in d.split()], args=list(a), **k)
PROPS = {
 'P01': dict(tasks=[
    T('wkb_any.c', 'SAFETY N=13', BIN, j=2, bound='any 13 bytes', reach=['ok', 'err'], name='any13'),
    T('wkb_any.c', 'SAFETY N=21', BIN, j=2, bound='any 21 bytes', only='thorough', name='any21s'),
    T('wkb_any.c', 'N=21', BIN, j=2, bound='any 21 bytes', reach=['ok', 'err'], name='any21'),
    T('wkb_any.c', 'N=29', BIN, j=4, bound='any 29 bytes', only='thorough', name='any29'),
    T('wkb_any.c', 'TYPE=3 N=80', BIN, j=2, bound='polygon header and any 75 bytes', reach=['ok', 'err'], name='poly80'),
    T('wkb_multi.c', 'TYPE=5', BIN, j=2, bound='MultiLineString of 2 children, arbitrary coordinates, child headers and counts varied', name='multi5'),
    T('tmpl.c', 'FMT=2', TXT, j=1, bound='hex templates with up to 24 arbitrary characters', name='hex'),
    T('tmpl.c', 'FMT=3', [], j=8, cost=9, bound='templates of every format with up to 16 arbitrary bytes', name='anyfmt'),
    ]),
 'P02': dict(tasks=[
    T('tmpl.c', 'FMT=0', [], j=4, bound='24 WKT templates with 2-5 arbitrary bytes', name='wkt'),
    T('tmpl.c', 'FMT=1 BACK', TXT, j=2, bound='24 GeoJSON templates with 2-6 arbitrary bytes', name='geojson'),
    T('depth.c', '', [], j=2, bound='nesting 1..1100 at selected depths', name='depth'),
    ]),
 'P03': dict(tasks=[
    T('wkb_any.c', 'N=21', BIN, j=1, bound='any 21 bytes', reach=['ok', 'err'], name='any21'),
    T('wkb_any.c', 'TYPE=1 N=40', BIN, j=1, bound='point header, any 35 bytes', reach=['ok'], name='point'),
    T('wkb_any.c', 'TYPE=2 N=42', BIN, j=1, bound='linestring header, any 37 bytes', reach=['ok', 'err'], name='line'),
    T('wkb_any.c', 'TYPE=3 N=80', BIN, j=1, bound='polygon header, any 75 bytes', reach=['ok', 'err'], name='poly'),
    T('wkb_multi.c', 'TYPE=4', BIN, j=1, bound='MultiPoint of 2', reach=['ok', 'err'], name='multi4'),
    T('wkb_multi.c', 'TYPE=5', BIN, j=2, bound='MultiLineString of 2', reach=['ok', 'err'], name='multi5'),
    T('wkb_multi.c', 'TYPE=6', BIN, j=2, bound='MultiPolygon of 1', reach=['ok', 'err'], name='multi6'),
    T('wkb_multi.c', 'TYPE=7', BIN, j=4, bound='GeometryCollection of MultiPoint and Point', only='thorough', name='multi7'),
    ]),
 'P04': dict(tasks=[
    T('json.c', 'PART=0', TXT, j=2, bound='JSON texts with up to 6 arbitrary bytes', name='valid'),
    T('json.c', 'PART=1', TXT, j=2, bound='foreign member values', name='members'),
    ]),
 'P05': dict(tasks=[
    T('long.c', 'FMT=2', [], j=2, bound='1100 parts of every kind, with and without Z and M, one position with two values', reach=['end'], name='long-wkb'), T('long.c', 'FMT=3', [], j=2, bound='1100 parts of every kind, with and without Z and M, one position with two values', reach=['end'], name='long-geobin'), T('long.c', 'FMT=4', [], j=2, bound='1100 parts of every kind, with and without Z and M, one position with two values', reach=['end'], name='long-hex')] + [T('rt_bin.c', 'KLO=%d KHI=%d' % r, BIN, j=4, cost=9, bound='catalogue kinds %d..%d, every non-NaN coordinate' % (r[0], r[1] - 1), reach=['end'], name='bin%d' % r[0]) for r in ((0, 16), (16, 25), (25, 30), (30, 39))]),
 'P06': dict(tasks=[
    T('rt_text.c', 'NT=10', [], j=8, bound='every catalogue kind, two coordinates chosen from 10 hard doubles', reach=['end'], name='text', thorough=dict(defs=['-UNT', '-DNT=20'])),
    ]),
 'P07': dict(tasks=[T('writers.c', 'CO=2', [], j=4, bound='every catalogue kind, every format, buffer sizes near 0 and near the length', reach=['end'], name='writers'), T('writers.c', 'CO=3 NO=4 NT=4 KLO=0 KHI=1', [], j=2, bound='a point of two of 4 doubles up to 325 digits long, both number formats', reach=['end'], name='long')]),
 'P08': dict(tasks=[T('auto.c', '', TXT, j=2, bound='texts of every format with arbitrary first bytes', name='auto')]),
 'P10': dict(tasks=[
    T('pip.c', 'NV=3 BITS=3', GEO, j=2, bound='every triangle and point on an 8x8 grid', name='tri'),
    T('pip.c', 'NV=4 BITS=2', GEO, j=1, bound='every quadrilateral and point on a 4x4 grid', name='quad'),
    T('pip.c', 'NV=3 BITS=2 GSC=0x1p-30 GORG=100.0', GEO, j=1, bound='every triangle and point on a 4x4 grid of step 2^-30 about (100,-100)', name='tri-fine'),
    T('pip.c', 'NV=3 BITS=2 GORG=1048576.0', GEO, j=1, bound='every triangle and point on a 4x4 grid about (2^20,-2^20)', name='tri-far'),
    T('pip_big.c', 'IX=TG_NONE', GEO, j=1, bound='64-gon', name='big-none'), T('pip_big.c', 'IX=TG_NATURAL', GEO, j=1, bound='64-gon', name='big-natural'), T('pip_big.c', 'IX=TG_YSTRIPES', GEO, j=1, bound='64-gon', name='big-ystripes'),
    T('pip_big.c', 'IX=TG_YSTRIPES SYMV=9', GEO, j=6, cost=9, bound='64-gon with a symbolic vertex', name='big-ystripes-sym'),
    T('pip_big.c', 'IX=TG_YSTRIPES SYMV=9 NB=200 PB=8 REV', GEO, j=1, only='thorough', name='200-ystripes'),
    ]),
 'P11': dict(tasks=[T('segseg.c', 'BITS=3 CUBE', GEO, j=4, bound='every pair of segments on an 8x8 grid', name='seg'),
    T('segseg.c', 'BITS=2 GSC=0x1p-30 GORG=100.0', GEO, j=1, bound='every pair of segments on a 4x4 grid of step 2^-30 about (100,-100)', name='seg-fine'),
    T('segseg.c', 'BITS=2 GORG=1048576.0', GEO, j=1, bound='every pair of segments on a 4x4 grid about (2^20,-2^20)', name='seg-far')]),
 'P12': dict(tasks=[T('ringattr.c', 'NV=3 BITS=3', GEO, j=2, bound='every triangle on an 8x8 grid', name='tri'), T('ringattr.c', 'NV=4 BITS=2', GEO, j=5, cost=9, bound='every quadrilateral on a 4x4 grid', name='quad')]
    + [T('ringattr.c', 'NV=%d NF=%d BITS=%d SP=%d IX=%s' % c, GEO, j=1, bound='%d-gon, the last %d vertices free on a grid of %d bits, index of spread %d' % (c[0], c[0] - c[1], c[2], c[3]), name='comb-%d-%d-%d-%s' % (c[0], c[1], c[3], c[4][3:].lower()))
       for c in ((3, 0, 3, 2, 'TG_NATURAL'), (9, 7, 3, 2, 'TG_NATURAL'), (9, 7, 3, 2, 'TG_YSTRIPES'), (12, 10, 4, 3, 'TG_NATURAL'))]),
 'P13': dict(tasks=[T('rectalg.c', 'CO=1', ['--mw', '--bdd', '300000'], j=2, name='grid'), T('rectalg.c', 'CO=0', BIN, j=2, name='raw')]),
 'P14': dict(tasks=[T('pip.c', 'NV=3 BITS=3 IX=TG_NATURAL SP=2', GEO, j=1, bound='every triangle and point on an 8x8 grid, index of spread 2', name='pip-tri'), T('pip.c', 'NV=4 BITS=2 IX=TG_NATURAL SP=2', GEO, j=1, bound='every quadrilateral and point on a 4x4 grid, index of spread 2', name='pip-quad')]
    + [T('rel.c', 'ALO=0 AHI=7 NOTOUCH BITS=3 SP=%s IX=%s IXB=%s %s' % (sp, i, k, d), GEO, j=j, bound='polygon %s with index %s against %s with index %s' % ('0..6', i, n, k), name='%s-%s-%s' % (n, i[3:].lower(), sp))
       for sp in (2, 3) for i, k in (('TG_NATURAL', 'TG_NATURAL'), ('TG_YSTRIPES', 'TG_NONE'), ('TG_NONE', 'TG_NATURAL')) for n, d, j in (('point', 'BK=1', 1), ('rect', 'BK=12 CUBE=1', 2))]
    + [T('rel.c', 'ALO=2 AHI=%d NOTOUCH BITS=3 CUBE=1 BK=2 SP=2 IX=%s' % (hi, i), GEO, j=3, only=o, bound='concave polygons against every segment on an 8x8 grid', name='line-%s-%d' % (i[3:].lower(), hi)) for hi, o in ((3, 'quick'), (7, 'thorough')) for i in ('TG_NATURAL', 'TG_YSTRIPES IXB=TG_NONE')]
    + [T('rel.c', 'ALO=3 AHI=5 BITS=3 CUBE=2 CBITS=2 BK=13 SP=2 IX=%s' % i, GEO, j=4, only='thorough', bound='triangles against concave and holed polygons', name='tri-' + i[3:].lower()) for i in ('TG_NATURAL', 'TG_YSTRIPES IXB=TG_NONE')]
    + [T('rel.c', 'LINEA ALO=0 AHI=5 BITS=3 CUBE=1 BK=2 SP=2 IX=TG_NATURAL', GEO, j=1, bound='lines against every segment on an 8x8 grid', name='lines'), T('rel.c', 'LINEA ALO=0 AHI=5 BITS=3 CUBE=2 CBITS=2 BK=3 SP=2 IX=TG_NATURAL', GEO, j=1, bound='lines against 3-point lines on an 8x8 grid', name='lines3')]),
 'P15': dict(tasks=[T('ixtree.c', 'SPR=%d NB=%d BITS=2' % c, GEO, j=1, only=o, bound='%d-segment index of spread %d, all but four vertices on a 4x4 grid' % (c[1] - 1, c[0]), name='tree-%d-%d' % c) for c, o in (((2, 8), None), ((3, 8), None), ((3, 10), 'thorough'), ((5, 12), 'thorough'), ((2, 12), 'thorough'), ((3, 12), 'thorough'))]
    + [T('ixtree.c', 'SPR=%d NB=13 BITS=3 CONVEX' % c, GEO, j=1, bound='12-gon with one vertex on an 8x8 grid, spread %d' % c, name='convex-%d' % c) for c in (2, 3, 5)]
    + [T('ixraw.c', '', GEO, j=1, bound='5 segments of spread 2, one vertex with any two of 32 hard doubles, the rest normal, tiny or huge', name='raw')]),
 'P16': dict(tasks=[
    T('rel.c', 'ALO=0 AHI=7 BK=1 BITS=3', GEO, j=1, bound='7 polygons against every point on an 8x8 grid', name='poly-point'),
    T('rel.c', 'ALO=0 AHI=6 BK=2 BITS=3 CUBE=1', GEO, j=5, cost=9, bound='6 polygons against every segment on an 8x8 grid', name='poly-line'),
    T('rel.c', 'ALO=6 AHI=7 BK=2 BITS=3 CUBE=1 NOTOUCH', GEO, j=1, bound='polygon with a hole touching its exterior against every segment', name='poly6-line'),
    T('rel.c', 'ALO=0 AHI=7 BK=12 BITS=3 CUBE=1', GEO, j=2, bound='7 polygons against every rectangle on an 8x8 grid', name='poly-rect'),
    T('rel.c', 'ALO=3 AHI=4 BK=13 BITS=3 CUBE=2 CBITS=2', GEO, j=4, cost=8, only='quick', bound='U-shaped polygon against triangles, two vertices on every other grid line', name='poly3-tri'),
    T('rel.c', 'ALO=0 AHI=7 BK=13 BITS=3 CUBE=2 CBITS=2', GEO, j=5, only='thorough', bound='7 polygons against triangles, two vertices on every other grid line', name='poly-tri'),
    T('rel.c', 'ALO=0 AHI=7 BK=13 BITS=3 CUBE=2 CBITS=2 ODD=0 LO=0', GEO, j=5, only='thorough', bound='the same with even lines', name='poly-tri-even'),
    T('rel.c', 'ALO=0 AHI=3 BK=3 BITS=3 CUBE=2 CBITS=2', GEO, j=4, only='thorough', bound='3 polygons against 3-point lines', name='poly-line3'),
    T('rel.c', 'LINEA ALO=0 AHI=5 BK=1 BITS=3', GEO, j=1, bound='5 lines against every point', name='line-point'),
    T('rel.c', 'LINEA ALO=0 AHI=5 BK=2 BITS=3 CUBE=1', GEO, j=1, bound='5 lines against every segment', name='line-line'),
    T('rel.c', 'LINEA ALO=0 AHI=5 BK=3 BITS=3 CUBE=2 CBITS=2', GEO, j=1, bound='5 lines against 3-point lines', name='line-line3'),
    T('rel.c', 'LINEA ALO=0 AHI=5 BK=12 BITS=3 CUBE=1', GEO, j=1, bound='5 lines against every rectangle', name='line-rect'),
    T('rel.c', 'LINEA ALO=3 AHI=5 BK=13 BITS=3 CUBE=2 CBITS=2', GEO, j=3, bound='2 lines against triangles', name='line-tri'),
    ]),
 'P17': dict(tasks=[T('multi.c', 'FORM=%d CUBE=0 ALO=%d AHI=%d' % (f, a, b), GEO, j=1, bound='collections of points, lines and polygons (70 points) against collections with a point anywhere on an 8x8 grid', name='point-%d-%d' % (f, a)) for f in range(7) for a, b in ((0, 5), (5, 7)) if a == 0 or f in (0, 4, 6)]
    + [T('multi.c', 'FORM=%d BK=12 CUBE=1 ALO=%d AHI=%d' % (f, a, b), GEO, j=1, only=None if f in (0, 4) else 'thorough', bound='the same with a rectangle', name='rect-%d-%d' % (f, a)) for f in (0, 2, 4, 5, 6) for a, b in ((0, 3), (3, 5))]
    + [T('multi.c', 'FORM=%d BK=2 CUBE=1 ALO=%d AHI=%d CBITS=2' % (f, a, a + 1), GEO, j=1, bound='the same with a segment, one end on every other grid line', name='seg-%d-%d' % (f, a)) for f, a in ((4, 3), (6, 0), (6, 1), (6, 2), (6, 4))]
    + [T('multi.c', 'FORM=%d BK=2 CUBE=1 ALO=%d AHI=%d' % (f, a, a + 1), GEO, j=1, only='thorough', bound='the same with any segment', name='segs-%d-%d' % (f, a)) for f in (0, 2, 3, 4, 5, 6) for a in range(5)]),
 'P18': dict(tasks=[T('search.c', 'KIND=%d FLAT=%d QB=6 QW=3' % (k, f), GEO, j=1, bound='70 children, every query box with a corner in a 64x64 grid and sides up to 7', name='k%df%d' % (k, f)) for k in (0, 1, 2, 3) for f in (0, 1)] + [T('search.c', 'KIND=2 FLAT=0 QB=6 QW=3 NC=20', GEO, j=1, bound='20 children of every type (no index)', name='few-mixed'), T('search.c', 'KIND=0 FLAT=0 QB=6 QW=3 NC=20', GEO, j=1, bound='20 children (no index)', name='few'),
    T('search.c', 'KIND=0 FLAT=0 QB=6 QW=3 NC=300', GEO, j=1, bound='300 children (two index levels)', name='many'), T('search.c', 'KIND=0 FLAT=0 QB=4 QS=4 QW=2 NC=1100', GEO, j=1, bound='1100 children (more than one box at the top), query corners at every fourth place', name='wide')] + [T('search.c', 'KIND=%d FLAT=0 QB=6 QW=4 NC=%d STOP' % (k, n), GEO, j=1, bound='%d children, iterator stops after 1..4' % n, name='stop%d-%d' % (k, n)) for k in (0, 2) for n in (20, 70)]),
 'P19': dict(tasks=[T('nearest.c', 'IX=%s SP=2 NB=20 TB=%d MORE=%d' % (x, b, m), ['--no-merge'] + GEO, j=1, bound='19 segments, every target on a %dx%d grid' % (1 << b, 1 << b), name='nearest-%s-%d' % (x, m)) for x, b in (('TG_NONE', 4), ('TG_NATURAL', 5), ('TG_YSTRIPES', 4)) for m in (0, 1)]
    + [T('nearest.c', 'IX=%s SP=%d NB=7 TB=3 MORE=%d SYMV=3' % (x, sp, m), ['--no-merge'] + GEO, j=2, only='thorough', bound='6 segments, a vertex and the target anywhere on an 8x8 grid', name='nearest-sym-%s-%d-%d' % (x, sp, m)) for x, sp in (('TG_NONE', 2), ('TG_NATURAL', 2), ('TG_NATURAL', 3)) for m in (0, 1)]
    + [T('nearest.c', 'IX=%s SP=2 NB=300 TB=%d MORE=1 FAULT' % (x, b), ['--no-merge'] + GEO, j=1, bound='299 segments (queue outgrows the stack), one allocation may fail', name='nearest-fault-%s' % x) for x, b in (('TG_NONE', 1), ('TG_NATURAL', 2))]
    + [T('pairs.c', 'IX=%s IXB=%s SPA=%d SPB=%d NB=%d NQ=%d LIMIT=%s' % c, GEO, j=1, bound='%d against %d segments, a vertex of B anywhere on an 8x8 grid at every other origin' % (c[4] - 1, c[5] - 1), name='pairs-%d' % n) for n, c in enumerate((
        ('TG_NATURAL', 'TG_NATURAL', 2, 2, 40, 9, 0), ('TG_NATURAL', 'TG_NATURAL', 8, 3, 40, 40, 0), ('TG_NATURAL', 'TG_NATURAL', 3, 8, 40, 20, 0), ('TG_NATURAL', 'TG_NATURAL', 4, 4, 40, 40, 0), ('TG_NATURAL', 'TG_NATURAL', 16, 16, 60, 40, 0),
        ('TG_NATURAL', 'TG_NONE', 3, 3, 40, 9, 0), ('TG_NONE', 'TG_NATURAL', 3, 3, 40, 20, 0), ('TG_NONE', 'TG_YSTRIPES', 2, 2, 40, 30, 0), ('TG_NONE', 'TG_NONE', 2, 2, 40, 9, 0), ('TG_YSTRIPES', 'TG_NATURAL', 2, 2, 20, 9, 0),
        ('TG_NATURAL', 'TG_NATURAL', 8, 3, 40, 40, '0 SCALE=0x1p200'), ('TG_NATURAL', 'TG_NATURAL', 3, 8, 40, 20, '0 SCALE=0x1p-160'), ('TG_NATURAL', 'TG_NATURAL', 2, 4, 40, 9, 2), ('TG_NATURAL', 'TG_NONE', 2, 2, 20, 9, 2), ('TG_NONE', 'TG_NATURAL', 2, 2, 20, 9, 1), ('TG_NONE', 'TG_NONE', 2, 2, 20, 9, 1)))]),
 'P20': dict(tasks=[T('refcnt.c', 'START=%d STEPS=%d' % (s, n), [], j=2, conf=c, only=o, name='s%d-%d-%s' % (s, n, c)) for n, o in ((3, 'quick'), (4, 'thorough')) for s in range(5) for c in ('amalga', 'noatomics')]),
 'P21': dict(tasks=[T('oom.c', 'MODE=%d CO=2 B=2' % m, [], j=1, name='m%d' % m) for m in range(7)] + [T('oomcat.c', 'B=2', [], j=1, name='cat')]),
 'P22': dict(tasks=[T('total.c', '', [], j=1, name='total'), T('total.c', 'CO=1', BIN, j=1, name='total-sym')]),
 'P23': dict(tasks=[T('copy.c', 'CO=0', BIN, j=4, name='raw'), T('copy.c', 'CO=2', [], j=1, name='fixed')]),
 'P24': dict(tasks=[T('rects.c', 'CO=1 GB=2', ['--mw', '--bdd', '300000'], j=2, name='grid'), T('rects.c', 'CO=2', [], j=1, name='fixed')]),
 'P25': dict(tasks=[T('wkt_means.c', 'PART=%d' % k, TXT, j=4, cost=9 if k == 0 else 1, bound='WKT templates with 1-3 arbitrary bytes', reach=['ok', 'err'], name=n) for k, n in enumerate(('numbers', 'nesting', 'names', 'shapes'))]
    + [T('long.c', 'FMT=0', [], j=2, bound='1100 parts of every kind, with and without Z and M, one position with two values', reach=['end'], name='long')]),
 'P26': dict(tasks=[T('json_means.c', 'PART=%d' % k, TXT, j=2, bound='GeoJSON templates with 1-2 arbitrary bytes', reach=['ok', 'err'], name=n) for k, n in enumerate(('coordinates', 'members', 'features', 'shapes'))]
    + [T('long.c', 'FMT=1', [], j=2, bound='1100 parts of every kind, with and without Z and M, one position with two values', reach=['end'], name='long')]),
 'P27': dict(tasks=[T('forms.c', 'QUICK BITS=2 ALO=%d AHI=%d' % (k, k + 1), GEO, j=3 if k in (1, 2, 4) else 1, cost=9 if k in (1, 2, 4) else 1, bound='%s in 11 other forms against 9 kinds, shifted by -2..1' % n, reach=['end'], name=n) for k, n in enumerate(('point', 'line', 'concave', 'hole', 'box', 'multipoint', 'multiline', 'multipolygon', 'collection'))]
    + [T('forms.c', '%s ALO=%d AHI=%d' % (d, k, k + 1), GEO, j=1, only='thorough', bound='the same, shifted further', reach=['end'], name='more%d-%d' % (k, i)) for k in range(9) for i, d in enumerate(('BITS=2', 'QUICK BITS=3'))]),
}

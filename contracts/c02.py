"""C02: records"""
import struct
import numpy
import gdspy
from vc.contract import contract
from contracts.common import *


def rec(c, size, kind):
    return c.U(2, size) + c.U(2, kind)


def polygon_head(c, l, d):
    return rec(c, 4, 0x0800) + rec(c, 6, 0x0D02) + c.U(2, l) + rec(c, 6, 0x0E02) + c.U(2, d)


def props(c, d):
    out = b""
    if d is not None:
        for attr, value in d.items():
            v = value.encode("ascii")
            if len(v) % 2 != 0:
                v = v + b"\0"
            out = out + rec(c, 6, 0x2B02) + c.U(2, attr) + rec(c, 4 + len(v), 0x2C06) + v
    return out


def some_properties(c):
    k = c.choice("properties", [0, 1, 2])
    if k == 0:
        return {}
    if k == 1:
        return None
    a = c.int("attr1", 1, 127)
    b = c.int("attr2", 1, 127)
    c.assume(a < b)
    return {a: c.text("value1", 126), b: c.text("value2", 126)}


@contract("C02", ["polygon.PolygonSet.to_gds"])
def polygonset_to_gds(c):
    ps = polygonset(c, "ps")
    m = c.posreal("multiplier")
    c.forall_assume(ps.polygons, lambda p: len(p) <= 8190)
    ps.properties = some_properties(c)
    f = c.file()
    ps.to_gds(f, m)
    want = b""
    for p, l, d in zip(ps.polygons, ps.layers, ps.datatypes):
        want = want + polygon_head(c, l, d) + rec(c, 12 + 8 * len(p), 0x1003)
        for q in p:
            want = want + c.U(4, c.rnd(q[0] * m)) + c.U(4, c.rnd(q[1] * m))
        want = want + c.U(4, c.rnd(p[0][0] * m)) + c.U(4, c.rnd(p[0][1] * m))
        want = want + props(c, ps.properties) + rec(c, 4, 0x1100)
    c.eq("records", c.written(f), want)


@contract("C02", ["polygon.PolygonSet.to_gds"], samples=6)
def polygonset_to_gds_long(c):
    ps = c.new(gdspy.PolygonSet, polygons=[c.points("p", lo=8191, hi=30000)], layers=[c.tag("layer")], datatypes=[c.tag("datatype")], properties={})
    m = c.posreal("multiplier")
    f = c.file()
    ps.to_gds(f, m)
    p = ps.polygons[0]
    want = polygon_head(c, ps.layers[0], ps.datatypes[0])
    n = len(p)
    i = 0
    while i < n + 1:
        j = i + 8190 if i + 8190 < n + 1 else n + 1
        want = want + rec(c, 4 + 8 * (j - i), 0x1003)
        for k in range(i, j):
            q = p[k if k < n else 0]
            want = want + c.U(4, c.rnd(q[0] * m)) + c.U(4, c.rnd(q[1] * m))
        i = j
    c.eq("records", c.written(f), want + rec(c, 4, 0x1100))


def padded(c, name):
    """name bytes with even length"""
    b = name.encode("ascii")
    if len(name) % 2 != 0:
        b = b + b"\0"
    return b


def strans(c, o):
    out = b""
    if o.x_reflection or o.magnification is not None or o.rotation is not None:
        out = rec(c, 6, 0x1A01) + c.U(2, 0x8000 if o.x_reflection else 0)
        if o.magnification is not None:
            out = out + rec(c, 12, 0x1B05) + c.R8(o.magnification)
        if o.rotation is not None:
            out = out + rec(c, 12, 0x1C05) + c.R8(o.rotation)
    return out


def xy(c, pts, m):
    out = rec(c, 4 + 8 * len(pts), 0x1003)
    for p in pts:
        out = out + c.U(4, c.rnd(p[0] * m)) + c.U(4, c.rnd(p[1] * m))
    return out


def label_records(c, l, m):
    t = padded(c, l.text)
    return (rec(c, 4, 0x0C00) + rec(c, 6, 0x0D02) + c.U(2, l.layer) + rec(c, 6, 0x1602) + c.U(2, l.texttype) + rec(c, 6, 0x1701) + c.U(2, l.anchor)
            + strans(c, l) + xy(c, [l.position], m) + rec(c, 4 + len(t), 0x1906) + t + props(c, l.properties) + rec(c, 4, 0x1100))


@contract("C02", ["label.Label.to_gds"])
def label_to_gds(c):
    l = label(c, "label")
    l.properties = some_properties(c)
    m = c.posreal("multiplier")
    old = c.snapshot(l)
    f = c.file()
    l.to_gds(f, m)
    c.eq("records", c.written(f), label_records(c, old, m))
    c.eq("unchanged", l, old)


def reference_records(c, r, name, m):
    n = padded(c, name)
    return (rec(c, 4, 0x0A00) + rec(c, 4 + len(n), 0x1206) + n + strans(c, r) + xy(c, [r.origin], m) + props(c, r.properties) + rec(c, 4, 0x1100))


@contract("C02", ["library.CellReference.to_gds"])
def reference_to_gds(c):
    name = c.text("name", 32, 1)
    held = c.choice("held", [name, cell(c, name)])
    r = reference(c, "ref", held)
    r.properties = some_properties(c)
    m = c.posreal("multiplier")
    f = c.file()
    r.to_gds(f, m)
    c.eq("records", c.written(f), reference_records(c, r, name, m))


def array_records(c, r, name, m):
    """three points: origin, displaced by all columns, displaced by all rows, after reflection and rotation"""
    n = padded(c, name)
    ox, oy = r.origin[0], r.origin[1]
    ex, ey = r.columns * r.spacing[0], r.rows * r.spacing[1]
    if r.x_reflection:
        ey = -ey
    pts = [(ox, oy), (ox + ex, oy), (ox, oy + ey)]
    if r.rotation is not None:
        a = r.rotation * c.pi / 180
        ca, sa = c.cos(a), c.sin(a)
        pts = [(ox, oy), (ox + ex * ca, oy + ex * sa), (ox - ey * sa, oy + ey * ca)]
    return (rec(c, 4, 0x0B00) + rec(c, 4 + len(n), 0x1206) + n + strans(c, r) + rec(c, 8, 0x1302) + c.U(2, r.columns) + c.U(2, r.rows)
            + xy(c, pts, m) + props(c, r.properties) + rec(c, 4, 0x1100))


@contract("C02", ["library.CellArray.to_gds"])
def array_to_gds(c):
    name = c.text("name", 32, 1)
    r = array(c, "ref", c.choice("held", [name, cell(c, name)]))
    r.properties = {} if c.flag("plain") else {c.int("attr", 1, 127): c.text("value", 126)}
    m = c.posreal("multiplier")
    f = c.file()
    r.to_gds(f, m)
    c.eq("records", c.written(f), array_records(c, r, name, m))


def dates(c, t):
    return c.U(2, t.year) + c.U(2, t.month) + c.U(2, t.day) + c.U(2, t.hour) + c.U(2, t.minute) + c.U(2, t.second)


def cell_head(c, name, t):
    n = padded(c, name)
    return rec(c, 28, 0x0502) + dates(c, t) + dates(c, t) + rec(c, 4 + len(n), 0x0606) + n


def cell_records(c, a, m, t):
    out = cell_head(c, a.name, t)
    for group in (a.polygons, a.paths, a.labels, a.references):
        for e in group:
            out = out + element_mark(e.ident, m)
    return out + rec(c, 4, 0x0700)


def element_cell(c, name):
    return cell(
        c,
        c.text(name + ".name", 32, 1),
        c.list(name + ".polygons", None, lambda: element(c, name + ".polygon")),
        c.list(name + ".paths", None, lambda: element(c, name + ".path")),
        c.list(name + ".labels", None, lambda: element(c, name + ".label")),
        c.list(name + ".references", None, lambda: element(c, name + ".reference")),
    )


@contract("C02", ["library.Cell.to_gds"])
def cell_to_gds(c):
    a = element_cell(c, "cell")
    m = c.posreal("multiplier")
    t = stamp(c, "time")
    f = c.file()
    a.to_gds(f, m, t)
    c.eq("records", c.written(f), cell_records(c, a, m, t))


class AnyCell(object):
    """stands for any cell: to_gds writes its own records (contract cell_to_gds)"""

    __slots__ = ("name", "ident")

    def to_gds(self, outfile, multiplier, timestamp=None):
        outfile.write(struct.pack(">3l", self.ident, int(round(multiplier)), timestamp.year))


def any_cell(c, name):
    return c.new(AnyCell, name=c.text(name + ".name", 32, 1), ident=c.int(name + ".ident", 0, 2 ** 30))


def library_head(c, name, unit, precision, t):
    n = padded(c, name)
    return (rec(c, 6, 0x0002) + c.U(2, 0x0258) + rec(c, 28, 0x0102) + dates(c, t) + dates(c, t) + rec(c, 4 + len(n), 0x0206) + n
            + rec(c, 20, 0x0305) + c.R8(precision / unit) + c.R8(precision))


@contract("C02", ["library.GdsLibrary.write_gds"])
def library_write_gds(c):
    name = c.text("library name", 44)
    cells = [any_cell(c, "a"), any_cell(c, "b")]
    c.assume(cells[0].name != cells[1].name)
    lib = library(c, name, {x.name: x for x in cells})
    t = stamp(c, "time")
    which = c.choice("cells", [0, 1, 2, 3, 4])
    other = any_cell(c, "other")
    chosen = [None, [cells[1].name], [cells[1], cells[0].name], [other, cells[0]], []][which]
    want = [cells, [cells[1]], [cells[1], cells[0]], [other, cells[0]], []][which]
    c.assume(other.name != cells[0].name)
    c.assume(other.name != cells[1].name)
    binary = c.choice("binary", [None, [], [c.U(4, c.int("binary1")), c.U(4, c.int("binary2"))]])
    f = c.file()
    lib.write_gds(f, chosen, t, binary)
    out = library_head(c, name, lib.unit, lib.precision, t)
    for x in want:
        out = out + struct.pack(">3l", x.ident, int(round(lib.unit / lib.precision)), t.year)
    if binary is not None:
        for b in binary:
            out = out + b
    c.eq("records", c.written(f), out + rec(c, 4, 0x0400))
    c.check("file of the caller stays open", not f.closed)


@contract("C02", ["library.GdsWriter.__init__", "library.GdsWriter.write_cell", "library.GdsWriter.write_binary_cells", "library.GdsWriter.close"])
def writer(c):
    name = c.text("library name", 44)
    t = stamp(c, "time")
    u, p = c.posreal("unit"), c.posreal("precision")
    f = c.file()
    w = gdspy.GdsWriter(f, name, u, p, t)
    cells = c.list("cells", None, lambda: any_cell(c, "cell"))
    for x in cells:
        c.same("writer returned", w.write_cell(x, t), w)
    blob = c.U(4, c.int("binary"))
    c.same("writer returned after binary cells", w.write_binary_cells([blob, blob]), w)
    w.close()
    out = library_head(c, name, u, p, t)
    for x in cells:
        out = out + struct.pack(">3l", x.ident, int(round(u / p)), t.year)
    c.eq("records", c.written(f), out + blob + blob + rec(c, 4, 0x0400))
    c.check("file of the caller stays open", not f.closed)


PATHTYPES = {"flush": 0, "round": 1, "extended": 2, "smooth": 1}


def path_head(c, p, i, width, m):
    e = p.ends[i]
    t = 4 if isinstance(e, tuple) else PATHTYPES[e]
    w = c.rnd(width * m)
    out = (rec(c, 4, 0x0900) + rec(c, 6, 0x0D02) + c.U(2, p.layers[i]) + rec(c, 6, 0x0E02) + c.U(2, p.datatypes[i]) + rec(c, 6, 0x2102) + c.U(2, t)
           + rec(c, 8, 0x0F03) + c.U(4, w if p.width_transform else -w))
    if t == 4:
        out = out + rec(c, 8, 0x3003) + c.U(4, c.rnd(e[0] * m)) + rec(c, 8, 0x3103) + c.U(4, c.rnd(e[1] * m))
    return out


def spine(c, n):
    """n points, consecutive ones distinct"""
    pts = c.matrix("spine", n, 2)
    for i in range(n - 1):
        dx, dy = pts[i + 1, 0] - pts[i, 0], pts[i + 1, 1] - pts[i, 1]
        c.assume(dx * dx + dy * dy > 0)
    return pts


@contract("C02", ["path.FlexPath.to_gds"], note="two or three spine points")
def flexpath_to_gds(c):
    """GDSII path without offsets: two parallel elements, any ends"""
    n = c.choice("points", [2, 3])
    pts = spine(c, n)
    e = [c.choice("end", ["flush", "round", "extended", "smooth", (c.real("e0"), c.real("e1"))]), (c.real("e2"), c.real("e3"))]
    p = flexpath(c, "p", 2, points=pts, offsets=numpy.zeros((n, 2)), ends=e, gdsii_path=True, width_transform=c.flag("width_transform"))
    p.properties = some_properties(c)
    m = c.posreal("multiplier")
    old = c.snapshot(p)
    f = c.file()
    p.to_gds(f, m)
    want = b""
    for i in range(2):
        want = want + path_head(c, old, i, old.widths[0, i], m) + xy(c, pts, m) + props(c, old.properties) + rec(c, 4, 0x1100)
    c.eq("records", c.written(f), want)


def set_records(c, groups, properties, m):
    want = b""
    for (l, d), polys in groups.items():
        for p in polys:
            want = want + polygon_head(c, l, d) + rec(c, 12 + 8 * len(p), 0x1003)
            for q in p:
                want = want + c.U(4, c.rnd(q[0] * m)) + c.U(4, c.rnd(q[1] * m))
            want = want + c.U(4, c.rnd(p[0][0] * m)) + c.U(4, c.rnd(p[0][1] * m)) + props(c, properties) + rec(c, 4, 0x1100)
    return want


@contract("C02", ["path.FlexPath.to_gds", "path.FlexPath.to_polygonset", "path.RobustPath.to_gds", "path.RobustPath.to_polygonset"], note="computed polygons: any number in each of two groups")
def path_boundaries_to_gds(c):
    """a path that is not a GDSII path is written as its polygons"""
    l, d = c.tag("layer"), c.tag("datatype")
    c.assume(l < 32767)
    g = {(l, d): c.list("g0", None, lambda: c.points("p0")), (l + 1, d): [c.points("p1")]}
    c.forall_assume(g[(l, d)], lambda q: len(q) <= 8190)
    c.assume(len(g[(l + 1, d)][0]) <= 8190)
    p = c.choice("kind", [flexpath(c, "f", 2, _polygon_dict=g, max_points=0), robustpath(c, "r", 2, _polygon_dict=g, max_points=0)])
    p.properties = {c.int("attr1", 1, 127): c.text("value1", 126)} if c.flag("properties") else {}
    m = c.posreal("multiplier")
    old = c.snapshot(g)
    f = c.file()
    p.to_gds(f, m)
    c.eq("records", c.written(f), set_records(c, old, p.properties, m))


class Section(object):
    """stands for the only section of a robust path: the points it reports are arbitrary"""

    __slots__ = ("pts",)

    def points(self, u0, u1, arm):
        return [q for q in self.pts]


@contract("C02", ["path.RobustPath.to_gds"], note="one section per element; joins of sections in robustpath_to_gds_joins")
def robustpath_to_gds(c):
    e = [c.choice("end", ["flush", "round", "extended", "smooth", (c.real("e0"), c.real("e1"))]), (c.real("e2"), c.real("e3"))]
    pts = [c.points("p0", 2), c.points("p1", 2)]
    p = robustpath(c, "p", 2, 1, ends=e, gdsii_path=True, width_transform=c.flag("width_transform"))
    p.paths = [[c.new(Section, pts=q)] for q in pts]
    p.properties = some_properties(c)
    c.assume(len(pts[0]) <= 8191)
    c.assume(len(pts[1]) <= 8191)
    m = c.posreal("multiplier")
    f = c.file()
    p.to_gds(f, m)
    want = b""
    for i in range(2):
        want = want + path_head(c, p, i, p.widths[i], m) + xy(c, pts[i], m) + props(c, p.properties) + rec(c, 4, 0x1100)
    c.eq("records", c.written(f), want)


GRAMMAR = {
    # records of each element in their order; lower-case: optional, +: repeatable
    0x08: [0x0D, 0x0E, "+", 0x10],
    0x09: [0x0D, 0x0E, 0x21, 0x0F, (0x30,), (0x31,), "+", 0x10],
    0x0C: [0x0D, 0x16, (0x17,), (0x1A,), (0x1B,), (0x1C,), 0x10, 0x19],
    0x0A: [0x12, (0x1A,), (0x1B,), (0x1C,), 0x10],
    0x0B: [0x12, (0x1A,), (0x1B,), (0x1C,), 0x13, 0x10],
}


def element_order(rs):
    """None if the records of an element follow the grammar, else a message"""
    kinds = [k for k, v in rs]
    k = 1
    many = False
    for g in GRAMMAR.get(kinds[0], []):
        if g == "+":
            many = True
            continue
        opt = isinstance(g, tuple)
        t = g[0] if opt else g
        if k < len(kinds) and kinds[k] == t:
            k += 1
            while many and k < len(kinds) and kinds[k] == t:
                k += 1
        elif not opt:
            return "element %#x lacks record %#x: %s" % (kinds[0], t, [hex(x) for x in kinds])
        many = False
    rest = kinds[k:]
    if rest[-1:] != [0x11] or rest[:-1] != [0x2B, 0x2C] * ((len(rest) - 1) // 2):
        return "records after the element: %s" % [hex(x) for x in kinds]
    return None


TYPE_OF = {0x00: 2, 0x01: 2, 0x02: 6, 0x03: 5, 0x04: 0, 0x05: 2, 0x06: 6, 0x07: 0, 0x08: 0, 0x09: 0, 0x0A: 0, 0x0B: 0, 0x0C: 0, 0x0D: 2, 0x0E: 2, 0x0F: 3, 0x10: 3, 0x11: 0, 0x12: 6, 0x13: 2, 0x16: 2, 0x17: 1, 0x19: 6, 0x1A: 1, 0x1B: 5, 0x1C: 5, 0x21: 2, 0x2B: 2, 0x2C: 6, 0x30: 3, 0x31: 3}


@contract("C02", ["library.GdsLibrary.write_gds", "library.Cell.to_gds", "library.CellReference.to_gds", "library.CellArray.to_gds", "label.Label.to_gds", "polygon.PolygonSet.to_gds", "path.FlexPath.to_gds", "path.RobustPath.to_gds", "library.GdsWriter.write_cell"], sym=False, samples=80, note="random libraries: frame, grammar, record types and number of elements of the whole stream, also written piecewise")
def whole_stream(c):
    import io
    import datetime
    from contracts import world as w
    r = c.rng
    lib = w.library(r)
    t = datetime.datetime(2020, 2, 3, 4, 5, 6)
    f = io.BytesIO()
    if r.random() < 0.5:
        lib.write_gds(f, timestamp=t)
    else:
        writer = gdspy.GdsWriter(f, lib.name, lib.unit, lib.precision, t)
        for k in lib.cells.values():
            writer.write_cell(k, t)
        writer.close()
    try:
        recs = w.records(f.getvalue())
    except AssertionError as ex:
        c.check("records", False, str(ex))
    for (rt, dt), v in recs:
        c.eq("data type of record %#x" % rt, dt, TYPE_OF.get(rt))
    kinds = [k[0] for k, v in recs]
    date = [2020, 2, 3, 4, 5, 6]
    c.eq("header", recs[0][1], [0x258])
    c.eq("begin", (recs[1], recs[2]), (((1, 2), date * 2), ((2, 6), lib.name)))
    c.eq("units", kinds[3], 3)
    c.eq("end", kinds[-1], 4)
    i = 4
    for k in lib.cells.values():
        c.eq("cell", (recs[i], recs[i + 1]), (((5, 2), date * 2), ((6, 6), k.name)))
        j = kinds.index(7, i)
        es = w.elements(recs[i + 2:j])
        for e in es:
            why = element_order(e)
            c.check("grammar", why is None, why)
        count = lambda t: sum(e[0][0] == t for e in es)
        c.eq("references", (count(0x0A), count(0x0B)), (sum(isinstance(x, gdspy.CellReference) for x in k.references), sum(isinstance(x, gdspy.CellArray) for x in k.references)))
        c.eq("labels", [dict(e)[0x19] for e in es if e[0][0] == 0x0C], [x.text for x in k.labels])
        c.eq("paths", count(0x09), sum(p.n for p in k.paths if p.gdsii_path))
        c.eq("polygons", count(0x08), sum(len(p.polygons) for p in k.polygons) + sum(len(v) for p in k.paths if not p.gdsii_path for v in p.get_polygons(True).values()))
        i = j + 1
    c.eq("number of cells", i, len(recs) - 1)


@contract("C02", ["path.FlexPath.to_gds", "path.RobustPath.to_gds"], sym=False, samples=120, note="offset centre lines of polyline paths with up to 5 points against intersections of shifted lines; written widths, ends and tags")
def path_centre_lines(c):
    import io
    from contracts import world as w
    r = c.rng
    p = w.flexpath(r, True) if r.random() < 0.5 else w.robustpath(r, True)
    m = r.choice([1000, 100, 1000.0])
    f = io.BytesIO()
    p.to_gds(f, m)
    es = w.elements(w.records(f.getvalue()))
    c.eq("elements", len(es), p.n)
    for i, e in enumerate(es):
        d = dict(e)
        if isinstance(p, gdspy.FlexPath):
            spine, o, wd = p.points, p.offsets[0, i], p.widths[0, i]
        else:
            spine, o, wd = [s(0, 0) for s in p.paths[i]] + [p.paths[i][-1](1, 0)], 0, p.widths[i]
        c.eq("tags", (d[0x0D], d[0x0E]), ([p.layers[i]], [p.datatypes[i]]))
        c.eq("width", d[0x0F], [(1 if p.width_transform else -1) * int(round(wd * m))])
        c.eq("path type", d[0x21], [{"flush": 0, "round": 1, "extended": 2}.get(p.ends[i], 4)])
        if isinstance(p.ends[i], tuple):
            c.eq("extensions", (d[0x30], d[0x31]), ([int(round(p.ends[i][0] * m))], [int(round(p.ends[i][1] * m))]))
        xy = numpy.array(d[0x10], dtype=float).reshape((-1, 2)) / m
        if isinstance(p, gdspy.FlexPath):
            want = numpy.array(w.offset_polyline(spine, o))
            c.eq("vertices", xy.shape, want.shape)
            c.check("centre line", numpy.abs(xy - want).max() <= 0.6 / m + 1e-9, "%s instead of %s" % (xy.tolist(), want.tolist()))
        else:
            want = [spine[0]]
            for s0, s1 in zip(p.paths[i][:-1], p.paths[i][1:]):
                want.append(w.crossing(s0(0, 0), s0(1, 0), s1(0, 0), s1(1, 0)))
            want.append(spine[-1])
            c.check("every join is written", max(min(numpy.hypot(*(q - x)) for q in xy) for x in want) <= 2 * p.tolerance + 1 / m)
            c.check("vertices lie on the centre line", max(w.distance_to_polyline(q, want) for q in xy) <= 2 * p.tolerance + 1 / m)
            c.check("end points", max(numpy.abs(xy[0] - spine[0]).max(), numpy.abs(xy[-1] - spine[-1]).max()) <= 0.6 / m + 1e-9)

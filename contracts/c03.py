"""C03: reading back what was written"""
import io
import struct
import numpy
import gdspy
from vc.contract import contract
from contracts.common import *
from contracts import world

MAX = 2 ** 31 - 1


def rec(c, kind, body=b""):
    return c.U(2, 4 + c.length(body)) + c.U(2, kind) + body


def coord(c, name):
    return c.int(name, -MAX, MAX)


def even(c, name, hi=100):
    """text of even length"""
    s = c.text(name, hi, 2)
    if not c.symbolic:
        s = s + "q" * (len(s) % 2)
    return s


def string(c, s):
    """payload of a text that may have odd length"""
    b = s.encode("ascii")
    if len(s) % 2 != 0:
        b = b + b"\0"
    return b


class Point(object):
    __slots__ = ("x", "y")


def point(c, name):
    return c.new(Point, x=coord(c, name + ".x"), y=coord(c, name + ".y"))


def vertices(c, name, lo=3):
    n = c.count(name, lo)
    c.assume(n <= 8190)
    return c.list(name, n, lambda: point(c, name))


def fields(c, pts):
    return b"".join([c.U(4, p.x) + c.U(4, p.y) for p in pts])


class Written(object):
    """an element of a stream: its records and a check of what is read (factor of coordinates, tags as mapped)"""

    __slots__ = ("data", "kind", "check")


def same_tag(t):
    return t


def boundary(c, name):
    l, d = c.tag(name + ".layer"), c.tag(name + ".datatype")
    pts = vertices(c, name)
    data = rec(c, 0x0800) + rec(c, 0x0D02, c.U(2, l)) + rec(c, 0x0E02, c.U(2, d)) + rec(c, 0x1003, fields(c, pts) + c.U(4, pts[0].x) + c.U(4, pts[0].y))

    def check(e, f, layer=same_tag, datatype=same_tag, texttype=same_tag):
        c.check("polygon", isinstance(e, gdspy.PolygonSet))
        c.eq("polygons", len(e.polygons), 1)
        c.eq("tags", (e.layers, e.datatypes), ([layer(l)], [datatype(d)]))
        c.eq("vertices", e.polygons[0], numpy.array([(f * p.x, f * p.y) for p in pts]))
    return c.new(Written, data=data, kind="polygons", check=check)


def path(c, name):
    l, d = c.tag(name + ".layer"), c.tag(name + ".datatype")
    pts = vertices(c, name, 2)
    w = c.int(name + ".width", 1, MAX)
    scaled = c.flag(name + ".width_transform")
    end = c.choice(name + ".end", ["flush", "round", "extended", "both"])
    data = rec(c, 0x0900) + rec(c, 0x0D02, c.U(2, l)) + rec(c, 0x0E02, c.U(2, d))
    data = data + rec(c, 0x2102, c.U(2, {"flush": 0, "round": 1, "extended": 2, "both": 4}[end])) + rec(c, 0x0F03, c.U(4, w if scaled else -w))
    e0, e1 = c.int(name + ".e0", -MAX, MAX), c.int(name + ".e1", -MAX, MAX)
    if end == "both":
        data = data + rec(c, 0x3003, c.U(4, e0)) + rec(c, 0x3103, c.U(4, e1))
    data = data + rec(c, 0x1003, fields(c, pts))

    def check(e, f, layer=same_tag, datatype=same_tag, texttype=same_tag):
        c.check("simple path", isinstance(e, gdspy.FlexPath) and e.gdsii_path and e.n == 1)
        c.eq("tags", (e.layers, e.datatypes), ([layer(l)], [datatype(d)]))
        c.eq("spine", e.points, numpy.array([(f * p.x, f * p.y) for p in pts]))
        c.eq("widths", e.widths, numpy.array([[f * w] for p in pts]))
        c.eq("offsets", e.offsets, numpy.array([[0] for p in pts]))
        c.eq("ends", e.ends, [(f * e0, f * e1) if end == "both" else end])
        c.eq("width_transform", e.width_transform, scaled)
    return c.new(Written, data=data, kind="paths", check=check)


def transformation(c, name):
    """records of reflection, magnification and rotation; check of their values"""
    form = c.choice(name + ".transformation", [0, 1, 2, 3])
    if form == 0:
        return b"", lambda e: c.eq("transformation", (bool(e.x_reflection), e.magnification, e.rotation), (False, None, None))
    refl = c.flag(name + ".reflected")
    m, a = c.posreal(name + ".magnification"), c.real(name + ".rotation")
    data = rec(c, 0x1A01, c.U(2, 0x8000 if refl else 0))
    if form >= 2:
        data = data + rec(c, 0x1B05, c.R8(m))
    if form == 3:
        data = data + rec(c, 0x1C05, c.R8(a))
    return data, lambda e: c.eq("transformation", (bool(e.x_reflection), e.magnification, e.rotation), (refl, m if form >= 2 else None, a if form == 3 else None))


ANCHORS = ["nw", "n", "ne", None, "w", "o", "e", None, "sw", "s", "se"]


def text(c, name):
    l, d = c.tag(name + ".layer"), c.tag(name + ".texttype")
    anchor = c.choice(name + ".anchor", [0, 5, 10])
    s = c.text(name + ".text", 512)
    p = point(c, name)
    tr, same_tr = transformation(c, name)
    data = (rec(c, 0x0C00) + rec(c, 0x0D02, c.U(2, l)) + rec(c, 0x1602, c.U(2, d)) + rec(c, 0x1701, c.U(2, anchor)) + tr
            + rec(c, 0x1003, c.U(4, p.x) + c.U(4, p.y)) + rec(c, 0x1906, string(c, s)))

    def check(e, f, layer=same_tag, datatype=same_tag, texttype=same_tag):
        c.check("label", isinstance(e, gdspy.Label))
        c.eq("tags", (e.layer, e.texttype), (layer(l), texttype(d)))
        c.eq("text", e.text, s)
        c.eq("anchor", e.anchor, anchor)
        c.eq("position", e.position, numpy.array([f * p.x, f * p.y]))
        same_tr(e)
    return c.new(Written, data=data, kind="labels", check=check)


def sref(c, name, target):
    p = point(c, name)
    tr, same_tr = transformation(c, name)
    data = rec(c, 0x0A00) + rec(c, 0x1206, string(c, target)) + tr + rec(c, 0x1003, c.U(4, p.x) + c.U(4, p.y))

    def check(e, f, layer=same_tag, datatype=same_tag, texttype=same_tag):
        c.check("reference", isinstance(e, gdspy.CellReference))
        c.eq("origin", (e.origin[0], e.origin[1]), (f * p.x, f * p.y))
        same_tr(e)
    return c.new(Written, data=data, kind="references", check=check)


def aref(c, name, target):
    p, px, py = point(c, name), point(c, name + "x"), point(c, name + "y")
    cols, rows = c.int(name + ".columns", 1, 32767), c.int(name + ".rows", 1, 32767)
    tr, same_tr = transformation(c, name)
    data = rec(c, 0x0B00) + rec(c, 0x1206, string(c, target)) + tr + rec(c, 0x1302, c.U(2, cols) + c.U(2, rows)) + rec(c, 0x1003, fields(c, [p, px, py]))

    def check(e, f, layer=same_tag, datatype=same_tag, texttype=same_tag):
        """the spacing is the displacement of the opposite corners before reflection and rotation"""
        c.check("array", isinstance(e, gdspy.CellArray))
        c.eq("origin", (e.origin[0], e.origin[1]), (f * p.x, f * p.y))
        c.eq("size", (e.columns, e.rows), (cols, rows))
        same_tr(e)
        ca, sa = 1, 0
        if e.rotation is not None:
            ca, sa = c.cos(e.rotation * c.pi / 180), c.sin(e.rotation * c.pi / 180)
        s = -1 if e.x_reflection else 1
        c.eq("spacing x", e.spacing[0] * cols, f * ((px.x - p.x) * ca + (px.y - p.y) * sa), tol=1e-4)
        c.eq("spacing y", e.spacing[1] * rows, f * s * ((py.y - p.y) * ca - (py.x - p.x) * sa), tol=1e-4)
    return c.new(Written, data=data, kind="references", check=check)


def element(c, name, kind, target):
    if kind == 0:
        return boundary(c, name)
    if kind == 1:
        return path(c, name)
    if kind == 2:
        return text(c, name)
    if kind == 3:
        return sref(c, name, target)
    return aref(c, name, target)


def properties(c, name):
    k = c.choice(name + ".properties", [0, 1])
    if k == 0:
        return {}, b""
    a, v = c.int(name + ".attr", 1, 127), c.text(name + ".value", 126)
    return {a: v}, rec(c, 0x2B02, c.U(2, a)) + rec(c, 0x2C06, string(c, v))


def file_start(c):
    return (rec(c, 0x0002, c.U(2, 600)) + rec(c, 0x0102, b"\0" * 24) + rec(c, 0x0206, even(c, "lib.name").encode("ascii"))
            + rec(c, 0x0305, c.R8(c.posreal("user")) + c.R8(c.posreal("meters"))))


def one_cell(c, name, body):
    return rec(c, 0x0502, b"\0" * 24) + rec(c, 0x0606, string(c, name)) + body + rec(c, 0x0700)


def content(k):
    return {"polygons": len(k.polygons), "paths": len(k.paths), "labels": len(k.labels), "references": len(k.references)}


READ = ["library.GdsLibrary.read_gds", "gdsiiformat._record_reader"]


def read_one(c, kind):
    """one element of a kind, with properties or without, in each unit option"""
    name, target = c.text("name", 32, 1), c.text("target", 32, 1)
    c.assume(name != target)
    e = element(c, "e", kind, target)
    units = c.choice("units", ["skip", "import", "convert"])
    p, pb = properties(c, "e") if units == "skip" else ({}, b"")
    unit = c.posreal("unit")
    lib = library(c, "L", {}, unit=unit, precision=1e-9)
    data = file_start(c) + one_cell(c, name, e.data + pb + rec(c, 0x1100)) + rec(c, 0x0400)
    c.same("library returned", lib.read_gds(c.stream(data), units=units) if units != "skip" else lib.read_gds(c.stream(data)), lib)
    user, meters = c.posreal("user"), c.posreal("meters")
    c.eq("cells", list(lib.cells), [name])
    c.eq("library", (lib.name, lib.unit, lib.precision), (even(c, "lib.name"), meters / user if units == "import" else unit, meters if units == "import" else 1e-9))
    k = lib.cells[name]
    c.eq("name", k.name, name)
    want = {"polygons": 0, "paths": 0, "labels": 0, "references": 0}
    want[e.kind] = 1
    c.eq("content", content(k), want)
    x = getattr(k, e.kind)[0]
    e.check(x, meters / unit if units == "convert" else user)
    c.eq("properties", x.properties, p)
    if kind >= 3:
        c.eq("target", x.ref_cell, target)


@contract("C03", READ + ["library.GdsLibrary._create_polygon", "polygon.Polygon.__init__"])
def read_polygon(c):
    read_one(c, 0)


@contract("C03", READ + ["library.GdsLibrary._create_path", "path.FlexPath.__init__"])
def read_path(c):
    read_one(c, 1)


@contract("C03", READ + ["library.GdsLibrary._create_label", "label.Label.__init__"])
def read_label(c):
    read_one(c, 2)


@contract("C03", READ + ["library.GdsLibrary._create_reference", "library.CellReference.__init__"])
def read_reference(c):
    read_one(c, 3)


@contract("C03", READ + ["library.GdsLibrary._create_array", "library.CellArray.__init__"])
def read_array(c):
    read_one(c, 4)


def plain(c, name, kind, target):
    """element without transformation or optional records"""
    if kind == 5:
        # a node is not supported: it is skipped together with its properties
        l, t = c.tag(name + ".layer"), c.tag(name + ".nodetype")
        return c.new(Written, data=rec(c, 0x1500) + rec(c, 0x0D02, c.U(2, l)) + rec(c, 0x2A02, c.U(2, t)) + rec(c, 0x1003, fields(c, [point(c, name)])), kind=None, check=None)
    p = point(c, name)
    xy = rec(c, 0x1003, c.U(4, p.x) + c.U(4, p.y))
    if kind == 0:
        return boundary(c, name)
    if kind == 1:
        l, d, w = c.tag(name + ".layer"), c.tag(name + ".datatype"), c.int(name + ".width", 1, MAX)
        pts = vertices(c, name, 2)
        data = rec(c, 0x0900) + rec(c, 0x0D02, c.U(2, l)) + rec(c, 0x0E02, c.U(2, d)) + rec(c, 0x0F03, c.U(4, w)) + rec(c, 0x1003, fields(c, pts))

        def check(e, f, layer=same_tag, datatype=same_tag, texttype=same_tag):
            c.check("simple path", isinstance(e, gdspy.FlexPath) and e.gdsii_path and e.n == 1)
            c.eq("path tags", (e.layers, e.datatypes), ([layer(l)], [datatype(d)]))
            c.eq("spine", e.points, numpy.array([(f * q.x, f * q.y) for q in pts]))
            c.eq("widths", e.widths, numpy.array([[f * w] for q in pts]))
            c.eq("ends", (e.ends, e.width_transform), (["flush"], True))
        return c.new(Written, data=data, kind="paths", check=check)
    if kind == 2:
        l, d = c.tag(name + ".layer"), c.tag(name + ".texttype")
        s = c.text(name + ".text", 512)
        data = rec(c, 0x0C00) + rec(c, 0x0D02, c.U(2, l)) + rec(c, 0x1602, c.U(2, d)) + xy + rec(c, 0x1906, string(c, s))

        def check(e, f, layer=same_tag, datatype=same_tag, texttype=same_tag):
            c.check("label", isinstance(e, gdspy.Label))
            c.eq("label tags", (e.layer, e.texttype), (layer(l), texttype(d)))
            c.eq("text", e.text, s)
            c.eq("position", e.position, numpy.array([f * p.x, f * p.y]))
            c.eq("no transformation", (bool(e.x_reflection), e.magnification, e.rotation), (False, None, None))
        return c.new(Written, data=data, kind="labels", check=check)
    if kind == 3:
        data = rec(c, 0x0A00) + rec(c, 0x1206, string(c, target)) + xy

        def check(e, f, layer=same_tag, datatype=same_tag, texttype=same_tag):
            c.check("reference", isinstance(e, gdspy.CellReference))
            c.eq("origin", (e.origin[0], e.origin[1]), (f * p.x, f * p.y))
            c.eq("no transformation", (bool(e.x_reflection), e.magnification, e.rotation), (False, None, None))
        return c.new(Written, data=data, kind="references", check=check)
    px, py = point(c, name + "x"), point(c, name + "y")
    cols, rows = c.int(name + ".columns", 1, 32767), c.int(name + ".rows", 1, 32767)
    data = rec(c, 0x0B00) + rec(c, 0x1206, string(c, target)) + rec(c, 0x1302, c.U(2, cols) + c.U(2, rows)) + rec(c, 0x1003, fields(c, [p, px, py]))

    def check(e, f, layer=same_tag, datatype=same_tag, texttype=same_tag):
        c.check("array", isinstance(e, gdspy.CellArray))
        c.eq("origin", (e.origin[0], e.origin[1]), (f * p.x, f * p.y))
        c.eq("size", (e.columns, e.rows), (cols, rows))
        c.eq("spacing", (e.spacing[0] * cols, e.spacing[1] * rows), (f * (px.x - p.x), f * (py.y - p.y)), tol=1e-4)
        c.eq("no transformation", (bool(e.x_reflection), e.magnification, e.rotation), (False, None, None))
    return c.new(Written, data=data, kind="references", check=check)


def strange(c, name, kind, target):
    """element with the largest set of optional records (the values are checked by the contracts above)"""
    tr = rec(c, 0x1A01, c.U(2, 0x8000)) + rec(c, 0x1B05, c.R8(c.posreal(name + ".m"))) + rec(c, 0x1C05, c.R8(c.real(name + ".a")))
    if kind in (0, 5):
        return plain(c, name, kind, target)
    p = point(c, name)
    xy = rec(c, 0x1003, c.U(4, p.x) + c.U(4, p.y))
    if kind == 1:
        data = (rec(c, 0x0900) + rec(c, 0x0D02, c.U(2, 1)) + rec(c, 0x0E02, c.U(2, 2)) + rec(c, 0x2102, c.U(2, 4)) + rec(c, 0x0F03, c.U(4, -c.int(name + ".width", 1, MAX)))
                + rec(c, 0x3003, c.U(4, 7)) + rec(c, 0x3103, c.U(4, 8)) + rec(c, 0x1003, c.U(4, p.x) + c.U(4, p.y) + c.U(4, p.y) + c.U(4, p.x)))
    elif kind == 2:
        data = rec(c, 0x0C00) + rec(c, 0x0D02, c.U(2, 1)) + rec(c, 0x1602, c.U(2, 2)) + rec(c, 0x1701, c.U(2, 8)) + tr + xy + rec(c, 0x1906, string(c, "abc"))
    elif kind == 3:
        data = rec(c, 0x0A00) + rec(c, 0x1206, string(c, target)) + tr + xy
    else:
        data = rec(c, 0x0B00) + rec(c, 0x1206, string(c, target)) + tr + rec(c, 0x1302, c.U(2, 3) + c.U(2, 4)) + rec(c, 0x1003, fields(c, [p, point(c, name + "x"), point(c, name + "y")]))
    return c.new(Written, data=data, kind=["polygons", "paths", "labels", "references", "references"][kind], check=None)


@contract("C03", READ, note="an element does not inherit records, vertices or properties of the element before it")
def read_properties(c):
    first = c.choice("first", [0, 1, 2, 3, 4, 5])
    second = c.choice("second", [0, 1, 2, 3, 4])
    name, target = "A", "B"
    x = strange(c, "x", first, target)
    y = plain(c, "y", second, target)
    a, v, b, w = c.int("a", 1, 127), even(c, "v"), c.int("b", 1, 127), even(c, "w")
    c.assume(a != b)
    some = c.flag("second has a property")
    data = (file_start(c) + one_cell(c, name, x.data + rec(c, 0x2B02, c.U(2, a)) + rec(c, 0x2C06, string(c, v)) + rec(c, 0x2B02, c.U(2, b)) + rec(c, 0x2C06, string(c, w)) + rec(c, 0x1100)
            + y.data + (rec(c, 0x2B02, c.U(2, b)) + rec(c, 0x2C06, string(c, v)) if some else b"") + rec(c, 0x1100)) + rec(c, 0x0400))
    lib = library(c, "L", {}, unit=1e-6, precision=1e-9)
    lib.read_gds(c.stream(data))
    c.eq("cells", list(lib.cells), [name])
    k = lib.cells[name]
    want = {"polygons": 0, "paths": 0, "labels": 0, "references": 0}
    if x.kind is not None:
        want[x.kind] = 1
    want[y.kind] = want[y.kind] + 1
    c.eq("content", content(k), want)
    if x.kind is not None:
        c.eq("first has its properties", getattr(k, x.kind)[0].properties, {a: v, b: w})
    e = getattr(k, y.kind)[-1]
    c.eq("second has its properties", e.properties, {b: v} if some else {})
    y.check(e, c.posreal("user"))


@contract("C03", READ + ["library.GdsLibrary._create_polygon"], note="the vertices of a boundary continue in further XY records")
def read_split_polygon(c):
    k = c.choice("records", [2, 3])
    pts = [vertices(c, "part%d" % i, 1) for i in range(k)]
    body = rec(c, 0x0800) + rec(c, 0x0D02, c.U(2, 1)) + rec(c, 0x0E02, c.U(2, 2))
    for p in pts:
        body = body + rec(c, 0x1003, fields(c, p))
    body = body + rec(c, 0x1003, c.U(4, pts[0][0].x) + c.U(4, pts[0][0].y)) + rec(c, 0x1100)
    lib = library(c, "L", {}, unit=1e-6, precision=1e-9)
    lib.read_gds(c.stream(file_start(c) + one_cell(c, "A", body) + rec(c, 0x0400)))
    f = c.posreal("user")
    ps = lib.cells["A"].polygons
    c.eq("polygons", len(ps), 1)
    c.eq("vertices", ps[0].polygons[0], numpy.concatenate([numpy.array([(f * q.x, f * q.y) for q in p]) for p in pts]))


@contract("C03", READ + ["library.GdsLibrary._create_label", "library.GdsLibrary._create_reference"], note="texts and property values may be empty")
def read_strings(c):
    p = point(c, "p")
    xy = rec(c, 0x1003, c.U(4, p.x) + c.U(4, p.y))
    prop = rec(c, 0x2B02, c.U(2, 5)) + rec(c, 0x2C06)
    body = rec(c, 0x0C00) + rec(c, 0x0D02, c.U(2, 1)) + rec(c, 0x1602, c.U(2, 2)) + xy + rec(c, 0x1906) + prop + rec(c, 0x1100)
    lib = library(c, "L", {}, unit=1e-6, precision=1e-9)
    lib.read_gds(c.stream(file_start(c) + one_cell(c, "A", body) + rec(c, 0x0400)))
    ls = lib.cells["A"].labels
    c.eq("labels", len(ls), 1)
    c.eq("label", (ls[0].text, ls[0].properties), ("", {5: ""}))


def mapping(c, name):
    """a mapping of one tag, and the function it prescribes"""
    a, b = c.tag(name + ".from"), c.tag(name + ".to")

    def f(t):
        return b if t == a else t
    return {a: b}, f


@contract("C03", READ, note="layers, datatypes and texttypes replace exactly the tags listed")
def read_mapped_tags(c):
    kind = c.choice("kind", [0, 1, 2])
    e = plain(c, "e", kind, "B")
    layers, fl = mapping(c, "layers")
    datatypes, fd = mapping(c, "datatypes")
    texttypes, ft = mapping(c, "texttypes")
    lib = library(c, "L", {}, unit=1e-6, precision=1e-9)
    lib.read_gds(c.stream(file_start(c) + one_cell(c, "A", e.data + rec(c, 0x1100)) + rec(c, 0x0400)), layers=layers, datatypes=datatypes, texttypes=texttypes)
    e.check(getattr(lib.cells["A"], e.kind)[0], c.posreal("user"), fl, fd, ft)


@contract("C03", READ, note="references point to the like-named cell, before or after them, and keep the name otherwise")
def read_resolved(c):
    kind = c.choice("kind", [3, 4])
    a, b, t = c.text("a", 32, 1), c.text("b", 32, 1), c.text("t", 32, 1)
    c.assume(a != b)
    e, g = plain(c, "e", kind, t), plain(c, "g", 3, a)
    old = cell(c, "old")
    lib = library(c, "L", {}, unit=1e-6, precision=1e-9)
    lib.read_gds(c.stream(file_start(c) + one_cell(c, a, e.data + rec(c, 0x1100)) + one_cell(c, b, g.data + rec(c, 0x1100)) + rec(c, 0x0400)))
    c.eq("cells", list(lib.cells), [a, b])
    ka, kb = lib.cells[a], lib.cells[b]
    c.eq("names", (ka.name, kb.name), (a, b))
    c.eq("content", (len(ka.references), len(kb.references)), (1, 1))
    c.same("reference to an earlier cell", kb.references[0].ref_cell, ka)
    r = ka.references[0].ref_cell
    if t == a:
        c.same("reference to its own cell", r, ka)
    elif t == b:
        c.same("reference to a later cell", r, kb)
    else:
        c.eq("reference to an absent cell", r, t)


@contract("C03", READ, note="cell names are replaced as rename and rename_template say, in cells and references alike")
def read_renamed(c):
    form = c.choice("form", ["rename", "template", "both"])
    a, b, t = c.text("a", 32, 1), c.text("b", 32, 1), c.text("t", 32, 1)
    to = c.text("to", 32, 1)
    c.assume(a != b)
    e = plain(c, "e", 3, t)
    rename = {} if form == "template" else {a: to}
    if form == "rename":
        def f(s):
            return to if s == a else s
    elif form == "template":
        def f(s):
            return "pre_" + s + "_post"
    else:
        def f(s):
            return to if s == a else "pre_" + s + "_post"
    lib = library(c, "L", {}, unit=1e-6, precision=1e-9)
    data = file_start(c) + one_cell(c, a, b"") + one_cell(c, b, e.data + rec(c, 0x1100)) + rec(c, 0x0400)
    c.assume(f(a) != f(b))
    if form == "rename":
        lib.read_gds(c.stream(data), rename=rename)
    else:
        lib.read_gds(c.stream(data), rename=rename, rename_template="pre_{name}_post")
    c.eq("cells", list(lib.cells), [f(a), f(b)])
    ka, kb = lib.cells[f(a)], lib.cells[f(b)]
    c.eq("names", (ka.name, kb.name), (f(a), f(b)))
    r = kb.references[0].ref_cell
    if f(t) == f(a):
        c.same("reference to the first cell", r, ka)
    elif f(t) == f(b):
        c.same("reference to the second cell", r, kb)
    else:
        c.eq("reference to an absent cell", r, f(t))


@contract("C03", READ, note="a cell defined twice, or clashing with a cell of the library, is refused; other cells of the library stay")
def read_existing(c):
    a, b, o = c.text("a", 32, 1), c.text("b", 32, 1), c.text("o", 32, 1)
    e = plain(c, "e", 3, o)
    old = cell(c, "old")
    old.name = o
    lib = library(c, "L", {o: old}, unit=1e-6, precision=1e-9)
    data = file_start(c) + one_cell(c, a, e.data + rec(c, 0x1100)) + one_cell(c, b, b"") + rec(c, 0x0400)
    if a == b or a == o or b == o:
        c.raises("clash of names", ValueError, lambda: lib.read_gds(c.stream(data)))
        c.same("the old cell stays", lib.cells[o], old)
        return
    lib.read_gds(c.stream(data))
    c.eq("cells", list(lib.cells), [o, a, b])
    c.same("the old cell stays", lib.cells[o], old)
    c.same("reference to the old cell", lib.cells[a].references[0].ref_cell, old)


# ---------------------------------------------------------------------------- bounded: whole libraries
def grid(r, lo=-20000, hi=20000):
    return r.randint(lo, hi) * 1e-3


SPINES = {}


def simple_cell(r, name, others):
    k = gdspy.Cell(name, exclude_from_current=True)
    for _ in range(r.randint(0, 3)):
        n = r.choice([3, 4, 5, 7, 12, 200])
        if r.random() < 0.03:
            n = r.choice([8190, 8191, 8200, 8189])
        l, d = world.tags(r)
        p = gdspy.Polygon([(grid(r), grid(r)) for _ in range(n)], l, d)
        p.properties = world.properties(r)
        k.add(p)
    for _ in range(r.randint(0, 2)):
        l, d = world.tags(r)
        w = r.randint(1, 999) * 2e-3
        pts = [(grid(r), grid(r)) for _ in range(r.choice([2, 3, 6]))]
        if r.random() < 0.5:
            p = gdspy.FlexPath(pts, w, ends=r.choice(["flush", "extended", "round", (grid(r, 0, 99), grid(r, 0, 99))]), gdsii_path=True, width_transform=r.random() < 0.5, layer=l, datatype=d)
        else:
            p = gdspy.RobustPath(pts[0], w, ends=r.choice(["flush", "extended", "round", (grid(r, 0, 99), grid(r, 0, 99))]), gdsii_path=True, width_transform=r.random() < 0.5, layer=l, datatype=d)
            for q in pts[1:]:
                p.segment(q)
        p.properties = world.properties(r)
        SPINES[p] = (pts, w)
        k.add(p)
    for _ in range(r.randint(0, 3)):
        x = world.label(r)
        x.text = world.text(r, 9, 0)
        x.position = numpy.array([grid(r), grid(r)])
        k.add(x)
    for _ in range(r.randint(0, 2)):
        t = r.choice(others) if others and r.random() < 0.8 else "absent" + str(r.randint(0, 2))
        if r.random() < 0.5:
            x = gdspy.CellReference(t, (grid(r), grid(r)), world.rotation(r), world.magnification(r), r.random() < 0.4, ignore_missing=True)
        else:
            x = gdspy.CellArray(t, r.randint(1, 5), r.randint(1, 5), (grid(r), grid(r)), (grid(r), grid(r)), world.rotation(r), world.magnification(r), r.random() < 0.4, ignore_missing=True)
        x.properties = world.properties(r)
        k.add(x)
    return k


def simple_library(r):
    names = list(dict.fromkeys(world.text(r, 5) for _ in range(r.randint(1, 4))))
    cs = []
    for n in names:
        cs.append(simple_cell(r, n, cs))
    lib = gdspy.GdsLibrary(world.text(r), unit=1e-6, precision=1e-9)
    r.shuffle(cs)
    lib.add(cs, include_dependencies=False, update_references=False)
    return lib


def ref_name(x):
    return x.ref_cell.name if isinstance(x.ref_cell, gdspy.Cell) else x.ref_cell


def same_elements(c, k, old, f, fl, fd, ft, fn, lib):
    near = 1e-3 * f + 1e-9
    c.eq("content", content(k), content(old))
    for x, y in zip(k.polygons, old.polygons):
        c.eq("polygon tags", (x.layers, x.datatypes), ([fl(l) for l in y.layers], [fd(l) for l in y.datatypes]))
        c.eq("polygon properties", x.properties, y.properties)
        c.eq("polygon", len(x.polygons[0]), len(y.polygons[0]))
        c.check("vertices", numpy.abs(x.polygons[0] - f * y.polygons[0]).max() <= near / 100)
    for x, y in zip(k.paths, old.paths):
        c.eq("path tags", (x.layers, x.datatypes), ([fl(l) for l in y.layers], [fd(l) for l in y.datatypes]))
        c.eq("path properties", x.properties, y.properties)
        pts, w = SPINES[y]
        pts = f * numpy.array(pts)
        if isinstance(y, gdspy.FlexPath):
            c.eq("spine", x.points, pts, tol=1e-6)
        else:
            c.eq("spine", x.points[[0, -1]], pts[[0, -1]], tol=1e-6)
            c.check("points of the spine", all(world.distance_to_polyline(q, x.points) <= 3 * near for q in pts) and all(world.distance_to_polyline(q, pts) <= 3 * near for q in x.points))
        c.eq("width", x.widths[:, 0], f * w * numpy.ones(len(x.points)), tol=1e-6)
        c.eq("offset", x.offsets[:, 0], numpy.zeros(len(x.points)))
        c.check("ends", x.ends[0] == y.ends[0] if isinstance(y.ends[0], str) else numpy.abs(numpy.array(x.ends[0]) - f * numpy.array(y.ends[0])).max() <= near / 100)
        c.eq("width_transform", bool(x.width_transform), bool(y.width_transform))
    for x, y in zip(k.labels, old.labels):
        c.eq("label", (x.text, x.anchor, x.layer, x.texttype, bool(x.x_reflection), x.properties), (y.text, y.anchor, fl(y.layer), ft(y.texttype), bool(y.x_reflection), y.properties))
        c.eq("position", x.position, f * numpy.array(y.position), tol=1e-6)
        c.eq("label transformation", (x.rotation or 0, 1 if x.magnification is None else x.magnification), (y.rotation or 0, 1 if y.magnification is None else y.magnification))
    for x, y in zip(k.references, old.references):
        c.check("kind of reference", type(x) is type(y))
        n = fn(ref_name(y))
        c.eq("referenced name", ref_name(x), n)
        c.check("referenced cell", (x.ref_cell is lib.cells[n]) if n in lib.cells else x.ref_cell == n)
        c.eq("origin", numpy.array(x.origin), f * numpy.array(y.origin), tol=1e-6)
        c.eq("reference transformation", (x.rotation or 0, 1 if x.magnification is None else x.magnification, bool(x.x_reflection)), (y.rotation or 0, 1 if y.magnification is None else y.magnification, bool(y.x_reflection)))
        c.eq("reference properties", x.properties, y.properties)
        if isinstance(x, gdspy.CellArray):
            c.eq("array", (x.columns, x.rows), (y.columns, y.rows))
            c.check("spacing", numpy.abs(numpy.array(x.spacing) - f * numpy.array(y.spacing)).max() <= near)


@contract("C03", READ + ["library.GdsLibrary.write_gds", "library.GdsWriter.write_cell"], samples=120, sym=False, note="random libraries on the grid, written and read with random options")
def round_trip(c):
    r = c.rng
    SPINES.clear()
    old = simple_library(r)
    buf = io.BytesIO()
    form = r.randrange(3)
    if form == 0:
        old.write_gds(buf)
        data = buf.getvalue()
    elif form == 1:
        p = c.disk(b"")
        old.write_gds(p)
        data = c.content(p)
    else:
        w = gdspy.GdsWriter(buf, old.name, old.unit, old.precision)
        for k in old.cells.values():
            w.write_cell(k)
        w.close()
        data = buf.getvalue()
    opts, f = {}, 1
    fl = fd = ft = fn = same_tag
    units = r.choice([None, "skip", "import", "convert"])
    lib = gdspy.GdsLibrary("x", unit=r.choice([1e-6, 1e-3, 1e-9]), precision=1e-12)
    if units is not None:
        opts["units"] = units
    if units == "convert":
        f = 1e-6 / lib.unit
    unit, precision = (1e-6, 1e-9) if units == "import" else (lib.unit, lib.precision)
    if r.random() < 0.5:
        ml, md, mt = ({r.choice([0, 1, 2, 3, 7]): r.choice([0, 1, 5, 60]) for _ in range(3)} for _ in range(3))
        opts.update(layers=ml, datatypes=md, texttypes=mt)
        fl, fd, ft = (lambda m: lambda t: m.get(t, t))(ml), (lambda m: lambda t: m.get(t, t))(md), (lambda m: lambda t: m.get(t, t))(mt)
    names = list(old.cells)
    rn, template = {}, "{name}"
    if r.random() < 0.5:
        rn = {r.choice(names): "renamed"}
        opts["rename"] = rn
    if r.random() < 0.3:
        template = r.choice(["A_{name}", "{name}_b", "x{name}y"])
        opts["rename_template"] = template

    def fn(n):
        return rn[n] if n in rn else template.replace("{name}", n)
    source = io.BytesIO(data) if r.random() < 0.5 else c.disk(data)
    if r.random() < 0.3 and units in (None, "skip"):
        lib = gdspy.GdsLibrary("x", infile=source, unit=lib.unit, precision=lib.precision, **opts)
    else:
        lib.read_gds(source, **opts)
    c.eq("library", (lib.name, lib.unit, lib.precision), (old.name, unit, precision))
    c.eq("cells", list(lib.cells), [fn(n) for n in names])
    for n in names:
        c.eq("name", lib.cells[fn(n)].name, fn(n))
        same_elements(c, lib.cells[fn(n)], old.cells[n], f, fl, fd, ft, fn, lib)

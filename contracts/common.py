"""shared input builders and specification functions (run by the interpreter and natively)"""
import struct
import numpy
import gdspy
from gdspy.path import _SubPath


def polygonset(c, name, lo=0, bound=None):
    n = c.count(name, lo)
    return c.new(
        gdspy.PolygonSet,
        polygons=c.list(name + ".polygons", n, lambda: c.points(name + ".p", bound=bound)),
        layers=c.list(name + ".layers", n, lambda: c.tag(name + ".layer")),
        datatypes=c.list(name + ".datatypes", n, lambda: c.tag(name + ".datatype")),
        properties={},
    )


def rot(c, p, a, center):
    """rotate point p by angle a around center"""
    ca, sa = c.cos(a), c.sin(a)
    x, y = p[0] - center[0], p[1] - center[1]
    return (center[0] + x * ca - y * sa, center[1] + x * sa + y * ca)


def unchanged_tags(c, ps, old):
    c.eq("layers", ps.layers, old.layers)
    c.eq("datatypes", ps.datatypes, old.datatypes)
    c.eq("properties", ps.properties, old.properties)


def mirrored(p, p1, p2):
    """reflection of p about the line through p1 and p2"""
    vx, vy = p2[0] - p1[0], p2[1] - p1[1]
    t = 2 * ((p[0] - p1[0]) * vx + (p[1] - p1[1]) * vy) / (vx * vx + vy * vy)
    return (2 * p1[0] + t * vx - p[0], 2 * p1[1] + t * vy - p[1])


def optional(c, name, v):
    return v if c.flag(name + " given") else None


def label(c, name):
    return c.new(
        gdspy.Label,
        layer=c.tag(name + ".layer"),
        texttype=c.tag(name + ".texttype"),
        text=c.text(name + ".text", 512),
        position=c.array([c.real(name + ".px"), c.real(name + ".py")]),
        anchor=c.int(name + ".anchor", 0, 10),
        rotation=optional(c, name + ".rotation", c.real(name + ".rotation")),
        magnification=optional(c, name + ".magnification", c.posreal(name + ".magnification")),
        x_reflection=c.bool(name + ".x_reflection"),
        properties={},
    )


def cell(c, name, polygons=None, paths=None, labels=None, references=None):
    """cell with the given content, no cached bounding box"""
    return c.new(
        gdspy.Cell,
        name=name,
        polygons=polygons if polygons is not None else [],
        paths=paths if paths is not None else [],
        labels=labels if labels is not None else [],
        references=references if references is not None else [],
        _bb_valid=False,
        _bounding_box=None,
    )


def reference(c, name, ref_cell):
    return c.new(
        gdspy.CellReference,
        ref_cell=ref_cell,
        origin=c.choice(name + ".origin form", [(c.real(name + ".ox"), c.real(name + ".oy")), c.array([c.real(name + ".ox"), c.real(name + ".oy")])]),
        rotation=optional(c, name + ".rotation", c.real(name + ".rotation")),
        magnification=optional(c, name + ".magnification", c.posreal(name + ".magnification")),
        x_reflection=c.bool(name + ".x_reflection"),
        properties={},
    )


def array(c, name, ref_cell, small=False):
    return c.new(
        gdspy.CellArray,
        ref_cell=ref_cell,
        columns=c.count(name + ".columns", 1) if small else c.int(name + ".columns", 1, 32767),
        rows=c.count(name + ".rows", 1) if small else c.int(name + ".rows", 1, 32767),
        spacing=(c.real(name + ".sx"), c.real(name + ".sy")),
        origin=c.choice(name + ".origin form", [(c.real(name + ".ox"), c.real(name + ".oy")), c.array([c.real(name + ".ox"), c.real(name + ".oy")])]),
        rotation=optional(c, name + ".rotation", c.real(name + ".rotation")),
        magnification=optional(c, name + ".magnification", c.posreal(name + ".magnification")),
        x_reflection=c.bool(name + ".x_reflection"),
        properties={},
    )


class Stamp(object):
    """stands for a datetime: only the six date fields are read"""

    __slots__ = ("year", "month", "day", "hour", "minute", "second")


def stamp(c, name):
    return c.new(
        Stamp,
        year=c.int(name + ".year", 1, 9999),
        month=c.int(name + ".month", 1, 12),
        day=c.int(name + ".day", 1, 31),
        hour=c.int(name + ".hour", 0, 23),
        minute=c.int(name + ".minute", 0, 59),
        second=c.int(name + ".second", 0, 59),
    )


class Element(object):
    """stands for any element of a cell: its to_gds writes its own records (contracts of C02) and nothing else"""

    __slots__ = ("ident",)

    def to_gds(self, outfile, multiplier):
        outfile.write(element_mark(self.ident, multiplier))


def element_mark(ident, multiplier):
    return struct.pack(">2l", ident, int(round(multiplier)))


def element(c, name):
    return c.new(Element, ident=c.int(name + ".ident", 0, 2 ** 30))


def library(c, name, cells, unit=None, precision=None):
    return c.new(
        gdspy.GdsLibrary,
        name=name,
        cells=cells,
        unit=c.posreal("unit") if unit is None else unit,
        precision=c.posreal("precision") if precision is None else precision,
        _references=[],
    )


def flexpath(c, name, n=2, lo=2, points=None, **attrs):
    """flexible path of n parallel elements with any number of spine points"""
    pts = c.points(name + ".spine", lo) if points is None else points
    m = len(pts)
    v = dict(
        n=n,
        points=pts,
        widths=c.matrix(name + ".widths", m, n, positive=True),
        offsets=c.matrix(name + ".offsets", m, n),
        layers=[c.tag(name + ".layer%d" % k) for k in range(n)],
        datatypes=[c.tag(name + ".datatype%d" % k) for k in range(n)],
        ends=["flush"] * n,
        corners=["natural"] * n,
        bend_radius=[None] * n,
        tolerance=0.01,
        precision=0.001,
        max_points=199,
        gdsii_path=False,
        width_transform=True,
        properties={},
        _polygon_dict=None,
    )
    v.update(attrs)
    return c.new(gdspy.FlexPath, **v)


def subpath(c, name):
    """section of a robust path: arbitrary centre curve, offset and width functions and affine transformation"""
    return c.new(
        _SubPath,
        x=c.curve(name + ".x"),
        dx=c.curve(name + ".dx", 2),
        off=c.function(name + ".off"),
        wid=c.function(name + ".wid", True),
        h=0.0005,
        err=0.0001,
        max_evals=1000,
        transform=affine(c, name + ".transform"),
    )


def affine(c, name):
    return c.array([[c.real("%s.%d%d" % (name, i, j)) for j in range(3)] for i in range(2)] + [[0.0, 0.0, 1.0]])


def compose(m, t):
    """3x3 product m t of affine matrices"""
    return [[m[i][0] * t[0][j] + m[i][1] * t[1][j] + m[i][2] * t[2][j] for j in range(3)] for i in range(3)]


def robustpath(c, name, n=2, m=None, **attrs):
    """robust path of n parallel elements with any number m of sections each"""
    k = c.count(name + ".sections", 1) if m is None else m
    v = dict(
        n=n,
        x=c.array([c.real(name + ".x"), c.real(name + ".y")]),
        widths=[c.posreal(name + ".width%d" % i) for i in range(n)],
        offsets=[c.real(name + ".offset%d" % i) for i in range(n)],
        paths=[c.list(name + ".paths%d" % i, k, lambda: subpath(c, name + ".sub%d" % i)) for i in range(n)],
        layers=[c.tag(name + ".layer%d" % i) for i in range(n)],
        datatypes=[c.tag(name + ".datatype%d" % i) for i in range(n)],
        ends=["flush"] * n,
        tolerance=0.01,
        precision=0.001,
        max_points=199,
        max_evals=1000,
        gdsii_path=False,
        width_transform=True,
        properties={},
        _polygon_dict=None,
    )
    v.update(attrs)
    return c.new(gdspy.RobustPath, **v)

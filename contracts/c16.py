"""C16: Boolean, offset and fracture results cover the mathematically correct region

The clipper (C++) is outside the verifier's reach: the regions are compared point by point on random operands
(bounded).  What the package hands to the clipper and makes of its answer is under contract in c14."""
import math
import numpy
import gdspy
from vc.contract import contract
from contracts.common import *
from contracts import c14


# ---------------------------------------------------------------- oracle: plain geometry on points
def winding(polygon, pts):
    """winding numbers of the closed polygon around the points"""
    a = numpy.asarray(polygon, dtype=float)
    b = numpy.roll(a, -1, axis=0)
    w = numpy.zeros(len(pts), dtype=int)
    for (x0, y0), (x1, y1) in zip(a, b):
        side = (x1 - x0) * (pts[:, 1] - y0) - (pts[:, 0] - x0) * (y1 - y0)
        w += ((y0 <= pts[:, 1]) & (y1 > pts[:, 1]) & (side > 0)).astype(int)
        w -= ((y1 <= pts[:, 1]) & (y0 > pts[:, 1]) & (side < 0)).astype(int)
    return w


def covers(polygons, pts):
    """number of polygons around each point"""
    n = numpy.zeros(len(pts), dtype=int)
    for p in polygons:
        n += winding(p, pts) != 0
    return n


def distance(polygons, pts):
    """distance of the points from the closest side"""
    d = numpy.full(len(pts), numpy.inf)
    for p in polygons:
        a = numpy.asarray(p, dtype=float)
        for q, r in zip(a, numpy.roll(a, -1, axis=0)):
            v = r - q
            l = v[0] ** 2 + v[1] ** 2
            t = numpy.clip(((pts - q) @ v) / l, 0, 1) if l > 0 else numpy.zeros(len(pts))
            d = numpy.minimum(d, numpy.hypot(pts[:, 0] - q[0] - t * v[0], pts[:, 1] - q[1] - t * v[1]))
    return d


def probes(r, polygons, near, count):
    """points spread over the polygons, some close to sides and corners"""
    allp = numpy.vstack([numpy.asarray(p, dtype=float) for p in polygons])
    lo, hi = allp.min(axis=0) - 1, allp.max(axis=0) + 1
    out = [(r.uniform(lo[0], hi[0]), r.uniform(lo[1], hi[1])) for _ in range(count)]
    for _ in range(count):
        p = r.choice(polygons)
        k = r.randrange(len(p))
        q, s = numpy.asarray(p[k], dtype=float), numpy.asarray(p[(k + 1) % len(p)], dtype=float)
        t, a, m = r.random() * r.choice([0, 1]), r.uniform(0, 2 * math.pi), near * r.choice([1.1, 3, 20])
        c = q + t * (s - q)
        out.append((c[0] + m * math.cos(a), c[1] + m * math.sin(a)))
    return numpy.array(out)


# ---------------------------------------------------------------- operands
def polygon_of(r, kind, size=8.0):
    cx, cy = r.uniform(-10, 10), r.uniform(-10, 10)
    n = r.randint(3, 9)
    if kind == "rectangle":
        w, h = r.uniform(0.5, size), r.uniform(0.5, size)
        p = [(cx, cy), (cx + w, cy), (cx + w, cy + h), (cx, cy + h)]
    elif kind == "grid":
        # corners on a coarse grid: coincident sides and corners are frequent
        cx, cy, w, h = r.randint(-4, 4), r.randint(-4, 4), r.randint(1, 6), r.randint(1, 6)
        p = [(cx, cy), (cx + w, cy), (cx + w, cy + h), (cx, cy + h)]
        if r.random() < 0.5:
            p[2:3] = [(cx + w, cy + h / 2.0), (cx + w / 2.0, cy + h / 2.0), (cx + w / 2.0, cy + h)]
    elif kind == "star":
        a = [(k + r.uniform(0, 0.9)) * 2 * math.pi / n for k in range(n)] if n > 4 else [(k + r.uniform(0, 0.3)) * 2 * math.pi / n for k in range(n)]
        p = [(cx + q * math.cos(t), cy + q * math.sin(t)) for t, q in ((t, r.uniform(0.2, 1) * size) for t in a)]
    elif kind == "ring":
        # polygon with a hole joined to its boundary
        s, t = r.uniform(2, size), r.uniform(0.5, 1.5)
        p = [(cx, cy), (cx + s, cy), (cx + s, cy + s), (cx, cy + s), (cx, cy + t), (cx + t / 2, cy + t), (cx + t / 2, cy + s - t), (cx + s - t / 2, cy + s - t), (cx + s - t / 2, cy + t), (cx + t / 2, cy + t), (cx, cy + t)]
    else:  # any closed line
        p = [(cx + r.uniform(-size, size), cy + r.uniform(-size, size)) for _ in range(n)]
    if r.random() < 0.5:
        p = p[::-1]
    k = r.randrange(len(p))
    p = p[k:] + p[:k]
    if r.random() < 0.2:  # degeneracies
        i = r.randrange(len(p))
        p = p[:i] + [p[i]] + p[i:]
    if r.random() < 0.2:
        i = r.randrange(len(p))
        q, s = p[i], p[(i + 1) % len(p)]
        p = p[:i + 1] + [((q[0] + s[0]) / 2, (q[1] + s[1]) / 2)] + p[i + 1:]
    return p


SIMPLE = ["rectangle", "grid", "star", "ring"]


def operand_of(r, kinds, lo=1, hi=4):
    return [polygon_of(r, r.choice(kinds)) for _ in range(r.randint(lo, hi))]


def as_operand(r, polygons):
    """the polygons in one of the forms operands may take"""
    form = r.choice(["set", "list", "polygons"])
    if form == "set":
        return gdspy.PolygonSet(polygons)
    if form == "list":
        return [numpy.array(p) for p in polygons]
    return [gdspy.Polygon(p) for p in polygons]


def polygons_in(result):
    return [] if result is None else list(result.polygons)


def boolean_region_of(c, kinds):
    r = c.rng
    a, b = operand_of(r, kinds), operand_of(r, kinds)
    op = r.choice(["or", "and", "not", "xor"])
    precision = r.choice([1e-3, 1e-3, 1e-5])
    got = polygons_in(gdspy.boolean(as_operand(r, a), as_operand(r, b), op, precision=precision, max_points=r.choice([0, 5, 199])))
    pts = probes(r, a + b + got, 3 * precision, 120)
    pts = pts[distance(a + b, pts) > 3 * precision]
    ina, inb = covers(a, pts) > 0, covers(b, pts) > 0
    want = {"or": ina | inb, "and": ina & inb, "not": ina & ~inb, "xor": ina ^ inb}[op]
    n = covers(got, pts)
    for p, w, k in zip(pts, want, n):
        c.check(op, k == (1 if w else 0), "%r is %s the region and covered by %d polygons; operands %r and %r, precision %g" % (tuple(p), "in" if w else "outside", k, a, b, precision))


@contract("C16", ["operation.boolean", "operation._gather_polys", "clipper.clip"], sym=False, samples=400)
def boolean_region(c):
    """simple polygons, possibly with holes, overlaps and repeated or collinear vertices"""
    boolean_region_of(c, SIMPLE)


@contract("C16", ["operation.boolean", "operation._gather_polys", "clipper.clip"], sym=False, samples=200)
def self_intersecting_operands(c):
    boolean_region_of(c, SIMPLE + ["closed line", "closed line"])


def stretch(join, tolerance):
    """how far corners may reach, in units of the offset"""
    return {"miter": max(2.0, tolerance), "bevel": math.sqrt(2), "round": 1.0}[join]


def offset_region_of(c, kinds, negative=True):
    r = c.rng
    a = operand_of(r, kinds, 1, 3)
    join = r.choice(["miter", "bevel", "round"])
    tolerance = {"miter": r.choice([2, 3]), "bevel": 2, "round": r.choice([16, 64, 200])}[join]
    precision = 1e-5  # thinner features may vanish
    d = r.uniform(0.1, 2) * (r.choice([1, -1]) if negative else 1)
    first = r.random() < 0.5
    got = polygons_in(gdspy.offset(as_operand(r, a), d, join, tolerance, precision, first, max_points=r.choice([0, 199])))
    pts = probes(r, a + got, 5e-3, 150)
    # the clipper rounds the number of arc steps: up to 1.5 times as wide
    low = abs(d) * (math.cos(1.5 * math.pi / tolerance) if join == "round" else 1) - 5 * precision - 1e-3
    high = abs(d) * stretch(join, tolerance) + 5 * precision + 1e-3
    n = covers(got, pts)
    if d > 0:
        inside = covers(a, pts) > 0
        far = numpy.where(inside, 0, distance(a, pts))
        must, never = far < low, far > high
    elif first:
        union = polygons_in(gdspy.boolean(a, None, "or", precision=precision / 10, max_points=0))  # checked by boolean_region
        inside = covers(union, pts) > 0
        deep = numpy.where(inside, distance_to_outside(union, pts), 0)
        must, never = deep > high, deep < low
    else:
        deep = numpy.zeros(len(pts))
        for p in a:
            deep = numpy.maximum(deep, numpy.where(covers([p], pts) > 0, distance_to_outside([p], pts), 0))
        must, never = deep > high, deep < low
    for p, m, v, k in zip(pts, must, never, n):
        c.check("covered", not m or k == 1, "%r covered by %d polygons; offset of %r by %g, %s %g, join_first %s" % (tuple(p), k, a, d, join, tolerance, first))
        c.check("not covered", not v or k == 0, "%r covered by %d polygons; offset of %r by %g, %s %g, join_first %s" % (tuple(p), k, a, d, join, tolerance, first))


def distance_to_outside(polygons, pts):
    """distance from the points inside to the boundary of the region (sides that join a hole to the boundary are not part of it)"""
    sides = []
    for p in polygons:
        p = [tuple(q) for q in p]
        sides += list(zip(p, p[1:] + p[:1]))
    keep = []
    for q, s in sides:
        v = numpy.array([s[0] - q[0], s[1] - q[1]])
        l = math.hypot(*v)
        if l == 0:
            continue
        normal = numpy.array([-v[1], v[0]]) / l * 0.002
        for t0, t1 in zip(numpy.linspace(0, 1, 9), numpy.linspace(0, 1, 9)[1:]):
            m = numpy.array(q) + (t0 + t1) / 2 * v
            if (covers(polygons, numpy.array([m + normal, m - normal])) > 0).all():
                continue
            keep.append((numpy.array(q) + t0 * v, numpy.array(q) + t1 * v))
    d = numpy.full(len(pts), numpy.inf)
    for q, s in keep:
        v = s - q
        t = numpy.clip(((pts - q) @ v) / (v @ v), 0, 1)
        d = numpy.minimum(d, numpy.hypot(pts[:, 0] - q[0] - t * v[0], pts[:, 1] - q[1] - t * v[1]))
    return d


@contract("C16", ["operation.offset", "operation._gather_polys", "clipper.offset"], sym=False, samples=200)
def offset_region(c):
    offset_region_of(c, SIMPLE)


@contract("C16", ["operation.offset", "operation._gather_polys", "clipper.offset"], sym=False, samples=100)
def offset_of_self_intersecting(c):
    offset_region_of(c, ["closed line", "closed line", "rectangle"], negative=False)


@contract("C16", ["operation.slice", "operation._gather_polys", "clipper._chop"], sym=False, samples=200)
def slice_region(c):
    """piece k is what lies between cuts k - 1 and k"""
    r = c.rng
    a = operand_of(r, SIMPLE + ["closed line"], 1, 3)
    axis = r.choice([0, 1])
    cuts = [r.choice([r.uniform(-15, 15), float(r.randint(-8, 8))]) for _ in range(r.randint(1, 4))]
    precision = r.choice([1e-3, 0.02])
    got = gdspy.slice(as_operand(r, a), cuts[0] if len(cuts) == 1 and r.random() < 0.5 else list(cuts), axis, precision)
    c.eq("pieces", len(got), len(cuts) + 1)
    cuts = sorted(cuts)
    pts = probes(r, a, 3 * precision, 150)
    away = distance(a, pts) > 3 * precision
    for x in cuts:
        away &= abs(pts[:, axis] - x) > 2 * precision
    pts = pts[away]
    each = covers(a, pts)
    for k in range(len(cuts) + 1):
        lo, hi = cuts[k - 1] if k else -numpy.inf, cuts[k] if k < len(cuts) else numpy.inf
        between = (pts[:, axis] > lo) & (pts[:, axis] < hi)
        n = covers(polygons_in(got[k]), pts)
        for p, b, e, m in zip(pts, between, each, n):
            c.check("piece %d" % k, m == (e if b else 0), "%r covered by %d polygons instead of %d; %r cut at %r along %d" % (tuple(p), m, e if b else 0, a, cuts, axis))


@contract("C16", ["polygon.PolygonSet.fracture", "clipper._chop"], sym=False, samples=200)
def fracture_region(c):
    """the fragments of each polygon cover it without overlap, with no more vertices than asked for"""
    r = c.rng
    a = operand_of(r, SIMPLE + ["closed line"], 1, 3)
    if r.random() < 0.5:
        a.append([tuple(p) for p in gdspy.Round((r.uniform(-5, 5), r.uniform(-5, 5)), r.uniform(2, 8), r.choice([0, 1]), number_of_points=r.choice([30, 61])).polygons[0]])
    s = gdspy.PolygonSet(a)
    most, precision = r.choice([5, 6, 8, 20]), r.choice([1e-3, 1e-2])
    c.same("returns", s.fracture(most, precision), s)
    c.check("vertices", all(len(p) <= most for p in s.polygons), "more than %d" % most)
    c.eq("tags", (len(s.layers), len(s.datatypes)), (len(s.polygons),) * 2)
    pts = probes(r, a + s.polygons, 3 * precision, 150)
    pts = pts[distance(a, pts) > 4 * precision]
    pts = pts[distance([p for p in s.polygons], pts) > 2 * precision]
    each, n = covers(a, pts), covers(s.polygons, pts)
    for p, e, m in zip(pts, each, n):
        c.check("region", m == e, "%r covered %d times instead of %d; %r in polygons of %d vertices" % (tuple(p), m, e, a, most))


# ---------------------------------------------------------------- what fracture makes of the pieces
class Chopper(object):
    """stand-in for the clipper: every polygon is divided into given pieces"""

    def __init__(self, pieces):
        self.pieces, self.calls = pieces, []

    def _chop(self, polygon, cuts, axis, scaling):
        self.calls.append((polygon, list(cuts), axis, scaling))
        return self.pieces


def corners(c, name, n):
    return c.array([(c.real("%sx%d" % (name, i)), c.real("%sy%d" % (name, i))) for i in range(n)])


@contract("C16 C09", ["polygon.PolygonSet.fracture"], note="the clipper is a stand-in that answers arbitrary pieces")
def fracture_pieces(c):
    """a polygon with too many vertices is replaced by its pieces, with its layer and type; the others stay"""
    tall = c.choice("extent", ["wide", "high"])
    long, short = [c.real("long")], [c.real("short")]
    for i in range(5):
        d = c.posreal("step%d" % i)
        short.append(short[-1] + d)
        long.append(long[-1] + d + c.posreal("more%d" % i))
    order = c.choice("order", [[0, 1, 2, 3, 4, 5], [3, 0, 5, 1, 4, 2]])
    q = [(long[i], short[j]) if tall == "wide" else (short[j], long[i]) for i, j in zip(order, range(6))]
    first, last = corners(c, "p", 3), corners(c, "r", 5)
    big = c.array(q)
    tags = [(c.tag("l%d" % i), c.tag("d%d" % i)) for i in range(3)]
    n = c.choice("pieces", [(1, 1), (2, 0), (1, 2)])
    pieces = tuple(tuple(tuple((c.real("x%d%d%d" % (s, k, i)), c.real("y%d%d%d" % (s, k, i))) for i in range(4)) for k in range(m)) for s, m in enumerate(n))
    chopper = Chopper(pieces)
    c.patch(gdspy.polygon, "clipper", chopper)
    p = c.new(gdspy.PolygonSet, polygons=[first, big, last], layers=[t[0] for t in tags], datatypes=[t[1] for t in tags], properties={})
    precision = c.posreal("precision")
    c.same("returns", p.fracture(5, precision), p)
    c.eq("one polygon divided", len(chopper.calls), 1)
    polygon, cuts, axis, scaling = chopper.calls[0]
    c.eq("the polygon", polygon, c.array(q))
    c.eq("axis", axis, 0 if tall == "wide" else 1)
    c.eq("scaling", scaling, 1 / precision)
    c.check("at least one cut", len(cuts) > 0)
    for x in cuts:
        c.check("between the extremes", long[0] < x)
        c.check("between the extremes", x < long[5])
    flat = [c.array(list(s)) for part in pieces for s in part]
    c.eq("polygons", p.polygons, [first, last] + flat)
    c.eq("layers", p.layers, [tags[0][0], tags[2][0]] + [tags[1][0]] * len(flat))
    c.eq("datatypes", p.datatypes, [tags[0][1], tags[2][1]] + [tags[1][1]] * len(flat))


@contract("C16 C09", ["polygon.PolygonSet.fracture"])
def fracture_within_limits(c):
    """polygons with few vertices, and all polygons if the limit is below 5, stay as they are"""
    n, most = c.choice("vertices and limit", [(5, 5), (4, 199), (3, 6), (7, 4), (6, 0)])
    p, q = corners(c, "p", n), corners(c, "q", n)
    ls, ds = [c.tag("l0"), c.tag("l1")], [c.tag("d0"), c.tag("d1")]
    s = c.new(gdspy.PolygonSet, polygons=[p, q], layers=list(ls), datatypes=list(ds), properties={})
    c.same("returns", s.fracture(most, c.posreal("precision")), s)
    c.eq("polygons", s.polygons, [p, q])
    c.eq("tags", (s.layers, s.datatypes), (ls, ds))

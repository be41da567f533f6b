"""C14: arguments of slice, boolean, offset and inside

The clipper (C++) is replaced by a recorder in the symbolic runs; natively the results of the real one
for each form of an operand are compared with those for the plain list of polygons."""
import os
import numpy
import gdspy
import gdspy.operation
from vc.contract import contract
from contracts.common import *
from contracts import world


class Recorder(object):
    """stands for the clipper: keeps the arguments, answers with given polygons"""

    __slots__ = ("calls", "answer")

    def clip(self, a, b, operation, scaling):
        self.calls.append((a, b, operation, scaling))
        return self.answer

    def offset(self, polygons, distance, join, tolerance, scaling, join_first):
        self.calls.append((polygons, distance, join, tolerance, scaling, join_first))
        return self.answer

    def inside(self, points, polygons, short_circuit, scaling):
        self.calls.append((points, polygons, short_circuit, scaling))
        return self.answer

    def _chop(self, polygon, positions, axis, scaling):
        """one polygon per slab that tells polygon, slab and arguments; none in slabs that start beyond its first point"""
        out = []
        for i in range(len(positions) + 1):
            lo = -1000 if i == 0 else positions[i - 1]
            hi = 1000 if i == len(positions) else positions[i]
            out.append((numpy.array(polygon) + numpy.array((lo * scaling, hi * (axis + 2))),))
        return out


def recorder(c, answer):
    r = c.new(Recorder, calls=[], answer=answer)
    c.patch(gdspy.operation, "clipper", r)
    return r


# ---------------------------------------------------------------------------- forms of an operand
class Flex(gdspy.FlexPath):
    """path of given polygons"""

    __slots__ = ("known",)

    def get_polygons(self, by_spec=False):
        return self.known


class Robust(gdspy.RobustPath):
    __slots__ = ("known",)

    def get_polygons(self, by_spec=False):
        return self.known


class Ref(gdspy.CellReference):
    """reference of given polygons (fresh ones, as get_polygons promises)"""

    __slots__ = ("known",)

    def get_polygons(self, by_spec=False, depth=None):
        return self.known


class Arr(gdspy.CellArray):
    __slots__ = ("known",)

    def get_polygons(self, by_spec=False, depth=None):
        return self.known


def several(c, name):
    return c.list(name, None, lambda: c.points(name + ".p", 3))


def shape(c, name, kind):
    """object of a kind and the polygons it contains"""
    if kind == 5:
        p = c.points(name, 3)
        return p, [p]
    ps = several(c, name)
    if kind == 0:
        n = len(ps)
        return c.new(gdspy.PolygonSet, polygons=ps, layers=c.list(name + ".layers", n, lambda: c.tag(name + ".layer")), datatypes=c.list(name + ".datatypes", n, lambda: c.tag(name + ".datatype")), properties={}), ps
    return c.new([None, Flex, Robust, Ref, Arr][kind], known=list(ps)), ps


def operand(c, name):
    """an operand in any accepted form, and the list of its polygons"""
    form = c.choice(name + ".form", ["set", "flexpath", "robustpath", "reference", "array", "points", "nothing", "list", "pair", "tuple"])
    kinds = ["set", "flexpath", "robustpath", "reference", "array", "points"]
    if form == "nothing":
        return [], []
    if form == "points":
        x, ps = shape(c, name, 5)
        return [x], ps
    if form in ("list", "tuple"):
        x, ps = shape(c, name + "0", c.choice(name + ".first", [0, 1, 2, 3, 4, 5]))
        y, qs = shape(c, name + "1", c.choice(name + ".second", [0, 1, 2, 3, 4, 5]))
        return ([x, y] if form == "list" else (x, y)), list(ps) + list(qs)
    if form == "pair":
        ps = several(c, name)
        return ps, list(ps)
    x, ps = shape(c, name, kinds.index(form))
    return x, list(ps)


def two_triangles():
    return (((0.0, 0.0), (1.0, 0.0), (0.0, 1.0)), ((5.0, 5.0), (6.0, 5.0), (5.0, 7.0)))


def same_result(c, name, got, want):
    if want is None:
        c.is_none(name, got)
        return
    c.check(name + " is a polygon set", isinstance(got, gdspy.PolygonSet))
    c.eq(name, (got.polygons, got.layers, got.datatypes), (want.polygons, want.layers, want.datatypes))


SEAM = "the clipper is a recorder in symbolic runs"


@contract("C14 C16", ["operation.offset", "operation._gather_polys"], note=SEAM)
def offset_operand(c):
    x, ps = operand(c, "x")
    if not c.symbolic:
        same_result(c, "result", gdspy.offset(x, 0.5), gdspy.offset(ps, 0.5))
        return
    r = recorder(c, two_triangles())
    gdspy.offset(x, 0.5)
    c.eq("calls", len(r.calls), 1)
    c.eq("polygons", r.calls[0][0], ps)


@contract("C14 C16", ["operation.boolean", "operation._gather_polys"], note=SEAM)
def boolean_first_operand(c):
    x, ps = operand(c, "x")
    op = c.choice("operation", ["or", "and", "xor", "not"])
    q = c.points("q", 3)
    if not c.symbolic:
        same_result(c, "result", gdspy.boolean(x, [q], op), gdspy.boolean(ps, [q], op))
        return
    r = recorder(c, two_triangles())
    gdspy.boolean(x, [q], op)
    c.eq("calls", len(r.calls), 1)
    c.eq("operands", (r.calls[0][0], r.calls[0][1], r.calls[0][2]), (ps, [q], op))


@contract("C14 C16", ["operation.boolean", "operation._gather_polys"], note=SEAM)
def boolean_second_operand(c):
    x, ps = operand(c, "x")
    op = c.choice("operation", ["or", "and", "xor", "not"])
    q = c.points("q", 3)
    if not c.symbolic:
        same_result(c, "result", gdspy.boolean([q], x, op), gdspy.boolean([q], ps, op))
        return
    r = recorder(c, two_triangles())
    out = gdspy.boolean([q], x, op, max_points=0)
    if len(ps) > 0:
        c.eq("calls", len(r.calls), 1)
        c.eq("operands", (r.calls[0][0], r.calls[0][1], r.calls[0][2]), ([q], ps, op))


@contract("C14 C16", ["operation.boolean"], note=SEAM)
def boolean_empty(c):
    """operands without polygons are empty sets"""
    nothing = c.choice("nothing", [None, [], c.new(gdspy.PolygonSet, polygons=[], layers=[], datatypes=[], properties={}), c.new(Ref, known=[])])
    op = c.choice("operation", ["or", "and", "xor", "not"])
    c.is_none("nothing and nothing", gdspy.boolean([], nothing, op))
    if c.symbolic:
        p, q = c.points("p", 3), c.points("q", 3)
        r = recorder(c, two_triangles())
        out = gdspy.boolean([p, q], nothing, op, max_points=0)
        if op == "and":
            c.is_none("intersection", out)
        elif op == "or":
            a, b, o, s = r.calls[0]
            c.eq("union of all polygons", (list(a) + list(b), o), ([p, q], "or"))
        else:
            c.eq("polygons", out.polygons, [p, q])
        return
    p, q = world.ngon(c.rng, 3), world.ngon(c.rng, 3)
    # the same region as with an operand far away, that region left out
    far = numpy.array([(1000, 1000), (1001, 1000), (1001, 1001)])
    out = gdspy.boolean([p, q], nothing, op)
    ref = gdspy.boolean([p, q], [far], op)
    a = 0 if out is None else region_area(out)
    b = (0 if ref is None else region_area(ref)) - (0.5 if op in ("or", "xor") else 0)
    c.check("region", abs(a - b) <= 0.3, "area %r instead of %r" % (a, b))


def region_area(ps):
    u = gdspy.boolean(ps, [[(2000, 2000), (2001, 2000), (2001, 2001)]], "or", max_points=0)
    return u.area() - 0.5


@contract("C14", ["operation.inside", "operation._gather_polys"], note=SEAM)
def inside_operand(c):
    x, ps = operand(c, "x")
    pts = c.points("points", 1)
    if not c.symbolic:
        c.eq("answers", gdspy.inside(pts, x), gdspy.inside(pts, ps))
        return
    r = recorder(c, (True,))
    gdspy.inside(pts, x)
    c.eq("calls", len(r.calls), 1)
    c.eq("polygons", r.calls[0][1], ps)


class Teller(object):
    """stands for the clipper's inside test: a point is inside when its x is positive

    short_circuit 0: one answer per point of the first group; positive: any point of each group; negative: all points"""

    __slots__ = ()

    def inside(self, points, polygons, short_circuit, scaling):
        if short_circuit == 0:
            return tuple([p[0] > 0 for p in points[0]])
        if short_circuit > 0:
            return tuple([any([p[0] > 0 for p in g]) for g in points])
        return tuple([all([p[0] > 0 for p in g]) for g in points])


@contract("C14", ["operation.inside"], note="the clipper is a stand-in in symbolic runs")
def inside_answers(c):
    """one answer per point or per group, any or all"""
    def point(k):
        x, y = c.real("x%d" % k), c.real("y%d" % k)
        if not c.symbolic:
            c.assume(0.01 < abs(x) < 900 and abs(y) < 900)
        return (x, y)
    mode = c.choice("short_circuit", ["any", "all", None])
    groups = c.choice("groups", [None, [1], [2], [1, 2], [3, 1, 2]])
    if groups is None:
        pts = [point(k) for k in range(c.choice("points", [1, 2, 3]))]
    else:
        pts = [[point(10 * j + k) for k in range(n)] for j, n in enumerate(groups)]
    if c.symbolic:
        c.patch(gdspy.operation, "clipper", c.new(Teller))
    # right half of the plane
    half = [[(0, -1000), (1000, -1000), (1000, 1000), (0, 1000)]]
    got = gdspy.inside(pts, half) if mode is None else gdspy.inside(pts, half, mode)
    if groups is None:
        want = [p[0] > 0 for p in pts]
    elif mode == "all":
        want = [all([p[0] > 0 for p in g]) for g in pts]
    else:
        want = [any([p[0] > 0 for p in g]) for g in pts]
    c.eq("number of answers", len(got), len(want))
    for a, b in zip(got, want):
        c.eq("answer", bool(a), bool(b))


@contract("C14 C16", ["operation.slice", "operation._gather_polys"], note=SEAM)
def slice_operand(c):
    x, ps = operand(c, "x")
    if not c.symbolic:
        axis = c.choice("axis", [0, 1])
        a, b = gdspy.slice(x, [0.5], axis), gdspy.slice(ps, [0.5], axis)
        c.eq("slabs", len(a), 2)
        for k in range(2):
            same_result(c, "slab", a[k], b[k])
        return
    recorder(c, None)
    out = gdspy.slice(x, [], 0, 1)
    c.eq("slabs", len(out), 1)
    if len(ps) == 0:
        c.is_none("nothing", out[0])
    else:
        c.eq("polygons", out[0].polygons, [numpy.array(p) + numpy.array((-1000, 2000)) for p in ps])


@contract("C14 C16", ["operation.slice"], note=SEAM)
def slice_slabs(c):
    """one polygon set per slab between the sorted positions, with the layers and types in turn"""
    n = c.choice("positions", [None, 0, 1, 2, 3])
    pos = [c.real("at%d" % k) for k in range(1 if n is None else n)]
    axis = c.choice("axis", [0, 1]) if n == 1 or n is None else 1
    layer = c.choice("layer", [7, [c.tag("l0")], [c.tag("l0"), c.tag("l1")], [1, 2, 3, 4, 5, 6, 7]]) if n == 2 else [c.tag("l0"), c.tag("l1")]
    datatype = c.choice("datatype", [c.tag("d"), [c.tag("d0"), c.tag("d1")]]) if n == 2 else 5
    ps = c.list("ps", None, lambda: c.points("p", 3, bound=5))
    precision = c.posreal("precision")
    given = list(pos)
    arg = given if n is not None else given[0]
    if not c.symbolic:
        out = gdspy.slice(ps, arg, axis, layer=layer, datatype=datatype)
        c.eq("number of slabs", len(out), len(pos) + 1)
        edges = [-1e9] + sorted(pos) + [1e9]
        for k, r in enumerate(out):
            w = 0
            for p in ps:
                w += clipped_area(p, axis, edges[k], edges[k + 1])
            a = 0 if r is None else r.area()
            around = sum(float(numpy.abs(numpy.diff(numpy.array(p), axis=0)).sum()) for p in ps)
            c.check("area of slab", abs(a - w) <= 0.1 * len(ps) + 0.01 * around, "%r instead of %r" % (a, w))
            if r is not None:
                tags_of(c, r, k, layer, datatype)
                for q in r.polygons:
                    c.check("within slab", q[:, axis].min() >= edges[k] - 0.002 and q[:, axis].max() <= edges[k + 1] + 0.002)
        c.eq("positions unchanged", given, pos)
        return
    recorder(c, None)
    out = gdspy.slice(ps, arg, axis, precision, layer, datatype)
    c.eq("positions unchanged", given, pos)
    edges = [-1000] + sorted(pos) + [1000]
    c.eq("number of slabs", len(out), len(pos) + 1)
    for k, r in enumerate(out):
        if len(ps) == 0:
            c.is_none("nothing", r)
        else:
            lo = edges[k]
            hi = edges[k + 1]
            c.eq("polygons", r.polygons, [numpy.array(p) + numpy.array((lo * (1 / precision), hi * (axis + 2))) for p in ps])
            tags_of(c, r, k, layer, datatype)


def tags_of(c, r, k, layer, datatype):
    l = layer[k % len(layer)] if isinstance(layer, list) else layer
    d = datatype[k % len(datatype)] if isinstance(datatype, list) else datatype
    c.eq("tags", (r.layers, r.datatypes), ([l] * len(r.polygons), [d] * len(r.polygons)))


def clipped_area(p, axis, lo, hi):
    """area of the region of a polygon (non-zero winding) between two lines, by the union of one polygon"""
    big = [(lo, -1e5), (hi, -1e5), (hi, 1e5), (lo, 1e5)] if axis == 0 else [(-1e5, lo), (1e5, lo), (1e5, hi), (-1e5, hi)]
    big = numpy.clip(numpy.array(big, dtype=float), -1e5, 1e5)
    u = gdspy.boolean([p], [big], "and", max_points=0)
    return 0 if u is None else u.area()


@contract("C14 C16", ["operation.offset"], note=SEAM)
def offset_arguments(c):
    ps = [c.points("p", 3)]
    l, d = c.tag("layer"), c.tag("datatype")
    dist = c.real("distance")
    join, tolerance = c.choice("join", ["miter", "bevel", "round"]), c.posreal("tolerance")
    first = c.choice("join_first", [False, True])
    precision = c.posreal("precision")
    if not c.symbolic:
        out = gdspy.offset(ps, 0.3, join, 8, 1e-3, first, 0, l, d)
        c.eq("tags", (out.layers, out.datatypes), ([l] * len(out.polygons), [d] * len(out.polygons)))
        return
    r = recorder(c, c.choice("answer", [(), two_triangles()]))
    out = gdspy.offset(ps, dist, join, tolerance, precision, first, 0, l, d)
    c.eq("arguments", r.calls, [(ps, dist, join, tolerance, 1 / precision, 1 if first else 0)])
    if len(r.answer) == 0:
        c.is_none("nothing", out)
    else:
        c.eq("result", (out.polygons, out.layers, out.datatypes), ([numpy.array(p) for p in two_triangles()], [l, l], [d, d]))


@contract("C14 C16", ["operation.boolean"], note=SEAM)
def boolean_arguments(c):
    p, q = c.points("p", 3), c.points("q", 3)
    l, d = c.tag("layer"), c.tag("datatype")
    precision = c.posreal("precision")
    op = c.choice("operation", ["or", "and", "xor", "not"])
    most = c.choice("max_points", [0, 199])
    if not c.symbolic:
        out = gdspy.boolean([p], [q], op, max_points=most, layer=l, datatype=d)
        if out is not None:
            c.eq("tags", (out.layers, out.datatypes), ([l] * len(out.polygons), [d] * len(out.polygons)))
        return
    r = recorder(c, c.choice("answer", [(), two_triangles()]))
    out = gdspy.boolean([p], [q], op, precision, most, l, d)
    c.eq("arguments", r.calls, [([p], [q], op, 1 / precision)])
    if len(r.answer) == 0:
        c.is_none("nothing", out)
    else:
        c.eq("result", (out.polygons, out.layers, out.datatypes), ([numpy.array(p) for p in two_triangles()], [l, l], [d, d]))


def forked(f):
    """value of f in a child process, "crash" if it dies"""
    import pickle
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                out = ("value", f())
            except Exception as ex:
                out = ("exception", repr(ex))
            os.write(w, pickle.dumps(out))
        finally:
            os._exit(0)
    os.close(w)
    data = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else ("crash", None)


@contract("C14", ["operation.inside"], samples=12, sym=False, note="each call runs in a child process")
def inside_nothing(c):
    """nothing is inside operands without polygons; empty groups have an answer too"""
    r = c.rng
    empty = r.choice([[], None, gdspy.PolygonSet([]), gdspy.CellReference(gdspy.Cell("empty", exclude_from_current=True))])
    n = r.randint(1, 4)
    pts = [(r.uniform(-9, 9), r.uniform(-9, 9)) for _ in range(n)]
    c.eq("points", forked(lambda: gdspy.inside(pts, empty)), ("value", (False,) * n))
    for mode in ("any", "all"):
        c.eq("groups, " + mode, forked(lambda: gdspy.inside([pts] * 3, empty, mode)), ("value", (False,) * 3))
        c.eq("empty group, " + mode, forked(lambda: gdspy.inside([[(1, 1)], []], gdspy.Rectangle((0, 0), (2, 2)), mode)), ("value", (True, mode == "all")))


@contract("C14", ["operation.slice", "operation.boolean", "operation.offset", "operation.inside", "operation._gather_polys"], samples=60, sym=False, note="real paths, references and arrays")
def real_operands(c):
    r = c.rng
    ks = world.cells(r, 2, paths=True)

    def one():
        k = r.randrange(6)
        if k == 0:
            x = world.polygonset(r)
            return x, [numpy.array(p) for p in x.polygons]
        if k == 1:
            x = world.flexpath(r, gdsii=False)
            return x, x.get_polygons()
        if k == 2:
            x = world.robustpath(r, gdsii=False)
            return x, x.get_polygons()
        if k in (3, 4):
            x = world.reference(r, ks[-1])
            return x, [p for l, d, p in [(0, 0, q) for q in x.get_polygons()]]
        p = world.ngon(r)
        return p, [numpy.array(p)]
    if r.random() < 0.4:
        x, ps = one()
        if isinstance(x, list):
            x = [x]
    else:
        parts = [one() for _ in range(r.randint(0, 3))]
        x, ps = [p[0] for p in parts], [q for p in parts for q in p[1]]
        if r.random() < 0.5:
            x = tuple(x)
    l, d = world.tags(r)
    q = [world.ngon(r)]
    for name, f in (
        ("slice", lambda y: gdspy.slice(y, [5, -5, 0], r2, layer=[l, l + 1], datatype=d)),
        ("offset", lambda y: gdspy.offset(y, 0.5, layer=l, datatype=d)),
        ("first", lambda y: gdspy.boolean(y, q, op, layer=l, datatype=d)),
        ("second", lambda y: gdspy.boolean(q, y, op, layer=l, datatype=d)),
        ("alone", lambda y: gdspy.boolean(y, None, op, layer=l, datatype=d)),
        ("inside", lambda y: gdspy.inside([(0, 0), (1, 2), (-3, 4), (10, -10)], y)),
    ):
        r2, op = r.randrange(2), r.choice(["or", "and", "xor", "not"])
        a, b = f(x), f(ps)
        if name == "slice":
            c.eq("slabs", len(a), 4)
            for k in range(4):
                same_result(c, "slab", a[k], b[k])
                if a[k] is not None:
                    tags_of(c, a[k], k, [l, l + 1], d)
        elif name == "inside":
            c.eq("answers", a, b)
        else:
            same_result(c, name, a, b)
            if a is not None:
                tags_of(c, a, 0, l, d)

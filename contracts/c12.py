"""C12: incremental construction of paths keeps position, widths and tags consistent"""
import inspect
import math
import numpy
import gdspy
from gdspy.path import _SubPath
from vc.contract import contract
from contracts.common import *
from contracts import c09, c05
from contracts.c09 import some, cyclic


# ---------------------------------------------------------------- simple paths
def unit(c, direction):
    """cosine and sine of a direction"""
    if isinstance(direction, str):
        return {"+x": (1, 0), "-x": (-1, 0), "+y": (0, 1), "-y": (0, -1)}[direction]
    return c.cos(direction), c.sin(direction)


def simple_path(c, name, n, direction=None, width=None):
    """path with any earlier polygons and any state"""
    p = polygonset(c, name)
    return c.new(gdspy.Path, polygons=p.polygons, layers=p.layers, datatypes=p.datatypes, properties={}, n=n,
                 x=c.real(name + ".x"), y=c.real(name + ".y"), w=c.posreal(name + ".w") if width is None else width,
                 distance=c.real(name + ".distance"), length=c.posreal(name + ".length"),
                 direction=c.choice(name + ".direction form", ["+x", "-x", "+y", "-y", c.real(name + ".direction", -7, 7)]) if direction is None else direction)


@contract("C12", ["polygon.Path.__init__"])
def path_init(c):
    w, x, y, d = c.posreal("width"), c.real("x"), c.real("y"), c.real("distance")
    n = c.int("lines", 1, 100)
    given = c.flag("lines given")
    start = c.choice("start as", [(x, y), c.array([x, y])])
    p = gdspy.Path(w, start, n, d) if given else gdspy.Path(w, start)
    c.eq("position", (p.x, p.y), (x, y))
    c.eq("half width", 2 * p.w, w)
    c.eq("lines", (p.n, p.distance), (n, d) if given else (1, 0))
    c.eq("direction and length", (p.direction, p.length), ("+x", 0))
    c.eq("nothing drawn", (p.polygons, p.layers, p.datatypes, p.properties), ([], [], [], {}))


def line_positions(n):
    """positions of the parallel lines in units of their distance, to the right of the path"""
    return [i - (n - 1) / 2 for i in range(n)]


@contract("C12", ["polygon.Path.segment"], budget=240)
def path_segment(c):
    """each line of a straight section is the trapezoid from its present place and width to the requested ones"""
    n = c.choice("lines", [1, 2, 3])
    zero = c.choice("zero width", ["no", "start", "end", "both"])
    a = c.real("angle", -7, 7)
    before, direction = c.choice("direction", [("+x", None), ("-x", None), ("+y", None), ("-y", None), (a, None), ("+x", "-x"), (a, "+y"), ("-y", a)])
    p = simple_path(c, "p", n, before, 0 if zero in ("start", "both") else None)
    old = c.snapshot(p)
    length, off = c.posreal("l"), c.real("axis_offset") if n > 1 else 0
    fw = 0 if zero in ("end", "both") else c.posreal("final_width") if zero == "start" else optional(c, "final_width", c.posreal("final_width"))
    fd = optional(c, "final_distance", c.real("final_distance"))
    c.same("returns", p.segment(length, direction, fw, fd, off), p)
    ca, sa = unit(c, old.direction if direction is None else direction)
    w1 = old.w if fw is None else fw / 2
    d1 = old.distance if fd is None else fd
    x1, y1 = old.x + length * ca + off * sa, old.y + length * sa - off * ca
    c.eq("position", (p.x, p.y), (x1, y1))
    c.eq("direction", p.direction, old.direction if direction is None else direction)
    c.eq("width and distance", (p.w, p.distance), (w1, d1))
    c.eq("length", p.length, old.length + c.sqrt(length * length + off * off))
    want = []
    for k in line_positions(n):
        q = []
        for x, y, d, w in [(old.x, old.y, old.distance, old.w), (x1, y1, d1, w1)]:
            sides = [(x + (k * d + s * w) * sa, y - (k * d + s * w) * ca) for s in (-1, 1)]
            q.append(sides)
        a, b = q
        if zero == "start":
            a = a[:1]
        if zero == "end":
            b = b[:1]
        want.append(a + b[::-1])
    m = len(old.polygons)
    if zero == "both":
        c.eq("nothing to draw", len(p.polygons), m)
    else:
        c.eq("polygons", p.polygons[m:], want)
        c.eq("tags", (p.layers[m:], p.datatypes[m:]), ([0] * n, [0] * n))
    c.eq("earlier polygons", p.polygons[:m], old.polygons)
    c.eq("n", p.n, n)


def split_sides(c, q, points, w0, w1):
    """the two sides of an arc of a line: outer one first, the inner one backwards"""
    k = points - points // 2
    a, b = q[: k - (w0 == 0) - (w1 == 0)], q[k - (w0 == 0) - (w1 == 0):][::-1]
    return a, b


@contract("C12", ["polygon.Path.arc"], budget=300, note="up to three lines, two pieces and six points per piece")
def path_arc(c):
    """every line of an arc starts and ends where it should, its sides lie on spirals about the centre"""
    n, points, most, pieces = c.choice("lines and points", [(1, 6, 0, 1), (2, 4, 199, 1), (3, 6, 199, 1), (1, 10, 5, 2)])
    p = simple_path(c, "p", n, direction="+x")
    old = c.snapshot(p)
    r, a0, a1 = c.posreal("radius"), c.real("initial", -7, 7), c.real("final", -7, 7)
    c.assume(a0 != a1)
    fw, fd = c.choice("final", [(None, None), (c.posreal("final_width"), None), (c.posreal("final_width"), c.real("final_distance"))])
    c.same("returns", p.arc(r, a0, a1, 0.01, points, most, fw, fd), p)
    ccw = a1 > a0
    w1 = old.w if fw is None else fw / 2
    d1 = old.distance if fd is None else fd
    cx, cy = old.x - r * c.cos(a0), old.y - r * c.sin(a0)
    c.eq("position", (p.x, p.y), (cx + r * c.cos(a1), cy + r * c.sin(a1)))
    c.eq("direction", p.direction, a1 + c.pi / 2 if ccw else a1 - c.pi / 2)
    c.eq("width and distance", (p.w, p.distance), (w1, d1))
    c.eq("length", p.length, old.length + r * (a1 - a0 if ccw else a0 - a1))
    m = len(old.polygons)
    c.eq("one polygon per line and piece", len(p.polygons), m + n * pieces)
    each = points // pieces
    inner = each // 2
    outer = each - inner
    for j in range(pieces):
        for i in range(n):
            want = []
            for s, steps in [(1, outer), (-1, inner)]:
                side = []
                for k in range(steps):
                    # fraction of the whole arc at this vertex
                    t = (j + k / (steps - 1)) / pieces
                    a = a0 + t * (a1 - a0)
                    d = line_positions(n)[i] * (old.distance + t * (d1 - old.distance))
                    rho = r + (d if ccw else -d) + s * (old.w + t * (w1 - old.w))
                    side.append((cx + rho * c.cos(a), cy + rho * c.sin(a)))
                want += side if s == 1 else side[::-1]
            c.eq("line %d piece %d" % (i, j), p.polygons[m + j * n + i], want)
    c.eq("tags", (p.layers[m:], p.datatypes[m:]), ([0] * (n * pieces), [0] * (n * pieces)))
    c.eq("earlier polygons", p.polygons[:m], old.polygons)


class Steps(object):
    """records the sections drawn in terms of another kind of section"""

    __slots__ = ("calls",)

    def record(self, *args):
        self.calls.append(args)


def parameters_of(cls, *names):
    """parameters and defaults of methods, as declared"""
    return {(cls.__name__, n): [(k, p.default) for k, p in inspect.signature(getattr(cls, n)).parameters.items()][1:] for n in names}


DECLARED = {}
DECLARED.update(parameters_of(gdspy.Path, "arc", "parametric", "bezier"))
DECLARED.update(parameters_of(gdspy.FlexPath, "arc", "parametric", "bezier"))
DECLARED.update(parameters_of(gdspy.RobustPath, "arc", "parametric", "bezier"))


def all_arguments(cls, name, args, named):
    """positional and named arguments of a call and the defaults of the others, in the declared order"""
    return list(args) + [named.get(k, default) for k, default in DECLARED[cls.__name__, name][len(args):]]


@contract("C12", ["polygon.Path.turn"])
def path_turn(c):
    """a turn is the arc that starts in the present direction, to the requested side"""
    p = simple_path(c, "p", 2)
    old = c.snapshot(p)
    steps = c.new(Steps, calls=[])

    def arc(self, *args, **named):
        given = all_arguments(gdspy.Path, "arc", args, named)
        steps.record(self, *given)
        self.direction = given[2] + c.pi / 2 if given[2] >= given[1] else given[2] - c.pi / 2
        return self
    c.patch(gdspy.Path, "arc", arc)
    angle = c.choice("angle", ["r", "l", "rr", "ll", c.real("angle", -7, 7)])
    r = c.posreal("radius")
    extra = [c.posreal("tolerance"), c.int("points", 6, 100), c.int("max_points", 0, 199), c.posreal("fw"), c.real("fd"), c.tag("layer"), c.tag("datatype")]
    c.same("returns", p.turn(r, angle, *extra), p)
    d = angle_of(c, old.direction)
    by = {"r": -c.pi / 2, "l": c.pi / 2, "rr": -c.pi, "ll": c.pi}[angle] if isinstance(angle, str) else angle
    a0 = d - c.pi / 2 if by >= 0 else d + c.pi / 2
    c.eq("one arc", len(steps.calls), 1)
    call = steps.calls[0]
    c.same("of this path", call[0], p)
    c.eq("radius", call[1], r)
    c.eq("angles", [call[2], call[3]], [a0, a0 + by])
    c.eq("options", list(call[4:]), extra)
    if isinstance(angle, str) and isinstance(old.direction, str):
        order = ["+x", "+y", "-x", "-y"]
        c.eq("exact direction", p.direction, order[(order.index(old.direction) + {"r": 3, "l": 1, "rr": 2, "ll": 2}[angle]) % 4])
    else:
        c.eq("direction", p.direction, d + by)


def angle_of(c, d):
    return {"+x": 0, "+y": c.pi / 2, "-x": c.pi, "-y": -c.pi / 2}[d] if isinstance(d, str) else d


def recorder(c, cls, name, end):
    """replaces a method by one that records its arguments and moves the path to the documented end"""
    steps = c.new(Steps, calls=[])

    def method(self, *args, **named):
        given = all_arguments(cls, name, args, named)
        steps.record(self, *given)
        end(self, *given)
        return self
    c.patch(cls, name, method)
    return steps


@contract("C12 C17", ["polygon.Path.bezier"])
def path_bezier(c):
    """a Bezier section is the parametric section of that Bezier curve and its derivative"""
    p = simple_path(c, "p", 2)
    steps = recorder(c, gdspy.Path, "parametric", lambda self, *a: None)
    k = c.choice("control points", [1, 2, 3])
    pts = [(c.real("x%d" % i), c.real("y%d" % i)) for i in range(k)]
    relative = c.flag("relative")
    extra = [c.posreal("tolerance"), c.int("evaluations", 2, 100), c.int("max_points", 0, 199), c.posreal("fw"), c.real("fd")]
    tags = [c.tag("layer"), c.tag("datatype")]
    old = c.snapshot(p)
    c.same("returns", p.bezier(c.choice("points as", [pts, c.array(pts)]), *extra, relative, *tags), p)
    c.eq("one section", len(steps.calls), 1)
    call = steps.calls[0]
    c.same("of this path", call[0], p)
    c.eq("options", list(call[3:]), extra + [relative] + tags)
    u = c.real("u", 0, 1)
    ctrl = [(0, 0) if relative else (old.x, old.y)] + pts
    c.eq("curve", call[1](u), bernstein(ctrl, u))
    d = [(k * (b[0] - a[0]), k * (b[1] - a[1])) for a, b in zip(ctrl, ctrl[1:])]
    c.eq("derivative", call[2](u), bernstein(d, u))


def bernstein(ctrl, u):
    """point of the Bezier curve"""
    m = len(ctrl) - 1
    x = y = 0
    for k, (a, b) in enumerate(ctrl):
        w = math.comb(m, k) * u ** k * (1 - u) ** (m - k)
        x, y = x + w * a, y + w * b
    return [x, y]


@contract("C12", ["polygon.L1Path.__init__"], budget=240, note="up to three sections and two lines")
def l1path_end(c):
    """the final position and direction, and lines whose sides are offset from the centre by their place"""
    n, turns = c.choice("lines and turns", [(1, 0), (2, 0), (1, 1), (2, 1), (1, 2)])
    start = c.choice("direction", ["+x", "-x", "+y", "-y"])
    x, y = c.real("x"), c.real("y")
    w, dist = c.posreal("width"), c.real("distance")
    length = [c.posreal("length%d" % k) for k in range(turns + 1)]
    turn = [c.choice("turn%d" % k, [1, -1, c.real("factor", 0.5, 3), -c.real("factor", 0.5, 3)]) if k == 0 else c.choice("turn%d" % k, [1, -1]) for k in range(turns)]
    layer, datatype = some(c, "layer", c.tag), c.tag("datatype")
    p = gdspy.L1Path((x, y), start, w, length, turn, n, dist, c.choice("max_points", [0, 199]), layer, datatype)
    order = ["+x", "+y", "-x", "-y"]
    dirs = [(1, 0), (0, 1), (-1, 0), (0, -1)]
    k = order.index(start)
    left = (-dirs[k][1], dirs[k][0])
    # corners of the centre line, each with the left normal and the factor of the section before and after it
    corners = [(x, y, [(left, 1)])]
    for i in range(turns + 1):
        f = 1 if i == 0 else abs(turn[i - 1])
        x, y = x + length[i] * dirs[k][0], y + length[i] * dirs[k][1]
        before = ((-dirs[k][1], dirs[k][0]), f)
        if i < turns:
            k = (k + (1 if turn[i] > 0 else 3)) % 4
            corners.append((x, y, [before, ((-dirs[k][1], dirs[k][0]), abs(turn[i]))]))
        else:
            corners.append((x, y, [before]))
    c.eq("position", [p.x, p.y], [x, y])
    c.eq("direction", p.direction, order[k])
    c.eq("one polygon per line", (len(p.polygons), p.layers, p.datatypes), (n, cyclic(layer, n), [datatype] * n))
    for i in range(n):
        sides = []
        for s in (-1, 1):
            o = line_positions(n)[i] * dist + s * w / 2
            sides.append([(q[0] + sum([g * o * v[0] for v, g in q[2]]), q[1] + sum([g * o * v[1] for v, g in q[2]])) for q in corners])
        c.eq("line %d" % i, p.polygons[i], sides[0] + sides[1][::-1])
    c.eq("properties", p.properties, {})


# ---------------------------------------------------------------- flexible paths
def given(c, name, n, v):
    """an optional value for all elements, or one for each"""
    return c.choice(name, [None, v(name), [v("%s%d" % (name, k)) for k in range(n)]])


@contract("C12", ["path.FlexPath.__init__"])
def flexpath_init(c):
    """one width and one offset per element at every point; tags, ends, corners and radii repeat cyclically"""
    n = c.choice("elements", [1, 2, 3])
    ws = [c.posreal("width%d" % k) for k in range(n)]
    os_ = [c.real("offset%d" % k) for k in range(n)]
    form = c.choice("given as", ["lists", "widths", "offsets", "numbers"])
    if form == "numbers":
        n = 1
    width = ws if form in ("lists", "widths") else ws[0]
    offset = os_ if form in ("lists", "offsets") else os_[0]
    pair = c.flag("a single coordinate pair")
    pts = (c.real("x"), c.real("y")) if pair else c.list("points", c.count("points", 1), lambda: (c.real("px"), c.real("py")))
    layer, datatype = some(c, "layer", c.tag), c.choice("datatypes", [c.tag("datatype"), [c.tag("datatype0"), c.tag("datatype1")]])
    ends, corners, radius = c.choice("style", [("flush", "natural", None), (["flush", "round"], ["miter", "bevel"], [None, c.posreal("radius")])])
    before = c.snapshot([ws, os_])
    p = gdspy.FlexPath(c.array(pts) if c.flag("array") else pts, width, offset, corners, ends, radius, layer=layer, datatype=datatype)
    want = [pts] if pair else pts
    c.eq("elements", p.n, n)
    c.eq("points", p.points, c.array(want))
    w = ws if form in ("lists", "widths") else [ws[0]] * n
    o = os_ if form in ("lists", "offsets") else [(k - (n - 1) / 2) * os_[0] for k in range(n)] if form == "widths" else [os_[0]]
    c.eq("widths", p.widths, c.array([w for q in want]))
    c.eq("offsets", p.offsets, c.array([o for q in want]))
    c.eq("tags", (p.layers, p.datatypes), (cyclic(layer, n), cyclic(datatype, n)))
    c.eq("style", (p.ends, p.corners, p.bend_radius), (cyclic(ends, n), cyclic(corners, n), cyclic(radius, n)))
    c.eq("nothing cached", (p._polygon_dict, p.properties), (None, {}))
    c.eq("arguments unchanged", [ws, os_], before)


def growing(c, n, lo=1):
    """flexible path with cached polygons, to be extended"""
    p = flexpath(c, "p", n, lo, gdsii_path=c.flag("gdsii_path"))
    p._polygon_dict = {}
    return p


def ends_of(c, p, old, n, width, offset):
    """widths and offsets requested at the end of a section"""
    w0, o0 = old.widths[-1], old.offsets[-1]
    w = [w0[k] if width is None or old.gdsii_path else width[k] if isinstance(width, list) else width for k in range(n)]
    o = [o0[k] if offset is None else offset[k] if isinstance(offset, list) else o0[k] + offset for k in range(n)]
    return w, o


def kept(c, p, old):
    """the part of the path that was there before, and everything a section does not change"""
    m = len(old.points)
    c.eq("earlier points", p.points[:m], old.points)
    c.eq("earlier widths", p.widths[:m], old.widths)
    c.eq("earlier offsets", p.offsets[:m], old.offsets)
    c.eq("unchanged", (p.n, p.layers, p.datatypes, p.properties), (old.n, old.layers, old.datatypes, old.properties))
    c.is_none("cache", p._polygon_dict)
    return m


@contract("C12", ["path.FlexPath.segment"])
def flexpath_segment(c):
    n = c.choice("elements", [1, 2])
    p = growing(c, n)
    old = c.snapshot(p)
    end = (c.real("x"), c.real("y"))
    relative = c.flag("relative")
    width, offset = given(c, "width", n, c.posreal), given(c, "offset", n, c.real)
    q = c.choice("as", [end, c.array([end[0], end[1]])])
    c.same("returns", p.segment(q, width, offset, relative), p)
    m = kept(c, p, old)
    w, o = ends_of(c, p, old, n, width, offset)
    last = old.points[-1]
    c.eq("end", p.points[m:], [(last[0] + end[0], last[1] + end[1]) if relative else end])
    c.eq("widths", p.widths[m:], [w])
    c.eq("offsets", p.offsets[m:], [o])


@contract("C12", ["path.FlexPath.arc"], budget=240)
def flexpath_arc(c):
    """points at equal angles on the arc, tapering with the angle"""
    n = c.choice("elements", [1, 2])
    p = growing(c, n)
    p.tolerance = c.posreal("tolerance")
    old = c.snapshot(p)
    r, a0, a1 = c.posreal("radius"), c.real("initial", -7, 7), c.real("final", -7, 7)
    width, offset = given(c, "width", n, c.posreal), given(c, "offset", n, c.real)
    c.same("returns", p.arc(r, a0, a1, width, offset), p)
    m = kept(c, p, old)
    w, o = ends_of(c, p, old, n, width, offset)
    last = old.points[-1]
    cx, cy = last[0] - r * c.cos(a0), last[1] - r * c.sin(a0)
    k = len(p.points) - m
    c.check("points", k >= 2)
    ts = [(i + 1) / k for i in range(k)]
    c.eq("arc", p.points[m:], [(cx + r * c.cos(a0 + t * (a1 - a0)), cy + r * c.sin(a0 + t * (a1 - a0))) for t in ts])
    c.eq("widths", p.widths[m:], [[(1 - t) * old.widths[-1][j] + t * w[j] for j in range(n)] for t in ts])
    c.eq("offsets", p.offsets[m:], [[(1 - t) * old.offsets[-1][j] + t * o[j] for j in range(n)] for t in ts])


@contract("C12", ["path.FlexPath.turn"])
def flexpath_turn(c):
    n = 2
    p = growing(c, n, 2)
    steps = recorder(c, gdspy.FlexPath, "arc", lambda self, *a: None)
    old = c.snapshot(p)
    angle = c.choice("angle", ["r", "l", "rr", "ll", c.real("angle", -7, 7)])
    r = c.posreal("radius")
    width, offset = given(c, "width", n, c.posreal), given(c, "offset", n, c.real)
    c.same("returns", p.turn(r, angle, width, offset), p)
    by = {"r": -c.pi / 2, "l": c.pi / 2, "rr": -c.pi, "ll": c.pi}[angle] if isinstance(angle, str) else angle
    d = c.atan2(old.points[-1][1] - old.points[-2][1], old.points[-1][0] - old.points[-2][0])
    a0 = d - c.pi / 2 if by >= 0 else d + c.pi / 2
    c.eq("one arc", len(steps.calls), 1)
    c.same("of this path", steps.calls[0][0], p)
    c.eq("arc", list(steps.calls[0][1:]), [r, a0, a0 + by, width, offset])
    c.is_none("cache", p._polygon_dict)


@contract("C12", ["path.FlexPath.turn"])
def flexpath_turn_refused(c):
    p = flexpath(c, "p", 2, points=c.points("spine", 1, 1) if c.flag("x") else c.array([(c.real("x"), c.real("y"))]))
    c.assume(len(p.points) == 1)
    old = c.snapshot(p)
    c.raises("no direction yet", ValueError, lambda: p.turn(c.posreal("radius"), "r"))
    c.eq("points", p.points, old.points)


@contract("C12 C11", ["path.FlexPath.parametric"], budget=240)
def flexpath_parametric(c):
    """samples of the curve in the order of its parameter; between them it deviates by no more than the tolerance"""
    n = 2
    p = growing(c, n)
    p.tolerance = c.posreal("tolerance", 1)
    f = c.curve("curve")
    old = c.snapshot(p)
    relative = c.flag("relative")
    width, offset = c.choice("taper", [(None, None), (c.posreal("width"), c.real("offset")), ([c.posreal("w0"), c.posreal("w1")], [c.real("o0"), c.real("o1")])])
    c.same("returns", p.parametric(f, width, offset, relative), p)
    m = kept(c, p, old)
    w, o = ends_of(c, p, old, n, width, offset)
    last = old.points[-1] if relative else (0, 0)
    g = lambda u: [last[0] + f(u)[0], last[1] + f(u)[1]]
    us = c.parameters(g, [g(0)] + [q for q in p.points[m:]])
    k = len(p.points) - m
    c.eq("on the curve", p.points[m:], [g(u) for u in us[1:]])
    c.eq("whole curve", [us[0], us[-1]], [0, 1])

    def between(pair):
        a, b = pair
        c.check("increasing", a < b)
        q, r, h = f(a), f(b), f(0.5 * a + 0.5 * b)
        dx, dy = 0.5 * (q[0] + r[0]) - h[0], 0.5 * (q[1] + r[1]) - h[1]
        c.leq("within tolerance", dx * dx + dy * dy, p.tolerance * p.tolerance)
    c.forall("pieces", list(zip(us[:-1], us[1:])), between)
    ts = [(i + 1) / k for i in range(k)]
    c.eq("widths", p.widths[m:], [[(1 - t) * old.widths[-1][j] + t * w[j] for j in range(n)] for t in ts])
    c.eq("offsets", p.offsets[m:], [[(1 - t) * old.offsets[-1][j] + t * o[j] for j in range(n)] for t in ts])



@contract("C12", ["path.FlexPath.bezier"])
def flexpath_bezier(c):
    """a Bezier section is the parametric section of that Bezier curve, in absolute coordinates"""
    n = 2
    p = growing(c, n)
    steps = recorder(c, gdspy.FlexPath, "parametric", lambda self, *a: None)
    old = c.snapshot(p)
    k = c.choice("control points", [1, 2, 3])
    pts = [(c.real("x%d" % i), c.real("y%d" % i)) for i in range(k)]
    relative = c.flag("relative")
    width, offset = given(c, "width", n, c.posreal), given(c, "offset", n, c.real)
    c.same("returns", p.bezier(c.choice("points as", [pts, c.array(pts)]), width, offset, relative), p)
    c.eq("one section", len(steps.calls), 1)
    call = steps.calls[0]
    c.same("of this path", call[0], p)
    c.eq("options", list(call[2:]), [width, offset, False])
    u = c.real("u", 0, 1)
    o = old.points[-1]
    ctrl = [(o[0], o[1])] + [(o[0] + q[0], o[1] + q[1]) if relative else q for q in pts]
    c.eq("curve", call[1](u), bernstein(ctrl, u))
    c.is_none("cache", p._polygon_dict)


# ---------------------------------------------------------------- robust paths
@contract("C12", ["path.RobustPath.__init__"])
def robustpath_init(c):
    n = c.choice("elements", [1, 2, 3])
    ws = [c.posreal("width%d" % k) for k in range(n)]
    os_ = [c.real("offset%d" % k) for k in range(n)]
    form = c.choice("given as", ["lists", "widths", "offsets", "numbers"])
    if form == "numbers":
        n = 1
    width = ws if form in ("lists", "widths") else ws[0]
    offset = os_ if form in ("lists", "offsets") else os_[0]
    x, y = c.real("x"), c.real("y")
    layer, datatype = some(c, "layer", c.tag), c.choice("datatypes", [c.tag("datatype"), [c.tag("datatype0"), c.tag("datatype1")]])
    ends = c.choice("ends", ["flush", ["flush", "round"]])
    before = c.snapshot([ws, os_])
    p = gdspy.RobustPath(c.choice("start as", [(x, y), c.array([x, y])]), width, offset, ends, layer=layer, datatype=datatype)
    c.eq("elements", p.n, n)
    c.eq("position", p.x, [x, y])
    c.eq("widths", p.widths, ws if form in ("lists", "widths") else [ws[0]] * n)
    c.eq("offsets", p.offsets, os_ if form in ("lists", "offsets") else [(k - (n - 1) / 2) * os_[0] for k in range(n)] if form == "widths" else [os_[0]])
    c.eq("no sections", p.paths, [[]] * n)
    c.eq("tags", (p.layers, p.datatypes, p.ends), (cyclic(layer, n), cyclic(datatype, n), cyclic(ends, n)))
    c.eq("nothing cached", (p._polygon_dict, p.properties), (None, {}))
    p.segment((c.real("ex"), c.real("ey")), c.posreal("w"), c.real("o"))
    c.eq("arguments unchanged", [ws, os_], before)


def growing_robust(c, n=2):
    p = robustpath(c, "p", n, gdsii_path=c.flag("gdsii_path"))
    p._polygon_dict = {}
    return p


def profile(c, name, n, v, positive):
    """an optional number or function for all elements, or one for each"""
    return c.choice(name, [None, v(name), c.function(name + "()", positive), [v(name + "0"), c.function(name + "1()", positive)]])


def section_ends(c, p, old, width, offset, u):
    """requested width and offset of each element at parameter u of the section"""
    ws, os_ = [], []
    for k in range(old.n):
        w0, o0 = old.widths[k], old.offsets[k]
        w = width[k] if isinstance(width, list) else width
        if w is None or old.gdsii_path:
            ws.append(w0)
        elif callable(w):
            ws.append(w(u))
        else:
            ws.append(w0 * (1 - u) + w * u)
        o = offset[k] if isinstance(offset, list) else offset
        if o is None:
            os_.append(o0)
        elif callable(o):
            os_.append(o(u) if isinstance(offset, list) else o0 + o(u))
        else:
            os_.append(o0 * (1 - u) + (o if isinstance(offset, list) else o0 + o) * u)
    return ws, os_


def new_section(c, p, old, width, offset, curve, gradient, start=True):
    """every element gets one section with the given centre curve and the requested width and offset"""
    u, h = c.real("u", 0, 1), c.real("h", 0, 1)
    w1, o1 = section_ends(c, p, old, width, offset, 1)
    wu, ou = section_ends(c, p, old, width, offset, u)
    c.eq("position", [p.x[0], p.x[1]], [curve(1)[0], curve(1)[1]])
    c.eq("widths", p.widths, w1)
    c.eq("offsets", p.offsets, o1)
    c.is_none("cache", p._polygon_dict)
    for k in range(old.n):
        m = len(old.paths[k])
        c.eq("one more section", len(p.paths[k]), m + 1)
        c.eq("earlier sections", [s.transform for s in p.paths[k][:m]], [s.transform for s in old.paths[k]])
        s = p.paths[k][-1]
        c.eq("centre", [s.x(u)[0], s.x(u)[1]], [curve(u)[0], curve(u)[1]])
        if gradient is not None:
            c.eq("derivative", [s.dx(u, h)[0], s.dx(u, h)[1]], [gradient(u)[0], gradient(u)[1]])
        c.eq("width", s.wid(u), wu[k])
        c.eq("offset", s.off(u), ou[k])
        c.eq("no transformation", s.transform, [[1, 0, 0], [0, 1, 0], [0, 0, 1]])
        c.eq("resolution", (s.err, s.max_evals), (old.tolerance * old.tolerance, old.max_evals))
    if start:
        c.eq("starts at the path's end", [p.paths[0][-1].x(0)[0], p.paths[0][-1].x(0)[1]], [old.x[0], old.x[1]])
    c.eq("unchanged", (p.n, p.layers, p.datatypes, p.properties), (old.n, old.layers, old.datatypes, old.properties))


@contract("C12", ["path.RobustPath.segment", "path.RobustPath._parse_width", "path.RobustPath._parse_offset"])
def robustpath_segment(c):
    p = growing_robust(c)
    old = c.snapshot(p)
    end = (c.real("ex"), c.real("ey"))
    relative = c.flag("relative")
    width, offset = profile(c, "width", 2, c.posreal, True), profile(c, "offset", 2, c.real, False)
    c.same("returns", p.segment(c.choice("as", [end, c.array([end[0], end[1]])]), width, offset, relative), p)
    x, y = old.x[0], old.x[1]
    ex, ey = (x + end[0], y + end[1]) if relative else end
    new_section(c, p, old, width, offset, lambda u: [x * (1 - u) + ex * u, y * (1 - u) + ey * u], lambda u: [ex - x, ey - y])


@contract("C12", ["path.RobustPath.arc"])
def robustpath_arc(c):
    p = growing_robust(c)
    old = c.snapshot(p)
    r, a0, a1 = c.posreal("radius"), c.real("initial", -7, 7), c.real("final", -7, 7)
    width, offset = profile(c, "width", 2, c.posreal, True), profile(c, "offset", 2, c.real, False)
    c.same("returns", p.arc(r, a0, a1, width, offset), p)
    cx, cy = old.x[0] - r * c.cos(a0), old.x[1] - r * c.sin(a0)

    def curve(u):
        a = a0 * (1 - u) + a1 * u
        return [cx + r * c.cos(a), cy + r * c.sin(a)]

    def gradient(u):
        a = a0 * (1 - u) + a1 * u
        return [-r * (a1 - a0) * c.sin(a), r * (a1 - a0) * c.cos(a)]
    new_section(c, p, old, width, offset, curve, gradient)


@contract("C12", ["path.RobustPath.parametric"])
def robustpath_parametric(c):
    p = growing_robust(c)
    old = c.snapshot(p)
    f, df = c.curve("curve"), c.curve("derivative")
    relative, known = c.flag("relative"), c.flag("derivative given")
    width, offset = profile(c, "width", 2, c.posreal, True), profile(c, "offset", 2, c.real, False)
    c.same("returns", p.parametric(f, df if known else None, width, offset, relative), p)
    o = old.x if relative else [0, 0]
    new_section(c, p, old, width, offset, lambda u: [o[0] + f(u)[0], o[1] + f(u)[1]], df if known else None, False)
    if not known:
        u, h = c.real("v", 0, 1), c.real("k", 0.0001, 0.4)
        d = p.paths[0][-1].dx(u, h)
        a, b = u - h if u > h else 0, u + h if u + h < 1 else 1
        c.eq("difference quotient", [d[0] * (b - a), d[1] * (b - a)], [f(b)[0] - f(a)[0], f(b)[1] - f(a)[1]])


@contract("C12", ["path.RobustPath.bezier"])
def robustpath_bezier(c):
    p = growing_robust(c)
    old = c.snapshot(p)
    k = c.choice("control points", [1, 2, 3])
    pts = [(c.real("x%d" % i), c.real("y%d" % i)) for i in range(k)]
    relative = c.flag("relative")
    width, offset = c.choice("profiles", [(None, None), (c.posreal("width"), c.real("offset"))])
    c.same("returns", p.bezier(c.choice("points as", [pts, c.array(pts)]), width, offset, relative), p)
    o = old.x
    ctrl = [(o[0], o[1])] + [(o[0] + q[0], o[1] + q[1]) if relative else q for q in pts]
    d = [(k * (b[0] - a[0]), k * (b[1] - a[1])) for a, b in zip(ctrl, ctrl[1:])]
    new_section(c, p, old, width, offset, lambda u: bernstein(ctrl, u), lambda u: bernstein(d, u))


def turned(c, p, grad, angle, mean):
    """the arc a turn is drawn as"""
    steps = recorder(c, gdspy.RobustPath, "arc", lambda self, *a: None)
    c.patch(_SubPath, "grad", grad)
    r, width, offset = c.posreal("radius"), c.posreal("width"), c.real("offset")
    c.same("returns", p.turn(r, angle, width, offset), p)
    by = {"r": -c.pi / 2, "l": c.pi / 2, "rr": -c.pi, "ll": c.pi}[angle] if isinstance(angle, str) else angle
    c.eq("one arc", len(steps.calls), 1)
    call = steps.calls[0]
    c.same("of this path", call[0], p)
    c.eq("options", [call[1]] + list(call[4:]), [r, width, offset])
    c.eq("angle", call[3] - call[2], by)
    c.is_none("cache", p._polygon_dict)
    return call[2], mean - c.pi / 2 if by >= 0 else mean + c.pi / 2


@contract("C12", ["path.RobustPath.turn"])
def robustpath_turn(c):
    """a turn starts in the direction in which the elements end"""
    p = growing_robust(c)
    v = c.array([c.real("vx"), c.real("vy")])
    c.assume(v[0] * v[0] + v[1] * v[1] > 0.000001)

    def grad(self, u, arm):
        c.eq("at the end of the centre", (u, arm), (1, 0))
        return v
    a, want = turned(c, p, grad, c.choice("angle", ["r", "l", "rr", "ll", c.real("angle", -7, 7)]), c.atan2(v[1], v[0]))
    c.eq("start", a, want)


@contract("C12", ["path.RobustPath.turn"], sym=False, samples=60)
def robustpath_turn_spread(c):
    """a turn starts in the mean of the directions of the elements, wherever that points"""
    p = growing_robust(c)
    mean, half = c.real("mean", -math.pi, math.pi), c.real("half", -1, 1)

    def grad(self, u, arm):
        a = mean + half if self is p.paths[0][-1] else mean - half
        return numpy.array([math.cos(a), math.sin(a)])
    a, want = turned(c, p, grad, c.choice("angle", ["r", "l", "rr", "ll", c.real("angle", -7, 7)]), mean)
    c.eq("start", [math.cos(a), math.sin(a)], [math.cos(want), math.sin(want)])


@contract("C12", ["path.RobustPath.turn"])
def robustpath_turn_refused(c):
    p = robustpath(c, "p", 2, 0)
    c.raises("no direction yet", ValueError, lambda: p.turn(c.posreal("radius"), "r"))
    c.eq("sections", p.paths, [[], []])


@contract("C12", ["path.RobustPath.__call__", "path.RobustPath.grad", "path.RobustPath.width", "path.RobustPath.__len__"])
def robustpath_queries(c):
    """positions, directions and widths are those of the right section of each element"""
    m = 3
    p = robustpath(c, "p", 2, m)
    what = c.choice("query", ["position", "direction", "width"])
    i, u = c.choice("section", [0, 1, 2]), c.real("u", 0, 1)
    at = c.choice("at", ["inside", "join"])
    if at == "inside":
        c.assume(u > 0)
        c.assume(u < 1)
    else:
        u = 0
    arm = c.choice("arm", [-1, 0, 1])
    name = {"position": "__call__", "direction": "grad", "width": "width"}[what]
    calls = []

    def answer(self, *args):
        calls.append((self, list(args)))
        return c.array([7, 8]) if name != "width" else 9
    c.patch(_SubPath, name, answer)
    if what == "position":
        p(i + u, arm)
        want = i, u, [arm]
    elif what == "width":
        p.width(i + u)
        want = i, u, []
    else:
        side = c.choice("side", ["-", "+"])
        p.grad(i + u, arm, side)
        want = (i - 1, 1, [arm]) if at == "join" and side == "-" and i > 0 else (i, u, [arm])
    c.eq("elements", len(calls), 2)
    for k in range(2):
        c.same("section", calls[k][0], p.paths[k][want[0]])
        c.eq("arguments", calls[k][1], [want[1]] + want[2])
    c.eq("length", len(p), m)


@contract("C12", ["path.RobustPath.__call__", "path.RobustPath.grad", "path.RobustPath.width"])
def robustpath_queries_at_end(c):
    m = c.choice("sections", [1, 2])
    p = robustpath(c, "p", 2, m)
    calls = []

    def answer(self, *args):
        calls.append((self, list(args)))
        return c.array([7, 8])
    for name in ("__call__", "grad", "width"):
        c.patch(_SubPath, name, answer)
    p(m, 1)
    p.grad(m, 1)
    p.grad(m, 1, "+")
    p.width(m)
    c.eq("elements", len(calls), 8)
    for k in range(8):
        c.same("section", calls[k][0], p.paths[k % 2][-1])
        c.eq("arguments", calls[k][1], [1, 1] if k < 6 else [1])


# ---------------------------------------------------------------- parametric sections of simple paths
def parametric_section(c, n, max_points, relative, fw, fd, derivative):
    p = simple_path(c, "p", n, direction="+x")
    tol = c.posreal("tolerance", 1)
    f, df = c.curve("curve"), c.curve("derivative", nonzero=True)
    old = c.snapshot(p)
    c.same("returns", p.parametric(f, df if derivative else None, tol, 3, max_points, fw, fd, relative), p)
    m = len(old.polygons)
    o = (old.x, old.y) if relative else (0, 0)
    return p, old, m, f, df, o, tol


@contract("C12", ["polygon.Path.parametric"], budget=240, note="without fracture")
def path_parametric(c):
    """each line is the band of the current width around the curve displaced along its normal"""
    n, relative, fw, fd = c.choice("section", [(1, False, None, None), (2, True, c.posreal("final_width"), c.real("final_distance")), (1, True, c.posreal("final_width"), None)])
    p, old, m, f, df, o, tol = parametric_section(c, n, 0, relative, fw, fd, True)
    c.eq("position", (p.x, p.y), (o[0] + f(1)[0], o[1] + f(1)[1]))
    c.eq("direction", p.direction, c.atan2(df(1)[1], df(1)[0]))
    w1 = old.w if fw is None else fw / 2
    d1 = old.distance if fd is None else fd
    c.eq("width and distance", (p.w, p.distance), (w1, d1))
    c.eq("one polygon per line", len(p.polygons), m + n)
    c.eq("tags", (p.layers[m:], p.datatypes[m:]), ([0] * n, [0] * n))
    c.eq("earlier polygons", p.polygons[:m], old.polygons)
    k = len(p.polygons[m]) // 2

    def middle():
        """the curve itself, between the outer sides of the lines"""
        a, b = p.polygons[m], p.polygons[-1][::-1]
        return [[(a[i][0] + b[i][0]) / 2, (a[i][1] + b[i][1]) / 2] for i in range(k)]
    us = c.parameters(lambda u: [o[0] + f(u)[0], o[1] + f(u)[1]], middle)
    c.eq("whole curve", [us[0], us[-1]], [0, 1])
    for i in range(n):
        sides = []
        for s in (1, -1):
            side = []
            for u in us:
                x, y = f(u)
                dx, dy = df(u)
                norm = c.sqrt(dx * dx + dy * dy)
                h = -line_positions(n)[i] * (old.distance + u * (d1 - old.distance)) + s * (old.w + u * (w1 - old.w))
                side.append((o[0] + x - h * dy / norm, o[1] + y + h * dx / norm))
            sides.append(side)
        c.eq("line %d" % i, p.polygons[m + i], sides[0] + sides[1][::-1])


def corner(p, pts, tol=1e-6):
    """p is one of the vertices"""
    return any(abs(p[0] - q[0]) <= tol and abs(p[1] - q[1]) <= tol for q in pts)


@contract("C12", ["polygon.Path.segment", "polygon.Path.arc", "polygon.Path.turn", "polygon.Path.parametric", "polygon.Path.bezier", "polygon.Path.smooth"], sym=False, samples=120)
def path_history(c):
    """any sequence of sections: every line starts and ends each of them at its place, with its width, and keeps its layer"""
    r = c.rng
    n = r.randint(1, 3)
    w, dist = r.choice([0.5, 1.0, 2.0]), r.choice([3.0, 4.5, -3.0])
    x, y = r.uniform(-50, 50), r.uniform(-50, 50)
    p = gdspy.Path(w, (x, y), n, dist)
    d, length = 0.0, 0.0
    tags = dict(layer=list(range(1, n + 1)), datatype=[7])
    for step in range(r.randint(1, 5)):
        fw, fd = r.choice([None, None, 0.4, 1.5]), r.choice([None, None, 2.5, 5.0])
        w1, d1 = w if fw is None else fw, dist if fd is None else fd
        taper = dict(final_width=fw, final_distance=fd)
        many = dict(tolerance=r.choice([0.001, 0.01, 0.3]), max_points=r.choice([0, 8, 21, 199]))
        old = len(p.polygons)
        what = r.choice(["segment", "bend", "arc", "turn", "parametric", "bezier", "smooth"])
        ca, sa = math.cos(d), math.sin(d)
        exact = True
        if what in ("segment", "bend"):
            l = r.uniform(1, 20)
            to = r.choice([None, "+x", "-x", "+y", "-y", r.uniform(-3, 3)]) if what == "bend" else None
            if to is not None:
                d = angle_of(c, to)
            p.segment(l, to, **taper, **tags)
            ends = (x + l * math.cos(d), y + l * math.sin(d), d, l)
            ca, sa = math.cos(d), math.sin(d)
        elif what in ("arc", "turn"):
            rad = r.uniform(15, 30)
            by = r.choice(["l", "r", "ll", "rr", r.uniform(0.2, 4), -r.uniform(0.2, 4)])
            t = {"l": math.pi / 2, "r": -math.pi / 2, "ll": math.pi, "rr": -math.pi}.get(by, by)
            a0 = d - math.pi / 2 if t > 0 else d + math.pi / 2
            if what == "turn":
                p.turn(rad, by, **many, **taper, **tags)
            else:
                p.arc(rad, a0, a0 + t, **many, **taper, **tags)
            ends = (x - rad * math.cos(a0) + rad * math.cos(a0 + t), y - rad * math.sin(a0) + rad * math.sin(a0 + t), d + t, rad * abs(t))
        else:
            def place(u, v):
                return (u * ca - v * sa, u * sa + v * ca)
            s = r.uniform(15, 30)
            h = r.uniform(-8, 8)
            rel = r.random() < 0.5
            o = (0, 0) if rel else (x, y)
            end = place(s, h)
            if what == "parametric":
                f = lambda u: numpy.array([o[0] + place(s * u, h * u * u)[0], o[1] + place(s * u, h * u * u)[1]])
                df = lambda u: numpy.array(place(s, 2 * h * u))
                exact = r.random() < 0.5
                if fw is not None and r.random() < 0.4:
                    taper["final_width"] = lambda u, a=w, b=w1: a + (b - a) * u * u
                if fd is not None and r.random() < 0.4:
                    taper["final_distance"] = lambda u, a=dist, b=d1: a + (b - a) * u ** 3
                p.parametric(f, df if exact else None, relative=rel, **many, **taper, **tags)
                tangent = place(s, 2 * h)
                ctrl = [(0, 0), place(s / 2, 0), place(s, h)]
            else:
                ctrl = [(0, 0), place(s / 3, 0), place(2 * s / 3, h / 2), end]
                if what == "bezier":
                    p.bezier([(o[0] + q[0], o[1] + q[1]) for q in ctrl[1:]], relative=rel, **many, **taper, **tags)
                    tangent = (end[0] - ctrl[2][0], end[1] - ctrl[2][1])
                else:
                    mid, a1 = place(s / 2, h), r.uniform(-0.7, 0.7)
                    p.smooth([(o[0] + q[0], o[1] + q[1]) for q in (mid, end)], [d, None, d + a1], relative=rel, **many, final_widths=[None, fw], final_distances=[None, fd], **tags)
                    tangent = (math.cos(d + a1), math.sin(d + a1))
            if what == "smooth":
                l = None
            else:
                q = [bernstein(ctrl, k / 2000) for k in range(2001)]
                l = sum(math.hypot(b[0] - a[0], b[1] - a[1]) for a, b in zip(q, q[1:]))
            ends = (x + end[0], y + end[1], math.atan2(tangent[1], tangent[0]), l)
        c.eq("position after " + what, [p.x, p.y], list(ends[:2]), tol=1e-6)
        e = ends[2]
        a = angle_of(c, p.direction)
        c.eq("direction after " + what, [math.cos(a), math.sin(a)], [math.cos(e), math.sin(e)], tol=1e-6 if exact else 0.15)
        c.eq("width and distance after " + what, [2 * p.w, p.distance], [w1, d1])
        if ends[3] is not None:
            c.check("length after " + what, abs(p.length - length - ends[3]) <= (1e-6 if what in ("segment", "bend", "arc", "turn") else 0.05 * ends[3]), "%r instead of %r" % (p.length - length, ends[3]))
        new = list(zip(p.layers, p.polygons))[old:]
        c.eq("as many polygons of each line", len({len([1 for l, q in new if l == k]) for k in tags["layer"]}), 1)
        ce, se = math.cos(e), math.sin(e)
        for i in range(n):
            mine = [q for l, q in new if l == i + 1]
            m = line_positions(n)[i]
            for sign in (-1, 1):
                k = m * dist + sign * w / 2
                c.check("line %d starts %s at its place" % (i, what), corner((x + k * sa, y - k * ca), mine[0], 1e-6 if exact else 0.6), "section %d" % step)
                k = m * d1 + sign * w1 / 2
                c.check("line %d ends %s at its place" % (i, what), corner((ends[0] + k * se, ends[1] - k * ce), mine[-1], 1e-6 if exact else 0.6), "section %d" % step)
        if many["max_points"] >= 4 and what not in ("segment", "bend"):
            c.check("vertices", all(len(q) <= max(many["max_points"], 4) for l, q in new), "max_points %d" % many["max_points"])
        x, y = p.x, p.y
        w, dist, d, length = w1, d1, e if exact else angle_of(c, p.direction), p.length
    c.eq("tags", (len(p.layers), set(p.datatypes)), (len(p.polygons), {7}))


def same_polygons(a, b):
    return len(a) == len(b) and all(p.shape == q.shape and abs(p - q).max() <= 1e-9 for p, q in zip(a, b))


def flex_step(c, what, d, robust):
    """a step of random shape that continues in direction d: list of (method, arguments), displacement of its end, end direction"""
    r = c.rng
    ca, sa = math.cos(d), math.sin(d)

    def place(u, v):
        return (u * ca - v * sa, u * sa + v * ca)
    s, h = r.uniform(15, 30), r.uniform(-8, 8)
    if what == "segment":
        end = place(s, h)
        return "segment", (lambda o: [(o[0] + end[0], o[1] + end[1])]), end, math.atan2(end[1], end[0])
    if what in ("arc", "turn"):
        by = r.choice(["l", "r", "ll", "rr", r.uniform(0.2, 4), -r.uniform(0.2, 4)])
        t = {"l": math.pi / 2, "r": -math.pi / 2, "ll": math.pi, "rr": -math.pi}.get(by, by)
        a0 = d - math.pi / 2 if t > 0 else d + math.pi / 2
        end = (s * (math.cos(a0 + t) - math.cos(a0)), s * (math.sin(a0 + t) - math.sin(a0)))
        return what, (lambda o: [s, by] if what == "turn" else [s, a0, a0 + t]), end, d + t
    end = place(s, h)
    if what == "parametric":
        def args(o):
            f = lambda u: numpy.array([o[0] + place(s * u, h * u * u)[0], o[1] + place(s * u, h * u * u)[1]])
            if robust and r.random() < 0.5:
                return [f, lambda u: numpy.array(place(s, 2 * h * u))]
            return [f]
        return what, args, end, math.atan2(*place(s, 2 * h)[::-1])
    if what == "bezier":
        ctrl = [place(s / 3, 0), place(2 * s / 3, h / 2), end]
        return what, (lambda o: [[(o[0] + q[0], o[1] + q[1]) for q in ctrl]]), end, math.atan2(end[1] - ctrl[1][1], end[0] - ctrl[1][0])
    mid, a1 = place(s / 2, h), r.uniform(-0.7, 0.7)
    return what, (lambda o: [[(o[0] + q[0], o[1] + q[1]) for q in (mid, end)], [d, None, d + a1]]), end, d + a1


def path_steps(c, robust):
    r = c.rng
    n = r.randint(1, 3)
    start = (r.uniform(-50, 50), r.uniform(-50, 50))
    widths, gap = [r.choice([0.5, 1.0, 2.0]) for _ in range(n)], r.choice([3.0, 4.5])
    offsets = [(i - (n - 1) / 2) * gap for i in range(n)]
    layer, datatype = r.choice([3, [1, 2], [5]]), r.choice([7, [1, 2, 3]])
    listed = r.random() < 0.5
    options = dict(offset=list(offsets) if listed or n == 1 else gap, tolerance=r.choice([0.001, 0.01]), max_points=r.choice([0, 199]), layer=layer, datatype=datatype)
    make = (lambda: gdspy.RobustPath(start, list(widths), **options)) if robust else (lambda: gdspy.FlexPath([start], list(widths), **options))
    queried, plain = make(), make()
    x, y, d = start[0], start[1], r.uniform(-3, 3)
    total = 0
    for step in range(r.randint(1, 5)):
        what = r.choice(["segment", "arc", "turn", "parametric", "bezier", "smooth"])
        if what == "turn" and step == 0:
            what = "arc"
        times = 2 if what == "smooth" else 1  # widths and offsets repeat for each Bezier curve
        total += times
        name, args, end, e = flex_step(c, what, d, robust)
        taper = {}
        form = r.choice(["none", "none", "number", "list", "callable" if robust else "none"])
        if form == "number":
            widths = [r.choice([0.4, 1.5])] * n
            taper["width"] = widths[0]
        elif form == "list":
            widths = [r.choice([0.4, 1.5, 2.0]) for _ in range(n)]
            taper["width"] = list(widths)
        elif form == "callable":
            was, widths = list(widths), [1.25] * n
            taper["width"] = [lambda u, a=a: a + (1.25 - a) * u * u for a in was]
        form = r.choice(["none", "none", "number", "list", "callable" if robust else "none"])
        if form == "number":
            by = r.choice([-1.0, 0.5])
            offsets = [o + by * times for o in offsets]
            taper["offset"] = by
        elif form == "list":
            offsets = [o + r.choice([-0.5, 0.25, 0.5]) for o in offsets]
            taper["offset"] = list(offsets)
        elif form == "callable":
            taper["offset"] = lambda u: 0.5 * u ** 2 * (3 - 2 * u)
            offsets = [o + 0.5 * times for o in offsets]
        relative = None
        if what not in ("arc", "turn"):
            relative = r.choice([True, False])
            taper["relative"] = relative
        state = r.getstate()
        for p in (queried, plain):
            r.setstate(state)
            a = args((0, 0) if relative in (True, None) else (x, y))
            c.same("%s returns" % what, getattr(p, name)(*a, **taper), p)
        query = r.choice(["polygons", "by_spec", "set", "area", "none"])
        if query == "polygons":
            queried.get_polygons()
        elif query == "by_spec":
            queried.get_polygons(True)
        elif query == "set":
            queried.to_polygonset()
        elif query == "area":
            queried.area()
        x, y, d = x + end[0], y + end[1], e
        if robust:  # directions are found numerically
            c.eq("end of the spine after " + what, list(queried.x), [x, y], tol=0.05)
            x, y = queried.x
            heading = d
            g = queried.grad(len(queried))  # a turn starts in the average direction of the elements
            d = math.atan2(g[0][1], g[0][0]) + sum(math.atan2(g[0][0] * v[1] - g[0][1] * v[0], g[0][0] * v[0] + g[0][1] * v[1]) for v in g) / n
            c.eq("widths and offsets after " + what, (list(queried.widths), list(queried.offsets)), (widths, offsets), tol=1e-9)
        else:
            c.eq("end of the spine after " + what, list(queried.points[-1]), [x, y], tol=1e-6)
            c.eq("widths and offsets after " + what, (list(queried.widths[-1]), list(queried.offsets[-1])), (widths, offsets), tol=1e-9)
            c.eq("one width and offset for each element and point", (queried.widths.shape, queried.offsets.shape), ((len(queried.points), n),) * 2)
            v = queried.points[-1] - queried.points[-2]
            heading = d = math.atan2(v[1], v[0]) if what != "segment" else d
        if query != "none":
            now, fresh = queried.get_polygons(), plain.__class__.get_polygons
            other = make_copy(plain)
            c.check("queries between the steps change nothing", same_polygons(now, other.get_polygons()), "after " + what)
        c.eq("sections", (len(queried), [len(p) for p in queried.paths]) if robust else 0, (total, [total] * n) if robust else 0)
    both = queried.get_polygons(), plain.get_polygons()
    c.check("queries between the steps change nothing", same_polygons(*both), "at the end")
    spec = queried.get_polygons(True)
    ls, ds = layer if isinstance(layer, list) else [layer], datatype if isinstance(datatype, list) else [datatype]
    c.eq("tags", set(spec), {(ls[i % len(ls)], ds[i % len(ds)]) for i in range(n)})
    if options["max_points"] == 0:
        side = -1 if robust else 1  # positive offsets lie to the left in a FlexPath, to the right in a RobustPath
        normal = (-math.sin(heading) * side, math.cos(heading) * side)
        for i in range(n):
            at = (x + offsets[i] * normal[0], y + offsets[i] * normal[1])
            mine = spec[(ls[i % len(ls)], ds[i % len(ds)])]
            c.check("element %d ends with the last section" % i, any(flush_end(at, widths[i], q, 0.02 if robust else 1e-4) for q in mine), "%s after %d steps" % (what, step + 1))


def flush_end(at, width, pts, tol):
    """consecutive vertices as far apart as the width, with the given point in the middle"""
    for a, b in zip(pts, list(pts[1:]) + [pts[0]]):
        if math.hypot((a[0] + b[0]) / 2 - at[0], (a[1] + b[1]) / 2 - at[1]) <= tol and abs(math.hypot(a[0] - b[0], a[1] - b[1]) - width) <= tol:
            return True
    return False


def make_copy(p):
    """an independent path in the same state, never queried"""
    import copy
    q = copy.copy(p)
    q._polygon_dict = None
    return q


@contract("C12", ["path.FlexPath.segment", "path.FlexPath.arc", "path.FlexPath.turn", "path.FlexPath.parametric", "path.FlexPath.bezier", "path.FlexPath.smooth", "path.FlexPath.get_polygons"], sym=False, samples=60)
def flexpath_history(c):
    """any sequence of steps and queries: the spine ends where each step says and the polygons include every step"""
    path_steps(c, False)


@contract("C12", ["path.RobustPath.segment", "path.RobustPath.arc", "path.RobustPath.turn", "path.RobustPath.parametric", "path.RobustPath.bezier", "path.RobustPath.smooth", "path.RobustPath.get_polygons"], sym=False, samples=30)
def robustpath_history(c):
    """any sequence of steps and queries: the spine ends where each step says and the polygons include every step"""
    path_steps(c, True)

from contracts import c17  # noqa: E402,F401  the contracts of smooth sections

"""C17: smooth interpolating curves pass through their points with continuous tangents"""
import math
import numpy
import gdspy
from vc.contract import contract
from contracts.common import *
from contracts import c12
from gdspy.hobby import _hobby


class Hobby(object):
    """stands for the calculation of control points: records its arguments, gives arbitrary control points"""

    __slots__ = ("calls", "cta", "ctb")

    def compute(self, points, angles=None, curl_start=1, curl_end=1, t_in=1, t_out=1, cycle=False):
        self.calls.append((points, angles, curl_start, curl_end, t_in, t_out, cycle))
        return self.cta, self.ctb


def hobby(c, n):
    return c.new(Hobby, calls=[], cta=c.matrix("cta", n, 2), ctb=c.matrix("ctb", n, 2))


def interpolation(c, name):
    """the curve is the sequence of cubic curves through the points, with the control points computed for them"""
    cur = c.array([c.modest("x"), c.modest("y")])
    tol = c.posreal("tolerance", 1)
    k = c.new(gdspy.Curve, points=c.list("points", None, lambda: c.array([c.modest("px"), c.modest("py")])) + [cur], tol=tol * tol, last_c=None, last_q=cur)
    n = c.count("n", 1)
    pts = c.list("p", n, lambda: (c.modest("qx"), c.modest("qy")))
    form = c.choice("points as", ["list", "array"])
    cycle = c.flag("cycle")
    h = hobby(c, n + 1 if cycle else n)
    c.patch(gdspy.curve, "_hobby", h.compute)
    drawn = []

    def C(self, *xy):
        drawn.append((self, list(xy)))
        return self
    c.patch(gdspy.Curve, "C", C)
    angles = c.choice("angles", [None, [c.real("a0"), None, c.real("a1")]])
    extra = [c.posreal("curl_start"), c.posreal("curl_end"), c.choice("t_in", [c.posreal("t_in"), [c.posreal("t0"), c.posreal("t1")]]), c.posreal("t_out")]
    c.same("returns", getattr(k, name)(c.array(pts) if form == "array" else pts, angles, *extra, cycle), k)
    o = (cur[0], cur[1]) if name == "i" else (0, 0)
    through = [(cur[0], cur[1])] + [(p[0] + o[0], p[1] + o[1]) for p in pts]
    c.eq("one calculation", len(h.calls), 1)
    c.eq("points", h.calls[0][0], c.array(through))
    c.same("angles", h.calls[0][1], angles)
    c.eq("options", list(h.calls[0][2:6]), extra)
    c.eq("cycle", h.calls[0][6], cycle)
    want = []
    for i in range(n):
        want += [h.cta[i][0], h.cta[i][1], h.ctb[i][0], h.ctb[i][1], through[i + 1][0], through[i + 1][1]]
    if cycle:
        want += [h.cta[n][0], h.cta[n][1], h.ctb[n][0], h.ctb[n][1], cur[0], cur[1]]
    c.eq("one command", len(drawn), 1)
    c.same("of this curve", drawn[0][0], k)
    c.eq("cubic curves", drawn[0][1], want)


@contract("C17 C11", ["curve.Curve.I"])
def interpolate(c):
    interpolation(c, "I")


@contract("C17 C11", ["curve.Curve.i"])
def interpolate_relative(c):
    interpolation(c, "i")


# ---------------------------------------------------------------- smooth sections of paths
def smooth_section(c, p, cls, start, call, sections):
    """calls smooth and compares its Bezier sections with those prescribed; the control points are arbitrary"""
    n = c.choice("points", [1, 2, 3])
    pts = [(c.modest("qx%d" % i), c.modest("qy%d" % i)) for i in range(n)]
    form = c.choice("points as", ["list", "array"])
    cycle, relative = c.choice("kind", [(False, True), (False, False), (True, True), (True, False)])
    m = n + 1 if cycle else n
    h = c.new(Hobby, calls=[], cta=c.matrix("cta", m, 2), ctb=c.matrix("ctb", m, 2))
    c.patch(gdspy.polygon if cls is gdspy.Path else gdspy.path, "_hobby", h.compute)
    steps = c12.recorder(c, cls, "bezier", lambda self, *a: None)
    angles = c.choice("angles", [None, [c.real("a0"), None]])
    extra = [c.posreal("curl_start"), c.posreal("curl_end"), c.posreal("t_in"), c.posreal("t_out")]
    c.same("returns", call(c.array(pts) if form == "array" else pts, angles, extra, cycle, relative, m), p)
    through = [start] + [(q[0] + start[0], q[1] + start[1]) if relative else q for q in pts]
    c.eq("one calculation", len(h.calls), 1)
    c.eq("points", h.calls[0][0], c.array(through))
    c.same("angles", h.calls[0][1], angles)
    c.eq("options", list(h.calls[0][2:6]), extra)
    c.eq("cycle", h.calls[0][6], cycle)
    c.eq("as many sections as curves", len(steps.calls), m)
    for i in range(m):
        step = steps.calls[i]
        c.same("section of this path", step[0], p)
        c.eq("section %d" % i, [[q[0], q[1]] for q in step[1]], [[h.cta[i][0], h.cta[i][1]], [h.ctb[i][0], h.ctb[i][1]], list(through[(i + 1) % (n + 1)])])
        c.eq("options of section %d" % i, list(step[2:]), sections(i))


@contract("C17 C12", ["polygon.Path.smooth"])
def path_smooth(c):
    """the sections are the Bezier curves through the points, each with its own final width and distance"""
    p = c12.simple_path(c, "p", 2)
    tol, ev, mp, layer, datatype = c.posreal("tolerance"), c.int("evaluations", 2, 100), c.int("max_points", 0, 199), c.tag("layer"), c.tag("datatype")
    tapered = c.choice("tapered", ["no", "yes"])
    fw = [c.posreal("fw%d" % i) for i in range(4)]
    fd = [c.real("fd%d" % i) for i in range(4)]

    def call(points, angles, extra, cycle, relative, m):
        return p.smooth(points, angles, *extra, cycle, tol, ev, mp, fw[:m] if tapered == "yes" else None, fd[:m] if tapered == "yes" else None, relative, layer, datatype)

    def sections(i):
        return [tol, ev, mp, fw[i] if tapered == "yes" else None, fd[i] if tapered == "yes" else None, False, layer, datatype]
    smooth_section(c, p, gdspy.Path, (p.x, p.y), call, sections)


@contract("C17 C12", ["path.FlexPath.smooth"])
def flexpath_smooth(c):
    p = c12.growing(c, 2)
    width, offset = c.choice("profiles", [(None, None), (c.posreal("width"), [c.real("o0"), c.real("o1")])])
    o = p.points[-1]
    smooth_section(c, p, gdspy.FlexPath, (o[0], o[1]), lambda points, angles, extra, cycle, relative, m: p.smooth(points, angles, *extra, cycle, width, offset, relative), lambda i: [width, offset, False])


@contract("C17 C12", ["path.RobustPath.smooth"])
def robustpath_smooth(c):
    p = c12.growing_robust(c)
    width, offset = c.choice("profiles", [(None, None), (c.posreal("width"), [c.real("o0"), c.real("o1")])])
    smooth_section(c, p, gdspy.RobustPath, (p.x[0], p.x[1]), lambda points, angles, extra, cycle, relative, m: p.smooth(points, angles, *extra, cycle, width, offset, relative), lambda i: [width, offset, False])


# ---------------------------------------------------------------- control points
def tangents(c, n, given, cycle, tension, sides=True):
    """arms of the control points at each point: along the prescribed direction, or one behind the other"""
    pts = c.array([(c.modest("x%d" % i), c.modest("y%d" % i)) for i in range(n)])
    for i in range(n if cycle else n - 1):
        a, b = pts[i], pts[(i + 1) % n]
        c.assume((a[0] - b[0]) * (a[0] - b[0]) + (a[1] - b[1]) * (a[1] - b[1]) > 0)
    angles = None if not any(given) else [c.real("angle%d" % i, -7, 7) if given[i] else None for i in range(n)]
    if tension == "numbers":
        t_in, t_out = c.real("t_in", 0.75, 4), c.real("t_out", 0.75, 4)
    else:
        t_in, t_out = [c.real("t_in%d" % i, 0.75, 4) for i in range(n)], [c.real("t_out%d" % i, 0.75, 4) for i in range(n)]
    cta, ctb = _hobby(pts, angles, c.real("curl_start", 0, 4), c.real("curl_end", 0, 4), t_in, t_out, cycle)
    m = n if cycle else n - 1
    c.eq("one pair for each curve", (cta.shape, ctb.shape), ((m, 2), (m, 2)))
    both = []
    for k in range(n):
        p = pts[k]
        arms = []
        if cycle or k < n - 1:
            arms.append((cta[k][0] - p[0], cta[k][1] - p[1]))
        if cycle or k > 0:
            arms.append((p[0] - ctb[k - 1][0], p[1] - ctb[k - 1][1]))
        if given[k]:
            d = (c.cos(angles[k]), c.sin(angles[k]))
            for v in arms:
                c.eq("direction at %d" % k, v[0] * d[1] - v[1] * d[0], 0)
                both.append(("side at %d" % k, v, d))
        elif len(arms) == 2:
            v, w = arms
            c.eq("tangent at %d" % k, v[0] * w[1] - v[1] * w[0], 0)
            both.append(("no cusp at %d" % k, v, w))
    if not sides:
        c.cover("tangents")
        c.concrete_only()
    for name, v, w in both:
        c.check(name, v[0] * w[0] + v[1] * w[1] > 0)


@contract("C17", ["hobby._hobby"])
def hobby_open(c):
    """the control points on both sides of a point are on a line through it, in the prescribed direction if there is one"""
    n = c.choice("points", [2, 3])
    given = [c.flag("angle %d given" % i) for i in range(n)]
    tangents(c, n, given, False, c.choice("tension", ["numbers", "lists"]))


@contract("C17", ["hobby._hobby"], budget=200)
def hobby_open_more(c):
    n = c.choice("points", [4, 5])
    given = [c.flag("angle %d given" % i) for i in range(n)]
    tangents(c, n, given, False, "lists", sides=False)


@contract("C17", ["hobby._hobby"], budget=200)
def hobby_closed(c):
    """the same for closed curves, around their first point as around the others"""
    n = c.choice("points", [2, 3])
    given = [c.flag("angle %d given" % i) for i in range(n)]
    tangents(c, n, given, True, c.choice("tension", ["numbers", "lists"]), sides=False)


@contract("C17", ["hobby._hobby"], budget=200)
def hobby_closed_four(c):
    given = [c.flag("angle %d given" % i) for i in range(4)]
    tangents(c, 4, given, True, "lists", sides=False)


@contract("C17", ["hobby._hobby"], sym=False, samples=300)
def hobby_many(c):
    """any number of points, some with directions, curls and tensions"""
    n = c.rng.randint(2, 12)
    given = [c.rng.random() < 0.3 for _ in range(n)]
    tangents(c, n, given, c.rng.random() < 0.5, c.rng.choice(["numbers", "lists"]))


@contract("C17", ["curve.Curve.I", "curve.Curve.i", "path.FlexPath.smooth", "path.RobustPath.smooth", "polygon.Path.smooth"], sym=False, samples=120)
def smooth_whole(c):
    """what is drawn passes through all points in order, without corners"""
    r = c.rng
    n = r.randint(2, 6)
    pts, a = [(r.uniform(-20, 20), r.uniform(-20, 20))], r.uniform(-3, 3)
    for _ in range(n - 1):
        a += r.uniform(-1.5, 1.5)
        s = r.uniform(5, 15)
        pts.append((pts[-1][0] + s * math.cos(a), pts[-1][1] + s * math.sin(a)))
    cycle = r.random() < 0.3
    given = [r.random() < 0.4 for _ in range(n)]
    angles = [r.uniform(-3, 3) if g else None for g in given] if any(given) else None
    options = dict(angles=angles, curl_start=r.uniform(0.2, 2), curl_end=r.uniform(0.2, 2), t_in=r.choice([1, 1.5, [r.uniform(0.8, 2) for _ in range(n)]]), t_out=r.choice([1, 0.9]), cycle=cycle)
    relative = r.random() < 0.5
    o = pts[0] if relative else (0, 0)
    rest = [(p[0] - o[0], p[1] - o[1]) for p in pts[1:]]
    what = r.choice(["curve", "flexpath", "robustpath", "path"])
    tol = 1e-4
    if what == "curve":
        k = gdspy.Curve(*pts[0], tolerance=tol)
        (k.i if relative else k.I)(rest, **options)
        line = [(p[0], p[1]) for p in k.get_points()]
        if cycle and line[-1] != line[0]:
            line.append(line[0])  # polygons do not repeat their first point
    elif what == "flexpath":
        line = [(p[0], p[1]) for p in gdspy.FlexPath([pts[0]], 0.1, tolerance=tol).smooth(rest, relative=relative, **options).points]
    elif what == "robustpath":
        p = gdspy.RobustPath(pts[0], 0.1, tolerance=tol).smooth(rest, relative=relative, **options)
        line = [p(i + j / 100.0)[0] for i in range(len(p)) for j in range(100)] + [p(len(p))[0]]
    else:
        p = gdspy.Path(0.1, pts[0]).smooth(rest, relative=relative, tolerance=tol, max_points=0, **options)
        c.eq("sections", len(p.polygons), n if cycle else n - 1)
        line = []
        for q in p.polygons:
            m = len(q) // 2
            line += [((q[j][0] + q[-1 - j][0]) / 2, (q[j][1] + q[-1 - j][1]) / 2) for j in range(m)]
    at = 0
    for p in pts + ([pts[0]] if cycle else []):
        while at < len(line) and math.hypot(line[at][0] - p[0], line[at][1] - p[1]) > 1e-6:
            at += 1
        c.check("through the points in order", at < len(line), "%s misses %r" % (what, p))
    c.check("nothing beyond the last point", math.hypot(line[-1][0] - line[at][0], line[-1][1] - line[at][1]) <= 1e-6, what)

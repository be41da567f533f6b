"""C11: curve commands append the documented points"""
import math
import numpy
import gdspy
from vc.contract import contract
from contracts.common import *
from contracts import c17


def curve(c, form=None):
    """curve with any number of points before the current one"""
    cur = c.array([c.modest("x"), c.modest("y")])
    tol = c.posreal("tolerance", 1)
    k = c.new(
        gdspy.Curve,
        points=c.list("points", None, lambda: c.array([c.modest("px"), c.modest("py")])) + [cur],
        tol=tol * tol,
        last_c=None,
        last_q=None,
    )
    return k, cur, tol


def bernstein(ctrl, u):
    """point of the Bezier curve of the given control points"""
    n = len(ctrl) - 1
    x = y = 0
    for k in range(n + 1):
        w = math.comb(n, k) * u ** k * (1 - u) ** (n - k)
        x = x + w * ctrl[k][0]
        y = y + w * ctrl[k][1]
    return (x, y)


def sampled(c, k, old, pieces, tol):
    """the curve continues its old points by the given pieces, within tolerance"""
    n = c.length(old)
    want = list(old)
    for ctrl in pieces:
        f = lambda u: bernstein(ctrl, u)
        us = c.parameters(f, k.points, n - 1)
        n = n + c.length(us) - 1
        c.eq("start", us[0], 0)
        c.eq("end", us[-1], 1)
        want = want + [c.array([*f(u)]) for u in us[1:]]

        def between(pair):
            a, b = pair
            c.check("increasing", a < b)
            p, q, m = f(a), f(b), f(0.5 * (a + b))
            dx, dy = 0.5 * (p[0] + q[0]) - m[0], 0.5 * (p[1] + q[1]) - m[1]
            c.leq("within tolerance", dx * dx + dy * dy, tol * tol)
        c.forall("pieces", list(zip(us[:-1], us[1:])), between)
    c.eq("points", k.points, want)


def xy(c, name):
    return c.modest(name + ".x"), c.modest(name + ".y")


def pairs(c, name, n, form):
    """n points as given to a command (pairs or complex numbers) and as coordinates"""
    p = [xy(c, "%s%d" % (name, j)) for j in range(n)]
    args = []
    for j in range(n):
        if form == "complex" or form == "mixed" and j % 2 == 0:
            args = args + [c.complex(*p[j])]
        else:
            args = args + list(p[j])
    return p, args


def offset(p, o):
    return [(x + o[0], y + o[1]) for x, y in p]


def memory(c, k, last_c, last_q):
    """control points kept for smooth continuation"""
    for name, got, want in (("last_c", k.last_c, last_c), ("last_q", k.last_q, last_q)):
        if want is None:
            c.is_none(name, got)
        else:
            c.eq(name, got, want)


def bezier_command(c, name, degree, count, smooth):
    """command of Bezier curves of the given degree, each given by its last points (smooth: all but the first control point)"""
    k, cur, tol = curve(c)
    form, given = c.choice("form, same kind before", [("pairs", True), ("complex", False), ("mixed", True)] if count == 1 else [("mixed", True), ("pairs", False)])
    prev = c.array([c.modest("lx"), c.modest("ly")]) if given else None
    before = c.array([c.modest("kx"), c.modest("ky")]) if not given else None
    if degree == 3:
        k.last_c, k.last_q = prev, before
    else:
        k.last_q, k.last_c = prev, before
    old = c.snapshot(k.points)
    per = degree - 1 if smooth else degree
    p, args = pairs(c, "p", per * count, form)
    if name == name.lower():
        p = offset(p, cur)
    pieces = []
    start, ctrl = cur, (prev if given else cur)
    for j in range(count):
        q = p[j * per:(j + 1) * per]
        if smooth:
            q = [(2 * start[0] - ctrl[0], 2 * start[1] - ctrl[1])] + q
        pieces.append([start] + q)
        start, ctrl = q[-1], q[-2]
    c.same("returns", getattr(k, name)(*args), k)
    sampled(c, k, old, pieces, tol)
    memory(c, k, ctrl if degree == 3 else None, ctrl if degree == 2 else None)


@contract("C11", ["curve.Curve.C"])
def cubic(c):
    bezier_command(c, "C", 3, 1, False)


@contract("C11", ["curve.Curve.c"])
def cubic_relative(c):
    bezier_command(c, "c", 3, 1, False)


@contract("C11", ["curve.Curve.S"])
def smooth_cubic(c):
    bezier_command(c, "S", 3, 1, True)


@contract("C11", ["curve.Curve.s"])
def smooth_cubic_relative(c):
    bezier_command(c, "s", 3, 1, True)


@contract("C11", ["curve.Curve.Q"])
def quadratic(c):
    bezier_command(c, "Q", 2, 1, False)


@contract("C11", ["curve.Curve.q"])
def quadratic_relative(c):
    bezier_command(c, "q", 2, 1, False)


@contract("C11", ["curve.Curve.T"])
def smooth_quadratic(c):
    bezier_command(c, "T", 2, 1, True)


@contract("C11", ["curve.Curve.t"])
def smooth_quadratic_relative(c):
    bezier_command(c, "t", 2, 1, True)


@contract("C11", ["curve.Curve.C"], budget=240)
def cubics(c):
    bezier_command(c, "C", 3, 2, False)


@contract("C11", ["curve.Curve.c"], budget=240)
def cubics_relative(c):
    bezier_command(c, "c", 3, 2, False)


@contract("C11", ["curve.Curve.S"], budget=240)
def smooth_cubics(c):
    bezier_command(c, "S", 3, 2, True)


@contract("C11", ["curve.Curve.s"], budget=240)
def smooth_cubics_relative(c):
    bezier_command(c, "s", 3, 2, True)


@contract("C11", ["curve.Curve.Q"], budget=240)
def quadratics(c):
    bezier_command(c, "Q", 2, 2, False)


@contract("C11", ["curve.Curve.q"], budget=240)
def quadratics_relative(c):
    bezier_command(c, "q", 2, 2, False)


@contract("C11", ["curve.Curve.T"], budget=240)
def smooth_quadratics(c):
    bezier_command(c, "T", 2, 2, True)


@contract("C11", ["curve.Curve.t"], budget=240)
def smooth_quadratics_relative(c):
    bezier_command(c, "t", 2, 2, True)


def general(c, name, degree):
    k, cur, tol = curve(c)
    k.last_c, k.last_q = cur, cur
    old = c.snapshot(k.points)
    p, args = pairs(c, "p", degree, "mixed")
    if name == "b":
        p = offset(p, cur)
    c.same("returns", getattr(k, name)(*args), k)
    sampled(c, k, old, [[cur] + p], tol)
    memory(c, k, None, None)


@contract("C11", ["curve.Curve.B"])
def general_bezier(c):
    general(c, "B", 1 + c.choice("degree", [0, 1, 2, 3]))


@contract("C11", ["curve.Curve.b"])
def general_bezier_relative(c):
    general(c, "b", 1 + c.choice("degree", [0, 1, 2, 3]))


def any_points(c, form):
    """any number of points as given to a command and as coordinates"""
    n = c.count("n")
    if form == "complex":
        args = c.list("v", n, lambda: c.complex(c.modest("re"), c.modest("im")))
        return args, [(z.real, z.imag) for z in args]
    v = c.list("v", 2 * n, lambda: c.modest("v"))
    return v, [(v[2 * j], v[2 * j + 1]) for j in range(n)]


def line(c, name):
    k, cur, tol = curve(c)
    k.last_c, k.last_q = cur, cur
    old = c.snapshot(k.points)
    args, p = any_points(c, c.choice("form", ["pairs", "complex"]))
    if name == "l":
        p = offset(p, cur)
    c.same("returns", getattr(k, name)(*args), k)
    c.eq("points", k.points, list(old) + [c.array([x, y]) for x, y in p])
    memory(c, k, None, None)


@contract("C11", ["curve.Curve.L"])
def lines(c):
    line(c, "L")


@contract("C11", ["curve.Curve.l"])
def lines_relative(c):
    line(c, "l")


@contract("C11", ["curve.Curve.L", "curve.Curve.l"])
def lines_mixed(c):
    """pairs and complex numbers in one call"""
    k, cur, tol = curve(c)
    old = c.snapshot(k.points)
    name = c.choice("command", ["L", "l"])
    z = c.complex(c.modest("re"), c.modest("im"))
    x, y = c.modest("x1"), c.modest("y1")
    first = c.flag("complex first")
    p = [(z.real, z.imag), (x, y)] if first else [(x, y), (z.real, z.imag)]
    if name == "l":
        p = offset(p, cur)
    c.same("returns", getattr(k, name)(*([z, x, y] if first else [x, y, z])), k)
    c.eq("points", k.points, list(old) + [c.array([x, y]) for x, y in p])


@contract("C11", ["curve.Curve.H", "curve.Curve.h", "curve.Curve.V", "curve.Curve.v"])
def axis_lines(c):
    k, cur, tol = curve(c)
    k.last_c, k.last_q = cur, cur
    old = c.snapshot(k.points)
    v = c.list("v", None, lambda: c.modest("v"))
    name = c.choice("command", ["H", "h", "V", "v"])
    ox, oy = (cur[0], cur[1]) if name in "hv" else (0, 0)
    c.same("returns", getattr(k, name)(*v), k)
    if name in "Hh":
        c.eq("points", k.points, list(old) + [c.array([ox + t, cur[1]]) for t in v])
    else:
        c.eq("points", k.points, list(old) + [c.array([cur[0], oy + t]) for t in v])
    memory(c, k, None, None)


@contract("C11", ["curve.Curve.__init__"])
def start(c):
    x, y, tol = c.modest("x"), c.modest("y"), c.posreal("tolerance")
    form = c.choice("form", ["pair", "complex", "complex and y"])
    if form == "pair":
        k = gdspy.Curve(x, y, tol)
    elif form == "complex":
        k = gdspy.Curve(c.complex(x, y), tolerance=tol)
    else:
        k = gdspy.Curve(c.complex(x, y), c.modest("other"), tol)
    c.eq("points", k.points, [c.array([x, y])])
    c.eq("tolerance", k.tol, tol * tol)
    memory(c, k, None, None)


@contract("C11", ["curve.Curve.get_points"])
def polygonal_points(c):
    """the points of the curve; the last one is left out where it closes the curve"""
    first = c.array([c.modest("fx"), c.modest("fy")])
    last = c.array([c.modest("lx"), c.modest("ly")])
    tol = c.posreal("tolerance")
    pts = [first] + c.list("points", None, lambda: c.array([c.modest("px"), c.modest("py")]))
    k = c.new(gdspy.Curve, points=pts + [last], tol=tol * tol, last_c=None, last_q=None)
    old = c.snapshot(k.points)
    got = k.get_points()
    dx, dy = last[0] - first[0], last[1] - first[1]
    if dx * dx + dy * dy < tol * tol:
        c.eq("closed", got, c.array(pts))
    else:
        c.eq("open", got, c.array(pts + [last]))
    c.eq("curve", k.points, old)


@contract("C11", ["curve.Curve.arc"])
def curve_arc(c):
    k, cur, tol = curve(c)
    k.last_c, k.last_q = cur, cur
    old = c.snapshot(k.points)
    form = c.choice("radius", ["circle", "ellipse", "ellipse as array"])
    rx = c.posreal("rx", 1000)
    ry = rx if form == "circle" else c.posreal("ry", 1000)
    a0, a1 = c.real("a0", -20, 20), c.real("a1", -20, 20)
    rot = c.choice("rotation", [0, c.real("rot", -7, 7)])
    other = c.real("rot", -7, 7)
    c.assume(other != 0)
    radius = rx if form == "circle" else (rx, ry) if form == "ellipse" else c.array([rx, ry])
    c.same("returns", k.arc(radius, a0, a1, rot), k)
    n = c.length(k.points) - c.length(old)
    c.check("number of points", n >= 2)

    def at(t):
        b = a0 - rot + (a1 - a0) * t
        x, y = rx * c.cos(b), ry * c.sin(b)
        return x * c.cos(rot) - y * c.sin(rot), x * c.sin(rot) + y * c.cos(rot)
    o = at(0)
    want = []
    for j in range(n):
        p = at((j + 1) / n)
        want.append(c.array([cur[0] + p[0] - o[0], cur[1] + p[1] - o[1]]))
    c.eq("points", k.points, list(old) + want)
    memory(c, k, None, None)
    # deviation from the ellipse: at most that of the circle around it, whose half step is below that of the tolerance
    r = rx if rx >= ry else ry
    step = 0.5 * c.abs(a1 - a0) / n
    limit = c.acos(1 - tol / r if tol <= 2 * r else -1)
    c.leq("step", step, limit)
    c.cos_decreasing(step, limit)
    c.leq("within tolerance", r * (1 - c.cos(step)), tol)

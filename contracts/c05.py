"""C05: translate, rotate, scale, mirror"""
import numpy
import gdspy
from vc.contract import contract
from contracts.common import *


@contract("C05", ["polygon.PolygonSet.translate"])
def polygonset_translate(c):
    ps = polygonset(c, "ps")
    dx, dy = c.real("dx"), c.real("dy")
    old = c.snapshot(ps)
    r = ps.translate(dx, dy)
    c.same("returns self", r, ps)
    c.eq("vertices", ps.polygons, [[(p[0] + dx, p[1] + dy) for p in pts] for pts in old.polygons])
    unchanged_tags(c, ps, old)


@contract("C05", ["polygon.PolygonSet.rotate"])
def polygonset_rotate(c):
    ps = polygonset(c, "ps")
    a = c.real("angle")
    cx, cy = c.real("cx"), c.real("cy")
    old = c.snapshot(ps)
    r = ps.rotate(a, (cx, cy))
    c.same("returns self", r, ps)
    c.eq("vertices", ps.polygons, [[rot(c, p, a, (cx, cy)) for p in pts] for pts in old.polygons])
    unchanged_tags(c, ps, old)


@contract("C05", ["polygon.PolygonSet.scale"])
def polygonset_scale(c):
    ps = polygonset(c, "ps")
    sx = c.real("sx")
    sy = c.choice("sy form", [None, c.real("sy")])
    cx, cy = c.real("cx"), c.real("cy")
    old = c.snapshot(ps)
    r = ps.scale(sx, sy, (cx, cy))
    s2 = sx if sy is None else sy
    c.same("returns self", r, ps)
    c.eq("vertices", ps.polygons, [[(cx + sx * (p[0] - cx), cy + s2 * (p[1] - cy)) for p in pts] for pts in old.polygons])
    unchanged_tags(c, ps, old)


@contract("C05", ["polygon.PolygonSet.mirror"])
def polygonset_mirror(c):
    ps = polygonset(c, "ps")
    p1 = (c.real("x1"), c.real("y1"))
    p2 = (c.real("x2"), c.real("y2"))
    c.assume((p1[0] - p2[0]) * (p1[0] - p2[0]) + (p1[1] - p2[1]) * (p1[1] - p2[1]) > 0)
    old = c.snapshot(ps)
    r = ps.mirror(p1, p2)
    c.same("returns self", r, ps)
    c.eq("vertices", ps.polygons, [[mirrored(p, p1, p2) for p in pts] for pts in old.polygons])
    unchanged_tags(c, ps, old)


def simple_path(c, name):
    p = polygonset(c, name)
    return c.new(
        gdspy.Path,
        polygons=p.polygons,
        layers=p.layers,
        datatypes=p.datatypes,
        properties={},
        x=c.real(name + ".x"),
        y=c.real(name + ".y"),
        w=c.posreal(name + ".w"),
        n=c.int(name + ".n", 1, 5),
        direction=c.choice(name + ".direction form", ["+x", "-x", "+y", "-y", c.real(name + ".direction")]),
        distance=c.real(name + ".distance"),
        length=c.posreal(name + ".length"),
    )


def angle_of(c, d):
    if d == "+x":
        return 0.0
    if d == "-x":
        return c.pi
    if d == "+y":
        return c.pi / 2
    if d == "-y":
        return -c.pi / 2
    return d


def unchanged(c, o, old, names):
    for n in names:
        c.eq(n, getattr(o, n), getattr(old, n))


@contract("C05", ["polygon.Path.translate"])
def path_translate(c):
    p = simple_path(c, "p")
    dx, dy = c.real("dx"), c.real("dy")
    old = c.snapshot(p)
    c.same("returns self", p.translate(dx, dy), p)
    c.eq("vertices", p.polygons, [[(q[0] + dx, q[1] + dy) for q in pts] for pts in old.polygons])
    c.eq("position", [p.x, p.y], [old.x + dx, old.y + dy])
    unchanged_tags(c, p, old)
    unchanged(c, p, old, ["w", "n", "direction", "distance", "length"])


def same_angle(c, name, a, b):
    c.check(name + " cosine", c.abs(c.cos(a) - c.cos(b)) <= 1e-9)
    c.check(name + " sine", c.abs(c.sin(a) - c.sin(b)) <= 1e-9)


@contract("C05", ["polygon.Path.rotate"])
def path_rotate(c):
    p = simple_path(c, "p")
    a = c.real("angle", -7, 7)
    o = (c.real("cx"), c.real("cy"))
    old = c.snapshot(p)
    c.same("returns self", p.rotate(a, o), p)
    c.eq("vertices", p.polygons, [[rot(c, q, a, o) for q in pts] for pts in old.polygons])
    c.eq("position", [p.x, p.y], rot(c, (old.x, old.y), a, o))
    c.eq("direction", p.direction, angle_of(c, old.direction) + a)
    unchanged_tags(c, p, old)
    unchanged(c, p, old, ["w", "n", "distance", "length"])


@contract("C05", ["polygon.Path.scale"])
def path_scale(c):
    p = simple_path(c, "p")
    sx = c.posreal("sx")
    sy = c.choice("sy form", [None, c.posreal("sy")])
    o = (c.real("cx"), c.real("cy"))
    old = c.snapshot(p)
    c.same("returns self", p.scale(sx, sy, o), p)
    s2 = sx if sy is None else sy
    c.eq("vertices", p.polygons, [[(o[0] + sx * (q[0] - o[0]), o[1] + s2 * (q[1] - o[1])) for q in pts] for pts in old.polygons])
    c.eq("position", [p.x, p.y], [o[0] + sx * (old.x - o[0]), o[1] + s2 * (old.y - o[1])])
    c.eq("half width", p.w, sx * old.w)
    if sy is None:
        c.eq("distance between the lines", p.distance, sx * old.distance)
        c.eq("length", p.length, sx * old.length)
    unchanged_tags(c, p, old)
    unchanged(c, p, old, ["n", "direction"])


@contract("C05", ["polygon.Path.mirror"])
def path_mirror(c):
    p = simple_path(c, "p")
    p.direction = c.real("direction")
    p1 = (c.real("x1"), c.real("y1"))
    p2 = (c.real("x2"), c.real("y2"))
    vx, vy = p2[0] - p1[0], p2[1] - p1[1]
    c.assume(vx * vx + vy * vy > 0)
    old = c.snapshot(p)
    c.same("returns self", p.mirror(p1, p2), p)
    c.eq("vertices", p.polygons, [[mirrored(q, p1, p2) for q in pts] for pts in old.polygons])
    c.eq("position", [p.x, p.y], mirrored((old.x, old.y), p1, p2))
    unchanged_tags(c, p, old)
    unchanged(c, p, old, ["w", "n", "distance", "length"])


@contract("C05", ["polygon.Path.mirror"])
def path_mirror_direction(c):
    p = simple_path(c, "p")
    p.polygons, p.layers, p.datatypes = [], [], []
    p1 = (c.real("x1"), c.real("y1"))
    p2 = (c.real("x2"), c.real("y2"))
    vx, vy = p2[0] - p1[0], p2[1] - p1[1]
    c.assume(vx * vx + vy * vy > 0)
    old = c.snapshot(p)
    p.mirror(p1, p2)
    # the direction is reflected about the direction of the axis
    c.eq("direction", p.direction, 2 * c.atan2(vy, vx) - angle_of(c, old.direction))


def stale(c, p):
    """computed earlier: anything"""
    return {(1, 1): [c.points("stale.p")]} if c.flag("computed before") else None


def flexpath_any(c):
    p = flexpath(c, "p", 2, gdsii_path=c.flag("gdsii_path"), width_transform=c.flag("width_transform"),
                 ends=c.choice("ends", [["flush", "round"], ["extended", (c.real("ext0"), c.real("ext1"))]]))
    p._polygon_dict = stale(c, p)
    p.properties = some_properties(c)
    return p


def some_properties(c):
    return {} if c.flag("no properties") else {c.int("attr", 1, 127): c.text("value", 126)}


FLEX_KEPT = ["n", "layers", "datatypes", "corners", "bend_radius", "tolerance", "precision", "max_points", "gdsii_path", "width_transform", "properties"]


@contract("C05", ["path.FlexPath.translate"])
def flexpath_translate(c):
    p = flexpath_any(c)
    dx, dy = c.real("dx"), c.real("dy")
    old = c.snapshot(p)
    c.same("returns self", p.translate(dx, dy), p)
    c.eq("spine", p.points, [(q[0] + dx, q[1] + dy) for q in old.points])
    c.is_none("computed polygons dropped", p._polygon_dict)
    unchanged(c, p, old, FLEX_KEPT + ["widths", "offsets", "ends"])


@contract("C05", ["path.FlexPath.rotate"])
def flexpath_rotate(c):
    p = flexpath_any(c)
    a = c.real("angle", -7, 7)
    o = (c.real("cx"), c.real("cy"))
    old = c.snapshot(p)
    c.same("returns self", p.rotate(a, o), p)
    c.eq("spine", p.points, [rot(c, q, a, o) for q in old.points])
    c.is_none("computed polygons dropped", p._polygon_dict)
    unchanged(c, p, old, FLEX_KEPT + ["widths", "offsets", "ends"])


def scaled_ends(ends, s):
    out = []
    for e in ends:
        out.append(tuple([x * s for x in e]) if isinstance(e, tuple) else e)
    return out


@contract("C05", ["path.FlexPath.scale"])
def flexpath_scale(c):
    p = flexpath_any(c)
    s = c.posreal("scale")
    o = (c.real("cx"), c.real("cy"))
    old = c.snapshot(p)
    c.same("returns self", p.scale(s, o), p)
    c.eq("spine", p.points, [(o[0] + s * (q[0] - o[0]), o[1] + s * (q[1] - o[1])) for q in old.points])
    ws = s if old.width_transform or not old.gdsii_path else 1
    c.eq("widths", p.widths, [[w * ws for w in r] for r in old.widths])
    c.eq("offsets", p.offsets, [[w * s for w in r] for r in old.offsets])
    c.eq("ends", p.ends, scaled_ends(old.ends, s))
    c.is_none("computed polygons dropped", p._polygon_dict)
    unchanged(c, p, old, FLEX_KEPT)


def placed(c, q, t, a, s, refl, disp):
    """the placement of a reference: magnify, displace, reflect, rotate, translate"""
    x, y = q[0], q[1]
    if s is not None:
        x, y = x * s, y * s
    if disp is not None:
        x, y = x + disp[0], y + disp[1]
    if refl:
        y = -y
    if a is not None:
        x, y = x * c.cos(a) - y * c.sin(a), x * c.sin(a) + y * c.cos(a)
    if t is not None:
        x, y = x + t[0], y + t[1]
    return (x, y)


def placement(c):
    t = c.choice("translation", [None, c.array([c.real("dx"), c.real("dy")])])
    a = c.choice("rotation", [None, c.real("angle", -7, 7)])
    s = c.choice("scale", [None, c.posreal("mag")])
    refl = c.flag("reflection")
    disp = c.choice("displacement", [None, c.array([c.real("ex"), c.real("ey")])])
    return t, a, s, refl, disp


@contract("C05 C06", ["path.FlexPath.transform"])
def flexpath_transform(c):
    p = flexpath(c, "p", 2, **dict(zip(["gdsii_path", "width_transform"], c.choice("width mode", [(False, True), (True, True), (True, False)])), ends=["flush", (c.real("ext0"), c.real("ext1"))]))
    p._polygon_dict = {(1, 1): [c.points("stale.p")]}
    t, a, s, refl, disp = placement(c)
    old = c.snapshot(p)
    c.same("returns self", p.transform(t, a, s, refl, disp), p)
    c.eq("spine", p.points, [placed(c, q, t, a, s, refl, disp) for q in old.points])
    k = 1 if s is None else s
    ws = k if old.width_transform or not old.gdsii_path else 1
    c.eq("widths", p.widths, [[w * ws for w in r] for r in old.widths])
    if refl:
        # the sign under a reflection is the business of flexpath_transform_reflected_offsets
        c.eq("offsets up to sign", [[w * w for w in r] for r in p.offsets], [[w * k * w * k for w in r] for r in old.offsets])
    else:
        c.eq("offsets", p.offsets, [[w * k for w in r] for r in old.offsets])
    c.eq("ends", p.ends, scaled_ends(old.ends, k))
    c.is_none("computed polygons dropped", p._polygon_dict)
    unchanged(c, p, old, FLEX_KEPT)


@contract("C05 C06", ["path.FlexPath.transform"])
def flexpath_transform_reflected_offsets(c):
    """offsets are measured to the left of the spine: a reflection exchanges left and right"""
    p = flexpath(c, "p", 2)
    s = c.posreal("mag")
    old = c.snapshot(p)
    p.transform(None, None, s, True)
    c.eq("offsets", p.offsets, [[-w * s for w in r] for r in old.offsets])


def shift(dx, dy):
    return [[1, 0, dx], [0, 1, dy], [0, 0, 1]]


@contract("C05", ["path._SubPath.translate", "path._SubPath.scale", "path._SubPath.rotate"])
def subpath_matrices(c):
    s = subpath(c, "s")
    k = c.choice("method", ["translate", "scale", "scale2", "rotate"])
    old = c.snapshot(s)
    a, b = c.real("a"), c.real("b")
    if k == "translate":
        c.same("returns self", s.translate((a, b)), s)
        m = shift(a, b)
    elif k == "scale":
        c.same("returns self", s.scale(a), s)
        m = [[a, 0, 0], [0, a, 0], [0, 0, 1]]
    elif k == "scale2":
        c.same("returns self", s.scale(a, b), s)
        m = [[a, 0, 0], [0, b, 0], [0, 0, 1]]
    else:
        c.same("returns self", s.rotate(a), s)
        m = [[c.cos(a), -c.sin(a), 0], [c.sin(a), c.cos(a), 0], [0, 0, 1]]
    c.eq("transformation", s.transform, compose(m, old.transform))
    c.same("curve", s.x, old.x)
    c.same("derivative", s.dx, old.dx)
    c.same("offset", s.off, old.off)
    c.same("width", s.wid, old.wid)


@contract("C05 C12", ["path._SubPath.__call__"])
def subpath_call(c):
    """point of a section: transformation of centre + offset along the left normal -+ half width"""
    s = subpath(c, "s")
    u = c.real("u", 0, 1)
    arm = c.choice("arm", [-1, 0, 1])
    t = s.transform
    d = s.dx(u, s.h)
    c.assume(d[0] * d[0] + d[1] * d[1] > 0.000001)
    det = t[0, 0] * t[1, 1] - t[0, 1] * t[1, 0]
    side = arm if det >= 0 else -arm
    raw = s(u, side, False)
    if arm == 0:
        n = c.sqrt(d[0] * d[0] + d[1] * d[1])
        q = s.x(u)
        c.eq("centre", raw, [q[0] + s.off(u) * d[1] / n, q[1] - s.off(u) * d[0] / n])
    r = s(u, arm)
    c.eq("point", r, [t[0, 0] * raw[0] + t[0, 1] * raw[1] + t[0, 2], t[1, 0] * raw[0] + t[1, 1] * raw[1] + t[1, 2]])


def moved_sections(c, p, old, m):
    for i in range(2):
        c.eq("transformation of the sections", [s.transform for s in p.paths[i]], [compose(m, s.transform) for s in old.paths[i]])


ROBUST_KEPT = ["n", "layers", "datatypes", "tolerance", "precision", "max_points", "max_evals", "gdsii_path", "width_transform", "properties"]


def robustpath_any(c):
    p = robustpath(c, "p", 2, gdsii_path=c.flag("gdsii_path"), width_transform=c.flag("width_transform"),
                   ends=c.choice("ends", [["flush", "round"], ["extended", (c.real("ext0"), c.real("ext1"))]]))
    p._polygon_dict = stale(c, p)
    return p


@contract("C05", ["path.RobustPath.translate"])
def robustpath_translate(c):
    p = robustpath_any(c)
    dx, dy = c.real("dx"), c.real("dy")
    old = c.snapshot(p)
    c.same("returns self", p.translate(dx, dy), p)
    c.eq("end point", p.x, [old.x[0] + dx, old.x[1] + dy])
    moved_sections(c, p, old, shift(dx, dy))
    c.is_none("computed polygons dropped", p._polygon_dict)
    unchanged(c, p, old, ROBUST_KEPT + ["widths", "offsets", "ends"])


@contract("C05", ["path.RobustPath.rotate"])
def robustpath_rotate(c):
    p = robustpath_any(c)
    a = c.real("angle", -7, 7)
    o = (c.real("cx"), c.real("cy"))
    old = c.snapshot(p)
    c.same("returns self", p.rotate(a, o), p)
    c.eq("end point", p.x, rot(c, old.x, a, o))
    z = rot(c, (0, 0), a, o)
    moved_sections(c, p, old, [[c.cos(a), -c.sin(a), z[0]], [c.sin(a), c.cos(a), z[1]], [0, 0, 1]])
    c.is_none("computed polygons dropped", p._polygon_dict)
    unchanged(c, p, old, ROBUST_KEPT + ["widths", "offsets", "ends"])


@contract("C05", ["path.RobustPath.scale"])
def robustpath_scale(c):
    p = robustpath_any(c)
    k = c.posreal("scale")
    o = (c.real("cx"), c.real("cy"))
    old = c.snapshot(p)
    c.same("returns self", p.scale(k, o), p)
    c.eq("end point", p.x, [o[0] + k * (old.x[0] - o[0]), o[1] + k * (old.x[1] - o[1])])
    moved_sections(c, p, old, [[k, 0, o[0] - k * o[0]], [0, k, o[1] - k * o[1]], [0, 0, 1]])
    ws = k if old.width_transform or not old.gdsii_path else 1
    c.eq("widths", p.widths, [w * ws for w in old.widths])
    c.eq("offsets", p.offsets, [w * k for w in old.offsets])
    c.eq("ends", p.ends, scaled_ends(old.ends, k))
    c.is_none("computed polygons dropped", p._polygon_dict)
    unchanged(c, p, old, ROBUST_KEPT)


@contract("C05 C06", ["path.RobustPath.transform"])
def robustpath_transform(c):
    p = robustpath(c, "p", 2, **dict(zip(["gdsii_path", "width_transform"], c.choice("width mode", [(False, True), (True, True), (True, False)])), ends=["flush", (c.real("ext0"), c.real("ext1"))]))
    p.paths = [p.paths[0], [subpath(c, "sub")]]
    p._polygon_dict = {(1, 1): [c.points("stale.p")]}
    t, a, s, refl, disp = placement(c)
    old = c.snapshot(p)
    c.same("returns self", p.transform(t, a, s, refl, disp), p)
    c.eq("end point", p.x, placed(c, old.x, t, a, s, refl, disp))
    z = placed(c, (0, 0), t, a, s, refl, disp)
    ex = placed(c, (1, 0), t, a, s, refl, disp)
    ey = placed(c, (0, 1), t, a, s, refl, disp)
    moved_sections(c, p, old, [[ex[0] - z[0], ey[0] - z[0], z[0]], [ex[1] - z[1], ey[1] - z[1], z[1]], [0, 0, 1]])
    k = 1 if s is None else s
    ws = k if old.width_transform or not old.gdsii_path else 1
    c.eq("widths", p.widths, [w * ws for w in old.widths])
    # offsets are measured to the left of the spine: a reflection exchanges left and right
    c.eq("offsets", p.offsets, [w * (-k if refl else k) for w in old.offsets])
    c.eq("ends", p.ends, scaled_ends(old.ends, k))
    c.is_none("computed polygons dropped", p._polygon_dict)
    unchanged(c, p, old, ROBUST_KEPT)


LABEL_KEPT = ["layer", "texttype", "text", "anchor", "rotation", "magnification", "x_reflection", "properties"]


@contract("C05", ["label.Label.translate"])
def label_translate(c):
    t = label(c, "t")
    t.position = c.choice("position form", [t.position, (c.real("px"), c.real("py"))])
    t.properties = some_properties(c)
    dx, dy = c.real("dx"), c.real("dy")
    old = c.snapshot(t)
    c.same("returns self", t.translate(dx, dy), t)
    c.eq("position", t.position, [old.position[0] + dx, old.position[1] + dy])
    unchanged(c, t, old, LABEL_KEPT)


@contract("C05", ["library.CellReference.translate", "library.CellArray.translate"])
def reference_translate(c):
    top = cell(c, "A")
    r = c.choice("kind", [reference(c, "r", top), array(c, "a", top)])
    dx, dy = c.real("dx"), c.real("dy")
    old = c.snapshot(r)
    c.same("returns self", r.translate(dx, dy), r)
    c.eq("origin", r.origin, [old.origin[0] + dx, old.origin[1] + dy])
    c.same("cell", r.ref_cell, top)
    unchanged(c, r, old, ["rotation", "magnification", "x_reflection", "properties"])
    if isinstance(r, gdspy.CellArray):
        unchanged(c, r, old, ["columns", "rows", "spacing"])


def l1path(c, name):
    p = polygonset(c, name)
    return c.new(gdspy.L1Path, polygons=p.polygons, layers=p.layers, datatypes=p.datatypes, properties={},
                 x=c.real(name + ".x"), y=c.real(name + ".y"),
                 direction=c.choice(name + ".direction form", ["+x", "-x", "+y", "-y", c.real(name + ".direction")]))


@contract("C05", ["polygon.L1Path.translate", "polygon.L1Path.rotate", "polygon.L1Path.scale"])
def l1path_translate(c):
    p = l1path(c, "p")
    a, b = c.real("a", -7, 7), c.real("b")
    o = (c.real("cx"), c.real("cy"))
    k = c.choice("method", ["translate", "rotate", "scale"])
    old = c.snapshot(p)
    if k == "translate":
        r = p.translate(a, b)
        f = lambda q: (q[0] + a, q[1] + b)
    elif k == "rotate":
        r = p.rotate(a, o)
        f = lambda q: rot(c, q, a, o)
    else:
        c.assume(a > 0)
        c.assume(b > 0)
        r = p.scale(a, b, o)
        f = lambda q: (o[0] + a * (q[0] - o[0]), o[1] + b * (q[1] - o[1]))
    c.same("returns self", r, p)
    c.eq("vertices", p.polygons, [[f(q) for q in pts] for pts in old.polygons])
    c.eq("position", [p.x, p.y], f((old.x, old.y)))
    if k == "rotate":
        c.eq("direction", p.direction, angle_of(c, old.direction) + a)
    else:
        c.eq("direction", p.direction, old.direction)
    unchanged_tags(c, p, old)


@contract("C05", ["polygon.L1Path.mirror"])
def l1path_mirror(c):
    p = l1path(c, "p")
    p1 = (c.real("x1"), c.real("y1"))
    p2 = (c.real("x2"), c.real("y2"))
    vx, vy = p2[0] - p1[0], p2[1] - p1[1]
    c.assume(vx * vx + vy * vy > 0)
    old = c.snapshot(p)
    c.same("returns self", p.mirror(p1, p2), p)
    c.eq("vertices", p.polygons, [[mirrored(q, p1, p2) for q in pts] for pts in old.polygons])
    c.eq("position", [p.x, p.y], mirrored((old.x, old.y), p1, p2))
    c.eq("direction", p.direction, 2 * c.atan2(vy, vx) - angle_of(c, old.direction))
    unchanged_tags(c, p, old)

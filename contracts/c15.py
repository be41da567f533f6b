"""C15: SVG export"""
import io
import re
import math
import xml.etree.ElementTree as etree
import numpy
import gdspy
from vc.contract import contract
from contracts.common import *
from contracts import world, c09

SVG = "{http://www.w3.org/2000/svg}"
HREF = "{http://www.w3.org/1999/xlink}href"


# ---------------------------------------------------------------------------- meaning of a drawing
def numbers(s):
    return [float(x) for x in re.findall(r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?", s)]


def transform(s):
    """matrix of an SVG transformation list (first is outermost)"""
    m = numpy.eye(3)
    for name, args in re.findall(r"(\w+)\s*\(([^)]*)\)", s or ""):
        a = numbers(args)
        k = numpy.eye(3)
        if name == "translate":
            k[:2, 2] = a if len(a) == 2 else (a[0], 0)
        elif name == "scale":
            k[0, 0], k[1, 1] = (a[0], a[0]) if len(a) == 1 else a
        elif name == "rotate":
            t = math.radians(a[0])
            k[:2, :2] = [[math.cos(t), -math.sin(t)], [math.sin(t), math.cos(t)]]
            if len(a) == 3:
                o = numpy.eye(3)
                o[:2, 2] = a[1:]
                q = numpy.eye(3)
                q[:2, 2] = [-a[1], -a[2]]
                k = o @ k @ q
        elif name == "matrix":
            k[0, 0], k[1, 0], k[0, 1], k[1, 1], k[0, 2], k[1, 2] = a
        else:
            raise AssertionError("transformation " + name)
        m = m @ k
    return m


def points(s):
    return numpy.array(numbers(s)).reshape(-1, 2)


def tag(e):
    return e.tag.replace(SVG, "")


def item(e):
    """kind, words, numbers of a drawn element"""
    m = transform(e.get("transform"))
    if tag(e) == "polygon":
        return ("polygon", (e.get("class"),), numpy.concatenate([points(e.get("points")).ravel(), m.ravel()]))
    if tag(e) == "use":
        return ("use", (e.get(HREF) or e.get("href"),), m.ravel())
    if tag(e) == "text":
        return ("text", (e.get("class"), e.get("text-anchor"), e.get("dominant-baseline"), e.text or ""), m.ravel())
    if tag(e) == "g":
        return ("g", (e.get("id"),), m.ravel())
    raise AssertionError("element " + e.tag)


def parse(text):
    return etree.fromstring('<svg xmlns="http://www.w3.org/2000/svg" xmlns:xlink="http://www.w3.org/1999/xlink">' + text + "</svg>")


def items(e):
    out = []
    for x in e:
        out.append(item(x))
        if tag(x) == "g":
            out.extend(items(x))
            out.append(("end", (), numpy.zeros(0)))
    return out


def same_drawing(c, name, got, want, tol=1e-6):
    """symbolically the texts are the same; natively both texts draw the same"""
    if c.symbolic:
        c.eq(name, got, want)
        return
    a, b = items(parse(got)), items(parse(want))
    c.eq(name + ": elements", [x[:2] for x in a], [x[:2] for x in b])
    for x, y in zip(a, b):
        c.check(name + ": coordinates", x[2].shape == y[2].shape and (x[2].size == 0 or numpy.abs(x[2] - y[2]).max() <= tol * (1 + numpy.abs(y[2]).max())), "%r instead of %r" % (x, y))


def num(c, x, p):
    return numpy.format_float_positional(x, trim="0", precision=p)


def precision(c):
    return 6


# ---------------------------------------------------------------------------- elements
@contract("C15", ["polygon.PolygonSet.to_svg"])
def polygonset_to_svg(c):
    ps = polygonset(c, "ps")
    s, d = c.posreal("scaling"), precision(c)
    old = c.snapshot(ps)
    f = c.file(False)
    ps.to_svg(f, s, d)
    want = ""
    for p, l, t in zip(old.polygons, old.layers, old.datatypes):
        want = want + '<polygon class="l{}d{}" points="'.format(l, t) + " ".join([num(c, s * q[0], d) + "," + num(c, s * q[1], d) for q in p]) + '"/>\n'
    same_drawing(c, "polygons", c.written(f), want)
    c.eq("unchanged", ps, old)


def transformations(c, x, s, d):
    out = "translate({} {})".format(num(c, s * x.origin[0], d), num(c, s * x.origin[1], d))
    if x.rotation is not None:
        out = out + " rotate({})".format(num(c, x.rotation, d))
    if x.x_reflection:
        out = out + " scale(1 -1)"
    return out


def magnification(c, x, d):
    return "" if x.magnification is None else " scale({})".format(num(c, x.magnification, d))


def link(t, name):
    return '<use transform="' + t + '" xlink:href="#' + name + '"/>\n'


@contract("C15", ["library.CellReference.to_svg"])
def reference_to_svg(c):
    name = c.text("name", 32, 1)
    held = c.choice("held", [name, cell(c, name)])
    r = reference(c, "ref", held)
    s, d = c.posreal("scaling"), precision(c)
    f = c.file(False)
    r.to_svg(f, s, d)
    same_drawing(c, "use", c.written(f), link(transformations(c, r, s, d) + magnification(c, r, d), name.replace("#", "_")))


@contract("C15", ["library.CellArray.to_svg"])
def array_to_svg(c):
    name = c.text("name", 32, 1)
    r = array(c, "ref", c.choice("held", [name, cell(c, name)]), small=True)
    s, d = c.posreal("scaling"), precision(c)
    f = c.file(False)
    r.to_svg(f, s, d)
    g = c.file(False)
    for i in range(r.columns):
        for j in range(r.rows):
            g.write(link(transformations(c, r, s, d) + " translate({} {})".format(num(c, s * r.spacing[0] * i, d), num(c, s * r.spacing[1] * j, d)) + magnification(c, r, d), name.replace("#", "_")))
    same_drawing(c, "uses", c.written(f), c.written(g))


@contract("C15", ["label.Label.to_svg"])
def label_to_svg(c):
    x = label(c, "label")
    s, d = c.posreal("scaling"), precision(c)
    x.anchor = c.choice("anchor", [0, 1, 2, 4, 5, 6, 8, 9, 10])
    across = {0: "start", 1: "middle", 2: "end"}[x.anchor % 4]
    down = {0: "text-before-edge", 1: "central", 2: "text-after-edge"}[x.anchor // 4]
    old = c.snapshot(x)
    f = c.file(False)
    x.to_svg(f, s, d)
    t = "scale(1 -1) translate({} {})".format(num(c, s * old.position[0], d), num(c, -s * old.position[1], d))
    if x.rotation is not None:
        t = t + " rotate({})".format(num(c, -x.rotation, d))
    if x.x_reflection:
        t = t + " scale(1 -1)"
    t = t + magnification(c, x, d)
    text = x.text.translate({38: "&amp;", 60: "&lt;", 62: "&gt;"})
    same_drawing(c, "text", c.written(f), '<text class="l{}t{}" text-anchor="{}" dominant-baseline="{}" transform="{}">{}</text>\n'.format(x.layer, x.texttype, across, down, t, text))
    c.eq("unchanged", x, old)


class Outlined(gdspy.FlexPath):
    """flexible path of given outlines"""

    __slots__ = ("groups",)

    def get_polygons(self, by_spec=False):
        return self.groups if by_spec else [p for g in self.groups.values() for p in g]


class OutlinedRobust(gdspy.RobustPath):
    __slots__ = ("groups",)

    def get_polygons(self, by_spec=False):
        return self.groups if by_spec else [p for g in self.groups.values() for p in g]


@contract("C15", ["path.FlexPath.to_svg", "path.RobustPath.to_svg"])
def path_to_svg(c):
    groups = {}
    k = c.choice("groups", [0, 1, 2])
    if k > 0:
        groups[(c.tag("l0"), c.tag("d0"))] = c.list("g0", None, lambda: c.points("p"))
    if k > 1:
        groups[(5, 6)] = [c.points("q")]
        c.assume(c.tag("l0") != 5)
    x = c.choice("kind", [c.new(Outlined, groups=groups), c.new(OutlinedRobust, groups=groups)])
    s, d = c.posreal("scaling"), precision(c)
    f, g = c.file(False), c.file(False)
    x.to_svg(f, s, d)
    for (l, t), ps in groups.items():
        for p in ps:
            g.write('<polygon class="l{}d{}" points="'.format(l, t) + " ".join([num(c, s * q[0], d) + "," + num(c, s * q[1], d) for q in p]) + '"/>\n')
    same_drawing(c, "polygons", c.written(f), c.written(g))


class Shape(object):
    """stands for any element: to_svg writes its own drawing (contracts above)"""

    __slots__ = ("ident",)

    def to_svg(self, outfile, scaling, precision):
        outfile.write(mark(self.ident, scaling, precision))


def mark(ident, scaling, precision):
    return '<use transform="translate({} {}) scale({})" xlink:href="#x"/>\n'.format(ident, numpy.format_float_positional(scaling, precision=6), precision)


def shapes(c, name):
    return c.list(name, None, lambda: c.new(Shape, ident=c.int(name + ".ident", 0, 10 ** 6)))


def drawn(c, k, s, d, attributes):
    g = c.file(False)
    g.write('<g id="' + k.name.replace("#", "_") + '" ' + attributes + ">\n")
    for group in (k.polygons, k.paths, k.labels, k.references):
        for x in group:
            g.write(mark(x.ident, s, d))
    g.write("</g>\n")
    return c.written(g)


@contract("C15", ["library.Cell.to_svg"])
def cell_to_svg(c):
    k = c.new(gdspy.Cell, name=c.text("name", 32, 1), polygons=shapes(c, "polygons"), paths=shapes(c, "paths"), labels=shapes(c, "labels"), references=shapes(c, "references"), _bb_valid=False, _bounding_box=None)
    s, d = c.posreal("scaling"), c.choice("precision", [3, 6])
    attributes = c.choice("attributes", ["", 'transform="scale(1 -1)"'])
    old = c.snapshot(k)
    f = c.file(False)
    k.to_svg(f, s, d, attributes)
    same_drawing(c, "group", c.written(f), drawn(c, k, s, d, attributes))
    c.eq("unchanged", k, old)


class Page(gdspy.Cell):
    """cell of given box, drawing classes, dependencies and drawing"""

    __slots__ = ("box", "classes", "others")

    def get_bounding_box(self):
        return None if self.box is None else numpy.array(self.box)

    def get_svg_classes(self):
        return self.classes

    def get_dependencies(self, recursive=False):
        return set(self.others)

    def to_svg(self, outfile, scaling, precision, attributes):
        outfile.write(group(self.name, scaling, precision, attributes))


def group(name, scaling, precision, attributes):
    return '<g id="{}" {}><use transform="scale({}) translate({})" xlink:href="#x"/></g>\n'.format(name, attributes, numpy.format_float_positional(scaling, precision=6), precision)


def colour(l, d):
    import colorsys
    return "rgb({}, {}, {})".format(*[int(255 * v + 0.5) for v in colorsys.hsv_to_rgb((l % 3) / 3.0 + (l % 6 // 3) / 6.0 + (l // 6) / 11.0, 1 - ((l + d) % 8) / 12.0, 1 - (d % 3) / 4.0)])


@contract("C15", ["library.Cell.write_svg"])
def cell_write_svg(c):
    x0, y0 = c.real("x0"), c.real("y0")
    w, h = c.choice("w", [c.posreal("w"), 0]), c.posreal("h")
    d = precision(c)
    ld = [(1, 2), (0, 0), (7, 255)] if c.flag("shapes") else []
    lt = [(1, 2), (9, 0)] if c.flag("texts") else []
    other = c.new(Page, name="other")
    page = c.new(Page, name="top", box=[[x0, y0], [x0 + w, y0 + h]], classes=(set(ld), set(lt)), others=[other] if c.flag("dependency") else [])
    s = c.posreal("scaling")
    background = c.choice("background", ["#222", None])
    padding = c.choice("pad", ["5%", "3", c.real("pad")])
    f = c.file(False)
    styled = c.flag("style")
    style = {(1, 2): {"fill": "red", "stroke": "black"}} if styled else None
    fontstyle = {(1, 2): {"fill": "blue"}} if styled else None
    page.write_svg(f, s, style, fontstyle, background, padding, d)
    p = 0
    if background is not None:
        p = padding
        if isinstance(padding, str):
            p = 3
            if padding == "5%":
                p = (w if w > h else h) * s * 5.0 / 100
    x, y, w, h = s * x0 - p, -s * (y0 + h) - p, s * w + 2 * p, s * h + 2 * p
    if not c.symbolic:
        check_page(c, c.written(f), (x, y, w, h), ld, lt, background, page, s, d)
        return
    g = c.file(False)
    g.write('<?xml version="1.0" encoding="UTF-8"?>\n<svg xmlns="http://www.w3.org/2000/svg" xmlns:xlink="http://www.w3.org/1999/xlink"\n     width="{}" height="{}" viewBox="{} {} {} {}">\n<defs>\n<style type="text/css">\n'.format(num(c, w, d), num(c, h, d), num(c, x, d), num(c, y, d), num(c, w, d), num(c, h, d)))
    for l, t in set(ld):
        g.write(".l%dd%d {" % (l, t) + ("fill: red; stroke: black;" if style is not None and (l, t) in style else "stroke: {}; fill: {}; fill-opacity: 0.5;".format(colour(l, t), colour(l, t))) + "}\n")
    for l, t in set(lt):
        g.write(".l%dt%d {" % (l, t) + ("fill: blue;" if style is not None and (l, t) in style else "stroke: none; fill: {};".format(colour(l, t))) + "}\n")
    g.write("</style>\n")
    for k in page.others:
        g.write(group(k.name, s, d, ""))
    g.write("</defs>\n")
    if background is not None:
        g.write('<rect x="{}" y="{}" width="{}" height="{}" fill="{}" stroke="none"/>\n'.format(num(c, x, d), num(c, y, d), num(c, w, d), num(c, h, d), background))
    g.write(group("top", s, d, 'transform="scale(1 -1)"') + "</svg>")
    c.eq("file", c.written(f), c.written(g))


def styles(text):
    """classes of the style sheet"""
    return re.findall(r"\.(\w+)\s*\{[^}]+\}", text)


def check_page(c, text, box, ld, lt, background, page, s, d):
    e = etree.fromstring(text.encode("utf-8"))
    v = numbers(e.get("viewBox"))
    tol = 1e-5 * (1 + max(abs(q) for q in box))
    c.check("view box", max(abs(a - b) for a, b in zip(v, box)) <= tol, "%r instead of %r" % (v, box))
    c.check("size", max(abs(float(e.get("width")) - box[2]), abs(float(e.get("height")) - box[3])) <= tol)
    css = "".join(q.text or "" for q in e.iter(SVG + "style"))
    have = styles(css)
    want = ["l%dd%d" % k for k in ld] + ["l%dt%d" % k for k in lt]
    c.check("classes", set(want) <= set(have), "%r instead of %r" % (have, want))
    gs = [q for q in e if tag(q) == "g"]
    c.eq("groups", len(gs), 1)
    same_drawing(c, "cell", etree.tostring(gs[0]).decode(), group("top", s, d, 'transform="scale(1 -1)"'))
    defs = [q for k in e if tag(k) == "defs" for q in k if tag(q) == "g"]
    c.eq("definitions", sorted(q.get("id") for q in defs), sorted(k.name for k in page.others))
    for q in defs:
        same_drawing(c, "definition", etree.tostring(q).decode(), group(q.get("id"), s, d, ""))


@contract("C15", ["library.Cell.write_svg"])
def cell_write_nothing(c):
    """nothing is written for a cell without geometry"""
    page = c.new(Page, name="top", box=None, classes=(set(), set()), others=[])
    f = c.file(False)
    page.write_svg(f)
    c.eq("file", c.written(f), "")


# ---------------------------------------------------------------------------- bounded: whole exports
def shapes_of(e, groups, m):
    """drawn polygons (class, points in the page's y-up coordinates) and texts (class, anchors, text, matrix)"""
    ps, ts = [], []
    for x in e:
        k = m @ transform(x.get("transform"))
        if tag(x) == "g":
            a, b = shapes_of(x, groups, k)
            ps, ts = ps + a, ts + b
        elif tag(x) == "polygon":
            ps.append((x.get("class"), points(x.get("points")) @ k[:2, :2].T + k[:2, 2]))
        elif tag(x) == "text":
            ts.append((x.get("class"), x.get("text-anchor"), x.get("dominant-baseline"), x.text or "", k))
        elif tag(x) == "use":
            name = x.get(HREF)[1:]
            if name in groups:
                a, b = shapes_of([groups[name]], groups, k)
                ps, ts = ps + a, ts + b
    return ps, ts


ACROSS, DOWN = ["start", "middle", "end"], ["text-before-edge", "central", "text-after-edge"]


@contract("C15", ["library.Cell.write_svg", "library.Cell.to_svg", "polygon.PolygonSet.to_svg", "label.Label.to_svg"], samples=80, sym=False, note="random hierarchies: the file is parsed and drawn")
def export(c):
    r = c.rng
    ks = world.cells(r)
    if r.random() < 0.3:
        ks[0].name = r.choice(["a#b", "x"])
    top = ks[-1]
    for k in ks:
        for x in k.labels:
            x.text = r.choice(["a<b", "<&>", "plain", "a&amp;", "", 'q"uote'])
    s = r.choice([1, 10, 0.37])
    before = world.contents(ks)
    pad, background = r.choice(["5%", "0", "7", 3, 0]), r.choice([None, "#222", "white"])
    style = {(1, 0): {"fill": "#CC00FF", "stroke": "black"}} if r.random() < 0.5 else None
    if r.random() < 0.5:
        f = io.StringIO()
        top.write_svg(f, s, style=style, background=background, pad=pad, precision=7)
        text = f.getvalue()
    else:
        p = c.disk(b"")
        top.write_svg(p, s, style=style, background=background, pad=pad, precision=7)
        text = c.content(p).decode("utf8")
    c.check("unchanged", world.contents(ks) == before)
    want = world.flat_polygons(top)
    labels = world.flat_labels(top)
    if not want and not labels:
        return
    if not text:
        c.check("no box, no file", top.get_bounding_box() is None)
        return
    e = etree.fromstring(text.encode("utf8"))
    css = "".join(q.text or "" for q in e.iter(SVG + "style"))
    have = set(styles(css))
    groups = {q.get("id"): q for k in e if tag(k) == "defs" for q in k if tag(q) == "g"}
    ps, ts = shapes_of([q for q in e if tag(q) == "g"], groups, numpy.eye(3))
    flip = numpy.array([1, -1])
    c.check("classes", all(k in have for k, p in ps) and all(t[0] in have for t in ts), "undefined class")
    why = world.same_multiset([(k, p * flip) for k, p in ps], [("l%dd%d" % (l, d), s * p) for l, d, p in want], tol=1e-4)
    c.check("polygons", why is None, why)
    c.eq("texts", len(ts), len(labels))
    # position and orientation of each text: upright axes of the label in page coordinates
    rest = []
    for x, m in labels:
        k = numpy.eye(3)
        k[:2, 2] = x.position
        k[:2, :2] = world.linear(x)
        k = numpy.diag([1, -1, 1]) @ numpy.diag([s, s, 1]) @ m @ k @ numpy.diag([1 / s, -1 / s, 1])
        rest.append(("l%dt%d" % (x.layer, x.texttype), ACROSS[x.anchor % 4], DOWN[x.anchor // 4], x.text, k))
    for t in ts:
        hit = [q for q in rest if q[:4] == t[:4] and numpy.abs(q[4] - t[4]).max() <= 1e-4 * (1 + numpy.abs(q[4]).max())]
        c.check("text", bool(hit), "text %r is not expected" % (t,))
        del rest[[i for i, q in enumerate(rest) if q is hit[0]][0]]
    if want:
        bb = world.bbox([p for l, d, p in want])
        v = numbers(e.get("viewBox"))
        w, h = s * (bb[1] - bb[0])
        q = 0
        if background is not None:
            q = max(w, h) * 0.05 if pad == "5%" else float(pad)
        lo = (v[0] - s * bb[0, 0] + q, v[1] + s * bb[1, 1] + q)
        hi = (v[0] + v[2] - s * bb[1, 0] - q, v[1] + v[3] + s * bb[0, 1] - q)
        tol = 1e-4 * (1 + s * numpy.abs(bb).max() + q)
        c.check("view box covers", lo[0] <= tol and lo[1] <= tol and hi[0] >= -tol and hi[1] >= -tol, "%r" % (v,))
        c.check("view box fits", max(abs(k) for k in lo + hi) <= tol, "%r" % (v,))

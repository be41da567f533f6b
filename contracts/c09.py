"""C09: layers and types stay with their polygons"""
import itertools
import numpy
import gdspy
from vc.contract import contract
from contracts.common import *
from contracts import world
from contracts import c06  # noqa: grouped queries and flatten are shared with C06


@contract("C09", ["polygon.PolygonSet.__init__"])
def polygonset_init(c):
    """one layer and one data type per polygon, own copies of the points"""
    polygons = c.list("polygons", None, lambda: c.points("p"))
    layer, datatype = c.tag("layer"), c.tag("datatype")
    p = gdspy.PolygonSet(polygons, layer, datatype)
    c.eq("polygons", p.polygons, polygons)
    c.eq("layers", p.layers, [layer for _ in polygons])
    c.eq("datatypes", p.datatypes, [datatype for _ in polygons])
    c.eq("properties", p.properties, {})


@contract("C09", ["polygon.Polygon.__init__", "polygon.Rectangle.__init__"])
def single_polygon(c):
    layer, datatype = c.tag("layer"), c.tag("datatype")
    if c.flag("polygon"):
        pts = c.points("p")
        p = gdspy.Polygon(pts, layer, datatype)
        c.eq("points", p.polygons, [pts])
    else:
        a, b = (c.real("ax"), c.real("ay")), (c.real("bx"), c.real("by"))
        p = gdspy.Rectangle(a, b, layer, datatype)
        c.eq("corners", p.polygons, [[(a[0], a[1]), (a[0], b[1]), (b[0], b[1]), (b[0], a[1])]])
    c.eq("tags", (p.layers, p.datatypes, p.properties), ([layer], [datatype], {}))


def some(c, name, t):
    """a tag, or a list of one to three tags"""
    return c.choice(name, [t(name), [t(name + "0")], [t(name + "0"), t(name + "1")], [t(name + "0"), t(name + "1"), t(name + "2")]])


def cyclic(t, n):
    return [t[i % len(t)] if isinstance(t, list) else t for i in range(n)]


@contract("C09 C12", ["polygon.Path.segment"])
def path_segment_tags(c):
    n = c.choice("lines", [1, 2, 3])
    p = gdspy.Path(c.posreal("width"), (c.real("x"), c.real("y")), n, c.real("distance"))
    layer, datatype = some(c, "layer", c.tag), some(c, "datatype", c.tag)
    if c.flag("earlier section"):
        p.segment(c.posreal("first"), "+x", layer=9, datatype=8)
    old = c.snapshot(p)
    p.segment(c.posreal("length"), "+y", layer=layer, datatype=datatype)
    c.eq("count", len(p.polygons), len(old.polygons) + n)
    c.eq("layers", p.layers, old.layers + cyclic(layer, n))
    c.eq("datatypes", p.datatypes, old.datatypes + cyclic(datatype, n))
    c.eq("earlier polygons", p.polygons[: len(old.polygons)], old.polygons)


class Tags(object):
    """stands for a path: only its layers and data types matter"""

    __slots__ = ("layers", "datatypes")


class Below(gdspy.Cell):
    """referenced cell whose answers are given"""

    __slots__ = ("answers",)

    def get_layers(self):
        return set(a[0] for a in self.answers)

    def get_datatypes(self):
        return set(a[1] for a in self.answers)

    def get_texttypes(self):
        return set(a[2] for a in self.answers)

    def get_svg_classes(self):
        return set((a[0], a[1]) for a in self.answers), set((a[0], a[2]) for a in self.answers)


class Link(object):
    __slots__ = ("ref_cell",)


def below(c, name):
    return c.new(Below, name=name, polygons=[], paths=[], labels=[], references=[], _bb_valid=False, _bounding_box=None, answers=c.list(name + ".answers", None, lambda: (c.tag(name + ".l"), c.tag(name + ".d"), c.tag(name + ".t"))))


def tag_cell(c):
    def tagged(name, kind, **kw):
        n = c.count(name)
        return c.new(kind, layers=c.list(name + ".layers", n, lambda: c.tag(name + ".layer")), datatypes=c.list(name + ".datatypes", n, lambda: c.tag(name + ".datatype")), **kw)
    refs = c.choice("references", [[], [c.new(Link, ref_cell="name"), c.new(Link, ref_cell=None)], "many"])
    if refs == "many":
        refs = c.list("references", None, lambda: c.new(Link, ref_cell=below(c, "B")))
    return cell(
        c, "A",
        c.list("polygons", None, lambda: tagged("ps", gdspy.PolygonSet, polygons=[], properties={})),
        c.list("paths", None, lambda: tagged("path", Tags)),
        c.list("labels", None, lambda: c.new(gdspy.Label, layer=c.tag("label.layer"), texttype=c.tag("label.texttype"), text="", position=None, anchor=0, rotation=None, magnification=None, x_reflection=False, properties={})),
        refs,
    )


def reach(k):
    return [a for r in k.references if isinstance(r.ref_cell, gdspy.Cell) for a in r.ref_cell.answers]


@contract("C09", ["library.Cell.get_layers"])
def cell_get_layers(c):
    """an arbitrary number is reported exactly if some element, label or referenced cell has that layer"""
    k = tag_cell(c)
    t = c.tag("any")
    want = [l for e in k.polygons for l in e.layers] + [l for e in k.paths for l in e.layers] + [l.layer for l in k.labels] + [a[0] for a in reach(k)]
    c.eq("member", t in k.get_layers(), t in want)


@contract("C09", ["library.Cell.get_datatypes"])
def cell_get_datatypes(c):
    k = tag_cell(c)
    t = c.tag("any")
    want = [l for e in k.polygons for l in e.datatypes] + [l for e in k.paths for l in e.datatypes] + [a[1] for a in reach(k)]
    c.eq("member", t in k.get_datatypes(), t in want)


@contract("C09", ["library.Cell.get_texttypes"])
def cell_get_texttypes(c):
    k = tag_cell(c)
    t = c.tag("any")
    c.eq("member", t in k.get_texttypes(), t in [l.texttype for l in k.labels] + [a[2] for a in reach(k)])


@contract("C09 C15", ["library.Cell.get_svg_classes"])
def cell_drawing_classes(c):
    k = tag_cell(c)
    k.labels = []
    t = (c.tag("any"), c.tag("other"))
    ld, lt = k.get_svg_classes()
    c.eq("drawing class", t in ld, t in [(l, d) for e in k.polygons for l, d in zip(e.layers, e.datatypes)] + [(l, d) for e in k.paths for l, d in zip(e.layers, e.datatypes)] + [(a[0], a[1]) for a in reach(k)])


@contract("C09 C15", ["library.Cell.get_svg_classes"])
def cell_text_classes(c):
    k = tag_cell(c)
    k.paths = []
    t = (c.tag("any"), c.tag("other"))
    ld, lt = k.get_svg_classes()
    c.eq("text class", t in lt, t in [(l.layer, l.texttype) for l in k.labels] + [(a[0], a[2]) for a in reach(k)])


@contract("C09", ["library.Cell.remove_polygons"])
def cell_remove_polygons(c):
    """exactly the polygons for which the predicate holds are gone, with their tags; emptied elements too"""
    k = cell(c, "A", c.list("polygons", None, lambda: polygonset(c, "ps")))
    old = c.snapshot(k)
    layer, datatype, x = c.tag("removed layer"), c.tag("removed datatype"), c.real("x")
    form = c.choice("predicate", [0, 1, 2])
    def test(pts, l, d):
        return l == layer if form == 0 else d == datatype if form == 1 else pts[0][0] < x
    r = k.remove_polygons(test)
    c.same("returns", r, k)
    c.eq("polygons", [p for e in k.polygons for p in e.polygons], [p for e in old.polygons for p, l, d in zip(e.polygons, e.layers, e.datatypes) if not test(p, l, d)])
    c.eq("layers", [p for e in k.polygons for p in e.layers], [l for e in old.polygons for p, l, d in zip(e.polygons, e.layers, e.datatypes) if not test(p, l, d)])
    c.eq("datatypes", [p for e in k.polygons for p in e.datatypes], [d for e in old.polygons for p, l, d in zip(e.polygons, e.layers, e.datatypes) if not test(p, l, d)])


@contract("C09", ["library.Cell.remove_paths", "library.Cell.remove_labels"], note="three elements")
def cell_remove_elements(c):
    items = [c.new(gdspy.Label, layer=c.tag("layer%d" % i), texttype=i, text="", position=None, anchor=0, rotation=None, magnification=None, x_reflection=False, properties={}) for i in range(3)]
    layer = c.tag("removed")
    asked = []
    def test(x):
        asked.append(x.texttype)
        return x.layer == layer
    labels = c.flag("labels")
    k = cell(c, "A", None, None if labels else list(items), list(items) if labels else None)
    r = k.remove_labels(test) if labels else k.remove_paths(test)
    c.same("returns", r, k)
    c.eq("rest", [x.texttype for x in (k.labels if labels else k.paths)], [x.texttype for x in items if not x.layer == layer])
    c.eq("asked once each", asked, [0, 1, 2])


def tag_world(r):
    """polygons of many vertices and different tags"""
    n = r.randint(1, 4)
    ps = gdspy.PolygonSet([])
    for _ in range(n):
        k = r.choice([5, 8, 20, 41])
        x, y, ph = r.uniform(-50, 50), r.uniform(-50, 50), r.uniform(0, 6)
        ps.polygons.append(numpy.array([(x + 10 * (1 + 0.3 * (i % 2)) * numpy.cos(ph + 2 * numpy.pi * i / k), y + 6 * numpy.sin(ph + 2 * numpy.pi * i / k)) for i in range(k)]))
        l, d = world.tags(r)
        ps.layers.append(l)
        ps.datatypes.append(d)
    return ps


def area_by_tag(layers, datatypes, polygons):
    out = {}
    for l, d, p in zip(layers, datatypes, polygons):
        out[(l, d)] = out.get((l, d), 0) + world.shoelace(p)
    return out


def aligned(c, p):
    c.eq("one layer and type per polygon", (len(p.layers), len(p.datatypes)), (len(p.polygons), len(p.polygons)))


@contract("C09", ["polygon.PolygonSet.fracture"], sym=False, samples=60)
def fracture_keeps_tags(c):
    r = c.rng
    ps = tag_world(r)
    ps.properties = {1: "a"}
    want = area_by_tag(ps.layers, ps.datatypes, ps.polygons)
    few = [(l, d, p.tolist()) for l, d, p in zip(ps.layers, ps.datatypes, ps.polygons) if len(p) <= 7]
    m = r.choice([4, 7, 7, 12])
    n = len(ps.polygons)
    c.same("returns", ps.fracture(m, 1e-4), ps)
    aligned(c, ps)
    got = area_by_tag(ps.layers, ps.datatypes, ps.polygons)
    c.eq("tags", sorted(got), sorted(want))
    for k in want:
        c.check("area of each tag", abs(got.get(k, 0) - want[k]) <= 2e-2, repr((k, got.get(k), want[k])))
    c.eq("small polygons", [x for x in few if x in [(l, d, p.tolist()) for l, d, p in zip(ps.layers, ps.datatypes, ps.polygons)]], few)
    if m > 4:
        c.check("at most so many points", all(len(p) <= m for p in ps.polygons))
    else:
        c.eq("no fracture", len(ps.polygons), n)
    c.eq("properties", ps.properties, {1: "a"})


@contract("C09", ["polygon.PolygonSet.fillet"], sym=False, samples=30)
def fillet_keeps_tags(c):
    r = c.rng
    ps = tag_world(r)
    before = list(zip(ps.layers, ps.datatypes))
    c.same("returns", ps.fillet(r.choice([0.1, 0.3]), max_points=r.choice([0, 199, 30])), ps)
    aligned(c, ps)
    c.eq("tags", sorted(set(zip(ps.layers, ps.datatypes))), sorted(set(before)))


@contract("C09", ["polygon.Round.__init__", "polygon.Text.__init__", "polygon.PolyPath.__init__", "polygon.L1Path.__init__", "polygon.Path.arc", "polygon.Path.turn", "polygon.Path.parametric", "polygon.Path.bezier", "polygon.Path.smooth"], sym=False, samples=80)
def shapes_have_tags(c):
    r = c.rng
    l, d = world.tags(r)
    kind = r.randrange(5)
    if kind == 0:
        p = gdspy.Round((world.num(r), world.num(r)), r.uniform(1, 9), r.choice([0, 0.5]), r.choice([0, 0.3]), r.choice([0, 2.0]), tolerance=0.01, max_points=r.choice([0, 20, 199]), layer=l, datatype=d)
        want = None
    elif kind == 1:
        p = gdspy.Text(r.choice(["A", "B8%", "x\ty", "Q\nR"]), 10, (world.num(r), 0), horizontal=r.random() < 0.7, layer=l, datatype=d)
        want = None
    elif kind == 2:
        n = r.randint(1, 3)
        ls, ds = [world.tags(r)[0] for _ in range(r.randint(1, 3))], [world.tags(r)[1] for _ in range(r.randint(1, 3))]
        p = gdspy.PolyPath(world.spine(r, 3), r.choice([0.5, [0.5] * n]), n, 1.5, layer=ls, datatype=ds)
        want = (ls, ds, n)
    elif kind == 3:
        n = r.randint(1, 3)
        ls, ds = [world.tags(r)[0] for _ in range(r.randint(1, 3))], [world.tags(r)[1] for _ in range(r.randint(1, 3))]
        p = gdspy.L1Path((0, 0), r.choice(["+x", "-x", "+y", "-y"]), 0.5, [10, 12, 14], [1, -1], n, 1.5, layer=ls, datatype=ds)
        want = (ls, ds, n)
    else:
        n = r.randint(1, 3)
        p = gdspy.Path(r.choice([0.5, 1.0]), (world.num(r), world.num(r)), n, 3)
        for _ in range(r.randint(1, 4)):
            ls, ds = [world.tags(r)[0] for _ in range(r.randint(1, 3))], [world.tags(r)[1] for _ in range(r.randint(1, 3))]
            tags = dict(layer=ls, datatype=ds)
            many = dict(max_points=r.choice([0, 8, 199]), **tags)
            before, tagged = len(p.polygons), list(zip(p.layers, p.datatypes))
            what = r.randrange(6)
            if what == 0:
                p.segment(r.uniform(1, 9), r.choice(["+x", "-y", 0.3, None]), final_width=r.choice([None, 0.7]), **tags)
            elif what == 1:
                p.arc(r.uniform(6, 9), 0.2, r.choice([1.3, -1.0]), tolerance=0.01, **many)
            elif what == 2:
                p.turn(r.uniform(6, 9), r.choice(["l", "r", "ll", 0.4]), tolerance=0.01, **many)
            elif what == 3:
                p.parametric(lambda u: (10 * u, 3 * u * u), lambda u: (10, 6 * u), tolerance=0.01, **many)
            elif what == 4:
                p.bezier([(5, 0), (9, 5), (12, 5)], tolerance=0.01, **many)
            else:
                p.smooth([(5, 3), (9, 5), (15, 5)], tolerance=0.01, **many)
            aligned(c, p)
            c.eq("earlier tags", list(zip(p.layers, p.datatypes))[:before], tagged)
            new = list(zip(p.layers, p.datatypes))[before:]
            line = [(cyclic(ls, n)[i], cyclic(ds, n)[i]) for i in range(n)]
            c.eq("tags of the lines", sorted(set(new)), sorted(set(line)))
            c.eq("as often for each line", sorted(new), sorted(line * (len(new) // n)))
            if (many["max_points"] != 8 or what == 0) and what != 5:
                c.eq("one polygon per line", new, line)
        return
    aligned(c, p)
    if want is None:
        c.eq("tag", sorted(set(zip(p.layers, p.datatypes))), [(l, d)])
    else:
        c.eq("cyclic", list(zip(p.layers, p.datatypes)), list(zip(cyclic(want[0], want[2]), cyclic(want[1], want[2]))) if len(p.polygons) == want[2] else None)


@contract("C09 C12", ["path.FlexPath.get_polygons", "path.FlexPath.to_polygonset", "path.RobustPath.get_polygons", "path.RobustPath.to_polygonset"], sym=False, samples=60)
def path_elements_have_tags(c):
    """each parallel element keeps its layer and type in every form of the query"""
    r = c.rng
    p = world.flexpath(r) if r.random() < 0.5 else world.robustpath(r)
    n = len(p.widths) if isinstance(p, gdspy.RobustPath) else p.n
    want = list(zip(p.layers, p.datatypes))
    c.eq("tags per element", (len(p.layers), len(p.datatypes)), (n, n))
    groups = p.get_polygons(True)
    c.eq("groups", sorted(groups), sorted(set(want)))
    c.eq("group sizes", {k: len(v) for k, v in groups.items()}, {k: want.count(k) for k in groups})
    ps = p.to_polygonset()
    aligned(c, ps)
    bad = world.same_multiset([((l, d), q) for l, d, q in zip(ps.layers, ps.datatypes, ps.polygons)], [(k, q) for k, v in groups.items() for q in v])
    c.check("same polygons", bad is None, bad)
    plain = world.same_multiset([(0, q) for q in p.get_polygons()], [(0, q) for q in ps.polygons])
    c.check("plain query", plain is None, plain)

from contracts import c16  # noqa: E402,F401 fracture

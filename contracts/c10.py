"""C10: areas"""
import numpy
import gdspy
from vc.contract import contract
from contracts.common import *


def fan(c, p):
    """twice the signed area: triangle fan around the first vertex (= shoelace sum, lemma_fan_is_shoelace)"""
    return c.sum((p[0][0] - p[i + 1][0]) * (p[i][1] - p[0][1]) - (p[0][1] - p[i + 1][1]) * (p[i][0] - p[0][0]) for i in range(1, len(p) - 1))


@contract("C10", ["polygon.PolygonSet.area"])
def polygonset_area(c):
    ps = polygonset(c, "ps")
    old = c.snapshot(ps)
    a = ps.area()
    c.eq("area", a, c.sum(0.5 * c.abs(fan(c, p)) for p in old.polygons))
    c.eq("unchanged", ps, old)


@contract("C10", ["polygon.PolygonSet.area"])
def polygonset_area_by_spec(c):
    ps = polygonset(c, "ps")
    old = c.snapshot(ps)
    a = ps.area(True)
    want = {}
    for p, l, d in zip(old.polygons, old.layers, old.datatypes):
        v = 0.5 * c.abs(fan(c, p))
        if (l, d) in want:
            want[(l, d)] += v
        else:
            want[(l, d)] = v
    c.eq("area", a, want)
    c.eq("unchanged", ps, old)


class Shape(object):
    """stands for any element with an area (contracts polygonset_area, path_area, reference_area)"""

    __slots__ = ("layer", "datatype", "value")

    def area(self, by_spec=False):
        return {(self.layer, self.datatype): self.value} if by_spec else self.value


def shapes(c, name):
    return c.list(name, None, lambda: c.new(Shape, layer=c.tag(name + ".layer"), datatype=c.tag(name + ".datatype"), value=c.posreal(name + ".area")))


def shape_cell(c, name):
    return cell(c, name, shapes(c, name + ".polygons"), shapes(c, name + ".paths"), [], shapes(c, name + ".references"))


def grouped(items):
    want = {}
    for s in items:
        k = (s.layer, s.datatype)
        if k in want:
            want[k] += s.value
        else:
            want[k] = s.value
    return want


@contract("C10", ["library.Cell.area"])
def cell_area(c):
    k = shape_cell(c, "A")
    old = c.snapshot(k)
    c.eq("area", k.area(), c.sum(s.value for s in old.polygons) + c.sum(s.value for s in old.paths) + c.sum(s.value for s in old.references))
    c.eq("unchanged", k, old)


@contract("C10", ["library.Cell.area"])
def cell_area_by_spec(c):
    k = shape_cell(c, "A")
    old = c.snapshot(k)
    a = k.area(True)
    c.eq("grouped", a, grouped(old.polygons + old.paths + old.references))
    c.eq("unchanged", k, old)


@contract("C10", ["library.CellReference.area", "library.CellArray.area"])
def reference_area(c):
    k = cell(c, "A", shapes(c, "polygons"))
    r = c.choice("kind", [reference(c, "r", k), array(c, "a", k)])
    old = c.snapshot(r)
    n = r.columns * r.rows if isinstance(r, gdspy.CellArray) else 1
    f = 1 if r.magnification is None else r.magnification * r.magnification
    c.eq("area", r.area(), c.sum(s.value for s in old.ref_cell.polygons) * n * f)
    c.eq("unchanged", r, old)
    c.same("cell", r.ref_cell, k)


class AreaCell(gdspy.Cell):
    """stands for a cell with areas on two layers (contract cell_area_by_spec)"""

    __slots__ = ("table",)

    def area(self, by_spec=False):
        return dict(self.table)


@contract("C10", ["library.CellReference.area", "library.CellArray.area"], note="two groups")
def reference_area_by_spec(c):
    a, b = c.posreal("a"), c.posreal("b")
    l, d = c.tag("layer"), c.tag("datatype")
    k = c.new(AreaCell, name="A", table={(l, d): a, (l, d + 1): b})
    r = c.choice("kind", [reference(c, "r", k), array(c, "a", k)])
    old = c.snapshot(r)
    n = r.columns * r.rows if isinstance(r, gdspy.CellArray) else 1
    f = 1 if r.magnification is None else r.magnification * r.magnification
    c.eq("grouped", r.area(True), {(l, d): a * n * f, (l, d + 1): b * n * f})
    c.eq("unchanged", r, old)
    c.same("cell", r.ref_cell, k)


@contract("C10", ["library.CellReference.area", "library.CellArray.area"])
def missing_cell_area(c):
    r = c.choice("kind", [reference(c, "r", "missing"), array(c, "a", "missing")])
    c.eq("area", r.area(), 0)
    c.eq("grouped", r.area(True), {})


def path_polygons(c):
    """polygons already computed: two groups with any number of polygons"""
    l, d = c.tag("layer"), c.tag("datatype")
    return {(l, d): c.list("g0", None, lambda: c.points("p0")), (l + 1, d): c.list("g1", None, lambda: c.points("p1"))}


@contract("C10", ["path.FlexPath.area", "path.FlexPath.to_polygonset", "path.RobustPath.area", "path.RobustPath.to_polygonset"])
def path_area(c):
    d = path_polygons(c)
    p = c.choice("kind", [flexpath(c, "f", 2, _polygon_dict=d, max_points=0), robustpath(c, "r", 2, _polygon_dict=d, max_points=0)])
    old = c.snapshot(d)
    c.eq("area", p.area(), c.sum(0.5 * c.abs(fan(c, q)) for v in old.values() for q in v))
    c.eq("polygons", p._polygon_dict, old)


@contract("C10", ["path.FlexPath.area", "path.FlexPath.to_polygonset", "path.RobustPath.area", "path.RobustPath.to_polygonset"], note="one polygon in each of two groups")
def path_area_by_spec(c):
    l, d = c.tag("layer"), c.tag("datatype")
    g = {(l, d): [c.points("p0")], (l + 1, d): [c.points("p1")]}
    p = c.choice("kind", [flexpath(c, "f", 2, _polygon_dict=g, max_points=0), robustpath(c, "r", 2, _polygon_dict=g, max_points=0)])
    old = c.snapshot(g)
    c.eq("grouped", p.area(True), {(l, d): 0.5 * c.abs(fan(c, old[(l, d)][0])), (l + 1, d): 0.5 * c.abs(fan(c, old[(l + 1, d)][0]))})
    c.eq("polygons", p._polygon_dict, old)


@contract("C10", ["polygon.PolygonSet.area"])
def lemma_fan_is_shoelace(c):
    """for triangles to pentagons the fan sum is the shoelace sum (real code, known number of vertices)"""
    n = 3 + c.choice("n", [0, 1, 2])
    p = [(c.real("x%d" % i), c.real("y%d" % i)) for i in range(n)]
    ps = c.new(gdspy.PolygonSet, polygons=[c.array([[x, y] for x, y in p])], layers=[1], datatypes=[2], properties={})
    s = sum(p[i][0] * p[(i + 1) % n][1] - p[(i + 1) % n][0] * p[i][1] for i in range(n))
    c.eq("shoelace", ps.area(), 0.5 * c.abs(s))


@contract("C10", ["library.Cell.area", "library.CellReference.area", "library.CellArray.area", "path.FlexPath.area", "path.RobustPath.area", "polygon.PolygonSet.area"], sym=False, samples=120, note="whole random hierarchies against an independent evaluation")
def hierarchy_area(c):
    from contracts import world as w
    k = w.cells(c.rng)[-1]
    before = w.content(k)
    total, groups = k.area(), k.area(True)
    want = {}
    for l, d, p in w.flat_polygons(k):
        want[(l, d)] = want.get((l, d), 0) + w.shoelace(p)
    c.eq("total", total, sum(want.values()))
    c.eq("groups", sorted(groups), sorted(want))
    for g in want:
        c.eq("group", groups[g], want[g])
    c.eq("unchanged", w.content(k), before)

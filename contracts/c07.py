"""C07: bounding boxes"""
import numpy
import gdspy
from vc.contract import contract
from contracts.common import *
from contracts import world


def contained(c, name, bb, points):
    def inside(q):
        for k in (0, 1):
            c.check(name, bb[0][k] <= q[k])
            c.check(name, q[k] <= bb[1][k])
    c.forall(name, points, inside)


@contract("C07", ["polygon.PolygonSet.get_bounding_box"])
def polygonset_box(c):
    ps = polygonset(c, "ps")
    old = c.snapshot(ps)
    bb = ps.get_bounding_box()
    c.eq("unchanged", ps, old)
    if len(old.polygons) == 0:
        c.is_none("no geometry", bb)
    else:
        c.eq("shape", bb.shape, (2, 2))
        c.eq("tight", bb, [[min(min(q[k] for q in p) for p in old.polygons) for k in (0, 1)], [max(max(q[k] for q in p) for p in old.polygons) for k in (0, 1)]])


@contract("C07", ["polygon.PolygonSet.get_bounding_box"])
def polygonset_box_contains(c):
    ps = polygonset(c, "ps", 1)
    bb = ps.get_bounding_box()
    contained(c, "contains", bb, [q for p in ps.polygons for q in p])


class Outline(object):
    """stands for a path: its polygons (None without geometry, contract empty_paths)"""

    __slots__ = ("points",)

    def to_polygonset(self):
        return self.points


class Box(object):
    """stands for a reference of known bounding box (contract reference_box)"""

    __slots__ = ("box",)

    def get_bounding_box(self):
        return None if self.box is None else numpy.array(self.box)


LIMIT = 10 ** 299


def tight(c, name, bb, points):
    """bb is the smallest box around the given points"""
    if len(points) == 0:
        c.is_none(name + ": no geometry", bb)
    else:
        for k in (0, 1):
            c.eq(name + " low", bb[0][k], min(q[k] for q in points))
            c.eq(name + " high", bb[1][k], max(q[k] for q in points))


@contract("C07", ["library.Cell.get_bounding_box"])
def cell_box_polygons(c):
    k = cell(c, "A", c.list("polygons", None, lambda: polygonset(c, "ps", 0, LIMIT)))
    old = c.snapshot(k)
    bb = k.get_bounding_box()
    tight(c, "box", bb, [q for s in old.polygons for p in s.polygons for q in p])
    c.eq("polygons", k.polygons, old.polygons)


def outline(c, name, bound=None):
    return c.new(Outline, points=polygonset(c, name, 1, bound) if c.flag(name + " given") else None)


@contract("C07", ["library.Cell.get_bounding_box"])
def cell_box_paths(c):
    """paths contribute the polygons of their outline; those without geometry nothing"""
    k = cell(c, "A", [polygonset(c, "ps", 0, LIMIT)] if c.flag("polygons") else [], [outline(c, "first", LIMIT)])
    old = c.snapshot(k)
    bb = k.get_bounding_box()
    tight(c, "box", bb, [q for s in old.polygons for p in s.polygons for q in p] + [q for s in old.paths if s.points is not None for p in s.points.polygons for q in p])


@contract("C07", ["library.Cell.get_bounding_box"])
def cell_box_many_paths(c):
    k = cell(c, "A", None, c.list("paths", None, lambda: c.new(Outline, points=polygonset(c, "ps", 1, LIMIT))))
    old = c.snapshot(k)
    bb = k.get_bounding_box()
    tight(c, "box", bb, [q for s in old.paths for p in s.points.polygons for q in p])


def corners(c, name):
    """any box"""
    x, y = c.real(name + ".x"), c.real(name + ".y")
    return [[x, y], [x + c.posreal(name + ".w"), y + c.posreal(name + ".h")]]


def cached(c, name, own, references):
    k = cell(c, name, None, None, None, references)
    k._bb_valid = True
    k._bounding_box = None if own is None else c.array(own)
    return k


@contract("C07", ["library.Cell.get_bounding_box"])
def cell_box_references(c):
    """own box and the boxes of any number of references"""
    own = corners(c, "own") if c.flag("own geometry") else None
    k = cached(c, "A", own, c.list("references", None, lambda: c.new(Box, box=corners(c, "box"))))
    bb = k.get_bounding_box()
    tight(c, "box", bb, ([] if own is None else own) + [q for r in k.references for q in r.box])


@contract("C07", ["library.Cell.get_bounding_box"])
def cell_box_empty_references(c):
    """references without geometry do not count"""
    own = corners(c, "own") if c.flag("own geometry") else None
    refs = [c.new(Box, box=corners(c, "first") if c.flag("first") else None), c.new(Box, box=corners(c, "second") if c.flag("second") else None)]
    k = cached(c, "A", own, refs)
    bb = k.get_bounding_box()
    tight(c, "box", bb, ([] if own is None else own) + [q for r in refs if r.box is not None for q in r.box])


@contract("C07", ["library.Cell.get_bounding_box"])
def cell_box_is_a_copy(c):
    """changing a returned box does not affect later answers"""
    refs = [c.new(Box, box=corners(c, "box"))] if c.flag("reference") else []
    k = cell(c, "A", [c.new(gdspy.PolygonSet, polygons=[c.points("p", bound=LIMIT)], layers=[0], datatypes=[0], properties={})], None, None, refs)
    first = k.get_bounding_box()
    want = [[first[0][0], first[0][1]], [first[1][0], first[1][1]]]
    first[0][0] = c.real("other")
    first[1][1] = c.real("another")
    c.eq("same answer", k.get_bounding_box(), want)


def twin(c, k):
    """cell of the same content that never computed its box"""
    return cell(c, "twin", k.polygons, k.paths, k.labels, k.references)


@contract("C07", ["library.Cell.add", "library.Cell.get_bounding_box"])
def bounding_box_after_add(c):
    """whatever was cached before, adding geometry is seen by the next query"""
    k = cell(c, "A", c.list("polygons", None, lambda: polygonset(c, "ps", 0, LIMIT)))
    k._bb_valid = True
    k._bounding_box = c.choice("cached", [None, c.array(corners(c, "old"))])
    new = polygonset(c, "new", 1, LIMIT)
    k.add(c.choice("form", [new, [new], (new, new)]))
    c.eq("next query", k.get_bounding_box(), twin(c, k).get_bounding_box())


@contract("C07", ["library.Cell.add", "library.Cell.get_bounding_box"])
def bounding_box_after_add_reference(c):
    k = cell(c, "A", [c.new(gdspy.PolygonSet, polygons=[c.points("p", bound=LIMIT)], layers=[0], datatypes=[0], properties={})], None, None, [c.new(Box, box=corners(c, "box"))])
    target = cached(c, "B", corners(c, "target"), [])
    before = k.get_bounding_box()
    o = (c.real("ox"), c.real("oy"))
    k.add(gdspy.CellReference(target, o))
    bb = k.get_bounding_box()
    for i in (0, 1):
        c.eq("low", bb[0][i], min(before[0][i], target._bounding_box[0][i] + o[i]))
        c.eq("high", bb[1][i], max(before[1][i], target._bounding_box[1][i] + o[i]))


@contract("C07", ["library.Cell.remove_polygons", "library.Cell.get_bounding_box"])
def bounding_box_invalidation(c):
    """removing polygons is seen by the next query"""
    k = cell(c, "A", [polygonset(c, "ps", 1, LIMIT)])
    k._bb_valid = True
    k._bounding_box = c.choice("cached", [None, c.array(corners(c, "old"))])
    layer = c.tag("removed")
    k.remove_polygons(lambda pts, l, d: l == layer)
    c.eq("next query", k.get_bounding_box(), twin(c, k).get_bounding_box())


@contract("C07", ["library.Cell.remove_paths", "library.Cell.get_bounding_box"])
def bounding_box_after_remove_paths(c):
    k = cell(c, "A", None, [c.new(Outline, points=polygonset(c, "out%d" % i, 1, LIMIT)) for i in range(2)])
    k._bb_valid = True
    k._bounding_box = c.choice("cached", [None, c.array(corners(c, "old"))])
    gone = [p for p in k.paths if c.flag("remove")]
    k.remove_paths(lambda p: any(p is q for q in gone))
    c.eq("next query", k.get_bounding_box(), twin(c, k).get_bounding_box())


def reached(c, ref, points, disp=(0, 0)):
    """where a reference puts the given points"""
    m = 1 if ref.magnification is None else ref.magnification
    a = 0 if ref.rotation is None else ref.rotation * c.pi / 180
    s = -1 if ref.x_reflection else 1
    out = []
    for q in points:
        x, y = q[0] * m + disp[0], s * (q[1] * m + disp[1])
        out.append((ref.origin[0] + x * c.cos(a) - y * c.sin(a), ref.origin[1] + x * c.sin(a) + y * c.cos(a)))
    return out


def target_cell(c):
    return cached(c, "B", corners(c, "own") if c.flag("geometry") else None, [])


@contract("C07", ["library.CellReference.get_bounding_box", "library.CellReference._transform_polygons"])
def reference_box(c):
    """box of a cardinally rotated reference: the placed box of the cell"""
    k = target_cell(c)
    ref = c.new(gdspy.CellReference, ref_cell=k, origin=(c.real("ox"), c.real("oy")), rotation=c.choice("rotation", [None, 0, 90, 180, 270, -90, 450]), magnification=optional(c, "magnification", c.posreal("magnification")), x_reflection=c.bool("x_reflection"), properties={})
    bb = ref.get_bounding_box()
    if k._bounding_box is None:
        c.is_none("no geometry", bb)
    else:
        b = k._bounding_box
        tight(c, "box", bb, reached(c, ref, [(b[i][0], b[j][1]) for i in (0, 1) for j in (0, 1)]))
        c.eq("cell's box", k._bounding_box, b)


class Drawn(gdspy.Cell):
    """cell of known flattened polygons (contracts of C06)"""

    __slots__ = ("drawn",)

    def get_polygons(self, by_spec=False, depth=None):
        return [numpy.array(p) for p in self.drawn]


def drawn(c):
    k = c.new(Drawn, name="B", polygons=[], paths=[], labels=[], references=[], _bb_valid=True, _bounding_box=None, drawn=c.list("drawn", None, lambda: c.points("p")))
    return k


def boxed(c, kind, rotation, ref_cell):
    v = dict(ref_cell=ref_cell, origin=(c.real("ox"), c.real("oy")), rotation=rotation, magnification=optional(c, "magnification", c.posreal("magnification")), x_reflection=c.bool("x_reflection"), properties={})
    if kind is gdspy.CellArray:
        v.update(columns=c.count("columns", 1), rows=c.count("rows", 1), spacing=(c.real("sx"), c.real("sy")))
    return c.new(kind, **v)


@contract("C07", ["library.CellReference.get_bounding_box", "library.CellReference.get_polygons"])
def reference_box_rotated(c):
    """box of an otherwise rotated reference: the placed polygons of the cell"""
    k = drawn(c)
    ref = boxed(c, gdspy.CellReference, c.choice("rotation", [30, c.real("angle")]), k)
    if ref.rotation % 90 != 0:
        bb = ref.get_bounding_box()
        tight(c, "box", bb, [q for p in k.drawn for q in reached(c, ref, p)])


@contract("C07", ["library.CellReference.get_bounding_box", "library.CellArray.get_bounding_box"])
def missing_cell_box(c):
    kind = c.choice("kind", [gdspy.CellReference, gdspy.CellArray])
    c.is_none("no geometry", boxed(c, kind, c.choice("rotation", [None, 30]), "name").get_bounding_box())


@contract("C07", ["library.CellArray.get_bounding_box", "library.CellArray._transform_polygons"])
def array_box(c):
    k = target_cell(c)
    ref = boxed(c, gdspy.CellArray, c.choice("rotation", [None, 90, 180]), k)
    bb = ref.get_bounding_box()
    if k._bounding_box is None:
        c.is_none("no geometry", bb)
    else:
        b = k._bounding_box
        tight(c, "box", bb, [q for i in range(ref.columns) for j in range(ref.rows) for q in reached(c, ref, [(b[m][0], b[n][1]) for m in (0, 1) for n in (0, 1)], (i * ref.spacing[0], j * ref.spacing[1]))])


@contract("C07", ["library.CellArray.get_bounding_box", "library.CellArray._transform_polygons"])
def array_box_rotated(c):
    k = drawn(c)
    ref = boxed(c, gdspy.CellArray, 30, k)
    c.assume(ref.x_reflection)
    if ref.magnification is None:
        return
    bb = ref.get_bounding_box()
    tight(c, "box", bb, [q for i in range(ref.columns) for j in range(ref.rows) for p in k.drawn for q in reached(c, ref, p, (i * ref.spacing[0], j * ref.spacing[1]))])


@contract("C07", ["path.FlexPath.get_polygons", "path.FlexPath.to_polygonset", "path.RobustPath.get_polygons", "path.RobustPath.to_polygonset"], sym=False, samples=30)
def empty_paths(c):
    """paths without a section have no geometry, and do not disturb the cell that holds them"""
    r = c.rng
    n = r.randint(1, 3)
    p = r.choice([
        lambda: gdspy.FlexPath([(world.num(r), world.num(r))], [0.5] * n),
        lambda: gdspy.FlexPath((world.num(r), world.num(r)), [0.5] * n, [0.1 * i for i in range(n)]),
        lambda: gdspy.RobustPath((world.num(r), world.num(r)), [0.5] * n),
    ])()
    c.eq("polygons", p.get_polygons(), [])
    c.eq("by spec", p.get_polygons(True), {})
    c.is_none("polygon set", p.to_polygonset())
    c.eq("area", p.area(), 0)
    k = gdspy.Cell("EMPTY", exclude_from_current=True).add(p)
    c.is_none("box", k.get_bounding_box())
    c.eq("cell area", k.area(), 0)
    s = world.polygonset(r)
    k.add(s)
    c.eq("box of the rest", k.get_bounding_box(), s.get_bounding_box())


def current_box(cell):
    """the box this cell should report now: paths are computed afresh"""
    return world.bbox([q for _, _, q in world.flat_polygons(cell)])


def check_boxes(c, when, cs):
    for k in cs:
        bb, want = k.get_bounding_box(), current_box(k)
        if want is None:
            c.is_none(when, bb)
        elif c.check(when, bb is not None, "None for %s" % k.name):
            # a cardinal reference of a cell whose own box is exact is exact; others are computed from polygons
            c.check(when, bool(numpy.all(numpy.abs(numpy.array(bb) - want) <= 1e-6 * (1 + numpy.abs(want)))), "%r instead of %r" % (bb.tolist(), want.tolist()))


@contract("C07", ["library.Cell.get_bounding_box", "library.Cell.add", "library.Cell.remove_polygons", "library.Cell.remove_paths", "library.Cell.flatten", "library.GdsLibrary.remove", "library.GdsLibrary.replace_references", "library.CellReference.get_bounding_box", "library.CellArray.get_bounding_box"], sym=False, samples=80)
def bounding_box_history(c):
    """random histories of additions, removals and queries in a random hierarchy of cells"""
    r = c.rng
    lib = gdspy.GdsLibrary("L")
    cs = world.cells(r, r.randint(2, 4))
    lib.add(cs, update_references=False)
    check_boxes(c, "at first", [k for k in cs if r.random() < 0.7])
    for step in range(r.randint(2, 6)):
        i = r.randrange(len(cs))
        k = cs[i]
        what = r.randrange(8)
        if what == 0:
            k.add(world.polygonset(r))
        elif what == 1:
            k.add([world.flexpath(r) if r.random() < 0.5 else world.robustpath(r)])
        elif what == 2 and i:
            k.add(world.reference(r, cs[r.randrange(i)]))
        elif what == 3:
            l = r.choice([0, 1, 2, 3])
            k.remove_polygons(lambda pts, layer, datatype: layer == l)
        elif what == 4:
            k.remove_paths(lambda p: r.random() < 0.5)
        elif what == 5:
            k.flatten()
        elif what == 6 and i:
            # another cell takes the place of an earlier one everywhere
            new = world.fill(r, gdspy.Cell(cs[i - 1].name, exclude_from_current=True), [])
            lib.add(new, overwrite_duplicate=True)
            cs[i - 1] = new
        else:
            got = k.get_bounding_box()
            if got is not None:
                got += 1000
        check_boxes(c, "step %d" % what, [x for x in cs if r.random() < 0.6])
    check_boxes(c, "at last", cs)


@contract("C07", ["library.Cell.remove_polygons", "library.Cell.copy", "library.Cell.get_bounding_box"], sym=False, samples=10)
def shared_element_box(c):
    """a cell and its shallow copy share their elements: removal through one changes both"""
    r = c.rng
    l = gdspy.PolygonSet([world.ngon(r) for _ in range(2)])
    l.layers = [1, 2]
    k = gdspy.Cell("A", exclude_from_current=True).add(l)
    gdspy.current_library = gdspy.GdsLibrary()
    other = k.copy("B")
    k.get_bounding_box()
    other.get_bounding_box()
    k.remove_polygons(lambda pts, layer, datatype: layer == 2)
    check_boxes(c, "box", [k, other])

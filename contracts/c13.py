"""C13: copies are independent, operations leave their operands unchanged"""
import numpy
import gdspy
from vc.contract import contract
from contracts.common import *
from contracts.c05 import placed
from contracts import world


@contract("C13", ["operation.copy", "label.Label.translate"])
def label_copy(c):
    t = label(c, "t")
    t.properties = {c.int("attr", 1, 127): c.text("value")}
    dx, dy = c.choice("move", [(0, 0), (c.real("dx"), c.real("dy"))])
    old = c.snapshot(t)
    k = gdspy.copy(t, dx, dy)
    c.differs("label", k, t)
    c.differs("properties", k.properties, t.properties)
    c.eq("original", t, old)
    c.eq("position", list(k.position), [old.position[0] + dx, old.position[1] + dy])
    for n in ("layer", "texttype", "text", "anchor", "rotation", "magnification", "x_reflection", "properties"):
        c.eq(n, getattr(k, n), getattr(old, n))
    # later changes of either do not show in the other
    new = c.snapshot(k)
    k.translate(c.real("ex"), c.real("ey"))
    k.properties[c.int("attr2", 128, 200)] = "x"
    c.eq("original after changing the copy", t, old)
    k = c.snapshot(new)
    t.position[0] = c.real("fx")
    t.properties[1] = "y"
    c.eq("copy after changing the original", k, new)


@contract("C13", ["operation.copy", "polygon.PolygonSet.translate"])
def polygonset_copy(c):
    ps = polygonset(c, "ps")
    ps.properties = {c.int("attr", 1, 127): c.text("value")}
    dx, dy = c.choice("move", [(0, 0), (c.real("dx"), c.real("dy"))])
    old = c.snapshot(ps)
    k = gdspy.copy(ps, dx, dy)
    c.eq("original", ps, old)
    c.eq("vertices", k.polygons, [[(p[0] + dx, p[1] + dy) for p in pts] for pts in old.polygons])
    c.eq("layers", k.layers, old.layers)
    c.eq("datatypes", k.datatypes, old.datatypes)
    c.eq("properties", k.properties, old.properties)
    c.differs("polygons", k.polygons, ps.polygons)
    c.differs("layers", k.layers, ps.layers)
    c.differs("datatypes", k.datatypes, ps.datatypes)
    c.differs("properties", k.properties, ps.properties)
    k.scale(c.real("s"))
    k.layers.append(1)
    c.eq("original after changing the copy", ps, old)
    new = c.snapshot(k)
    ps.rotate(c.real("a"))
    ps.datatypes.append(1)
    c.eq("copy after changing the original", k, new)


def full_cell(c, name):
    """polygon sets, labels and references, any number of each"""
    return cell(
        c,
        name,
        polygons=c.list("pss", None, lambda: polygonset(c, "ps")),
        labels=c.list("labels", None, lambda: plain_label(c, "t")),
        references=c.list("refs", None, lambda: plain_reference(c, "r", cell(c, "B"))),
    )


def plain_label(c, name):
    return c.new(gdspy.Label, layer=c.tag(name + ".layer"), texttype=c.tag(name + ".texttype"), text=c.text(name + ".text"), position=c.array([c.real(name + ".px"), c.real(name + ".py")]), anchor=c.int(name + ".anchor", 0, 10), rotation=c.real(name + ".rotation"), magnification=c.posreal(name + ".magnification"), x_reflection=c.bool(name + ".x_reflection"), properties={})


def plain_reference(c, name, k):
    return c.new(gdspy.CellReference, ref_cell=k, origin=c.array([c.real(name + ".ox"), c.real(name + ".oy")]), rotation=c.real(name + ".rotation"), magnification=c.posreal(name + ".magnification"), x_reflection=c.bool(name + ".x_reflection"), properties={})


@contract("C13", ["library.Cell.copy"])
def cell_shallow_copy(c):
    """the same elements in lists of its own"""
    gdspy.current_library = library(c, "global", {})
    k = full_cell(c, "A")
    old = c.snapshot([k.polygons, k.paths, k.labels, k.references])
    n = k.copy(c.text("name"))
    c.eq("polygons", n.polygons, k.polygons)
    c.eq("labels", n.labels, k.labels)
    c.eq("references", n.references, k.references)
    c.eq("source", [k.polygons, k.paths, k.labels, k.references], old)
    n.polygons.append(polygonset(c, "extra"))
    n.paths.append(1)
    n.labels.append(plain_label(c, "extra"))
    n.references.append(plain_reference(c, "extra", cell(c, "D")))
    c.eq("source after adding to the copy", [k.polygons, k.paths, k.labels, k.references], old)


@contract("C13", ["library.Cell.copy"])
def cell_deep_copy(c):
    gdspy.current_library = library(c, "global", {})
    target = cell(c, "B")
    k = cell(
        c,
        "A",
        polygons=c.list("pss", None, lambda: polygonset(c, "ps")),
        labels=c.list("labels", None, lambda: plain_label(c, "t")),
        references=[plain_reference(c, "r", target), array(c, "a", c.text("missing"), True)],
    )
    k.references[0].properties = {1: c.text("value")}
    old = c.snapshot(k)
    n = k.copy(c.text("name"), deep_copy=True)
    for a in ("polygons", "paths", "labels"):
        c.eq(a, getattr(n, a), getattr(old, a))
        c.eq("source " + a, getattr(k, a), getattr(old, a))
    for i in range(2):
        x, y = n.references[i], k.references[i]
        c.differs("reference", x, y)
        c.differs("properties", x.properties, y.properties)
        for a in ("rotation", "magnification", "x_reflection", "properties"):
            c.eq(a, getattr(x, a), getattr(y, a))
        c.eq("origin", list(x.origin), list(y.origin))
        # the referenced cell itself is not copied
        if i == 0:
            c.same("referenced cell", x.ref_cell, y.ref_cell)
        else:
            c.eq("referenced name", x.ref_cell, y.ref_cell)
    for ps in n.polygons:
        ps.translate(c.real("dx"), c.real("dy"))
    for t in n.labels:
        t.translate(c.real("dx"), c.real("dy"))
    n.references[0].properties[2] = "x"
    n.references[0].translate(1, 2)
    for a in ("polygons", "labels", "references"):
        c.eq("source after changing the copy: " + a, getattr(k, a), getattr(old, a))


def motion(c):
    t = c.choice("translation", [None, c.array([c.real("dx"), c.real("dy")])])
    a = c.choice("rotation", [None, c.real("angle", -7, 7)])
    s = c.choice("scale", [None, c.posreal("mag")])
    refl = c.flag("reflection")
    return t, a, s, refl


@contract("C13", ["library.Cell.copy"])
def cell_copy_polygons(c):
    """transformed copy: reflect, magnify, rotate, translate every vertex"""
    gdspy.current_library = library(c, "global", {})
    t, a, s, refl = motion(c)
    k = cell(c, "A", polygons=c.list("pss", None, lambda: polygonset(c, "ps")))
    old = c.snapshot(k)
    n = k.copy(c.text("name"), False, t, a, s, refl)
    c.eq("vertices", [x.polygons for x in n.polygons], [[[placed(c, q, t, a, s, refl, None) for q in p] for p in x.polygons] for x in old.polygons])
    c.eq("layers", [x.layers for x in n.polygons], [x.layers for x in old.polygons])
    c.eq("datatypes", [x.datatypes for x in n.polygons], [x.datatypes for x in old.polygons])
    if t is not None or a is not None or s is not None or refl:
        c.eq("source", k.polygons, old.polygons)


def moved(c, name, x, o, position, old_position, t, a, s, refl):
    """object x is o (position, rotation, magnification, reflection) followed by the motion"""
    c.eq(name + " position", list(position), placed(c, old_position, t, a, s, refl, None))
    r0 = 0 if o.rotation is None else o.rotation
    m0 = 1 if o.magnification is None else o.magnification
    a0 = 0 if a is None else a * 180 / c.pi
    s0 = 1 if s is None else s
    r = 0 if x.rotation is None else x.rotation
    m = 1 if x.magnification is None else x.magnification
    c.eq(name + " rotation", r, (-r0 if refl else r0) + a0)
    c.eq(name + " magnification", m, m0 * s0)
    c.eq(name + " reflection", bool(x.x_reflection), (not o.x_reflection) if refl else bool(o.x_reflection))


@contract("C13", ["library.Cell.copy"])
def cell_copy_labels(c):
    gdspy.current_library = library(c, "global", {})
    t, a, s, refl = motion(c)
    c.assume(t is not None or a is not None or s is not None or refl)
    k = cell(c, "A", labels=[label(c, "t")])
    old = c.snapshot(k)
    n = k.copy("N", False, t, a, s, refl)
    x, o = n.labels[0], old.labels[0]
    moved(c, "label", x, o, x.position, o.position, t, a, s, refl)
    for m in ("layer", "texttype", "text", "anchor", "properties"):
        c.eq(m, getattr(x, m), getattr(o, m))
    c.eq("source", k.labels, old.labels)


@contract("C13", ["library.Cell.copy"])
def cell_copy_references(c):
    gdspy.current_library = library(c, "global", {})
    t, a, s, refl = motion(c)
    c.assume(t is not None or a is not None or s is not None or refl)
    target = cell(c, "B")
    k = cell(c, "A", references=[reference(c, "r", target)])
    old = c.snapshot(k)
    n = k.copy("N", False, t, a, s, refl)
    x, o = n.references[0], old.references[0]
    moved(c, "reference", x, o, x.origin, o.origin, t, a, s, refl)
    c.same("cell", x.ref_cell, target)
    c.eq("properties", x.properties, o.properties)
    c.eq("source", k.references, old.references)


@contract("C13", ["library.Cell.copy"])
def cell_copy_arrays(c):
    gdspy.current_library = library(c, "global", {})
    t, a, s, refl = motion(c)
    c.assume(t is not None or a is not None or s is not None or refl)
    target = cell(c, "B")
    k = cell(c, "A", references=[c.new(gdspy.CellArray, ref_cell=target, columns=c.int("columns", 1, 99), rows=c.int("rows", 1, 99), spacing=(c.real("sx"), c.real("sy")), origin=(c.real("ox"), c.real("oy")), rotation=c.real("rotation"), magnification=c.posreal("magnification"), x_reflection=c.bool("x_reflection"), properties={})])
    old = c.snapshot(k)
    n = k.copy("N", False, t, a, s, refl)
    x, o = n.references[0], old.references[0]
    moved(c, "array", x, o, x.origin, o.origin, t, a, s, refl)
    c.same("cell", x.ref_cell, target)
    s0 = 1 if s is None else s
    c.eq("columns and rows", (x.columns, x.rows), (o.columns, o.rows))
    c.eq("spacing", list(x.spacing), [s0 * o.spacing[0], s0 * o.spacing[1]])
    c.eq("source", k.references, old.references)


class Moved(object):
    """stands for a path: keeps the motion it was asked for (contracts of C05 for transform)"""

    __slots__ = ("ident", "motion")

    def transform(self, translation, rotation, scale, x_reflection, array_trans=None):
        self.motion = (translation, rotation, scale, x_reflection, array_trans)


@contract("C13", ["library.Cell.copy"])
def cell_copy_paths(c):
    gdspy.current_library = library(c, "global", {})
    t, a, s, refl = motion(c)
    c.assume(t is not None or a is not None or s is not None or refl)
    k = cell(c, "A", paths=c.list("paths", None, lambda: c.new(Moved, ident=c.int("ident"), motion=None)))
    old = c.snapshot(k)
    n = k.copy("N", False, t, a, s, refl)
    c.eq("paths", [p.ident for p in n.paths], [p.ident for p in old.paths])
    def one(p):
        c.eq("translation", p.motion[0], t)
        c.eq("rotation", p.motion[1], a)
        c.eq("scale", p.motion[2], s)
        c.eq("reflection", p.motion[3], refl)
        c.is_none("displacement", p.motion[4])
    c.forall("motion", n.paths, one)
    c.eq("source", k.paths, old.paths)


@contract("C13", ["path.FlexPath.get_polygons", "path.RobustPath.get_polygons"])
def path_polygons_are_copies(c):
    """the computed polygons are kept; what is returned are copies"""
    l, d = c.tag("layer"), c.tag("datatype")
    kept = {(l, d): c.list("g0", None, lambda: c.points("p0")), (l + 1, d): c.list("g1", None, lambda: c.points("p1"))}
    p = c.choice("kind", [flexpath(c, "f", 2), robustpath(c, "r", 2)])
    p._polygon_dict = kept
    old = c.snapshot(kept)
    if c.flag("by spec"):
        out = p.get_polygons(True)
        c.eq("groups", out, old)
        for q in out[(l, d)]:
            q += 1
        out[(l, d)].append(None)
        out.clear()
    else:
        out = p.get_polygons()
        c.eq("polygons", out, old[(l, d)] + old[(l + 1, d)])
        for q in out:
            q += 1
        out.append(None)
    c.eq("kept", p._polygon_dict, old)


@contract("C13", ["library.Cell.get_polygons"])
def cell_polygons_are_copies(c):
    k = cell(c, "A", polygons=c.list("pss", None, lambda: polygonset(c, "ps")))
    old = c.snapshot(k.polygons)
    out = k.get_polygons()
    c.eq("polygons", out, [p for ps in old for p in ps.polygons])
    for q in out:
        q += c.real("d")
    out.append(None)
    c.eq("cell", k.polygons, old)


def one_group(c):
    ps = polygonset(c, "ps", 1)
    l, d = c.tag("layer"), c.tag("datatype")
    ps.layers = [l for _ in ps.polygons]
    ps.datatypes = [d for _ in ps.polygons]
    return cell(c, "A", polygons=[ps]), (l, d)


@contract("C13", ["library.Cell.get_polygons"])
def cell_selection_is_a_copy(c):
    k, key = one_group(c)
    old = c.snapshot(k.polygons)
    out = k.get_polygons(key)
    c.eq("polygons", out, old[0].polygons)
    for q in out:
        q += c.real("d")
    out.clear()
    c.eq("cell", k.polygons, old)


@contract("C13", ["library.Cell.get_polygons"], sym=False)
def cell_groups_are_copies(c):
    k, key = one_group(c)
    old = c.snapshot(k.polygons)
    out = k.get_polygons(True)
    for q in out[key]:
        q += c.real("d")
    out[key].append(None)
    out.clear()
    c.eq("cell", k.polygons, old)


@contract("C13", ["library.Cell.get_polygonsets", "library.Cell.get_labels", "library.Cell.get_paths"])
def cell_elements_are_copies(c):
    k = cell(c, "A", polygons=c.list("pss", None, lambda: polygonset(c, "ps")), labels=c.list("labels", None, lambda: plain_label(c, "t")), paths=c.list("paths", None, lambda: c.new(Moved, ident=c.int("ident"), motion=None)))
    old = c.snapshot(k)
    pss, ts, fs = k.get_polygonsets(), k.get_labels(), k.get_paths()
    c.eq("polygon sets", pss, old.polygons)
    c.eq("labels", ts, old.labels)
    c.eq("paths", fs, old.paths)
    for ps in pss:
        ps.translate(c.real("dx"), c.real("dy"))
        ps.layers.append(1)
        ps.properties[1] = "x"
    for t in ts:
        t.translate(c.real("dx"), c.real("dy"))
        t.properties[1] = "x"
    for f in fs:
        f.motion = 1
    pss.append(None)
    ts.append(None)
    fs.append(None)
    for n in ("polygons", "labels", "paths", "references"):
        c.eq("cell " + n, getattr(k, n), getattr(old, n))


# ------------------------------------------------------------------------------------- bounded
def spoil(x):
    """change everything reachable in a result"""
    if isinstance(x, numpy.ndarray):
        x += 1.2345
    elif isinstance(x, (list, tuple)):
        for y in x:
            spoil(y)
        if isinstance(x, list):
            x.append(None)
            x.reverse()
    elif isinstance(x, dict):
        for y in x.values():
            spoil(y)
        x["spoiled"] = []
    elif isinstance(x, set):
        x.add("spoiled")
    elif isinstance(x, gdspy.PolygonSet):
        x.translate(3, 4)
        x.layers[0:1] = [99]
        x.datatypes.append(98)
        x.properties[77] = "spoiled"
        spoil(x.polygons)
    elif isinstance(x, (gdspy.FlexPath, gdspy.RobustPath)):
        x.translate(5, 6)
        x.layers[0] = 97
        x.properties[76] = "spoiled"
        x.widths *= 2 if isinstance(x, gdspy.FlexPath) else 1
    elif isinstance(x, gdspy.Label):
        x.translate(7, 8)
        x.text = "spoiled"
        x.properties[75] = "spoiled"


@contract("C13", ["library.Cell.get_polygons", "library.Cell.get_polygonsets", "library.Cell.get_paths", "library.Cell.get_labels", "library.CellReference.get_polygons", "library.CellArray.get_polygons"], sym=False, samples=60)
def queries_are_copies(c):
    """results of queries are modified freely; every later answer is as before"""
    r = c.rng
    gdspy.current_library = gdspy.GdsLibrary()
    ks = world.cells(r, n=3)
    before = world.contents(ks)
    def ask():
        out = []
        for k in ks:
            out.append([world.value(k.get_polygons()), world.value(k.get_polygons(True, r2)), world.value(k.get_bounding_box()), [world.element(t) for t in k.get_labels()], sorted(k.get_layers()), k.area()])
        return out
    r2 = r.choice([None, 0, 1])
    first = ask()
    k = r.choice(ks)
    os_ = [k] + k.references + (k.polygons + k.paths if r.random() < 0.5 else [])
    for o in os_:
        for _ in range(3):
            q = r.randrange(12)
            if q == 0 and hasattr(o, "get_polygonsets"):
                spoil(o.get_polygonsets(r.choice([None, 0, 1])))
            elif q == 1 and hasattr(o, "get_paths"):
                spoil(o.get_paths(r.choice([None, 0, 1])))
            elif q == 2 and hasattr(o, "get_labels"):
                spoil(o.get_labels(r.choice([None, 0, 1]), r.random() < 0.5))
            elif q == 3 and hasattr(o, "get_bounding_box"):
                spoil(o.get_bounding_box())
            elif q == 4 and isinstance(o, gdspy.Cell):
                spoil(o.get_layers())
                spoil(o.get_datatypes())
                spoil(o.get_texttypes())
                spoil(o.get_svg_classes())
                spoil(o.get_dependencies(True))
            elif q == 5 and not isinstance(o, (gdspy.FlexPath, gdspy.RobustPath)):
                spoil(o.area(True))
            elif hasattr(o, "get_polygons"):
                if isinstance(o, (gdspy.FlexPath, gdspy.RobustPath)):
                    spoil(o.get_polygons(r.random() < 0.5))
                else:
                    spoil(o.get_polygons(r.choice([False, True, (1, 0), (0, 0)]), r.choice([None, 0, 1, -1])))
            if isinstance(o, (gdspy.FlexPath, gdspy.RobustPath)) and r.random() < 0.3:
                spoil(o.to_polygonset())
    c.eq("contents", world.contents(ks), before)
    c.eq("answers", ask(), first)


@contract("C13", ["library.Cell.copy", "operation.copy"], sym=False, samples=60)
def copies_are_independent(c):
    """copies of random cells and elements; changing either leaves the other alone"""
    r = c.rng
    gdspy.current_library = gdspy.GdsLibrary()
    ks = world.cells(r, n=3)
    k = ks[-1]
    if r.random() < 0.5:
        before = world.content(k)
        n = k.copy("N", deep_copy=True)
        c.eq("equal", world.content(n), before)
        one, other = (n, k) if r.random() < 0.5 else (k, n)
        spoil(one.polygons)
        spoil(one.paths)
        spoil(one.labels)
        for x in one.references:
            x.properties[3] = "spoiled"
            x.translate(1, 1)
            if isinstance(x.origin, list):
                x.origin[0] = 55
        one.references.append(None)
        c.eq("unchanged", world.content(other), before)
    else:
        o = r.choice([world.polygonset, world.label, world.flexpath, world.robustpath])(r)
        before = world.element(o)
        n = gdspy.copy(o)
        c.eq("equal", world.element(n), before)
        one, other = (n, o) if r.random() < 0.5 else (o, n)
        spoil(one)
        c.eq("unchanged", world.element(other), before)


@contract("C13", ["library.Cell.copy"], sym=False, samples=60)
def transformed_copy(c):
    """geometry of a transformed copy is the transformed geometry; the source is left untouched"""
    r = c.rng
    gdspy.current_library = gdspy.GdsLibrary()
    ks = world.cells(r, n=3, plain_paths=True)
    k = ks[-1]
    before = world.contents(ks)
    t = r.choice([None, (world.num(r), world.num(r))])
    a = r.choice([None, r.uniform(-3, 3), numpy.pi / 2])
    s = r.choice([None, 2, r.uniform(0.3, 2)])
    refl = r.random() < 0.5
    m = numpy.eye(3)
    f = numpy.diag([1.0, -1.0 if refl else 1.0]) * (1 if s is None else s)
    ca, sa = (numpy.cos(a), numpy.sin(a)) if a is not None else (1, 0)
    m[:2, :2] = numpy.array([[ca, -sa], [sa, ca]]) @ f
    if t is not None:
        m[:2, 2] = t
    n = k.copy("N", True, t, a, s, refl)
    plain = [((l, d), p) for l, d, p in world.flat_polygons(n, paths=False)]
    want = [((l, d), world.apply(m, p)) for l, d, p in world.flat_polygons(k, paths=False)]
    c.eq("polygons", world.same_multiset(plain, want), None)
    want = [(x, m @ q) for x, q in world.flat_labels(k)]
    got = world.flat_labels(n)
    c.eq("number of labels", len(got), len(want))
    for (x, q), (y, p) in zip(got, want):
        c.eq("label", (x.text, x.layer, x.texttype, x.anchor), (y.text, y.layer, y.texttype, y.anchor))
        c.eq("position", world.apply(q, [x.position]), world.apply(p, [y.position]), 1e-6)
        c.eq("transformation", q[:2, :2] @ world.linear(x), p[:2, :2] @ world.linear(y), 1e-6)
    paths = [((l, d), p) for q in n.paths for (l, d), ps in q.get_polygons(True).items() for p in ps]
    want = [((l, d), world.apply(m, p)) for q in k.paths for (l, d), ps in q.get_polygons(True).items() for p in ps]
    if s is None:
        c.eq("paths", world.same_shapes(paths, want, 2e-2), None)
    c.eq("source", world.contents(ks), before)


def operand(r, polys, kind):
    """the polygons in one of the accepted forms"""
    return operand_forms(r, polys, [kind])


def operand_forms(r, polys, kinds):
    kind = r.choice(kinds)
    if kind == "points":
        return [numpy.array(p) for p in polys]
    if kind == "tuples":
        return [list(map(tuple, p)) for p in polys]
    if kind == "set":
        return gdspy.PolygonSet(polys)
    if kind == "sets":
        return [gdspy.PolygonSet([p]) for p in polys]
    k = gdspy.Cell("O%d" % r.randrange(10 ** 9), exclude_from_current=True).add(gdspy.PolygonSet(polys))
    if kind == "reference":
        return gdspy.CellReference(k)
    if kind == "references":
        return [gdspy.CellReference(k)]
    if kind == "array":
        return gdspy.CellArray(k, 1, 1, (0, 0))
    if kind == "mixed":
        return [gdspy.PolygonSet([polys[0]])] + [numpy.array(p) for p in polys[1:]]
    raise ValueError(kind)


KINDS = ["points", "tuples", "set", "sets", "reference", "references", "array", "mixed"]


def frozen(x):
    if isinstance(x, (list, tuple)):
        return [frozen(y) for y in x]
    if isinstance(x, (gdspy.CellReference, gdspy.CellArray)):
        return [world.element(x), world.content(x.ref_cell)]
    if isinstance(x, numpy.ndarray):
        return world.value(x)
    if hasattr(x, "layers"):
        return world.element(x)
    return x


@contract("C13", ["operation.boolean", "operation.offset", "operation.slice", "operation.inside"], sym=False, samples=120)
def operations_keep_operands(c):
    """operands are compared before and after, also after the results have been modified"""
    r = c.rng
    gdspy.current_library = gdspy.GdsLibrary()
    def some():
        if r.random() < 0.2:
            return r.choice([lambda: world.flexpath(r), lambda: world.robustpath(r), lambda: [world.flexpath(r), world.polygonset(r)], lambda: [], lambda: None])()
        return operand_forms(r, [world.ngon(r) for _ in range(r.randint(1, 3))], KINDS)
    a, b = some(), some()
    old = (frozen(a), frozen(b))
    op = r.choice(["boolean", "boolean", "offset", "slice", "inside"])
    if op == "boolean":
        out = gdspy.boolean(a, b, r.choice(["or", "and", "not", "xor"]), max_points=r.choice([199, 5]), layer=3)
    elif op == "offset":
        out = gdspy.offset(a, r.choice([0.5, -0.3]), join=r.choice(["miter", "bevel", "round"]), join_first=r.random() < 0.5)
    elif op == "slice":
        pos = r.choice([0.0, [1.0, -2.0], [3.0]])
        keep = frozen(pos)
        out = gdspy.slice(a, pos, r.choice([0, 1]), layer=[1, 2])
        c.eq("positions", frozen(pos), keep)
    else:
        pts = [(world.num(r), world.num(r)) for _ in range(4)]
        keep = frozen(pts)
        out = gdspy.inside(pts, a)
        c.eq("points", frozen(pts), keep)
    c.eq("operands", (frozen(a), frozen(b)), old)
    for x in out if isinstance(out, list) else [out]:
        if isinstance(x, gdspy.PolygonSet):
            spoil(x)
    c.eq("operands after changing the result", (frozen(a), frozen(b)), old)

"""C06: geometry obtained through references"""
import numpy
import gdspy
from vc.contract import contract
from contracts.common import *
from contracts.c05 import placed, placement, flexpath_transform_reflected_offsets


def put(c, r, p, d):
    """reflect, magnify, rotate and translate point p of the copy displaced by d (before reflection and rotation)"""
    m = 1 if r.magnification is None else r.magnification
    x, y = p[0] * m + d[0], p[1] * m + d[1]
    if r.x_reflection:
        y = -y
    if r.rotation is not None:
        a = r.rotation * c.pi / 180
        ca, sa = c.cos(a), c.sin(a)
        x, y = x * ca - y * sa, x * sa + y * ca
    return (x + r.origin[0], y + r.origin[1])


@contract("C06", ["library.CellReference._transform_polygons"])
def reference_transform_polygons(c):
    r = reference(c, "r", cell(c, "A"))
    ps = c.list("ps", None, lambda: c.points("p"))
    old = c.snapshot(ps)
    out = r._transform_polygons(ps)
    c.eq("polygons", out, [[put(c, r, v, (0, 0)) for v in p] for p in old])


@contract("C06", ["library.CellArray._transform_polygons"])
def array_transform_polygons(c):
    r = array(c, "a", cell(c, "A"), True)
    ps = c.list("ps", None, lambda: c.points("p"))
    old = c.snapshot(ps)
    out = r._transform_polygons(ps)
    c.eq("polygons", out, [[put(c, r, v, (r.spacing[0] * i, r.spacing[1] * j)) for v in p] for i in range(r.columns) for j in range(r.rows) for p in old])


def two_groups(c):
    l, d = c.tag("layer"), c.tag("datatype")
    return {(l, d): c.list("g0", None, lambda: c.points("p0")), (l + 1, d): c.list("g1", None, lambda: c.points("p1"))}


@contract("C06", ["library.CellReference._transform_polygons"], note="two groups")
def reference_transform_groups(c):
    r = reference(c, "r", cell(c, "A"))
    g = two_groups(c)
    old = c.snapshot(g)
    out = r._transform_polygons(g)
    c.eq("polygons", out, {k: [[put(c, r, v, (0, 0)) for v in p] for p in old[k]] for k in old})


@contract("C06", ["library.CellArray._transform_polygons"], note="two groups")
def array_transform_groups(c):
    r = array(c, "a", cell(c, "A"), True)
    g = two_groups(c)
    old = c.snapshot(g)
    out = r._transform_polygons(g)
    c.eq("polygons", out, {k: [[put(c, r, v, (r.spacing[0] * i, r.spacing[1] * j)) for v in p] for i in range(r.columns) for j in range(r.rows) for p in old[k]] for k in old})


class Parts(gdspy.Cell):
    """stands for any cell: answers each query with given content (fresh objects, contracts cell_get_*) and keeps the arguments"""

    __slots__ = ("answer", "asked")

    def get_polygons(self, by_spec=False, depth=None):
        self.asked = (by_spec, depth)
        return self.answer

    def get_polygonsets(self, depth=None):
        self.asked = (depth,)
        return self.answer

    def get_paths(self, depth=None):
        self.asked = (depth,)
        return self.answer

    def get_labels(self, depth=None, set_transform=False):
        self.asked = (depth, set_transform)
        return self.answer


def parts(c, answer):
    return c.new(Parts, name="A", answer=answer, asked=None)


def plain_reference(c, k):
    return c.new(gdspy.CellReference, ref_cell=k, origin=(c.real("ox"), c.real("oy")), rotation=None, magnification=None, x_reflection=c.bool("x_reflection"), properties={})


def plain_array(c, k):
    return c.new(gdspy.CellArray, ref_cell=k, columns=c.count("columns", 1), rows=c.count("rows", 1), spacing=(c.real("sx"), c.real("sy")), origin=(c.real("ox"), c.real("oy")), rotation=None, magnification=None, x_reflection=c.bool("x_reflection"), properties={})


def some_depth(c):
    return c.choice("depth", [None, 0, c.int("depth", 0, 20)])


@contract("C06", ["library.CellReference.get_polygons"])
def reference_get_polygons(c):
    ps = c.list("ps", None, lambda: c.points("p"))
    r = reference(c, "r", parts(c, ps))
    old = c.snapshot(ps)
    c.eq("polygons", r.get_polygons(), [[put(c, r, v, (0, 0)) for v in p] for p in old])


@contract("C06", ["library.CellArray.get_polygons"])
def array_get_polygons(c):
    ps = c.list("ps", None, lambda: c.points("p"))
    r = array(c, "a", parts(c, ps), True)
    old = c.snapshot(ps)
    c.eq("polygons", r.get_polygons(), [[put(c, r, v, (r.spacing[0] * i, r.spacing[1] * j)) for v in p] for i in range(r.columns) for j in range(r.rows) for p in old])


@contract("C06", ["library.CellReference.get_polygons", "library.CellArray.get_polygons"], note="two groups; all transformations in reference_transform_groups and array_transform_groups")
def reference_get_groups(c):
    g = two_groups(c)
    r = c.choice("kind", [plain_reference(c, parts(c, g)), plain_array(c, parts(c, g))])
    old = c.snapshot(g)
    out = r.get_polygons(True)
    if isinstance(r, gdspy.CellArray):
        c.eq("polygons", out, {k: [[put(c, r, v, (r.spacing[0] * i, r.spacing[1] * j)) for v in p] for i in range(r.columns) for j in range(r.rows) for p in old[k]] for k in old})
    else:
        c.eq("polygons", out, {k: [[put(c, r, v, (0, 0)) for v in p] for p in old[k]] for k in old})


@contract("C06", ["library.CellReference.get_polygonsets"])
def reference_get_polygonsets(c):
    pss = c.list("pss", None, lambda: polygonset(c, "ps"))
    r = reference(c, "r", parts(c, pss))
    old = c.snapshot(pss)
    out = r.get_polygonsets()
    c.eq("polygons", [x.polygons for x in out], [[[put(c, r, v, (0, 0)) for v in p] for p in x.polygons] for x in old])
    c.eq("layers", [x.layers for x in out], [x.layers for x in old])
    c.eq("datatypes", [x.datatypes for x in out], [x.datatypes for x in old])


@contract("C06", ["library.CellArray.get_polygonsets"])
def array_get_polygonsets(c):
    pss = c.list("pss", None, lambda: polygonset(c, "ps"))
    r = array(c, "a", parts(c, pss), True)
    old = c.snapshot(pss)
    out = r.get_polygonsets()
    c.eq("polygons", [x.polygons for x in out], [[[put(c, r, v, (r.spacing[0] * i, r.spacing[1] * j)) for v in p] for p in x.polygons] for i in range(r.columns) for j in range(r.rows) for x in old])
    c.eq("layers", [x.layers for x in out], [x.layers for i in range(r.columns) for j in range(r.rows) for x in old])
    c.eq("datatypes", [x.datatypes for x in out], [x.datatypes for i in range(r.columns) for j in range(r.rows) for x in old])


class Moved(object):
    """stands for a path: its transform (contracts flexpath_transform, robustpath_transform) keeps the arguments"""

    __slots__ = ("ident", "args")

    def transform(self, translation, rotation, scale, x_reflection, array_trans=None):
        self.args = (translation, rotation, scale, x_reflection, array_trans)
        return self


def moves(c):
    return c.list("paths", None, lambda: c.new(Moved, ident=c.int("ident", 0), args=None))


@contract("C06", ["library.CellReference.get_paths"])
def reference_get_paths(c):
    ps = moves(c)
    r = reference(c, "r", parts(c, ps))
    old = c.snapshot(ps)
    out = r.get_paths()
    a = None if r.rotation is None else r.rotation * c.pi / 180
    c.eq("paths", [p.ident for p in out], [p.ident for p in old])
    c.eq("placement", [p.args[1:4] for p in out], [(a, r.magnification, r.x_reflection) for p in old])
    c.eq("translation", [(p.args[0][0], p.args[0][1]) for p in out], [(r.origin[0], r.origin[1]) for p in old])
    c.forall("displacement", out, lambda p: p.args[4] is None)


@contract("C06", ["library.CellArray.get_paths"])
def array_get_paths(c):
    ps = moves(c)
    r = array(c, "r", parts(c, ps), True)
    old = c.snapshot(ps)
    out = r.get_paths()
    a = None if r.rotation is None else r.rotation * c.pi / 180
    c.eq("paths", [p.ident for p in out], [p.ident for i in range(r.columns) for j in range(r.rows) for p in old])
    c.eq("placement", [p.args[1:4] for p in out], [(a, r.magnification, r.x_reflection) for i in range(r.columns) for j in range(r.rows) for p in old])
    c.eq("translation", [(p.args[0][0], p.args[0][1]) for p in out], [(r.origin[0], r.origin[1]) for i in range(r.columns) for j in range(r.rows) for p in old])
    c.eq("displacement", [(p.args[4][0], p.args[4][1]) for p in out], [(r.spacing[0] * i, r.spacing[1] * j) for i in range(r.columns) for j in range(r.rows) for p in old])


@contract("C06", ["library.CellReference.get_polygons", "library.CellReference.get_polygonsets", "library.CellReference.get_paths", "library.CellReference.get_labels", "library.CellArray.get_polygons", "library.CellArray.get_polygonsets", "library.CellArray.get_paths", "library.CellArray.get_labels"])
def arguments_reach_the_cell(c):
    k = parts(c, [])
    r = c.choice("kind", [plain_reference(c, k), plain_array(c, k)])
    spec = c.choice("by_spec", [False, (c.tag("layer"), c.tag("datatype"))])
    depth = some_depth(c)
    c.eq("polygons", r.get_polygons(spec, depth), [])
    c.eq("asked for polygons", k.asked, (spec, depth))
    c.eq("sets", r.get_polygonsets(depth), [])
    c.eq("asked for sets", k.asked, (depth,))
    c.eq("paths", r.get_paths(depth), [])
    c.eq("asked for paths", k.asked, (depth,))
    t = c.flag("set transform")
    c.eq("labels", r.get_labels(depth, t), [])
    c.eq("asked for labels", k.asked, (depth, t))
    k.answer = {}
    c.eq("groups", r.get_polygons(True, depth), {})
    c.eq("asked for groups", k.asked, (True, depth))
    c.same("same cell", r.ref_cell, k)


@contract("C06", ["library.CellReference.get_polygons", "library.CellReference.get_polygonsets", "library.CellReference.get_paths", "library.CellReference.get_labels", "library.CellArray.get_polygons", "library.CellArray.get_polygonsets", "library.CellArray.get_paths", "library.CellArray.get_labels", "library.CellReference.get_bounding_box", "library.CellArray.get_bounding_box"])
def missing_cell(c):
    """references by name to a cell that does not exist have no geometry"""
    r = c.choice("kind", [plain_reference(c, "missing"), plain_array(c, "missing")])
    depth = some_depth(c)
    c.eq("polygons", r.get_polygons(False, depth), [])
    c.eq("filtered", r.get_polygons((c.tag("layer"), c.tag("datatype")), depth), [])
    c.eq("grouped", r.get_polygons(True, depth), {})
    c.eq("sets", r.get_polygonsets(depth), [])
    c.eq("paths", r.get_paths(depth), [])
    c.eq("labels", r.get_labels(depth, c.flag("set transform")), [])
    c.is_none("box", r.get_bounding_box())


def label_transform_spec(c, r, x):
    """rotation, magnification and reflection of a label seen through the reference"""
    m = x.magnification
    if r.magnification is not None:
        m = r.magnification if m is None else m * r.magnification
    a = x.rotation
    if r.x_reflection and a is not None:
        a = -a
    if r.rotation is not None:
        a = r.rotation if a is None else a + r.rotation
    return (a, m, (not x.x_reflection) if r.x_reflection else x.x_reflection)


@contract("C06", ["library.CellReference.get_labels"])
def reference_get_labels(c):
    ls = c.list("labels", None, lambda: label(c, "t"))
    r = reference(c, "r", parts(c, ls))
    old = c.snapshot(ls)
    out = r.get_labels(None, True)
    c.eq("position", [x.position for x in out], [put(c, r, x.position, (0, 0)) for x in old])
    c.eq("transformation", [(x.rotation, x.magnification, x.x_reflection) for x in out], [label_transform_spec(c, r, x) for x in old])
    c.eq("kept", [(x.text, x.layer, x.texttype, x.anchor) for x in out], [(x.text, x.layer, x.texttype, x.anchor) for x in old])


@contract("C06", ["library.CellArray.get_labels"])
def array_get_labels(c):
    ls = c.list("labels", None, lambda: label(c, "t"))
    r = array(c, "r", parts(c, ls), True)
    old = c.snapshot(ls)
    out = r.get_labels(None, True)
    c.eq("position", [x.position for x in out], [put(c, r, x.position, (r.spacing[0] * i, r.spacing[1] * j)) for i in range(r.columns) for j in range(r.rows) for x in old])
    c.eq("transformation", [(x.rotation, x.magnification, x.x_reflection) for x in out], [label_transform_spec(c, r, x) for i in range(r.columns) for j in range(r.rows) for x in old])
    c.eq("kept", [(x.text, x.layer, x.texttype, x.anchor) for x in out], [(x.text, x.layer, x.texttype, x.anchor) for i in range(r.columns) for j in range(r.rows) for x in old])


@contract("C06", ["library.CellReference.get_labels", "library.CellArray.get_labels"])
def labels_keep_transformation(c):
    """without set_transform only the position follows the reference"""
    ls = c.list("labels", None, lambda: label(c, "t"))
    r = reference(c, "r", parts(c, ls))
    old = c.snapshot(ls)
    out = r.get_labels()
    c.eq("position", [x.position for x in out], [put(c, r, x.position, (0, 0)) for x in old])
    c.eq("kept", [(x.rotation, x.magnification, x.x_reflection, x.text, x.layer, x.texttype, x.anchor) for x in out], [(x.rotation, x.magnification, x.x_reflection, x.text, x.layer, x.texttype, x.anchor) for x in old])


class Shapes(object):
    """stands for a path or reference: fresh polygons of one layer and type (contracts path_polygons_are_copies, reference_get_polygons)"""

    __slots__ = ("layers", "datatypes", "points", "asked")

    def get_polygons(self, by_spec=False, depth=None):
        self.asked = -2 if depth is None else depth
        k = (self.layers[0], self.datatypes[0])
        ps = [numpy.array(p) for p in self.points]
        if by_spec is True:
            return {k: ps}
        if by_spec is False:
            return ps
        return ps if k == by_spec else []


def shapes(c, name):
    return c.list(name, None, lambda: c.new(Shapes, layers=[c.tag(name + ".layer")], datatypes=[c.tag(name + ".datatype")], points=c.list(name + ".points", None, lambda: c.points(name + ".p")), asked=-7))


def shape_cell(c, paths=True):
    return cell(c, "A", c.list("polygons", None, lambda: polygonset(c, "ps")), shapes(c, "paths") if paths else [], [], shapes(c, "references"))


def kept(c, k, old):
    c.eq("polygons kept", k.polygons, old.polygons)
    c.eq("paths kept", [p.points for p in k.paths], [p.points for p in old.paths])
    c.eq("references kept", [p.points for p in k.references], [p.points for p in old.references])


@contract("C06", ["library.Cell.get_polygons"])
def cell_get_polygons(c):
    k = shape_cell(c)
    old = c.snapshot(k)
    depth = c.choice("depth", [None, c.int("depth", 0, 20)])
    out = k.get_polygons(depth=depth)
    c.eq("polygons", out, [p for s in old.polygons for p in s.polygons] + [p for s in old.paths for p in s.points] + [p for s in old.references for p in s.points])
    c.forall("depth", k.references, lambda r: r.asked == -2 if depth is None else r.asked == depth - 1)
    kept(c, k, old)


@contract("C06", ["library.Cell.get_polygons"])
def cell_get_polygons_filtered(c):
    k = shape_cell(c)
    old = c.snapshot(k)
    spec = (c.tag("wanted layer"), c.tag("wanted datatype"))
    depth = c.choice("depth", [None, c.int("depth", 0, 20)])
    out = k.get_polygons(spec, depth)
    c.eq("polygons", out, [p for s in old.polygons for p, l, d in zip(s.polygons, s.layers, s.datatypes) if l == spec[0] and d == spec[1]] + [p for s in old.paths for p in s.points if (s.layers[0], s.datatypes[0]) == spec] + [p for s in old.references for p in s.points if (s.layers[0], s.datatypes[0]) == spec])
    c.forall("depth", k.references, lambda r: r.asked == -2 if depth is None else r.asked == depth - 1)
    kept(c, k, old)


@contract("C06 C09", ["library.Cell.get_polygons"], budget=240)
def cell_get_polygons_grouped(c):
    k = shape_cell(c)
    old = c.snapshot(k)
    depth = c.choice("depth", [None, c.int("depth", 0, 20)])
    out = k.get_polygons(True, depth)
    want = {}
    for s in old.polygons:
        for p, l, d in zip(s.polygons, s.layers, s.datatypes):
            if (l, d) in want:
                want[(l, d)].append(p)
            else:
                want[(l, d)] = [p]
    for s in old.paths + old.references:
        x = (s.layers[0], s.datatypes[0])
        if x in want:
            want[x].extend(s.points)
        else:
            want[x] = [p for p in s.points]
    c.eq("groups", out, want)
    kept(c, k, old)


class Boxed(gdspy.Cell):
    """stands for any cell of known bounding box (contracts of C07)"""

    __slots__ = ("box",)

    def get_bounding_box(self):
        return self.box


@contract("C06", ["library.Cell.get_polygons"])
def below_the_depth(c):
    """below the requested depth a cell shows as its bounding box, named by the cell when grouped"""
    x, y, w, h = c.real("x"), c.real("y"), c.real("w"), c.real("h")
    box = c.array([[x, y], [w, h]])
    name = c.text("name", 32, 1)
    k = c.new(Boxed, name=name, box=c.choice("box", [box, None]), polygons=[polygonset(c, "ps")], paths=[], labels=[], references=[])
    outline = [[(x, y), (x, h), (w, h), (w, y)]]
    d = c.int("depth", -20, -1)
    empty = k.box is None
    c.eq("plain", k.get_polygons(False, d), [] if empty else outline)
    c.eq("grouped", k.get_polygons(True, d), {} if empty else {name: outline})
    c.eq("filtered", k.get_polygons((c.tag("layer"), c.tag("datatype")), d), [])


class Source(object):
    """stands for a reference: gives fresh copies of given content (contracts reference_get_polygonsets, ..._paths, ..._labels)"""

    __slots__ = ("idents", "asked")

    def get_polygonsets(self, depth=None):
        self.asked = -2 if depth is None else depth
        return [i for i in self.idents]

    def get_paths(self, depth=None):
        self.asked = -2 if depth is None else depth
        return [i for i in self.idents]

    def get_labels(self, depth=None, set_transform=False):
        self.asked = (-2 if depth is None else depth) + (100 if set_transform else 0)
        return [i for i in self.idents]


def sources(c, name):
    return c.list(name, None, lambda: c.new(Source, idents=c.list(name + ".idents", None, lambda: c.int(name + ".ident", 0, 99)), asked=-7))


@contract("C06", ["library.Cell.get_polygonsets", "library.Cell.get_paths", "library.Cell.get_labels"])
def cell_get_elements(c):
    """own elements first (copies: contract query_results_are_copies of C13), then those of each reference, depth by depth"""
    own = c.list("own", None, lambda: c.int("own ident", 0, 99))
    kind = c.choice("kind", [0, 1, 2])
    k = cell(c, "A", own if kind == 0 else [], own if kind == 1 else [], own if kind == 2 else [], sources(c, "references"))
    old = c.snapshot(k)
    depth = c.choice("depth", [None, c.int("depth", 0, 20)])
    t = False
    if kind == 0:
        out = k.get_polygonsets(depth)
    elif kind == 1:
        out = k.get_paths(depth)
    else:
        t = c.flag("set transform")
        out = k.get_labels(depth, t)
    deep = depth is None or depth > 0
    c.eq("elements", out, [x for x in (old.polygons if kind == 0 else old.paths if kind == 1 else old.labels)] + ([x for r in old.references for x in r.idents] if deep else []))
    if deep:
        c.forall("depth", k.references, lambda r: r.asked == (-2 if depth is None else depth - 1) + (100 if t else 0))
    c.eq("kept", (k.polygons, k.paths, k.labels, [r.idents for r in k.references]), (old.polygons, old.paths, old.labels, [r.idents for r in old.references]))


class Content(object):
    """stands for a reference: gives fresh elements"""

    __slots__ = ("polygons", "paths", "labels")

    def get_polygonsets(self, depth=None):
        return [x for x in self.polygons]

    def get_paths(self, depth=None):
        return [x for x in self.paths]

    def get_labels(self, depth=None, set_transform=False):
        return [x for x in self.labels]


class Tagged(object):
    """stands for a path: tags of its parallel elements and polygons computed earlier"""

    __slots__ = ("ident", "n", "layers", "datatypes", "_polygon_dict")


def tagged(c, name):
    n = c.count(name + ".n", 1)
    return c.new(Tagged, ident=c.int(name + ".ident", 0, 99), n=n, layers=c.list(name + ".layers", n, lambda: c.tag(name + ".layer")), datatypes=c.list(name + ".datatypes", n, lambda: c.tag(name + ".datatype")), _polygon_dict=c.int(name + ".computed", 0, 9))


def three_lists(c, name, what):
    return dict(
        polygons=c.list(name + ".polygons", None, lambda: polygonset(c, name + ".ps")) if what == "polygons" else [],
        paths=c.list(name + ".paths", None, lambda: tagged(c, name + ".path")) if what == "paths" else [],
        labels=c.list(name + ".labels", None, lambda: c.new(gdspy.Label, text=c.text(name + ".text", 512), layer=c.tag(name + ".layer"), texttype=c.tag(name + ".texttype"), position=c.array([0.0, 0.0]), anchor=0, rotation=None, magnification=None, x_reflection=False, properties={})) if what == "labels" else [],
    )


def flattened(c, what, layer, datatype, texttype):
    k = cell(c, "A", references=[c.new(Content, **three_lists(c, "r0", what))], **three_lists(c, "own", what))
    k._bb_valid = True
    old = c.snapshot(k)
    r = old.references[0]
    c.same("returns self", k.flatten(layer, datatype, texttype), k)
    c.eq("references", k.references, [])
    c.eq("box cache", k._bb_valid, False)
    if what == "polygons":
        c.eq("other lists", (k.paths, k.labels), ([], []))
        c.eq("polygons", [(x.polygons, x.layers, x.datatypes) for x in k.polygons], [(x.polygons, retagged(layer, x.layers), retagged(datatype, x.datatypes)) for x in old.polygons] + [(x.polygons, retagged(layer, x.layers), retagged(datatype, x.datatypes)) for x in r.polygons])
    elif what == "paths":
        c.eq("other lists", (k.polygons, k.labels), ([], []))
        c.eq("paths", [(x.ident, x.layers, x.datatypes) for x in k.paths], [(x.ident, retagged(layer, x.layers), retagged(datatype, x.datatypes)) for x in old.paths] + [(x.ident, retagged(layer, x.layers), retagged(datatype, x.datatypes)) for x in r.paths])
        if layer is not None or datatype is not None:
            c.forall("computed polygons dropped", k.paths, lambda x: x._polygon_dict is None)
    else:
        c.eq("other lists", (k.paths, k.polygons), ([], []))
        c.eq("labels", [(x.text, x.layer, x.texttype) for x in k.labels], [(x.text, new_tag(layer, x.layer), new_tag(texttype, x.texttype)) for x in old.labels] + [(x.text, new_tag(layer, x.layer), new_tag(texttype, x.texttype)) for x in r.labels])


def retagged(t, old):
    return old if t is None else [t for x in old]


def new_tag(t, old):
    return old if t is None else t


def some_tags(c):
    return [c.choice(n, [None, c.tag("single " + n)]) for n in ["layer", "datatype", "texttype"]]


@contract("C06 C09", ["library.Cell.flatten"], note="one reference; the order of several: cell_get_elements")
def cell_flatten_polygons(c):
    flattened(c, "polygons", *some_tags(c))


@contract("C06 C09", ["library.Cell.flatten"], note="one reference; the order of several: cell_get_elements")
def cell_flatten_paths(c):
    flattened(c, "paths", *some_tags(c))


@contract("C06 C09", ["library.Cell.flatten"], note="one reference; the order of several: cell_get_elements")
def cell_flatten_labels(c):
    flattened(c, "labels", *some_tags(c))


@contract("C06 C09", ["library.Cell.get_polygons", "library.Cell.get_polygonsets", "library.CellReference.get_polygons", "library.CellReference.get_polygonsets", "library.CellArray.get_polygons", "library.CellArray.get_polygonsets", "library.Cell.flatten"], sym=False, samples=150, note="random hierarchies of up to 4 cells against an independent evaluation with matrices")
def hierarchy_polygons(c):
    from contracts import world as w
    cs = w.cells(c.rng)
    k = cs[-1]
    before = w.contents(cs)
    depth = c.rng.choice([None, None, 0, 1, 2])
    want = [((l, d), p) for l, d, p in w.flat_polygons(k)]
    got = k.get_polygons(True)
    e = w.same_multiset([(a, p) for a, v in got.items() for p in v], want)
    c.check("grouped", not e, e)
    plain = k.get_polygons()
    c.check("plain", not w.same_multiset([(0, p) for p in plain], [(0, p) for a, p in want]))
    for a in sorted(got) + [(77, 78)]:
        c.check("filtered", not w.same_multiset([(a, p) for p in k.get_polygons(a)], [x for x in want if x[0] == a]))
    sets = k.get_polygonsets(depth)
    mine = [((l, d), p) for x in sets for l, d, p in zip(x.layers, x.datatypes, x.polygons)]
    c.check("polygon sets", not w.same_multiset(mine, [((l, d), p) for l, d, p in w.flat_polygons(k, depth, False)]))
    c.eq("cells unchanged", w.contents(cs), before)


@contract("C06", ["library.Cell.get_labels", "library.CellReference.get_labels", "library.CellArray.get_labels"], sym=False, samples=100, note="random hierarchies against an independent evaluation with matrices")
def hierarchy_labels(c):
    from contracts import world as w
    cs = w.cells(c.rng, paths=False)
    k = cs[-1]
    before = w.contents(cs)
    depth = c.rng.choice([None, None, 0, 1, 2])
    for t in (False, True):
        got = k.get_labels(depth, t)
        want = w.flat_labels(k, depth)
        c.eq("number", len(got), len(want))
        for x, (y, m) in zip(got, want):
            c.eq("text", (x.text, x.layer, x.texttype, x.anchor), (y.text, y.layer, y.texttype, y.anchor))
            c.eq("position", list(x.position), list(w.apply(m, [y.position])[0]))
            if t:
                c.check("transformation", numpy.allclose(w.linear(x), m[:2, :2] @ w.linear(y)))
            else:
                c.eq("own transformation", (x.rotation, x.magnification, x.x_reflection), (y.rotation, y.magnification, y.x_reflection))
    c.eq("cells unchanged", w.contents(cs), before)


@contract("C06", ["library.Cell.flatten", "library.Cell.get_paths", "library.CellReference.get_paths", "library.CellArray.get_paths", "path.FlexPath.transform", "path.RobustPath.transform"], sym=False, samples=100, note="random hierarchies; flexible paths without offsets (see the known finding) and with scaled widths")
def hierarchy_flatten(c):
    from contracts import world as w
    cs = w.cells(c.rng, plain_paths=True)
    k = cs[-1]
    before = w.contents(cs[:-1])
    want = [(l, d, p) for l, d, p in w.flat_polygons(k)]
    own = [p for r in k.references for p in r.get_paths()]
    labels = w.flat_labels(k)
    layer, datatype, texttype = [c.rng.choice([None, None, v]) for v in (91, 92, 93)]
    tag = lambda a: (a[0] if layer is None else layer, a[1] if datatype is None else datatype)
    if c.rng.random() < 0.5:
        k.get_polygons()
    c.same("returns self", k.flatten(layer, datatype, texttype), k)
    c.eq("references", len(k.references), 0)
    got = k.get_polygons(True)
    e = w.same_shapes([(a, p) for a, v in got.items() for p in v], [(tag((l, d)), p) for l, d, p in want])
    c.check("polygons", not e, e)
    c.eq("labels", [(x.text, x.layer, x.texttype) for x in k.labels], [(y.text, y.layer if layer is None else layer, y.texttype if texttype is None else texttype) for y, m in labels])
    c.eq("other cells", w.contents(cs[:-1]), before)

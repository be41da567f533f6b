"""Random worlds for the bounded (native) contracts, and an independent evaluation of them.

Everything here runs natively only.  The oracle functions (flat_polygons, records, ...) do not
use the code under contract: transformations are composed as matrices, records are parsed here."""
import math
import struct
import numpy
import gdspy

GRID = 1e-3


def num(r, lo=-50, hi=50):
    """coordinate on the grid of 1e-3"""
    return round(r.uniform(lo, hi) / GRID) * GRID if r.random() < 0.7 else float(r.randint(int(lo), int(hi)))


def text(r, n=8, lo=1):
    return "".join(r.choice("abcXYZ019_$") for _ in range(r.randint(lo, n)))


def tags(r):
    return r.choice([0, 1, 2, 3, 7, 255]), r.choice([0, 1, 2, 5])


def ngon(r, n=None):
    n = n or r.choice([3, 3, 4, 5, 6, 9])
    return [(num(r), num(r)) for _ in range(n)]


def properties(r):
    return {r.randint(1, 127): text(r, 9) for _ in range(r.choice([0, 0, 1, 2, 3]))}


def polygonset(r):
    k = r.randrange(4)
    if k == 0:
        l, d = tags(r)
        p = gdspy.Polygon(ngon(r), l, d)
    elif k == 1:
        l, d = tags(r)
        p = gdspy.Rectangle((num(r), num(r)), (num(r), num(r)), l, d)
    else:
        n = r.randint(1, 4)
        p = gdspy.PolygonSet([ngon(r) for _ in range(n)], 0, 0)
        t = [tags(r) for _ in range(n)]
        p.layers = [x[0] for x in t]
        p.datatypes = [x[1] for x in t]
    p.properties = properties(r)
    return p


def spine(r, n=None):
    """points whose directions turn by less than 120 degrees, segments longer than 5"""
    n = n or r.randint(2, 5)
    a = r.uniform(-3, 3)
    x, y = num(r), num(r)
    pts = [(x, y)]
    for _ in range(n - 1):
        l = r.uniform(8, 20)
        x, y = round((x + l * math.cos(a)) / GRID) * GRID, round((y + l * math.sin(a)) / GRID) * GRID
        pts.append((x, y))
        a += r.uniform(-2, 2)
    return pts


def flexpath(r, gdsii=None, offsets=True, scaled=None):
    n = r.randint(1, 3)
    g = (r.random() < 0.5) if gdsii is None else gdsii
    w = [round(r.uniform(0.1, 2), 2) for _ in range(n)]
    o = [round(r.uniform(-2, 2), 1) if offsets else 0 for _ in range(n)]
    ends = [r.choice(["flush", "extended", (round(r.uniform(0, 2), 2), round(r.uniform(0, 2), 2))]) for _ in range(n)]
    t = [tags(r) for _ in range(n)]
    p = gdspy.FlexPath(spine(r), w, o, ends=ends, gdsii_path=g, width_transform=r.random() < 0.5 if scaled is None else scaled, layer=[x[0] for x in t], datatype=[x[1] for x in t])
    p.properties = properties(r)
    return p


def robustpath(r, gdsii=None, scaled=None):
    n = r.randint(1, 3)
    g = (r.random() < 0.5) if gdsii is None else gdsii
    w = [round(r.uniform(0.1, 2), 2) for _ in range(n)]
    o = [round(r.uniform(-2, 2), 1) for _ in range(n)]
    ends = [r.choice(["flush", "extended", (round(r.uniform(0, 2), 2), round(r.uniform(0, 2), 2))]) for _ in range(n)]
    t = [tags(r) for _ in range(n)]
    pts = spine(r)
    p = gdspy.RobustPath(pts[0], w, o, ends=ends, gdsii_path=g, width_transform=r.random() < 0.5 if scaled is None else scaled, layer=[x[0] for x in t], datatype=[x[1] for x in t])
    for q in pts[1:]:
        p.segment(q)
    p.properties = properties(r)
    return p


def label(r):
    l, d = tags(r)
    t = gdspy.Label(text(r), (num(r), num(r)), r.choice(["nw", "n", "ne", "w", "o", "e", "sw", "s", "se"]), rotation(r), magnification(r), r.random() < 0.4, l, d)
    t.properties = properties(r)
    return t


def rotation(r):
    return r.choice([None, 0, 90, 180, 270, -90, 30, round(r.uniform(0, 360), 2)])


def magnification(r):
    return r.choice([None, 1, 2, 0.5, round(r.uniform(0.2, 3), 2)])


def reference(r, cell):
    if r.random() < 0.55:
        x = gdspy.CellReference(cell, (num(r), num(r)), rotation(r), magnification(r), r.random() < 0.4)
    else:
        x = gdspy.CellArray(cell, r.randint(1, 3), r.randint(1, 3), (num(r), num(r)), (num(r), num(r)), rotation(r), magnification(r), r.random() < 0.4)
    x.properties = properties(r)
    return x


def fill(r, cell, others, paths=True, size=3, plain_paths=False):
    for _ in range(r.randint(0, size)):
        cell.add(polygonset(r))
    if paths and r.random() < 0.5:
        cell.add(flexpath(r, offsets=False, scaled=True) if plain_paths else flexpath(r))
    if paths and r.random() < 0.4:
        cell.add(robustpath(r, scaled=True) if plain_paths else robustpath(r))
    for _ in range(r.randint(0, 2)):
        cell.add(label(r))
    if others:
        for _ in range(r.randint(0, 2)):
            cell.add(reference(r, r.choice(others)))
    return cell


def cells(r, n=None, paths=True, name="C", plain_paths=False):
    """cells that reference earlier ones only"""
    out = []
    for i in range(n or r.randint(1, 4)):
        k = gdspy.Cell("%s%d" % (name, i), exclude_from_current=True)
        fill(r, k, out, paths, plain_paths=plain_paths)
        if out and i and not k.references and r.random() < 0.8:
            k.add(reference(r, out[-1]))
        out.append(k)
    return out


def library(r, **kw):
    lib = gdspy.GdsLibrary(text(r), unit=1e-6, precision=1e-9)
    lib.add(cells(r, **kw), update_references=False)
    return lib


# ---------------------------------------------------------------------------- geometry oracle
def placement(ref, disp=(0, 0)):
    """3x3 matrix of one copy: reflect, magnify, rotate, translate (array displacement first, unscaled)"""
    m = 1 if ref.magnification is None else ref.magnification
    a = math.radians(0 if ref.rotation is None else ref.rotation)
    s = -1 if ref.x_reflection else 1
    c, k = math.cos(a), math.sin(a)
    ox, oy = (0, 0) if ref.origin is None else ref.origin
    lin = numpy.array([[c, -k], [k, c]]) @ numpy.array([[1, 0], [0, s]])
    t = lin @ numpy.array(disp, dtype=float) + numpy.array([ox, oy], dtype=float)
    out = numpy.eye(3)
    out[:2, :2] = lin * m
    out[:2, 2] = t
    return out


def linear(x):
    """2x2 matrix of the transformation of a label: reflect, magnify, rotate"""
    m = 1 if x.magnification is None else x.magnification
    a = math.radians(0 if x.rotation is None else x.rotation)
    s = -1 if x.x_reflection else 1
    return m * numpy.array([[math.cos(a), -math.sin(a)], [math.sin(a), math.cos(a)]]) @ numpy.array([[1, 0], [0, s]])


def same_shapes(a, b, tol=1e-3):
    """as same_multiset, but polygons are compared by number of vertices up to resampling: tags, area and bounding box"""
    if len(a) != len(b):
        return "%d polygons instead of %d" % (len(a), len(b))
    rest = [(k, bbox([p]), shoelace(p)) for k, p in b]
    for k, p in a:
        x, s = bbox([p]), shoelace(p)
        for i, (k2, y, s2) in enumerate(rest):
            if k == k2 and numpy.abs(x - y).max() <= tol * (1 + numpy.abs(y).max()) and abs(s - s2) <= tol * (1 + s2):
                del rest[i]
                break
        else:
            return "polygon %r %r not expected" % (k, x.tolist())
    return None


def copies(ref):
    if isinstance(ref, gdspy.CellArray):
        return [placement(ref, (ref.spacing[0] * i, ref.spacing[1] * j)) for i in range(ref.columns) for j in range(ref.rows)]
    return [placement(ref)]


def apply(m, pts):
    p = numpy.array(pts, dtype=float)
    return p @ m[:2, :2].T + m[:2, 2]


def own_polygons(cell, paths=True):
    """[(layer, datatype, points)] of the cell's own elements"""
    out = []
    for p in cell.polygons:
        out.extend((l, d, numpy.array(q, dtype=float)) for l, d, q in zip(p.layers, p.datatypes, p.polygons))
    if paths:
        for p in cell.paths:
            for (l, d), ps in p.get_polygons(True).items():
                out.extend((l, d, numpy.array(q, dtype=float)) for q in ps)
    return out


def flat_polygons(cell, depth=None, paths=True):
    out = own_polygons(cell, paths)
    if depth is None or depth > 0:
        for ref in cell.references:
            if isinstance(ref.ref_cell, gdspy.Cell):
                sub = flat_polygons(ref.ref_cell, None if depth is None else depth - 1, paths)
                for m in copies(ref):
                    out.extend((l, d, apply(m, q)) for l, d, q in sub)
    return out


def flat_labels(cell, depth=None):
    """[(label, matrix)]"""
    out = [(t, numpy.eye(3)) for t in cell.labels]
    if depth is None or depth > 0:
        for ref in cell.references:
            if isinstance(ref.ref_cell, gdspy.Cell):
                sub = flat_labels(ref.ref_cell, None if depth is None else depth - 1)
                for m in copies(ref):
                    out.extend((t, m @ k) for t, k in sub)
    return out


def bbox(polys):
    pts = [q for p in polys for q in numpy.array(p, dtype=float)]
    if not pts:
        return None
    pts = numpy.array(pts)
    return numpy.array([pts.min(0), pts.max(0)])


def shoelace(p):
    p = numpy.array(p, dtype=float)
    q = numpy.roll(p, -1, 0)
    return abs(float(numpy.sum(p[:, 0] * q[:, 1] - p[:, 1] * q[:, 0]))) / 2


def same_multiset(a, b, tol=1e-6):
    """pair up polygons given as (key, points) up to order of polygons (not of vertices)"""
    if len(a) != len(b):
        return "%d polygons instead of %d" % (len(a), len(b))
    def order(x):
        p = numpy.array(x[1], dtype=float)
        return (str(x[0]), p.shape[0], round(float(p[:, 0].mean()), 3), round(float(p[:, 1].mean()), 3))
    rest = list(b)
    for x in a:
        p = numpy.array(x[1], dtype=float)
        for i, y in enumerate(rest):
            q = numpy.array(y[1], dtype=float)
            if x[0] == y[0] and p.shape == q.shape and numpy.all(numpy.abs(p - q) <= tol * (1 + numpy.abs(q).max())):
                del rest[i]
                break
        else:
            return "polygon %r %r not expected" % (x[0], p[:4].tolist())
    return None


# ---------------------------------------------------------------------------- content of cells, for comparisons
def value(x):
    if isinstance(x, numpy.ndarray):
        return ("array", x.shape, tuple(x.ravel().tolist()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(value(v) for v in x)
    if isinstance(x, dict):
        return ("dict",) + tuple(sorted(((value(k), value(v)) for k, v in x.items()), key=repr))
    if isinstance(x, numpy.generic):
        return x.item()
    if isinstance(x, gdspy.Cell):
        return ("cell", x.name)
    if x is None or isinstance(x, (int, float, str, bool)):
        return x
    if callable(x) and not hasattr(x, "paths"):
        return "function"
    return repr(type(x))


def slots(o):
    out = []
    for k in type(o).__mro__:
        s = k.__dict__.get("__slots__", ())
        out.extend([s] if isinstance(s, str) else s)
    return [n for n in dict.fromkeys(out) if hasattr(o, n)]


def element(o):
    """comparable content of an element (cached polygons left out)"""
    out = [type(o).__name__]
    for n in slots(o):
        if n == "_polygon_dict":
            continue
        v = getattr(o, n)
        if n == "paths" and isinstance(o, gdspy.RobustPath):
            v = [[[value(s.transform), value(s(0.3, 0)), value(s(0.7, 1))] for s in p] for p in v]
            out.append((n, repr(v)))
        else:
            out.append((n, value(v)))
    return tuple(out)


def content(cell):
    return tuple((n, tuple(element(e) for e in getattr(cell, n))) for n in ("polygons", "paths", "labels", "references"))


def contents(cs):
    return [(c.name, content(c)) for c in cs]


# ---------------------------------------------------------------------------- independent GDSII reader
TYPES = {0: "none", 1: "bits", 2: "i2", 3: "i4", 5: "r8", 6: "str"}


def r8(b):
    v = int.from_bytes(b[1:], "big") / 2.0 ** 56 * 16.0 ** ((b[0] & 0x7F) - 64)
    return -v if b[0] & 0x80 else v


def records(data):
    """[(record type, value)]; fails on malformed streams"""
    out, i = [], 0
    while i < len(data):
        assert i + 4 <= len(data), "truncated record"
        size, rt, dt = struct.unpack(">HBB", data[i:i + 4])
        assert size >= 4 and size % 2 == 0, "record size %d" % size
        body = data[i + 4:i + size]
        assert len(body) == size - 4, "truncated record"
        i += size
        if dt == 0:
            assert not body
            v = None
        elif dt in (1, 2):
            v = list(struct.unpack(">%d%s" % (len(body) // 2, "H" if dt == 1 else "h"), body))
        elif dt == 3:
            v = list(struct.unpack(">%dl" % (len(body) // 4), body))
        elif dt == 5:
            v = [r8(body[k:k + 8]) for k in range(0, len(body), 8)]
        elif dt == 6:
            v = body.rstrip(b"\0").decode("ascii")
        else:
            raise AssertionError("data type %d" % dt)
        out.append(((rt, dt), v))
    return out


def elements(recs):
    """split the records of one structure into elements: lists of (name, value)"""
    out, cur = [], []
    for (rt, dt), v in recs:
        cur.append((rt, v))
        if rt == 0x11:
            out.append(cur)
            cur = []
    assert not cur
    return out


def offset_polyline(pts, o):
    """polyline at distance o to the left of the given one (intersections of the shifted lines)"""
    pts = [numpy.array(p, dtype=float) for p in pts]
    ts = [(b - a) / numpy.hypot(*(b - a)) for a, b in zip(pts[:-1], pts[1:])]
    ns = [numpy.array([-t[1], t[0]]) for t in ts]
    out = [pts[0] + o * ns[0]]
    for k in range(1, len(pts) - 1):
        d = ts[k - 1][0] * ts[k][1] - ts[k - 1][1] * ts[k][0]
        if abs(d) < 1e-9:
            out.append(pts[k] + o * ns[k])
        else:
            # intersection of two lines
            a, b = pts[k] + o * ns[k - 1], pts[k] + o * ns[k]
            u = ((b - a)[0] * ts[k][1] - (b - a)[1] * ts[k][0]) / d
            out.append(a + u * ts[k - 1])
    out.append(pts[-1] + o * ns[-1])
    return out


def distance_to_polyline(q, pts):
    best = None
    for a, b in zip(pts[:-1], pts[1:]):
        a, b = numpy.array(a, dtype=float), numpy.array(b, dtype=float)
        u = max(0.0, min(1.0, float(numpy.dot(q - a, b - a) / max(1e-30, numpy.dot(b - a, b - a)))))
        d = float(numpy.hypot(*(q - a - u * (b - a))))
        best = d if best is None or d < best else best
    return best


def crossing(a0, a1, b0, b1):
    """intersection of the lines a0 a1 and b0 b1 (middle of a1 b0 for parallel lines)"""
    t, u = a1 - a0, b1 - b0
    d = t[0] * u[1] - t[1] * u[0]
    if abs(d) < 1e-9 * numpy.hypot(*t) * numpy.hypot(*u):
        return (a1 + b0) / 2
    k = ((b0 - a1)[0] * u[1] - (b0 - a1)[1] * u[0]) / d
    return a1 + k * t

"""C04: file level utilities see exactly the stream's records, cells, units and dates"""
import datetime
import io
import os
import pathlib
import struct
import gdspy
from vc.contract import contract
from contracts.common import *
from contracts import world

HEADER, BGNLIB, LIBNAME, UNITS, ENDLIB, BGNSTR, STRNAME, ENDSTR = 0x0002, 0x0102, 0x0206, 0x0305, 0x0400, 0x0502, 0x0606, 0x0700
MAXBODY = 65530


class Hash(object):
    """stands for a hashlib engine"""

    def __init__(self):
        self.data = []

    def update(self, x):
        self.data.append(x)

    def hexdigest(self):
        return "digest"


def record(c, rtype, body):
    """record of a given type"""
    return c.U(2, 4 + c.length(body)) + c.U(2, rtype) + body


def dates(c, name):
    return c.text(name + ".dates", 24, 24).encode("ascii")


def string(c, name):
    """text of even length: needs no padding"""
    s = c.text(name, MAXBODY, 2)
    if not c.symbolic:
        s = s + "q" * (len(s) % 2)
    return s


def other_record(c, name):
    """any record that neither begins nor ends a cell or the library"""
    t = c.int(name + ".type", 8 * 256, 0x3C * 256)
    return record(c, t, c.text(name + ".body", MAXBODY, 0).encode("ascii"))


class Piece(object):
    """one cell of a stream"""

    __slots__ = ("name", "head", "body")


def piece(c, name="cell"):
    """a cell: dates, name and any number of records of any content"""
    n = c.text(name + ".name", MAXBODY, 1) if not c.symbolic else string(c, name + ".name")
    body = b"".join([record(c, STRNAME, n.encode("ascii"))] + c.list(name + ".records", None, lambda: other_record(c, name + ".record")))
    return c.new(Piece, name=n, head=record(c, BGNSTR, dates(c, name)), body=body)


def file_head(c, name="lib"):
    units = c.R8(c.posreal(name + ".user")) + c.R8(c.posreal(name + ".meters"))
    return record(c, HEADER, c.U(2, 600)) + record(c, BGNLIB, dates(c, name)), record(c, LIBNAME, string(c, name + ".name").encode("ascii")) + c.U(2, 20) + c.U(2, UNITS) + units


def end_cell(c):
    return c.U(2, 4) + c.U(2, ENDSTR)


def end_lib(c):
    return c.U(2, 4) + c.U(2, ENDLIB)


class Stamp(object):
    """stands for a datetime"""

    __slots__ = ("year", "month", "day", "hour", "minute", "second")


def stamp(c):
    return c.new(Stamp, year=c.int("year", 0, 9999), month=c.int("month", 1, 12), day=c.int("day", 1, 31), hour=c.int("hour", 0, 23), minute=c.int("minute", 0, 59), second=c.int("second", 0, 59))


def stamp_bytes(c, t):
    one = c.U(2, t.year) + c.U(2, t.month) + c.U(2, t.day) + c.U(2, t.hour) + c.U(2, t.minute) + c.U(2, t.second)
    return one + one


def cell_bytes(c, p):
    return p.head + p.body + end_cell(c)


def pieces(c):
    return c.list("cells", None, lambda: piece(c))


def whole(c, cells):
    a, b = file_head(c)
    return a + b + b"".join([cell_bytes(c, p) for p in cells]) + end_lib(c)


@contract("C04", ["gdsiiformat.set_gdsii_timestamp"])
def timestamps(c):
    """only the dates of the library and of the cells change"""
    _, b = file_head(c)
    cells = pieces(c)
    head = record(c, HEADER, c.U(2, 600))
    tail = end_lib(c)
    path = c.disk(head + record(c, BGNLIB, dates(c, "lib")) + b + b"".join([cell_bytes(c, p) for p in cells]) + tail)
    t = stamp(c)
    gdspy.set_gdsii_timestamp(path, t)
    new = stamp_bytes(c, t)
    want = head + record(c, BGNLIB, new) + b + b"".join([record(c, BGNSTR, new) + p.body + end_cell(c) for p in cells]) + tail
    c.eq("file", c.content(path), want)


@contract("C04", ["gdsiiformat.gdsii_hash"])
def hash_content(c):
    """the hash is that of the cells' contents without dates, in sorted order, and of nothing else"""
    cells = pieces(c)
    h = Hash()
    c.eq("digest", gdspy.gdsii_hash(c.disk(whole(c, cells)), h), "digest")
    c.eq("hashed", h.data, sorted([p.body for p in cells]))


@contract("C04", ["gdsiiformat._raw_record_reader"])
def raw_records(c):
    recs = c.list("records", None, lambda: c.new(Piece, name=c.int("record.type", 0, 65535), body=c.text("record.body", MAXBODY, 0).encode("ascii")))
    got = list(gdspy.gdsiiformat._raw_record_reader(c.stream(b"".join([record(c, r.name, r.body) for r in recs]))))
    c.eq("records", got, [(r.name // 256, record(c, r.name, r.body)) for r in recs])


@contract("C04", ["library.get_gds_units"])
def gds_units(c):
    user, meters = c.posreal("user"), c.posreal("meters")
    head = record(c, HEADER, c.U(2, 600)) + record(c, BGNLIB, dates(c, "lib")) + record(c, LIBNAME, string(c, "lib.name").encode("ascii"))
    data = head + c.U(2, 20) + c.U(2, UNITS) + c.R8(user) + c.R8(meters) + b"".join([cell_bytes(c, p) for p in pieces(c)]) + end_lib(c)
    got = gdspy.get_gds_units(c.choice("source", [c.disk(data), c.stream(data)]))
    c.eq("unit", got[0], meters / user, tol=1e-12)
    c.eq("precision", got[1], meters, tol=1e-12)


@contract("C04", ["library.get_binary_cells"])
def binary_cells(c):
    """every cell under its name, exactly from its begin to its end record"""
    cells = pieces(c)
    if not c.symbolic:
        c.assume(len(set(p.name for p in cells)) == len(cells))
    data = whole(c, cells)
    got = gdspy.get_binary_cells(c.choice("source", [c.disk(data), c.stream(data)]))
    c.eq("cells", got, {p.name: cell_bytes(c, p) for p in cells})


@contract("C04", ["library.get_binary_cells"])
def binary_cell_padded(c):
    """names padded with a NUL and cells of two different names"""
    a, b = c.text("a", MAXBODY, 1), c.text("b", MAXBODY, 2)
    c.assume(a != b)
    if not c.symbolic:
        a, b = a + "q" * (1 - len(a) % 2), b + "q" * (len(b) % 2)
    ca = record(c, BGNSTR, dates(c, "a")) + record(c, STRNAME, a.encode("ascii") + b"\0") + end_cell(c)
    cb = record(c, BGNSTR, dates(c, "b")) + record(c, STRNAME, b.encode("ascii")) + other_record(c, "rec") + end_cell(c)
    h, t = file_head(c)
    got = gdspy.get_binary_cells(c.stream(h + t + ca + cb + end_lib(c)))
    c.eq("number", len(got), 2)
    c.eq("first", got[a], ca)
    c.eq("second", got[b], cb)


# ------------------------------------------------------------------------------ files written by the package itself
def written(lib, cells=None, t=None):
    out = io.BytesIO()
    lib.write_gds(out, cells, timestamp=t)
    return out.getvalue()


def split(data):
    """[(type, start, end)] of the records of a stream"""
    out, i = [], 0
    while i < len(data):
        n, t = struct.unpack(">HH", data[i:i + 4])
        if n < 4:
            break
        out.append((t, i, i + n))
        i += n
    return out


def cells_of(data):
    """{name: bytes} by an independent parse"""
    out, start, name = {}, None, None
    for t, a, b in split(data):
        if t == BGNSTR:
            start = a
        elif t == STRNAME:
            name = data[a + 4:b].rstrip(b"\0").decode("ascii")
        elif t == ENDSTR:
            out[name] = data[start:b]
    return out


def random_file(c):
    lib = world.library(c.rng, plain_paths=True)
    data = written(lib, t=datetime.datetime(c.rng.randint(1970, 2040), c.rng.randint(1, 12), c.rng.randint(1, 28), c.rng.randint(0, 23), 5, 6))
    return lib, data + b"\0" * c.rng.choice([0, 0, 4, 40])


@contract("C04", ["library.get_binary_cells", "library.GdsLibrary.write_gds", "library.GdsWriter.write_binary_cells"], samples=60, sym=False)
def binary_cells_of_files(c):
    lib, data = random_file(c)
    k = c.rng.randrange(3)
    got = gdspy.get_binary_cells(c.disk(data) if k else io.BytesIO(data))
    c.eq("cells", got, cells_of(data))
    c.check("all cells", set(got) == set(lib.cells))
    # written back, they make up the same cells
    out = io.BytesIO()
    if k == 0:
        new = gdspy.GdsLibrary("new", unit=lib.unit, precision=lib.precision)
        new.write_gds(out, cells=[], binary_cells=got.values())
    else:
        w = gdspy.GdsWriter(out, "new", lib.unit, lib.precision)
        for b in got.values():
            w.write_binary_cells([b])
        w.close()
    c.eq("cells written back", cells_of(out.getvalue()), got)
    c.check("order", [t for t, a, b in split(out.getvalue()) if t in (BGNSTR, ENDSTR)] == [BGNSTR, ENDSTR] * len(got))
    a, b = gdspy.GdsLibrary(), gdspy.GdsLibrary()
    a.read_gds(io.BytesIO(data))
    b.read_gds(io.BytesIO(out.getvalue()))
    c.check("cells read back", world.contents(a.cells.values()) == world.contents(b.cells.values()))


@contract("C04", ["gdsiiformat.set_gdsii_timestamp"], samples=60, sym=False)
def timestamps_of_files(c):
    lib, data = random_file(c)
    path = c.disk(data)
    t = datetime.datetime(c.rng.randint(1970, 2040), c.rng.randint(1, 12), c.rng.randint(1, 28), c.rng.randint(0, 23), c.rng.randint(0, 59), c.rng.randint(0, 59))
    gdspy.set_gdsii_timestamp(path, t)
    want = bytearray(data)
    for rt, a, b in split(data):
        if rt in (BGNLIB, BGNSTR):
            want[a + 4:b] = struct.pack(">12H", *(2 * [t.year, t.month, t.day, t.hour, t.minute, t.second]))
    c.check("file", c.content(path) == bytes(want))
    c.eq("as if written then", bytes(want[:len(written(lib, t=t))]), written(lib, t=t))


@contract("C04", ["gdsiiformat.gdsii_hash"], samples=80, sym=False)
def hash_of_files(c):
    r = c.rng
    lib, data = random_file(c)
    h = gdspy.gdsii_hash(c.disk(data))
    # dates, names, units and the order of cells do not matter
    other = gdspy.GdsLibrary("another", unit=lib.unit, precision=lib.precision)
    cs = list(lib.cells.values())
    r.shuffle(cs)
    for k in cs:
        other.add(k, include_dependencies=False, update_references=False)
    d2 = bytearray(written(other, t=datetime.datetime(2001, 2, 3)))
    for t, a, b in split(bytes(d2)):
        if t == UNITS:
            d2[a + 4:b] = bytes(r.randrange(256) for _ in range(16))
    c.check("same contents", gdspy.gdsii_hash(c.disk(d2)) == h)
    # every byte of a cell matters
    spots = []
    inside = False
    for t, a, b in split(data):
        if t == BGNSTR:
            inside = True
        elif t == ENDSTR:
            inside = False
        elif inside:
            spots.extend(range(a + 4, b))
            spots.append(a + 3)
    for k in r.sample(spots, min(len(spots), 8)):
        d3 = bytearray(data)
        d3[k] = (d3[k] + r.randint(1, 255)) % 256
        c.check("content matters", gdspy.gdsii_hash(c.disk(d3)) != h)
    # so does every cell
    if len(cs) > 1:
        gone = r.choice(list(lib.cells))
        rest = [k for k in lib.cells if k != gone]
        c.check("cells matter", gdspy.gdsii_hash(c.disk(written(lib, rest))) != h)


@contract("C04", ["library.get_gds_units"], samples=60, sym=False)
def units_of_files(c):
    r = c.rng
    unit, precision = r.choice([(1e-6, 1e-9), (1e-9, 1e-12), (1e-3, 1e-9), (1, 1e-9), (r.uniform(1e-7, 1e-2), r.uniform(1e-12, 1e-9))])
    lib = gdspy.GdsLibrary(world.text(r), unit=unit, precision=precision)
    if r.random() < 0.5:
        lib.add(gdspy.Cell(world.text(r), True))
    data = written(lib)
    got = gdspy.get_gds_units(c.disk(data) if r.random() < 0.6 else io.BytesIO(data))
    c.eq("units", got, (unit, precision), tol=1e-13)
    c.check("relative", abs(got[0] / unit - 1) < 1e-12 and abs(got[1] / precision - 1) < 1e-12)

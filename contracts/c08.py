"""C08: the cell table of a library and its references stay consistent"""
import gdspy
from vc.contract import contract
from contracts.common import *
from contracts import world


class Link(object):
    """stands for a reference: only its target matters"""

    __slots__ = ("ref_cell",)


def empty(c, name):
    return cell(c, name)


def targets(c, name):
    """references of a cell: any number held as cells of any names, any number held by name"""
    return c.list(name + ".cells", None, lambda: c.new(Link, ref_cell=empty(c, c.text(name + ".target")))) + c.list(name + ".names", None, lambda: c.new(Link, ref_cell=c.text(name + ".name")))


def two_cells(c):
    """library of two cells of arbitrary different names"""
    a, b = c.text("a"), c.text("b")
    c.assume(a != b)
    ka, kb = empty(c, a), empty(c, b)
    ka.references = targets(c, "a refs")
    kb.references = targets(c, "b refs")
    return library(c, "L", {a: ka, b: kb}), ka, kb


def target_name(t):
    return t.name if isinstance(t, gdspy.Cell) else t


def updated(c, k, old, name, new):
    """exactly the references to the named cell lead to the new one"""
    def one(pair):
        now, was = pair
        if target_name(was.ref_cell) == name:
            c.same("replaced", now.ref_cell, new)
        else:
            c.eq("kept", target_name(now.ref_cell), target_name(was.ref_cell))
    c.eq("number of references", len(k.references), len(old.references))
    c.forall("references", list(zip(k.references, old.references)), one)


def uses(k, name):
    return sum(1 for r in k.references if target_name(r.ref_cell) == name)


@contract("C08", ["library.GdsLibrary.replace_references"])
def replace_references(c):
    lib, ka, kb = two_cells(c)
    name = c.text("name")
    new = empty(c, c.text("new"))
    old_a, old_b = c.snapshot(ka), c.snapshot(kb)
    n = lib.replace_references(c.choice("by", [name, empty(c, name)]), new)
    updated(c, ka, old_a, name, new)
    updated(c, kb, old_b, name, new)
    c.eq("count", n, uses(old_a, name) + uses(old_b, name))


@contract("C08", ["library.GdsLibrary.replace_references"])
def replace_references_by_name(c):
    """a replacement given by name is the library's cell of that name, or stays a name"""
    a, b = c.text("a"), c.text("b")
    c.assume(a != b)
    kb = empty(c, b)
    ref = c.new(Link, ref_cell=c.choice("held", [a, empty(c, a)]))
    ka = empty(c, a)
    kb.references = [ref]
    lib = library(c, "L", {a: ka, b: kb})
    new = c.text("new")
    c.eq("count", lib.replace_references(a, new), 1)
    if new == a:
        c.same("library's cell", ref.ref_cell, ka)
    elif new == b:
        c.same("library's cell", ref.ref_cell, kb)
    else:
        c.eq("name", ref.ref_cell, new)


@contract("C08", ["library.GdsLibrary.remove"])
def library_remove(c):
    lib, ka, kb = two_cells(c)
    old_a, old_b = c.snapshot(ka), c.snapshot(kb)
    name = c.choice("name", [ka.name, c.text("other")])
    c.assume(name != kb.name)
    update = c.flag("remove_references")
    n = lib.remove(c.choice("by", [name, empty(c, name)]), update) if not update else lib.remove(c.choice("by", [name, empty(c, name)]))
    gone = name == ka.name
    c.eq("cells", list(lib.cells), [kb.name] if gone else [ka.name, kb.name])
    c.same("other cell", lib.cells[kb.name], kb)
    if update:
        c.eq("references", [target_name(r.ref_cell) for r in kb.references], [target_name(r.ref_cell) for r in old_b.references if target_name(r.ref_cell) != name])
        if not gone:
            c.eq("references", [target_name(r.ref_cell) for r in ka.references], [target_name(r.ref_cell) for r in old_a.references if target_name(r.ref_cell) != name])
        c.eq("count", n, uses(old_b, name) + (0 if gone else uses(old_a, name)))
    else:
        c.eq("references", kb.references, old_b.references)
        c.eq("count", n, 0)


@contract("C08", ["library.GdsLibrary.rename_cell"])
def rename_cell(c):
    lib, ka, kb = two_cells(c)
    old_a, old_b = c.snapshot(ka), c.snapshot(kb)
    name = c.text("new")
    a, b = ka.name, kb.name
    by = c.choice("by", [a, ka])
    update = c.flag("update_references")
    if name == a or name == b:
        c.raises("name taken", ValueError, lambda: lib.rename_cell(by, name, update))
        c.eq("cells", list(lib.cells), [a, b])
        c.eq("names", (ka.name, kb.name), (a, b))
        c.eq("references", (ka.references, kb.references), (old_a.references, old_b.references))
    else:
        n = lib.rename_cell(by, name, update)
        c.eq("number", len(lib.cells), 2)
        c.same("renamed cell", lib.cells[name], ka)
        c.same("other cell", lib.cells[b], kb)
        c.eq("names", (ka.name, kb.name), (name, b))
        if update:
            updated(c, ka, old_a, a, ka)
            updated(c, kb, old_b, a, ka)
            c.eq("count", n, uses(old_a, a) + uses(old_b, a))
        else:
            c.eq("references", (ka.references, kb.references), (old_a.references, old_b.references))
            c.eq("count", n, 0)


@contract("C08", ["library.GdsLibrary.rename_cell"])
def rename_absent_cell(c):
    lib, ka, kb = two_cells(c)
    a, b = ka.name, kb.name
    other = c.text("other")
    form = c.choice("form", ["name", "cell", "namesake"])
    if form == "namesake":
        by = empty(c, a)
    else:
        c.assume(other != a)
        c.assume(other != b)
        by = other if form == "name" else empty(c, other)
    old = c.snapshot([ka, kb])
    c.raises("refused", ValueError, lambda: lib.rename_cell(by, c.text("new")))
    c.eq("cells", list(lib.cells), [a, b])
    c.eq("unchanged", [ka, kb], old)


@contract("C08", ["library.GdsLibrary.add"])
def library_add(c):
    """a cell of a new name is listed under its name; a clash is refused and changes nothing"""
    lib, ka, kb = two_cells(c)
    a, b = ka.name, kb.name
    new = empty(c, c.text("new"))
    old = c.snapshot([ka, kb])
    arg = c.choice("form", [new, [new], (new,), "present"])
    if arg == "present":
        c.same("returns", lib.add(ka, include_dependencies=False), lib)
        c.eq("cells", list(lib.cells), [a, b])
        c.same("same cell", lib.cells[a], ka)
    elif new.name == a or new.name == b:
        c.raises("clash", ValueError, lambda: lib.add(arg))
        c.eq("cells", list(lib.cells), [a, b])
        c.same("first", lib.cells[a], ka)
        c.same("second", lib.cells[b], kb)
    else:
        c.same("returns", lib.add(arg), lib)
        c.eq("number", len(lib.cells), 3)
        c.same("first", lib.cells[a], ka)
        c.same("second", lib.cells[b], kb)
        c.same("new", lib.cells[new.name], new)
    c.eq("unchanged", [ka, kb], old)


@contract("C08", ["library.GdsLibrary.add"])
def library_overwrite(c):
    lib, ka, kb = two_cells(c)
    a, b = ka.name, kb.name
    new = empty(c, a)
    old_b = c.snapshot(kb)
    update = c.flag("update_references")
    c.same("returns", lib.add(new, overwrite_duplicate=True, update_references=update), lib)
    c.eq("number", len(lib.cells), 2)
    c.same("new", lib.cells[a], new)
    c.same("other", lib.cells[b], kb)
    if update:
        updated(c, kb, old_b, a, new)
    else:
        c.eq("references", kb.references, old_b.references)
    c.eq("name", new.name, a)


class Leaf(gdspy.Cell):
    """referenced cell of given recursive dependencies"""

    __slots__ = ("deeper",)

    def get_dependencies(self, recursive=False):
        return set(self.deeper) if recursive else set()


@contract("C08", ["library.Cell.get_dependencies"])
def get_dependencies(c):
    """exactly the cells of the references held as cells, with recursion theirs too"""
    def leaf(name):
        return c.new(Leaf, name=name, polygons=[], paths=[], labels=[], references=[], _bb_valid=False, _bounding_box=None, deeper=[])
    far, near, other = leaf("far"), leaf("near"), leaf("other")
    near.deeper = [far]
    k = empty(c, "A")
    refs = [near, near, "name", None, other]
    k.references = [c.new(Link, ref_cell=t) for t in refs if c.flag("present")]
    held = [r.ref_cell for r in k.references]
    recursive = c.flag("recursive")
    d = k.get_dependencies(recursive) if recursive else k.get_dependencies()
    c.eq("near", near in d, any(t is near for t in held))
    c.eq("other", other in d, any(t is other for t in held))
    c.eq("far", far in d, recursive and any(t is near for t in held))
    c.eq("number", len(d), len([t for t in (near, other) if any(t is x for x in held)]) + (1 if recursive and any(t is near for t in held) else 0))


@contract("C08", ["library.GdsLibrary.top_level", "library.GdsLibrary.__iter__"])
def top_level(c):
    """exactly the cells no cell of the library references, as cell or as name"""
    names = [c.text(n) for n in "abd"]
    for i, j in ((0, 1), (0, 2), (1, 2)):
        c.assume(names[i] != names[j])
    ks = [empty(c, n) for n in names]
    used = []
    stranger = empty(c, c.text("x"))
    for i, k in enumerate(ks):
        for j in range(i):
            how = c.choice("link %d %d" % (i, j), ["none", "cell", "name", "outside"] if j == 0 else ["none", "cell", "name"])
            if how == "outside":
                k.references.append(c.new(Link, ref_cell=stranger))
            elif how != "none":
                k.references.append(c.new(Link, ref_cell=ks[j] if how == "cell" else ks[j].name))
                used.append(ks[j])
    lib = library(c, "L", {k.name: k for k in ks})
    top = lib.top_level()
    for i, k in enumerate(ks):
        c.eq("cell %d" % i, any(t is k for t in top), not any(t is k for t in used))
    c.eq("number", len(top), len([k for k in ks if not any(t is k for t in used)]))


@contract("C08", ["library.GdsLibrary.add"])
def library_add_many(c):
    """several cells, one of which replaces a cell that another one references"""
    a, b = c.text("a"), c.text("b")
    c.assume(a != b)
    old = empty(c, b)
    new = empty(c, b)
    user = empty(c, a)
    by_name = c.flag("by name")
    user.references = [c.new(Link, ref_cell=b if by_name else old)]
    lib = library(c, "L", {b: old})
    cells = c.choice("order", [[user, new], [new, user], (user, new)])
    overwrite = c.flag("overwrite")
    if overwrite:
        update = c.flag("update")
        c.same("returns", lib.add(cells, False, True, update), lib)
        c.eq("number", len(lib.cells), 2)
        c.same("user", lib.cells[a], user)
        c.same("new", lib.cells[b], new)
        if update:
            c.same("reference", user.references[0].ref_cell, new)
        elif by_name:
            c.eq("reference", user.references[0].ref_cell, b)
        else:
            c.same("reference", user.references[0].ref_cell, old)
    else:
        c.raises("clash", ValueError, lambda: lib.add(cells, False))
        c.eq("cells", list(lib.cells), [b])
        c.same("kept", lib.cells[b], old)
        if not by_name:
            c.same("reference", user.references[0].ref_cell, old)


@contract("C08", ["library.GdsLibrary.add", "library.Cell.get_dependencies"])
def library_add_dependencies(c):
    """cells referenced by the added ones come along, recursively, unless excluded"""
    names = [c.text(n) for n in "abd"]
    for i, j in ((0, 1), (0, 2), (1, 2)):
        c.assume(names[i] != names[j])
    ka, kb, kd = [empty(c, n) for n in names]
    deep = c.flag("deep")
    ka.references = [c.new(Link, ref_cell=kb), c.new(Link, ref_cell=c.text("name"))]
    if deep:
        kb.references = [c.new(Link, ref_cell=kd)]
    lib = library(c, "L", {})
    arg = c.choice("form", [ka, [ka]])
    if c.flag("include"):
        lib.add(arg)
        c.same("a", lib.cells[names[0]], ka)
        c.same("b", lib.cells[names[1]], kb)
        c.eq("number", len(lib.cells), 3 if deep else 2)
        if deep:
            c.same("d", lib.cells[names[2]], kd)
    else:
        lib.add(arg, include_dependencies=False)
        c.eq("number", len(lib.cells), 1)
        c.same("a", lib.cells[names[0]], ka)


@contract("C08", ["library.GdsLibrary.new_cell"])
def new_cell(c):
    lib, ka, kb = two_cells(c)
    # cells are also listed in the global library, which has none of these names here
    gdspy.current_library = library(c, "global", {})
    a, b = ka.name, kb.name
    old_b = c.snapshot(kb)
    name = c.choice("name", [a, c.text("other")])
    c.assume(name != b)
    if name == a:
        if c.flag("overwrite"):
            k = lib.new_cell(a, overwrite_duplicate=True)
            c.eq("number", len(lib.cells), 2)
            c.same("new", lib.cells[a], k)
            updated(c, kb, old_b, a, k)
            c.eq("empty", (k.polygons, k.paths, k.labels, k.references), ([], [], [], []))
        else:
            c.raises("clash", ValueError, lambda: lib.new_cell(a))
            c.same("kept", lib.cells[a], ka)
            c.eq("number", len(lib.cells), 2)
    else:
        k = lib.new_cell(name)
        c.eq("number", len(lib.cells), 3)
        c.same("new", lib.cells[name], k)
        c.same("first", lib.cells[a], ka)
        c.eq("name", k.name, name)
    c.same("second", lib.cells[b], kb)


@contract("C08", ["library.GdsLibrary.add", "library.GdsLibrary.remove", "library.GdsLibrary.rename_cell", "library.GdsLibrary.replace_references", "library.GdsLibrary.top_level"], sym=False, samples=150)
def library_history(c):
    """random histories against a model of the cell table and of every reference"""
    r = c.rng
    gdspy.current_library = gdspy.GdsLibrary()
    lib = gdspy.GdsLibrary("L")
    pool = []
    table = {}          # model: name -> cell
    links = {}          # model: id(reference) -> cell or name; references by cell in refs
    refs = {}           # model: id(cell) -> list of references

    def fresh(name):
        k = gdspy.Cell(name, exclude_from_current=True)
        pool.append(k)
        refs[id(k)] = []
        return k

    def link(k, target):
        x = gdspy.CellReference(target, (1, 2), ignore_missing=True) if r.random() < 0.6 else gdspy.CellArray(target, 2, 1, (3, 4), ignore_missing=True)
        k.add(x)
        x.ref_cell = target
        refs[id(k)].append(x)
        links[id(x)] = target

    def name_of(t):
        return t.name if isinstance(t, gdspy.Cell) else t

    def deps(k, seen=()):
        out = []
        for x in refs[id(k)]:
            t = links[id(x)]
            if isinstance(t, gdspy.Cell):
                for q in [t] + deps(t):
                    if not any(q is y for y in out):
                        out.append(q)
        return out

    names = ["A", "B", "C", "D", "E"]
    for step in range(r.randint(3, 10)):
        op = r.choice(["add", "add", "add", "overwrite", "remove", "rename", "replace", "new"])
        if op in ("add", "overwrite", "new"):
            ks = []
            for n in r.sample(names, r.choice([1, 1, 2, 3]) if op != "new" else 1):
                k = fresh(n) if op != "new" else None
                if k is not None:
                    for _ in range(r.randint(0, 2)):
                        # earlier cells only, so that there are no cycles (of the same name neither)
                        held = [t for t in list(table.values()) + ks if t.name < k.name]
                        if held and r.random() < 0.7:
                            link(k, r.choice(held))
                        else:
                            link(k, r.choice([n for n in names if n < k.name] + ["missing"]))
                    ks.append(k)
                else:
                    name = n
            include = r.random() < 0.5
            over = op == "overwrite" or op == "new" and r.random() < 0.4
            update = r.random() < 0.7
            if op == "new":
                gdspy.current_library = gdspy.GdsLibrary()
                clash = not over and name in table
                if clash:
                    c.raises("clash", ValueError, lambda: lib.new_cell(name))
                    continue
                k = lib.new_cell(name, over, update)
                refs[id(k)] = []
                pool.append(k)
                todo = [k]
            else:
                todo = list(ks)
                if include:
                    for k in ks:
                        for q in deps(k):
                            if not any(q is y for y in todo):
                                todo.append(q)
                arg = ks[0] if len(ks) == 1 and r.random() < 0.5 else ks
                twice = len(set(k.name for k in todo)) != len(todo)
                clash = twice or not over and any(k.name in table and table[k.name] is not k for k in todo)
                if clash:
                    c.raises("clash", ValueError, lambda: lib.add(arg, include, over, update))
                else:
                    lib.add(arg, include, over, update)
            if not clash:
                gone = [k for k in todo if k.name in table and table[k.name] is not k]
                for k in todo:
                    table[k.name] = k
                if over and update:
                    for k in gone:
                        for q in table.values():
                            for x in refs[id(q)]:
                                if name_of(links[id(x)]) == k.name:
                                    links[id(x)] = k
        elif op == "remove":
            n = r.choice(names)
            update = r.random() < 0.7
            by = table[n] if n in table and r.random() < 0.5 else n
            got = lib.remove(by, update)
            table.pop(n, None)
            count = 0
            if update:
                for q in table.values():
                    keep = [x for x in refs[id(q)] if name_of(links[id(x)]) != n]
                    count += len(refs[id(q)]) - len(keep)
                    refs[id(q)] = keep
            c.eq("removed", got, count)
        elif op == "rename":
            n, m = r.choice(names), r.choice(names + ["Z"])
            update = r.random() < 0.7
            by = table[n] if n in table and r.random() < 0.5 else n
            if n not in table or m in table:
                c.raises("rename", ValueError, lambda: lib.rename_cell(by, m, update))
            else:
                # references lead to earlier names only, so that there are no cycles
                k = table[n]
                users = [q.name for q in pool if any(name_of(links[id(x)]) in (n, m) for x in refs[id(q)])]
                if any(u <= m for u in users) or any(name_of(links[id(x)]) >= m for x in refs[id(k)] if name_of(links[id(x)]) != "missing"):
                    continue
                table.pop(n)
                # references of cells held directly follow the cell object; its name changes with it
                old = {i: name_of(t) for i, t in links.items()}
                got = lib.rename_cell(by, m, update)
                table[m] = k
                count = 0
                if update:
                    for q in table.values():
                        for x in refs[id(q)]:
                            if old[id(x)] == n:
                                links[id(x)] = k
                                count += 1
                c.eq("renamed", got, count)
                c.eq("name", k.name, m)
        else:
            n = r.choice(names)
            if r.random() < 0.5 and table:
                new = r.choice(sorted(table.values(), key=lambda k: k.name))
                if r.random() < 0.5:
                    new = new.name
            else:
                new = "missing"
            target = table.get(new, new) if not isinstance(new, gdspy.Cell) else new
            if isinstance(target, gdspy.Cell):
                if any(q.name <= target.name for q in table.values() if any(name_of(links[id(x)]) == n for x in refs[id(q)])):
                    continue
            got = lib.replace_references(n, new)
            count = 0
            for q in table.values():
                for x in refs[id(q)]:
                    if name_of(links[id(x)]) == n:
                        links[id(x)] = target
                        count += 1
            c.eq("replaced", got, count)
        # the whole state
        c.eq("names", sorted(lib.cells), sorted(table))
        for n, k in table.items():
            c.same("cell", lib.cells[n], k)
            c.eq("listed under its name", k.name, n)
        for k in pool:
            c.eq("references", [id(x) for x in k.references], [id(x) for x in refs[id(k)]])
            for x in k.references:
                t = links[id(x)]
                if isinstance(t, gdspy.Cell):
                    c.same("target", x.ref_cell, t)
                else:
                    c.eq("target", x.ref_cell, t)
            near = [links[id(x)] for x in refs[id(k)] if isinstance(links[id(x)], gdspy.Cell)]
            got = k.get_dependencies()
            c.check("dependencies", all(any(t is q for t in near) for q in got) and all(t in got for t in near))
            far = deps(k)
            got = k.get_dependencies(True)
            c.check("all dependencies", len(got) == len(far) and all(t in got for t in far))
        used = [links[id(x)] for q in table.values() for x in refs[id(q)]]
        want = [n for n, k in table.items() if not any((t is k) if isinstance(t, gdspy.Cell) else t == n for t in used)]
        c.eq("top level", sorted(k.name for k in lib.top_level()), sorted(want))

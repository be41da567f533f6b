"""seed.py ID PROP NEEDS WHAT  -- make a planted bug from the edits in /tmp/seed/repo and /tmp/seed/demo.py
   seed.py --reset             -- fresh scratch copy
   seed.py --recheck [ID..]    -- re-verify kept bugs (apply, demo, stable tests) in the scratch copy
   seed.py --catch [ID..]      -- run the property's check against each kept bug (scratch copy) """
import json, os, shutil, subprocess, sys
S = "/tmp/seed/repo"; V = "/verif/seeded"
def sh(cmd, cwd=S, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **k)
def reset():
    shutil.rmtree(S, ignore_errors=True)
    os.makedirs("/tmp/seed", exist_ok=True)
    sh("cp -a /repo /tmp/seed/repo", cwd="/tmp")
ENV = ". /opt/vp/env.sh; export PYTHONPATH=%s; " % S
def build():
    return sh(ENV + '[ gdspy/clipper.cpp -ot gdspy/clipper.cpython-312-x86_64-linux-gnu.so ] || $PY -W ignore setup.py -q build_ext --inplace --force')
def tests():
    r = sh(ENV + '$PY -m pytest -q -p no:cacheprovider --maxfail=0 -n 6 --timeout=45 --continue-on-collection-errors --basetemp=/tmp/seed/bt tests -rfE 2>&1 | tail -15')
    return r.stdout
def demo(d):
    r = sh("bash %s/demo.sh" % d, timeout=300)
    return r.returncode, r.stdout[-600:]
def check(idn):
    d = os.path.join(V, idn)
    sh("git checkout -q -- .")
    build()
    a = demo(d)
    r = sh("git apply %s/patch.diff" % d)
    if r.returncode: return "PATCH DOES NOT APPLY " + r.stdout
    b = build()
    if b.returncode: return "BUILD FAILS"
    c = demo(d)
    t = tests()
    sh("git checkout -q -- ."); sh("touch gdspy/clipper.cpp"); 
    ok = a[0] == 0 and c[0] != 0 and "failed" not in t and "error" not in t.lower()
    return ("OK" if ok else "BAD") + " clean=%s patched=%s tests=%s %s %s" % (a[0], c[0], t.strip().split("\n")[-1], "" if a[0] == 0 else a[1], c[1][-200:] if c[0] else "")
def main():
    if sys.argv[1] == "--reset": return reset()
    if sys.argv[1] == "--recheck":
        reset()
        for i in sys.argv[2:] or sorted(os.listdir(V)): print(i, check(i), flush=True)
        return
    if sys.argv[1] == "--catch":
        reset()
        for i in sys.argv[2:] or sorted(os.listdir(V)):
            m = json.load(open("%s/%s/meta.json" % (V, i)))
            sh("git checkout -q -- .")
            sh("git apply %s/%s/patch.diff" % (V, i))
            r = sh("GDSPY_REPO=%s python3-vt /verif/check.py %s" % (S, m["property"]), cwd="/verif")
            vs = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]
            tm = [l for l in r.stdout.split("\n") if l.startswith("property ")]
            print("%-28s %s rc=%d %s | %s" % (i, m["property"], r.returncode, [v.split("/")[-1] for v in vs], tm), flush=True)
            sh("git checkout -q -- .")
        return
    idn, prop, needs, what = sys.argv[1:5]
    d = os.path.join(V, idn); os.makedirs(d, exist_ok=True)
    p = sh("git diff").stdout
    assert p.strip(), "no edits"
    open(d + "/patch.diff", "w").write(p)
    shutil.copy("/tmp/seed/demo.py", d + "/demo.py")
    open(d + "/demo.sh", "w").write('#!/bin/bash\n# cwd: the repository under test\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent/no-pycache PYTHONHASHSEED=0\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(d + "/meta.json", "w"), indent=1)
    sh("git checkout -q -- .")
    print(idn, check(idn))
main()

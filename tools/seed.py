"""seed.py add|verify|checks : create and validate planted changes under seeded/ (development tool).

`add` is used from the seed definition files; `verify ID` applies the patch to /repo, runs the
stable tests and the demo, and always undoes it; `checks ID` runs the owning check against it."""
import json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"

LIB = '''import sys, io, contextlib
sys.dont_write_bytecode = True
sys.path.insert(0, "/repo")
from mimosa import MIMOSA, load_params
import pyomo.environ as pe


def params(over=None, regions=("CAN", "USA", "INDIA"), start=2020, end=2050, dt=5):
    p = load_params()
    p["regions"] = {r: {} for r in regions}
    p["time"].update(start=start, end=end, dt=dt)
    for k, v in (over or {}).items():
        d = p
        ks = k.split(".")
        for x in ks[:-1]:
            d = d[x]
        d[ks[-1]] = v
    return p


def model(over=None, **kw):
    import mimosa.mimosa as mm
    mm.TransformationFactory = lambda n: type("T", (), {"apply_to": lambda s, m: None, "update_variables": lambda s, m: None})()
    with contextlib.redirect_stdout(io.StringIO()):
        return MIMOSA(params(over, **kw)).concrete_model


def head(con, var):
    """The value of var that satisfies the equality con at the current values."""
    from pyomo.util.calc_var_value import calculate_variable_from_constraint
    var.set_value(0.5, skip_validation=True)
    calculate_variable_from_constraint(var, con)
    return pe.value(var)


def find(m, var, *others):
    """The active equality whose variables are var and (at least) others, wherever it is declared."""
    from pyomo.core.expr.visitor import identify_variables
    want = {id(v) for v in (var,) + others}
    out = [c for c in m.component_data_objects(pe.Constraint, active=True)
           if c.equality and want <= {id(v) for v in identify_variables(c.body)}]
    return min(out, key=lambda c: len(list(identify_variables(c.body))))


def close(a, b, tol=1e-6):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def expect(ok, text):
    if not ok:
        print("FAIL:", text)
        sys.exit(1)
    print("ok:", text)
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def clean():
    assert sh("git -C /repo status --porcelain --untracked-files=no").stdout == "", "repo not clean"


def add(id, prop, edits, needs, breaks, demo):
    clean()
    d = os.path.join(ROOT, "seeded", id)
    os.makedirs(d, exist_ok=True)
    try:
        for f, old, new in edits:
            p = os.path.join("/repo", f)
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = sh("git -C /repo diff").stdout
    finally:
        sh("git -C /repo checkout -- .")
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo_lib.py"), "w").write(LIB)
    open(os.path.join(d, "demo.py"), "w").write(demo)
    open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\n# exit 0: behaviour as documented; 1: broken\nexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    print(verify(id))


def verify(id):
    clean()
    d = os.path.join(ROOT, "seeded", id)
    a = sh(f"bash {d}/demo.sh", cwd="/repo")
    try:
        r = sh(f"git -C /repo apply {d}/patch.diff")
        assert r.returncode == 0, r.stderr
        t = sh("bash /opt/vp/test.sh /tmp/seedtest.json")
        b = sh(f"bash {d}/demo.sh", cwd="/repo")
    finally:
        sh("git -C /repo checkout -- .")
    ok = a.returncode == 0 and b.returncode != 0 and "0 failed" in t.stdout
    return id, "OK" if ok else f"BAD clean={a.returncode} {a.stdout[-300:]} {a.stderr[-600:]} patched={b.returncode} {t.stdout[-200:]}", b.stdout.strip()[-120:], b.stderr.strip()[-200:]


def checks(id, props=None):
    clean()
    d = os.path.join(ROOT, "seeded", id)
    prop = json.load(open(d + "/meta.json"))["property"]
    try:
        assert sh(f"git -C /repo apply {d}/patch.diff").returncode == 0
        for p in props or [prop]:
            r = sh(f"{PY} -B -m vf.cli {p} quick", cwd=ROOT)
            caught = r.returncode == 1 and f"VIOLATION property={p} " in r.stdout
            print(id, p, "CAUGHT" if caught else f"MISSED rc={r.returncode}", r.stdout.strip().splitlines()[-1][:200] if r.stdout else r.stderr[-300:])
    finally:
        sh("git -C /repo checkout -- .")


if __name__ == "__main__":
    cmd = sys.argv[1]
    ids = sys.argv[2:] or sorted(os.listdir(os.path.join(ROOT, "seeded")))
    for i in ids:
        print(*verify(i)) if cmd == "verify" else checks(i)

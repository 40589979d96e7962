#!/usr/bin/env python3
"""mkseed.py SPECFILE...   builds seeded/<id>/ from a python spec and confirms it in a scratch copy of /repo.

A spec file defines SEEDS = [dict(id, property, edits=[(file, old, new)], module+test (library demo) or demo (shell text) [, files={name: text}],
needs, what)].  Options: --noverify"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
REPO = "/repo"


def run(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)


def make(s):
    d = os.path.join(V, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="seed.")
    run(f"git -C {REPO} archive HEAD | tar -x -C {w}")
    run("git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm x", cwd=w)
    for f, old, new in s["edits"]:
        p = os.path.join(w, f)
        t = open(p).read()
        assert t.count(old) == 1, (s["id"], f, t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    diff = run("git diff", cwd=w).stdout
    shutil.rmtree(w)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    if "module" in s:
        open(os.path.join(d, "module"), "w").write(s["module"])
        open(os.path.join(d, "test.rs"), "w").write("\n#[cfg(test)]\nmod vp_demo {\n    use super::*;\n" + s["test"] + "\n}\n")
        shutil.copy(os.path.join(HERE, "seedlib/demo_lib.sh"), os.path.join(d, "demo.sh"))
    elif "py" in s:
        shutil.copy(os.path.join(HERE, "seedlib/e2e.py"), os.path.join(d, "e2e.py"))
        shutil.copy(os.path.join(HERE, "seedlib/demo_py.sh"), os.path.join(d, "demo.sh"))
        open(os.path.join(d, "demo.py"), "w").write("from e2e import *\n" + s["py"])
    else:
        open(os.path.join(d, "demo.sh"), "w").write(s["demo"])
        for n, t in s.get("files", {}).items():
            open(os.path.join(d, n), "w").write(t)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["what"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)


def verify(sid):
    """in place on /repo: clean demo, patch, build, tests, demo, undo"""
    d = os.path.join(V, "seeded", sid)
    scratch = tempfile.mkdtemp(prefix="sdemo.")
    dd = os.path.join(scratch, "x")
    shutil.copytree(d, dd)
    for f in ("patch.diff", "meta.json"):
        os.remove(os.path.join(dd, f))
    res = {}
    r = run(f"bash {dd}/demo.sh", cwd=REPO)
    res["clean"] = r.returncode
    if r.returncode:
        print(r.stdout[-2000:])
    assert run(f"git -C {REPO} apply {d}/patch.diff").returncode == 0
    try:
        b = run("bash /opt/vp/build.sh")
        res["build"] = b.returncode
        if b.returncode:
            print(b.stdout[-3000:])
        o = os.path.join(scratch, "o.json")
        run(f"bash /opt/vp/test.sh {o}")
        base = json.load(open("/opt/vp/BASELINE.json"))
        got = json.load(open(o))
        bad = stable_failed(base, got)
        res["tests_failed"] = bad
        r = run(f"bash {dd}/demo.sh", cwd=REPO)
        res["patched"] = r.returncode
        if r.returncode == 0:
            print(r.stdout[-2000:])
    finally:
        run(f"git -C {REPO} checkout -- .")
    shutil.rmtree(scratch)
    ok = res["clean"] == 0 and res["build"] == 0 and not res["tests_failed"] and res["patched"] != 0
    print(("GOOD " if ok else "BAD  ") + sid, res, flush=True)
    return ok


def names(x):
    if isinstance(x, dict):
        for k in ("stable_pass", "passed", "pass", "stable", "tests"):
            if k in x:
                v = x[k]
                return set(v if isinstance(v, list) else [n for n, s in v.items() if s in ("pass", "passed", "ok", True)])
    return set(x)


def stable_failed(base, got):
    return sorted(names(base) - names(got))


if __name__ == "__main__":
    ids = []
    for f in sys.argv[1:]:
        if f.startswith("--"):
            continue
        if os.path.exists(f):
            ns = {}
            exec(open(f).read(), ns)
            for s in ns["SEEDS"]:
                make(s)
                ids.append(s["id"])
        else:
            ids.append(f)
    if "--noverify" not in sys.argv:
        for i in ids:
            verify(i)
        run("bash /opt/vp/build.sh")

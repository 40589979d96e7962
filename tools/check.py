#!/usr/bin/env python3
"""check.py PID [--tier quick|thorough]   decide one property on /repo's current tree."""
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import extract  # noqa: E402
from props import PROPS  # noqa: E402

BUILD = os.path.join(VERIF, "build")
REPO = extract.REPO
HOOK_MODS = ["protocol", "duration", "template", "config", "config_watcher", "common", "attach", "list", "user", "exe",
             "tty", "session_restore", "detach", "kill", "var", "events", "hooks", "daemonize", "set_log_level",
             "daemon_etc_environment", "daemon_events", "daemon_exit_notify", "daemon_keybindings", "daemon_pager",
             "daemon_server", "daemon_shell", "daemon_shell_inject", "daemon_show_motd", "daemon_signals",
             "daemon_systemd", "daemon_trie", "daemon_ttl_reaper"]


def write_json(path, what):
    with open(path, "w") as f:
        json.dump(what, f)


def sh(cmd, env=None, timeout=None, cwd=None):
    try:
        p = subprocess.run(cmd, env=env, timeout=timeout, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           text=True, errors="replace")
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode("utf8", "replace") if isinstance(e.stdout, bytes) else (e.stdout or ""), "timeout"


def toolchain_env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e["HOME"] = e.get("HOME", "/root")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e.pop("RUSTC_WRAPPER", None)
    e.pop("CARGO_TARGET_DIR", None)
    e.pop("RUSTFLAGS", None)
    e.pop("RUSTUP_TOOLCHAIN", None)
    return e


# ------------------------------------------------------------------ verus
OBLIGATION = re.compile(
    r"unable to prove|postcondition not satisfied|precondition not satisfied|invariant not satisfied|assertion failed|"
    r"possible arithmetic|possible division|recommendation not met|decreases not satisfied|could not prove termination|"
    r"possible bit shift|unreachable|cannot prove|index out of bounds|loop ensures not satisfied|failed this|"
    r"loop invariant not|requires not satisfied|constant overflow|overflow|might not be allowed|possible cast")
RLIMIT = re.compile(r"rlimit|Resource limit|timed? ?out|canceled", re.I)


def run_verus(path, rlimit, timeout, multi=4):
    env = toolchain_env()
    t0 = time.time()
    rc, out, err = sh(["verus", path, "--output-json", "--time-expanded", "--error-format=json", "--multiple-errors",
                       str(multi), "--rlimit", str(rlimit), "--num-threads", "4"], env=env, timeout=timeout)
    res = {"rc": rc, "wall": time.time() - t0, "diags": [], "verified": 0, "errors": 0, "smt_ms": 0, "vir_error": False,
           "fn_times": []}
    try:
        j = json.loads(out)
        vr = j.get("verification-results", {})
        res["verified"], res["errors"] = vr.get("verified", 0), vr.get("errors", 0)
        res["vir_error"] = vr.get("encountered-vir-error", False)
        res["success"] = vr.get("success", False)
        smt = j.get("times-ms", {}).get("smt", {})
        res["smt_ms"] = smt.get("total", 0)
        for m in smt.get("smt-run-module-times", []):
            for f in m.get("function-breakdown", []):
                res["fn_times"].append([f.get("function"), f.get("time"), f.get("success")])
    except ValueError:
        res["success"] = False
        res["vir_error"] = True
    for line in err.split("\n"):
        if not line.startswith("{"):
            continue
        try:
            d = json.loads(line)
        except ValueError:
            continue
        if d.get("level") != "error" or d["message"].startswith("aborting due"):
            continue
        sp = [{"line": s["line_start"], "label": s.get("label"), "text": " ".join(x["text"].strip() for x in s["text"][:6]),
               "primary": s["is_primary"]} for s in d.get("spans", [])]
        res["diags"].append({"message": d["message"], "spans": sp, "code": (d.get("code") or {}).get("code") if d.get("code") else None})
    res["stderr"] = err if not res["diags"] else ""
    return res


def enclosing_fn(text_lines, line):
    for k in range(min(line, len(text_lines)) - 1, -1, -1):
        m = re.search(r"\bfn\s+(\w+)", text_lines[k])
        if m:
            return m.group(1)
    return "?"


def verify_unit(tpl, tier, out):
    """fills out: status proved|failed|lost|limit, details"""
    name = os.path.basename(tpl)[:-3]
    gen = os.path.join(BUILD, "gen")
    os.makedirs(gen, exist_ok=True)
    out.update(unit=name, status="lost", functions=[], items=[], failed=[], reason="", verified=0, errors=0, smt_ms=0)
    try:
        text, log = extract.build(tpl)
        vtext, vlog = extract.build(tpl, vac=True)
    except (extract.ExtractError, IndexError) as e:
        out["reason"] = f"extraction: {e}"
        return
    out["functions"], out["items"] = log["functions"], log["items"]
    gp, vp = os.path.join(gen, name + ".rs"), os.path.join(gen, name + "_vac.rs")
    open(gp, "w").write(text)
    open(vp, "w").write(vtext)
    out["generated"] = gp
    # mechanical scan for everything that is assumed rather than proved
    out["trusted"] = scan_trusted(text)
    if re.search(r"\b(assume|admit)\s*\(", strip_comments(text)):
        out["trusted"].append("assume()/admit() present")
    vres = {}
    th = threading.Thread(target=lambda: vres.update(run_verus(vp, 20, 600, multi=60)))
    th.start()
    r = run_verus(gp, 60 if tier == "thorough" else 30, 600)
    th.join()
    lines = text.split("\n")
    out.update(verified=r["verified"], errors=r["errors"], smt_ms=r["smt_ms"], wall=r["wall"], fn_times=r["fn_times"])
    if r.get("success") and r["errors"] == 0 and r["rc"] == 0:
        out["status"] = "proved"
    elif r["vir_error"] or r["rc"] == 124 or (not r["diags"]) or any(
            d["code"] for d in r["diags"]):
        out["status"] = "lost"
        out["reason"] = "verifier rejects the extracted text: " + "; ".join(
            d["message"] + (" @ " + d["spans"][0]["text"] if d["spans"] else "") for d in r["diags"][:3]) + r["stderr"][-300:]
    else:
        real = [d for d in r["diags"] if not RLIMIT.search(d["message"])]
        lim = [d for d in r["diags"] if RLIMIT.search(d["message"])]
        for d in r["diags"]:
            prim = next((s for s in d["spans"] if s["primary"]), d["spans"][0] if d["spans"] else {"line": 0, "text": ""})
            allsp = d["spans"] or [prim]
            fnname = enclosing_fn(lines, max(s["line"] for s in allsp) if not RLIMIT.search(d["message"]) else prim["line"] + 1)
            out["failed"].append({"obligation": d["message"], "function": fnname,
                                  "clause": prim["text"], "spans": d["spans"]})
        if real and all(OBLIGATION.search(d["message"]) for d in real):
            out["status"] = "failed"
        elif real:
            out["status"] = "lost"
            out["reason"] = "verifier rejects the extracted text: " + "; ".join(
                d["message"] + (" @ " + d["spans"][0]["text"] if d["spans"] else "") for d in real[:3])
        elif lim:
            out["status"] = "limit"
            out["reason"] = "resource limit: " + "; ".join(sorted({f["function"] for f in out["failed"]}))
    # vacuity: every planted assert(false) must be reached and fail
    tags = set(vlog["vac"])
    hit = set()
    vl = vtext.split("\n")
    for d in vres.get("diags", []):
        for s in d["spans"]:
            for ln in range(s["line"] - 1, min(s["line"] + 1, len(vl))):
                m = re.search(r"// (VACUITY .*)$", vl[ln])
                if m:
                    hit.add(m.group(1).strip())
    out["vacuity"] = {"planted": len(tags), "reached": len(tags & hit), "unreached": sorted(tags - hit)}
    if out["status"] == "proved" and tags - hit:
        out["status"] = "lost"
        out["reason"] = "vacuity guard: unreachable program points " + ", ".join(sorted(tags - hit))


def strip_comments(t):
    t = re.sub(r"//[^\n]*", "", t)
    return re.sub(r"/\*.*?\*/", "", t, flags=re.S)


def scan_trusted(text):
    t = strip_comments(text)
    out = set()
    for m in re.finditer(r"#\[verifier::external_body\]\s*(?:#\[[^\]]*\]\s*)*(?:pub\s+)?(?:const\s+|unsafe\s+)*(fn|struct|proof fn|broadcast proof fn|broadcast axiom fn|axiom fn)\s+(\w+)", t):
        out.add(f"{m.group(1)} {m.group(2)} (contract assumed, body not verified)")
    for m in re.finditer(r"assume_specification\s*(?:<[^\[]*>)?\s*\[([^\]]*)\]", t):
        out.add(f"{m.group(1).strip()} (std contract assumed)")
    for m in re.finditer(r"axiom\s+fn\s+(\w+)", t):
        out.add(f"axiom {m.group(1)}")
    for m in re.finditer(r"pub trait (\w+)[^{]*\{", t):
        # trait methods without a body are contracts on a dependency
        body = t[m.end():]
        d, k = 1, 0
        while d and k < len(body):
            d += {"{": 1, "}": -1}.get(body[k], 0)
            k += 1
        b = body[:k]
        for f in re.finditer(r"(?<!spec )(?<!proof )\bfn\s+(\w+)", b):
            if not re.search(r"spec\s+fn\s+" + f.group(1) + r"\b", b):
                out.add(f"{m.group(1)}::{f.group(1)} (dependency contract assumed)")
    return sorted(out)


# ------------------------------------------------------------------ oracle
def prepare_hooks(pid, cfg):
    d = os.path.join(BUILD, "hooks_" + pid)
    os.makedirs(d, exist_ok=True)
    files = {}
    for m in HOOK_MODS:
        src = os.path.join(VERIF, "oracle/hooks", m + ".rs")
        files[m] = open(src).read() if m in cfg["hooks"] and os.path.exists(src) else ""
    files["lib"] = "".join(f"pub use crate::{m}::verif as {m};\n" for m in cfg["hooks"] if not m.startswith("daemon_"))
    dm = [m for m in cfg["hooks"] if m.startswith("daemon_")]
    files["daemon"] = "".join(f"pub use super::{m[7:]}::verif as {m};\n" for m in dm)
    files["lib"] += "".join(f"pub use crate::daemon::verif::{m};\n" for m in dm)
    files["prop"] = open(os.path.join(VERIF, "oracle/props", pid + ".rs")).read()
    for k, v in files.items():
        p = os.path.join(d, k + ".rs")
        if not os.path.exists(p) or open(p).read() != v:
            open(p, "w").write(v)
    return d


def build_oracle(pid, cfg):
    env = toolchain_env()
    env["RUSTUP_TOOLCHAIN"] = "1.85.0"
    env["RUSTFLAGS"] = "--cfg shpool_verif -Awarnings"
    env["CARGO_INCREMENTAL"] = "0"
    env["SHPOOL_VERIF_HOOKS"] = prepare_hooks(pid, cfg)
    tgt = os.path.join(BUILD, "target")
    env["CARGO_TARGET_DIR"] = tgt
    crate = os.path.join(BUILD, "oracle_" + pid)
    os.makedirs(crate, exist_ok=True)
    # a private manifest copy so that the lock file cargo may touch is not the committed one
    shutil.copy(os.path.join(VERIF, "oracle/Cargo.toml"), os.path.join(crate, "Cargo.toml"))
    man = open(os.path.join(crate, "Cargo.toml")).read().replace('"/repo/', f'"{REPO}/')
    man = man.replace('path = "src/main.rs"', f'path = "{VERIF}/oracle/src/main.rs"')
    open(os.path.join(crate, "Cargo.toml"), "w").write(man)
    shutil.copy(os.path.join(VERIF, "oracle/Cargo.lock"), os.path.join(crate, "Cargo.lock"))
    rc, out, err = sh(["cargo", "build", "--offline", "--quiet"], env=env, cwd=crate, timeout=700)
    if rc != 0:
        return None, err[-3000:]
    b = os.path.join(crate, "oracle")
    shutil.copy(os.path.join(tgt, "debug/oracle"), b)
    return b, ""


def run_oracle(pid, cfg, tier, seed, out):
    out.update(status="broken", reason="", data={})
    b, err = build_oracle(pid, cfg)
    if b is None:
        out["reason"] = "harness does not build against the current tree: " + err
        return
    out["bin"] = b
    res = os.path.join(BUILD, f"oracle_{pid}", "out.json")
    if os.path.exists(res):
        os.remove(res)
    env = toolchain_env()
    env["VERIF_SEED"], env["VERIF_TIER"] = str(seed), tier
    env["VERIF_DIR"] = VERIF
    if cfg.get("oracle_secs"):
        env["ORACLE_SECS"] = str(cfg["oracle_secs"][1 if tier == "thorough" else 0])
    rc, o, e = sh([b, "search", res], env=env, timeout=600)
    try:
        out["data"] = json.load(open(res))
    except (OSError, ValueError):
        out["reason"] = f"harness ended with {rc}: {e[-1500:]}"
        out["crashed"] = rc
        return
    if rc == 3:
        # confirm before reporting
        rp = os.path.join(BUILD, f"oracle_{pid}", "confirm.json")
        write_json(rp, out["data"]["failure"])
        rc2, o2, e2 = sh([b, "replay", rp], env=env, timeout=300)
        if rc2 != 3 and out["data"]["failure_as_found"] != out["data"]["failure"]:
            # what it was shortened to may have failed for what ran before it
            out["data"]["failure"] = out["data"]["failure_as_found"]
            write_json(rp, out["data"]["failure"])
            rc2, o2, e2 = sh([b, "replay", rp], env=env, timeout=300)
        out["data"].pop("failure_as_found")
        if rc2 == 3:
            out["status"] = "fail"
        else:
            out["status"] = "ok"
            out["reason"] = "a failing case did not reproduce on replay and was dropped"
    elif rc == 0:
        out["status"] = "ok"
    else:
        out["reason"] = f"harness ended with {rc}: {e[-1500:]}"


# ------------------------------------------------------------------ main
def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = PROPS[pid]
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
    # serialize concurrent checks on one build directory
    units = [dict() for _ in cfg["units"]]
    ths = [threading.Thread(target=verify_unit, args=(os.path.join(VERIF, "contracts", u + ".rs"), tier, o))
           for u, o in zip(cfg["units"], units)]
    orc = {}
    if cfg.get("hooks") is not None:
        ths.append(threading.Thread(target=run_oracle, args=(pid, cfg, tier, seed, orc)))
    else:
        orc.update(status="none", reason="", data={})
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    for u in units:
        if "status" not in u:
            u.update(status="lost", reason="internal error in the extraction", functions=[], failed=[], verified=0, errors=0, smt_ms=0)
    proved = all(u["status"] == "proved" for u in units)
    failed = [u for u in units if u["status"] == "failed"]
    violation = None
    replay = os.path.join(VERIF, "replay", f"{pid}.json")
    if orc["status"] == "fail":
        f = orc["data"]["failure"]
        violation = dict(property=pid, kind="failing-input", input=f["input"], expected=f["expected"], actual=f["actual"],
                         failed_obligations=[x for u in failed for x in u["failed"]],
                         how_to_replay=f"python3 {VERIF}/tools/replay.py {pid} {replay}")
    elif failed:
        violation = dict(property=pid, kind="no-failing-input-found",
                         failed_obligations=[x for u in failed for x in u["failed"]],
                         verifier=[{"unit": u["unit"], "verified": u["verified"], "errors": u["errors"]} for u in failed],
                         note="the verifier accepted these obligations on the unchanged tree and rejects them on this one; "
                              "the bounded search over the real code found no failing input")
    code = 0
    bounded = [u for u in units if u["status"] in ("lost", "limit")]
    if violation:
        json.dump(violation, open(replay, "w"), indent=1)
        code = 1
    elif bounded and orc["status"] != "ok":
        code = 2
    # ---------------------------------------------------------------- evidence
    fns = [f for u in units for f in u.get("functions", [])]
    level = "proof" if proved else "exploration"
    trusted = sorted({x for u in units for x in u.get("trusted", [])})
    cov = {
        "obligations": sum(u["verified"] + u["errors"] for u in units),
        "discharged": sum(u["verified"] for u in units),
        "checker_cmd": f"python3 tools/check.py {pid} --tier {tier}   (verus on build/gen/<unit>.rs, extracted from {REPO} on this run)",
        "trusted_base": ["Verus 0.2026.09 + Z3 (back end of every obligation)", "tools/extract.py (mechanical extraction)"] + trusted,
        "back_end": "verus/z3",
        "solver_ms": sum(u["smt_ms"] for u in units),
        "functions_under_contract": [f"{f['file']}:{f['lines']} {f['function']} (requires {f['requires']}, ensures {f['ensures']}, loops {f['loops']})"
                                     + (f" rewrites {f['subs']}" if f["subs"] else "") for f in fns],
        "extracted_items": sorted({i["item"] + " from " + i["file"] for u in units for i in u.get("items", [])}),
        "units": [{"unit": u["unit"], "status": u["status"], "verified": u["verified"], "errors": u["errors"], "reason": u.get("reason", ""),
                   "vacuity": u.get("vacuity"), "slowest": sorted(u.get("fn_times", []), key=lambda x: -(x[1] or 0))[:5]} for u in units],
        "extraction_drops": extract.DROPPED,
        "evaluations": orc["data"].get("evaluations", 0),
        "distinct_nontrivial": orc["data"].get("distinct_nontrivial", 0),
        "rule": orc["data"].get("rule", ""),
        "samples": orc["data"].get("samples", []),
        "bounded_standin": {"status": orc["status"], "bound": orc["data"].get("bound", ""), "reason": orc.get("reason", ""),
                            "role": "cross-check of the extraction and search for a concrete failing input; never counted as proved"
                            if proved else "bounded stand-in: the functions of the units marked lost/limit were NOT proved on this run"},
    }
    if not proved:
        cov["explanation"] = "; ".join(f"{u['unit']}: {u['status']} {u.get('reason', '')}" for u in units if u["status"] != "proved")
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": cfg.get("assumptions", []) + trusted, "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0}
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    # ---------------------------------------------------------------- report
    for u in units:
        print(f"{pid} unit {u['unit']}: {u['status']} verified={u['verified']} errors={u['errors']} "
              f"vacuity={u.get('vacuity', {}).get('reached')}/{u.get('vacuity', {}).get('planted')} {u.get('reason', '')}")
        for f in u.get("failed", []):
            print(f"   FAILED OBLIGATION [{f['function']}] {f['obligation']}: {f['clause'][:200]}")
    print(f"{pid} bounded search: {orc['status']} evaluations={orc['data'].get('evaluations', 0)} {orc.get('reason', '')}")
    for kf in known_findings(pid):
        print(f"KNOWN-FINDING: property={pid} {kf}")
    if violation:
        if violation["kind"] == "failing-input":
            print("   input:    " + json.dumps(violation["input"])[:1000])
            print("   expected: " + violation["expected"][:600])
            print("   actual:   " + violation["actual"][:600])
            print(f"VIOLATION property={pid} replay={replay}")
        else:
            print(f"VIOLATION property={pid} replay={replay} no-failing-input-found")
    elif code == 0:
        print(f"OK property={pid} level={level} ({round(time.time() - t0, 1)} s)")
    else:
        print(f"ERROR property={pid}: not proved and the bounded stand-in did not run", file=sys.stderr)
    sys.exit(code)


def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k["what"] for k in json.load(open(p)).get("findings", []) if k["property"] == pid]


if __name__ == "__main__":
    main()

#!/usr/bin/env python3
"""Decides one property: symbolic execution of /repo's current code.

usage: run_check.py PROPERTY          exit 0 held / 1 VIOLATION / 2 no verdict
       run_check.py --setup           builds the engine and every harness group
       run_check.py --replay FILE     replays a reported counterexample

VERIF_TIER=quick|thorough selects the bounds (checks.json).
"""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import threading
import time

V = os.path.dirname(os.path.abspath(__file__))
B = os.path.join(V, ".build")
REPO = "/repo"
NIGHTLY = "nightly-x86_64-unknown-linux-gnu"
CORES = 8


class NoVerdict(Exception):
    pass


def tree_hash(paths):
    h = hashlib.sha256()
    for top in paths:
        files = []
        if os.path.isfile(top):
            files = [top]
        for d, dirs, names in os.walk(top):
            dirs[:] = sorted(x for x in dirs if x not in ("target", ".git", "__pycache__"))
            files += [os.path.join(d, n) for n in sorted(names)]
        for f in files:
            h.update(f.encode() + b"\0")
            try:
                with open(f, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
            except OSError:
                h.update(b"-")
    return h.hexdigest()


class Lock:
    def __init__(self, name):
        os.makedirs(B, exist_ok=True)
        self.f = open(os.path.join(B, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def cargo_env(toolchain, target):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(("CARGO_", "RUST")) and k not in ("CARGO_HOME", "RUSTUP_HOME"):
            del e[k]
    e.update(
        RUSTUP_TOOLCHAIN=toolchain,
        CARGO_NET_OFFLINE="true",
        CARGO_TARGET_DIR=target,
        PROTOC="/usr/bin/protoc",
    )
    return e


def run(cmd, what, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        raise NoVerdict(f"{what} failed:\n" + p.stdout[-6000:])
    return p.stdout


def build_engine():
    out = os.path.join(B, "rsym")
    src = [os.path.join(V, "engine", x) for x in ("src", "Cargo.toml", "build.rs", "Cargo.lock")]
    with Lock("engine"):
        h = tree_hash(src)
        stamp = out + ".stamp"
        if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == h:
            return out
        target = os.path.join(B, "engine")
        for f in glob.glob(target + "/release/.fingerprint/rsym-*"):
            shutil.rmtree(f)
        run(["cargo", "build", "--release", "--offline"], "building the engine",
            cwd=os.path.join(V, "engine"), env=cargo_env("stable", target))
        shutil.copy2(os.path.join(target, "release/rsym"), out)
        open(stamp, "w").write(h)
    return out


def build_group(g, cfg):
    """-> (LLVM IR of the whole program, native binary)"""
    out = os.path.join(B, g + ".out")
    os.makedirs(out, exist_ok=True)
    ll, binary, stamp = (os.path.join(out, x) for x in ("prog.ll", "prog", "stamp"))
    deps = [os.path.join(V, "harness", x) for x in [g] + cfg["needs"]]
    deps += [os.path.join(REPO, x) for x in cfg["sources"]]
    with Lock(g):
        h = tree_hash(deps)
        if all(map(os.path.exists, (ll, binary, stamp))) and open(stamp).read() == h:
            return ll, binary
        if os.path.exists(stamp):
            os.unlink(stamp)
        cwd = os.path.join(V, "harness", g)
        target = os.path.join(B, g)
        env = cargo_env(NIGHTLY, target)
        env["RUSTFLAGS"] = "-Awarnings"
        # Modification times are not trusted: whatever comes from /repo or
        # /verif is compiled again when its contents changed.
        pkgs = [a for p in cfg["packages"] for a in ("-p", p)]
        if os.path.isdir(target):
            run(["cargo", "clean", "--release", "--offline"] + pkgs, "cargo clean", cwd=cwd, env=env)
        for f in glob.glob(f"{target}/release/build/{cfg['bin']}*/*/out/*.ll"):
            os.unlink(f)
        run(["cargo", "rustc", "--release", "--offline", "--quiet", "--bin", cfg["bin"], "--",
             "--emit=llvm-ir", "-C", "save-temps"],
            "building the harness from /repo", cwd=cwd, env=env)
        found = glob.glob(f"{target}/release/build/**/{cfg['bin']}.{cfg['bin']}.*-cgu.0.rcgu.ll", recursive=True)
        if len(found) != 1:
            raise NoVerdict(f"expected one whole-program IR file, found {found}")
        shutil.copy2(found[0], ll)
        shutil.copy2(os.path.join(target, "release", cfg["bin"]), binary)
        for f in found:
            for x in glob.glob(os.path.dirname(f) + "/*"):
                if x.endswith((".bc", ".ll", ".o")):
                    os.unlink(x)
        open(stamp, "w").write(h)
    return ll, binary


def merge(reports):
    tot = {}
    for r in reports:
        for k, v in r.items():
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                if k in ("max_depth", "max_steps", "solver_max_s", "wall_s"):
                    tot[k] = max(tot.get(k, 0), v)
                else:
                    tot[k] = tot.get(k, 0) + v
            elif isinstance(v, dict):
                d = tot.setdefault(k, {})
                for a, b in v.items():
                    d[a] = d.get(a, 0) + b
            elif isinstance(v, list):
                tot.setdefault(k, []).extend(v)
            else:
                tot[k] = v
    tot["functions"] = sorted(set(tot.get("functions", [])))
    return tot


def run_harness(engine, ll, h, known, tmp):
    out = os.path.join(tmp, f"{h['name']}.{h.get('case', 0)}")
    cmd = [engine, "--ll", ll, "--harness", h["name"], "--out", out,
           "--jobs", str(h.get("jobs", 1)), "--time", str(h["time"]),
           "--case", str(h.get("case", 0)), "--samples", str(h.get("samples", 24)),
           "--solver-ms", str(h.get("solver_ms", 60000))]
    if "max_steps" in h:
        cmd += ["--max-steps", str(h["max_steps"])]
    for k in known:
        cmd += ["--known", k]
    t = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         start_new_session=True)
    hung = False
    try:
        text, _ = p.communicate(timeout=h["time"] + 60)
    except subprocess.TimeoutExpired:
        hung = True
        os.killpg(p.pid, signal.SIGKILL)
        text, _ = p.communicate()
    reports = []
    for f in sorted(glob.glob(out + ".*")):
        try:
            reports.append(json.load(open(f)))
        except ValueError:
            pass
    r = merge(reports) if reports else {}
    r["harness"] = h
    r["secs"] = time.time() - t
    if hung:
        r.setdefault("errors", {})["time limit reached, engine stopped"] = 1
    elif p.returncode:
        r.setdefault("errors", {})["engine: " + text[-800:].strip()] = 1
    return r


def case_line(h, inputs):
    return " ".join([h["name"], str(h.get("case", 0))] + [x[2] for x in inputs])


def native(binary, mode, path, limit):
    """Runs the compiled code with no effect outside its own process."""
    try:
        p = subprocess.run([binary, mode, path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, errors="replace", timeout=limit, cwd="/")
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        o = e.stdout or b""
        return "timeout", o.decode(errors="replace") if isinstance(o, bytes) else o


def confirm(binary, case_file, key):
    rc, text = native(binary, "replay", case_file, 30)
    if key == "panic":
        ok = rc == -6
    elif key == "no_termination":
        ok = rc == "timeout"
    else:
        ok = rc == 42 and f"CHECK FAILED: {key}\n" in text
    return ok, rc, text


def short(fn):
    return re.sub(r"\s+", " ", fn)[:110]


QUICK_BUDGET = 720


def check(prop, tier, seed):
    t0 = time.time()
    reg = json.load(open(os.path.join(V, "checks.json")))
    spec = reg["checks"][prop]
    findings = json.load(open(os.path.join(V, "known_findings.json")))["findings"]
    findings = [f for f in findings if f["property"] == prop]
    engine = build_engine()
    hs = []
    for h in spec["harnesses"]:
        if h.get("tier", "both") not in ("both", tier):
            continue
        h = dict(h)
        h.setdefault("group", spec["group"])
        if tier == "thorough":
            h.update(h.pop("thorough", {}))
            h["time"] = h.get("time", 200) if "time" in h.get("thorough", {}) else max(h.get("time", 200), 3000)
        else:
            h.setdefault("time", 300)
        hs.append(h)
    builds = {}
    for g in sorted({h["group"] for h in hs}):
        builds[g] = build_group(g, reg["groups"][g])
    tmp = os.path.join(B, "run", f"{prop}.{os.getpid()}")
    os.makedirs(tmp, exist_ok=True)

    free = [CORES]
    cond = threading.Condition()

    def job(h):
        n = min(h.get("jobs", 1), CORES)
        with cond:
            cond.wait_for(lambda: free[0] >= n)
            free[0] -= n
        try:
            known = [f["key"] for f in findings if f["harness"] == h["name"]]
            if tier == "quick":
                # The whole check has to answer in time, also on a slow machine.
                h["time"] = max(20, min(h["time"], int(t0 + QUICK_BUDGET - time.time())))
            return run_harness(engine, builds[h["group"]][0], h, known, tmp)
        finally:
            with cond:
                free[0] += n
                cond.notify_all()

    hs.sort(key=lambda h: -h.get("jobs", 1))
    with cf.ThreadPoolExecutor(max_workers=len(hs)) as pool:
        results = list(pool.map(job, hs))

    problems, violations, known_hit, cut = [], [], [], []
    validated = 0
    replay_dir = os.path.join(B, "replays")
    os.makedirs(replay_dir, exist_ok=True)
    for r in results:
        h = r["harness"]
        binary = builds[h["group"]][1]
        tag = f"{h['name']}/{h.get('case', 0)}"
        for e, n in r.get("errors", {}).items():
            # Running out of time is not a wrong answer: what was explored held.
            soft = e.startswith(("time limit reached", "solver answered unknown"))
            (cut if soft else problems).append(f"{tag}: {n} x {e}")
        seen = set()
        for v in r.get("violations", []):
            if v["key"] in seen:
                continue
            f = re.sub(r"\W+", "_", f"{prop}-{h['name']}-{v['key']}")[:120]
            path = os.path.join(replay_dir, f + ".case")
            with open(path, "w") as fh:
                fh.write(case_line(h, v["inputs"]) + "\n")
            ok, rc, text = confirm(binary, path, v["key"])
            if not ok:
                problems.append(f"{tag}: counterexample for '{v['key']}' ({v['detail']}) does not reproduce "
                                f"natively (ended with {rc}): {path}\n{text[-1500:]}")
                continue
            seen.add(v["key"])
            with open(path + ".txt", "w") as fh:
                fh.write(f"property {prop}\nharness {tag}\nkey {v['key']}\n{v['detail']}\n\n"
                         f"replay: python3 {V}/run_check.py --replay {path}\n\nnative run:\n{text}\n\n"
                         "symbolic stack:\n" + "\n".join(v["trace"]) + "\n")
            k = [x for x in findings if x["harness"] == h["name"] and x["key"] == v["key"]
                 and x.get("contains", "") in text]
            if k:
                known_hit.append(k[0])
            else:
                violations.append((tag, v, path, text))
        if not violations:
            missing = [c for c in h.get("covers", []) if not r.get("covers", {}).get(c)]
            if missing and not r.get("errors"):
                problems.append(f"{tag}: vacuous, never reached {missing}")
            if not r.get("errors") and not r.get("checks_solver", 0) + r.get("checks_concrete", 0):
                problems.append(f"{tag}: no assertion was reached")
        samples = r.get("samples", [])
        if samples and not violations:
            path = os.path.join(tmp, f"{h['name']}.{h.get('case', 0)}.batch")
            with open(path, "w") as fh:
                for s in samples:
                    fh.write(case_line(h, s["inputs"]) + " = " + " ".join(map(str, s["obs"])) + "\n")
            rc, text = native(binary, "batch", path, 300)
            if rc == 0 and f"BATCH total {len(samples)} bad 0" in text:
                validated += len(samples)
            else:
                problems.append(f"{tag}: native run disagrees with the encoding: {text[-1500:]}")

    tot = merge([{k: v for k, v in r.items() if k not in ("harness", "samples")} for r in results])
    fns = tot.get("functions", [])
    ours = [f for f in fns if re.search(r"\btcp_\w+::|\bapps::", f)]
    smp = []
    for r in results:
        for s in r.get("samples", [])[:2]:
            smp.append({"harness": r["harness"]["name"],
                        "inputs": " ".join(f"{a}={c}" for a, _, c in s["inputs"][:40])[:600],
                        "observed": s["obs"][:20]})
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": tot.get("paths", 0) + tot.get("dead", 0),
            "transitions": tot.get("forks", 0),
            "traces_validated_against_impl": validated,
            "samples": smp[:12],
            "explanation": "symbolic execution of the LLVM IR compiled from /repo; every path within the bounds, "
                           "every assertion decided by Z3 for all values on its path",
            "paths_completed": tot.get("paths", 0),
            "ir_instructions_executed": tot.get("steps", 0),
            "assertions_decided_by_solver": tot.get("checks_solver", 0),
            "assertions_constant_on_path": tot.get("checks_concrete", 0),
            "assertions": dict(sorted(tot.get("checks", {}).items())[:60]),
            "reachability_witnesses": dict(sorted(tot.get("covers", {}).items())[:60]),
            "queries": tot.get("queries", 0),
            "solver_calls": tot.get("solver_calls", 0),
            "queries_sat": tot.get("sat", 0),
            "queries_unsat": tot.get("unsat", 0),
            "solver_seconds": round(tot.get("solver_s", 0), 2),
            "solver": "Z3 " + str(tot.get("z3", "")),
            "functions_encoded": len(fns),
            "functions_of_the_repository": [short(f) for f in ours[:120]],
            "harnesses": [{"name": r["harness"]["name"], "case": r["harness"].get("case", 0),
                           "paths": r.get("paths", 0), "seconds": round(r["secs"], 1)} for r in results],
            "bounds": spec["bounds"],
            "known_findings_hit": [k["what"] for k in known_hit],
            "problems": problems[:10],
            "not_explored": cut[:10],
            "exhaustive": not problems and not violations and not cut,
        },
        "assumptions": spec.get("assumptions", []) + reg["assumptions"],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    shutil.rmtree(tmp, ignore_errors=True)
    for k in {k["what"]: k for k in known_hit}.values():
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    for tag, v, path, text in violations:
        print(f"{tag}: {v['key']}: {v['detail']}")
        print("\n".join("  " + x for x in text.strip().splitlines()[-25:]))
        print(f"VIOLATION property={prop} replay={path}")
    if violations:
        return 1
    if not tot.get("checks_solver", 0) + tot.get("checks_concrete", 0):
        problems.append("no assertion was reached")
    if problems:
        print("no verdict:\n" + "\n".join(problems))
        return 2
    c = ev["coverage"]
    if cut:
        print("INCOMPLETE (nothing found in what was explored): " + "; ".join(cut))
    print(f"{prop}: held on {c['paths_completed']} paths, {c['assertions_decided_by_solver'] + c['assertions_constant_on_path']} assertions, "
          f"{c['queries']} queries ({c['solver_calls']} to the solver, {c['solver_seconds']} s), {validated} paths replayed natively, {ev['wall_s']} s")
    return 0


def main():
    a = sys.argv[1:]
    if a == ["--setup"]:
        reg = json.load(open(os.path.join(V, "checks.json")))
        print(build_engine())
        for g, cfg in reg["groups"].items():
            print(build_group(g, cfg))
        return 0
    if len(a) == 2 and a[0] == "--replay":
        reg = json.load(open(os.path.join(V, "checks.json")))
        name = open(a[1]).read().split()[0]
        group = next(h.get("group", s["group"]) for s in reg["checks"].values()
                     for h in s["harnesses"] if h["name"] == name)
        _, binary = build_group(group, reg["groups"][group])
        rc, text = native(binary, "replay", a[1], 60)
        print(text)
        print("ended with", rc)
        return 0
    if len(a) != 1:
        print(__doc__)
        return 2
    return check(a[0], os.environ.get("VERIF_TIER", "quick"), int(os.environ.get("VERIF_SEED", "1")))


if __name__ == "__main__":
    try:
        rc = main()
    except NoVerdict as e:
        print("no verdict:", e)
        rc = 2
    except subprocess.TimeoutExpired as e:
        print("no verdict: time limit:", e)
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)

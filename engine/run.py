#!/usr/bin/env python3
"""Runs one property's check against /repo's current source: builds the facts, analyses, reports."""
import fcntl
import gc
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import shutil
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(VERIF, "checks"))

FULL = "arrayvec,heapless,heapless-09,alloc,postcard,shared-ram-ring"
CONFIGS = {"full": FULL, "bare": "", "std": "std," + FULL, "alloc": "alloc", "ring": "shared-ram-ring"}


class BuildError(Exception):
    pass


def sh(cmd, env=None, cwd=None, timeout=800):
    e = dict(os.environ)
    e.update(env or {})
    for v in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER"):
        e.pop(v, None)
    p = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def tree_hash(*dirs):
    h = hashlib.sha256()
    for d in dirs:
        if os.path.isfile(d):
            files = [d]
        else:
            files = sorted(os.path.join(r, f) for r, ds, fs in os.walk(d) if "target" not in r.split("/") for f in fs)
        for f in files:
            h.update(f.encode())
            try:
                h.update(open(f, "rb").read())
            except OSError:
                pass
    return h.hexdigest()[:24]


def sysroot():
    rc, out = sh(["rustc", "+nightly", "--print", "sysroot"])
    if rc:
        raise BuildError(out)
    return out.strip()


def driver():
    d = os.path.join(VERIF, "driver")
    tgt = os.path.join(BUILD, "driver")
    exe = os.path.join(tgt, "debug", "mirfacts")
    stamp = os.path.join(tgt, "stamp")
    hh = tree_hash(os.path.join(d, "src"), os.path.join(d, "Cargo.toml"))
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == hh:
        return exe
    rc, out = sh(["cargo", "+nightly", "build", "--offline", "--quiet"], {"CARGO_TARGET_DIR": tgt}, cwd=d)
    if rc:
        raise BuildError("the MIR facts driver does not build:\n" + out)
    open(stamp, "w").write(hh)
    return exe


def facts(config):
    """Path of the facts of /repo's current source under a feature configuration."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe = driver()
        feats = CONFIGS[config]
        hh = tree_hash(os.path.join(REPO, "src"), os.path.join(REPO, "Cargo.toml"), os.path.join(VERIF, "driver", "src"))
        out = os.path.join(BUILD, f"facts-{config}-{hh}.json")
        if os.path.exists(out):
            return out
        for f in os.listdir(BUILD):
            if f.startswith(f"facts-{config}-"):
                os.remove(os.path.join(BUILD, f))
        tgt = os.path.join(BUILD, "target")
        fp = os.path.join(tgt, "debug", ".fingerprint")
        if os.path.isdir(fp):
            for f in os.listdir(fp):
                if f.startswith("sequential-storage-"):
                    shutil.rmtree(os.path.join(fp, f), ignore_errors=True)
        env = {"LD_LIBRARY_PATH": os.path.join(sysroot(), "lib"), "MIRFACTS_OUT": out + ".tmp", "RUSTC_WORKSPACE_WRAPPER": exe,
               "CARGO_TARGET_DIR": tgt}
        cmd = ["cargo", "+nightly", "check", "--offline", "--quiet", "--lib"]
        if feats:
            cmd += ["--features", feats]
        rc, o = sh(cmd, env, cwd=REPO)
        if rc or not os.path.exists(out + ".tmp"):
            raise BuildError("/repo does not build under the facts driver:\n" + o[-4000:])
        os.rename(out + ".tmp", out)
        return out


# ---------------------------------------------------------------------------------------------- analysis tasks
_G = {}


def _task(job):
    """One entry point under one monitor, in a worker process."""
    from interp import Interp, State, AnalysisError, Enough
    from terms import mk
    from models import Models
    cname, mname, entry, opts = job
    F = _G["F"][cname]
    chk = _G["check"]
    t0 = time.time()
    mon = chk.monitor(F, mname)
    mon.entry = entry
    mon.known = _G["known"]
    I = Interp(F, mon, Models())
    err = None
    try:
        b = F.bodies[entry]
        args = [mk("sym", "arg:" + str(b.locals[i + 1].get("name")), None) for i in range(b.argc)]
        st = State({}, {}, mon.init())
        mon.setup(I, st, b, args, opts)
        root, res = I.run_entry(entry, args, st)
        for s, v in res:
            mon.at_exit(I, s, v, root)
        mon.finish(I)
    except Enough:
        pass
    except AnalysisError as e:
        err = f"analysis incomplete: {e}"
    except RecursionError:
        err = "analysis incomplete: recursion"
    except Exception:
        err = "analysis incomplete: " + traceback.format_exc()[-1500:]
    vis = {p: len(v) for p, v in I.visited.items()}
    return {
        "job": job, "violations": mon.violations, "events": {k_: [(x[0], x[1], str(x[2])) for x in v] for k_, v in mon.events.items()},
        "error": err, "wall": time.time() - t0, "stats": {k_: I.stats[k_] for k_ in ("runs", "blocks", "calls", "joins")},
        "hits": I.stats.get("hits", 0), "bodies": sorted(I.stats["bodies"]), "visited": vis, "external": dict(I.stats["external"]),
        "outcomes": getattr(mon, "outcomes", 0), "extra": mon.export(),
    }


def known_findings():
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith("known: property="):
                head, _, what = ln.partition(" :: ")
                parts = head[len("known: "):].split(" ", 1)
                out.append((parts[0].split("=", 1)[1], parts[1].split("=", 1)[1].strip(), what))
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    for a in sys.argv[2:]:
        if a.startswith("--tier="):
            tier = a.split("=", 1)[1]
    only = [a for a in sys.argv[2:] if not a.startswith("--")]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    gc.disable()
    mod = importlib.import_module(pid.lower())
    chk = mod.CHECK
    from facts import Facts
    violations = {}
    evid = {}
    configs = chk.configs(tier)
    try:
        _G["F"] = {c: Facts(facts(c)) for c in configs}
    except BuildError as e:
        print(str(e))
        sys.exit(2)
    tb = time.time() - t0
    _G["check"] = chk
    _G["known"] = frozenset(k_ for p, k_, w in known_findings() if p == pid)
    jobs = []
    for c in configs:
        F = _G["F"][c]
        for m, entry, opts in chk.jobs(F, tier):
            if only and not any(o in entry for o in only):
                continue
            jobs.append((c, m, entry, opts))
    jobs.sort(key=lambda j: -chk.weight(j[2]))
    results = []
    if jobs:
        with mp.get_context("fork").Pool(min(8, len(jobs)), maxtasksperchild=4) as pool:
            for r in pool.imap_unordered(_task, jobs, chunksize=1):
                results.append(r)
    events, bodies, ext = {}, {}, {}
    tot = {"runs": 0, "blocks": 0, "calls": 0, "joins": 0}
    for r in results:
        for k_, v in r["violations"].items():
            violations.setdefault(k_, v)
        if r["error"]:
            violations.setdefault(f"analysis-incomplete|{r['job'][2]}", {"rule": "analysis-incomplete", "function": r["job"][2], "message": r["error"], "span": ""})
        for k_, v in r["events"].items():
            events.setdefault(k_, set()).update(tuple(x) for x in v)
        for k_, v in r["visited"].items():
            bodies[k_] = max(bodies.get(k_, 0), v)
        for k_, v in r["external"].items():
            ext[k_] = ext.get(k_, 0) + v
        for k_ in tot:
            tot[k_] += r["stats"][k_]
    if not only:
        extra = chk.extra(_G["F"], tier, results) or {}
        for k_, v in (extra.get("violations") or {}).items():
            violations.setdefault(k_, v)
        evid.update(extra.get("evidence") or {})
        for name, (need, have) in chk.floors(_G["F"], events, results).items():
            if have < need:
                violations.setdefault(f"anchor-missing|{name}", {
                    "rule": "anchor-missing", "function": name, "span": "",
                    "message": f"{chk.ID}: expected at least {need} instance(s) of '{name}', found {have}: the rule's anchor has disappeared"})
    known = [(k_, w) for p, k_, w in known_findings() if p == pid]
    new = {}
    for k_, v in violations.items():
        hit = [w for kk, w in known if kk == k_]
        if hit:
            print(f"KNOWN-FINDING: property={pid} {hit[0] or k_}")
        else:
            new[k_] = v
    rep = os.path.join(VERIF, "out")
    os.makedirs(rep, exist_ok=True)
    wall = time.time() - t0
    expl = chk.explanation()
    cov = {
        "explanation": expl,
        "configurations": list(configs),
        "entry_points": sorted({f"{r['job'][2]}" for r in results}),
        "entry_point_analyses": len(results),
        "function_bodies_analysed": len(bodies),
        "basic_blocks_reached": sum(bodies.values()),
        "abstract_block_transfers": tot["blocks"],
        "abstract_call_summaries": tot["runs"],
        "call_sites_evaluated": tot["calls"],
        "joins": tot["joins"],
        "instances": {k_: len(v) for k_, v in sorted(events.items())},
        "unmodelled_externals": ext,
    }
    cov.update(evid)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov, "wall_s": round(wall, 2), "violations": len(new),
          "assumptions": chk.assumptions()}
    if not only:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)
    print(f"{pid} [{tier}] {len(results)} entry analyses, {len(bodies)} bodies, {tot['blocks']} block transfers, "
          f"{sum(len(v) for v in events.values())} instance sites, build {tb:.1f}s total {wall:.1f}s")
    if os.environ.get("VERIF_TIMES"):
        for r in sorted(results, key=lambda r: -r["wall"])[:12]:
            print(f"   {r['wall']:.1f}s {r['job'][2]} blocks={r['stats']['blocks']}")
    if new:
        for i, (k_, v) in enumerate(sorted(new.items())):
            path = os.path.join(rep, f"{pid}-{hashlib.sha256(k_.encode()).hexdigest()[:10]}.json")
            with open(path, "w") as f:
                json.dump({"property": pid, "key": k_, **v}, f, indent=1, default=str)
            print(f"VIOLATION property={pid} replay={path}")
            print(f"   [{v.get('rule')}] {v.get('function')} {v.get('span')}: {v.get('message')}")
            print(f"   key: {k_}")
            for ln in v.get("call_path", []):
                print("      via " + ln)
            for ln in v.get("trace", [])[-12:]:
                print("      - " + str(ln)[:200])
        sys.exit(1)
    print(f"OK property={pid}")
    sys.exit(0)


if __name__ == "__main__":
    main()

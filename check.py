#!/opt/venv/bin/python
"""check.py PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE] [--only MONITOR] [--scale F]

Builds pixell's native code from /repo's working tree, drives it under the
property's monitors and decides.  Exit 0: held on everything explored.  Exit 1
with a VIOLATION line otherwise.  Exit 2: inconclusive (the machinery itself
could not run, or a monitor observed nothing)."""
import os, sys, json, time, argparse, subprocess, tempfile, shutil, importlib.util, collections, random
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
import pxbuild

CASE_TIMEOUT = 240  # s without any progress before a case counts as hung

def monitors_of(prop):
    """Read the monitor table without importing pixell: name -> (n_quick, n_thorough)"""
    import ast
    src = open(os.path.join(HERE, "props", prop + ".py")).read()
    tree = ast.parse(src)
    info = {"level": "exploration", "assumptions": [], "variant": "plain", "threads": 2, "rule": ""}
    mons = collections.OrderedDict()
    for node in tree.body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            name = node.targets[0].id
            if name == "MONITORS":
                for el in node.value.elts:
                    mons[el.elts[0].value] = (el.elts[2].value, el.elts[3].value, el.elts[4].value if len(el.elts) > 4 else None)
            elif name == "INFO": info.update(ast.literal_eval(node.value))
    return mons, info

def known_findings(prop):
    """known_findings.json: list of {property, status, monitor, match, what}.  Only status=='known' entries
    suppress, and only violations of that monitor whose message contains `match`."""
    try: items = json.load(open(os.path.join(HERE, "known_findings.json")))
    except FileNotFoundError: return []
    return [i for i in items if i["property"] == prop and i["status"] == "known"]

def env_for(variant, threads, work):
    env = dict(os.environ)
    env.update(PATH="/opt/venv/bin:/usr/local/bin:/usr/bin:/bin", LC_ALL="C.UTF-8", PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED="0", MPLBACKEND="Agg", OMP_NUM_THREADS=str(threads), DUCC0_NUM_THREADS=str(threads),
        OPENBLAS_NUM_THREADS="1", NUMBA_NUM_THREADS=str(threads))
    for k in ["PYTHONPATH","LD_PRELOAD"]: env.pop(k, None)
    san = os.path.join(work, "san")
    def lib(n): return subprocess.run(["gcc","-print-file-name="+n], stdout=subprocess.PIPE, text=True).stdout.strip()
    if variant == "asan":
        env.update(LD_PRELOAD=lib("libasan.so")+" "+lib("libubsan.so"), PX_SANLOG=san,
            ASAN_OPTIONS="detect_leaks=0:halt_on_error=1:exitcode=99:allocator_may_return_null=1:handle_abort=1:detect_stack_use_after_return=1:log_path="+san,
            UBSAN_OPTIONS="print_stacktrace=0:halt_on_error=0:log_path="+san)
    elif variant == "tsan":
        env.update(LD_PRELOAD=lib("libtsan.so")+" "+pxbuild.minigomp(), PX_SANLOG=san, DUCC0_NUM_THREADS="1", MINIGOMP_STATS=os.path.join(work, "gomp.stats"), MINIGOMP_JITTER=os.environ.get("VERIF_SEED","1"),
            TSAN_OPTIONS="halt_on_error=0:exitcode=0:report_thread_leaks=0:report_signal_unsafe=0:history_size=3:log_path="+san)
    return env

def run(prop, tier, seed, only=None, replay=None, scale=1.0, nproc=None):
    t0   = time.time()
    mons, info = monitors_of(prop)
    known = known_findings(prop)
    work = tempfile.mkdtemp(prefix="pxcheck-%s-" % prop)
    try:
        variant_of = {m: v[2] or info["variant"] for m, v in mons.items()}
        pkgs, envs = {}, {}
        for v in sorted(set(variant_of.values())):
            pkgs[v] = pxbuild.make_package(v, os.path.join(work, "pkg-" + v)); envs[v] = env_for(v, info["threads"], work)
            envs[v].update(TMPDIR=work, MPLCONFIGDIR=os.path.join(work, "mpl"), NUMBA_CACHE_DIR=os.path.join(work, "nb"), HOME=work)
        cases = []
        if replay:
            r = json.load(open(replay)); cases = [(r["monitor"], r["idx"])]; seed = r["seed"]; tier = r.get("tier", tier)
        else:
            for m, (nq, nt, _) in mons.items():
                if only and m not in only: continue
                n = nq if tier == "quick" else nt
                cases += [(m, i) for i in range(max(1, int(n*scale)))]
        random.Random(seed).shuffle(cases)
        nproc = nproc or info.get("nproc", 6)
        queues = []
        for v in sorted(pkgs):
            cv = [x for x in cases if variant_of[x[0]] == v]; n = max(1, min(nproc, len(cv)))
            queues += [(v, cv[i::n]) for i in range(n) if cv]
        results, jobs = [], []
        pre = ["setarch","-R"] if "tsan" in pkgs and subprocess.run(["setarch","-R","true"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0 else []
        def launch(i, v, todo):
            out = os.path.join(work, "out%d" % i)
            arg = json.dumps({"prop": prop, "pkg": pkgs[v], "seed": seed, "tier": tier, "cases": todo, "out": out})
            with open(out + ".arg", "w") as f: f.write(arg)
            argf = open(out + ".log", "ab")
            p = subprocess.Popen((pre if v == "tsan" else []) + [pxbuild.PY, os.path.join(HERE, "lib", "worker.py"), out + ".arg"], env=envs[v], cwd=work,
                stdout=argf, stderr=argf, start_new_session=True)
            return {"p": p, "out": out, "todo": list(todo), "pos": 0, "cur": None, "last": time.time(), "i": i, "v": v, "end": False}
        for i, (v, q) in enumerate(queues): jobs.append(launch(i, v, q))
        errors = []
        while jobs:
            time.sleep(0.1)
            for j in list(jobs):
                rc = j["p"].poll()
                if os.path.exists(j["out"]):
                    with open(j["out"]) as f:
                        f.seek(j["pos"])
                        for line in iter(f.readline, ""):
                            if not line.endswith("\n"): break
                            j["pos"] = f.tell(); j["last"] = time.time()
                            d = json.loads(line)
                            if "start" in d: j["cur"] = tuple(d["start"])
                            elif "end" in d: j["end"] = True
                            else:
                                results.append(d); j["cur"] = None
                                j["todo"].remove((d["monitor"], d["idx"])) if (d["monitor"], d["idx"]) in j["todo"] else None
                hung = rc is None and time.time()-j["last"] > CASE_TIMEOUT
                if rc is None and not hung: continue
                if hung:
                    os.killpg(j["p"].pid, 9); j["p"].wait()
                jobs.remove(j)
                if j["end"]: continue
                log = open(j["out"] + ".log", errors="replace").read()
                slog = os.path.join(work, "san.%d" % j["p"].pid); rep = []
                if os.path.exists(slog):
                    import native
                    st = open(slog, errors="replace").read(); rep = native.reports(st)[-1:]; log = log[-1500:] + "\n" + st[-6000:]
                if j["cur"] is None:
                    errors.append("worker died outside a case (rc %s):\n%s" % (rc, log[-3000:]))
                    continue
                m, idx = j["cur"]
                results.append({"monitor": m, "idx": idx, "seed": seed, "status": "violation", "nobs": 1, "digest": "crash", "notes": {}, "t": 0,
                    "msg": "the case never finished (no progress for %d s)" % CASE_TIMEOUT if hung else "the interpreter crashed, exit status %s%s" % (rc, ": " + rep[0] if rep else ""), "trace": log[-8000:]})
                todo = [c for c in j["todo"] if c != (m, idx)]
                # after a crash go on with the remaining cases, but give up on a monitor that keeps crashing
                ncrash = sum(1 for r in results if r["digest"] == "crash")
                if ncrash <= 6 and todo and not hung:
                    todo = [c for c in todo if c[0] != m or ncrash < 3]
                    if todo: jobs.append(launch(j["i"] + 1000*ncrash, j["v"], todo))
        extra = {}
        gs = os.path.join(work, "gomp.stats")
        if os.path.exists(gs):
            tot = collections.Counter()
            for l in open(gs): tot.update(json.loads(l))
            extra["parallel_regions_under_tsan"] = dict(tot)
        return finish(extra, prop, tier, seed, mons, info, known, results, errors, t0, only, replay)
    finally:
        shutil.rmtree(work, ignore_errors=True)

def finish(extra, prop, tier, seed, mons, info, known, results, errors, t0, only, replay):
    viol  = [r for r in results if r["status"] == "violation"]
    kseen, fresh = {}, []
    for r in viol:
        k = next((k for k in known if k["monitor"] == r["monitor"] and k["match"] in r["msg"]), None)
        if k: kseen[k["what"]] = kseen.get(k["what"], 0)+1
        else: fresh.append(r)
    held  = [r for r in results if r["status"] == "held"]
    perm  = collections.OrderedDict((m, {"cases": 0, "held": 0, "observations": 0, "skipped": 0, "distinct": set()}) for m in mons)
    for r in results:
        p = perm[r["monitor"]]; p["cases"] += 1; p["observations"] += r["nobs"]
        if r["status"] == "held": p["held"] += 1; p["distinct"].add(r["digest"])
        if r["status"] == "skip": p["skipped"] += 1
    distinct = sum(len(p["distinct"]) for p in perm.values())
    samples, seen = [], set()
    for r in held:
        if r["monitor"] in seen: continue
        seen.add(r["monitor"]); samples.append({"monitor": r["monitor"], "idx": r["idx"], "inputs": r["notes"], "oracle_evaluations": r["nobs"]})
    for p in perm.values(): p["distinct"] = len(p["distinct"])
    ev = {"property": prop, "tier": tier, "seed": seed, "level": info["level"],
        "coverage": {"evaluations": len(results), "distinct_nontrivial": distinct,
            "rule": (info["rule"] + " " if info["rule"] else "") + "A case is one seeded workload of one monitor driven through the real code; it is non-trivial when at least one oracle was evaluated on it, and distinct when its recorded inputs differ from every other case of that monitor.",
            "samples": samples[:12], "oracle_evaluations": sum(r["nobs"] for r in results), "per_monitor": perm},
        "assumptions": info["assumptions"], "wall_s": round(time.time()-t0, 2), "violations": len(fresh)}
    nat = collections.Counter()
    for r in results: nat.update(r.get("native") or {})
    if nat: extra["native_calls_observed"] = dict(nat)
    ev["coverage"].update(extra)
    if not only and not replay:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1, default=str)
    for what, n in sorted(kseen.items()): print("KNOWN-FINDING: property=%s %s (%d cases)" % (prop, what, n))
    if fresh:
        rdir = os.path.join(HERE, "replays", prop); os.makedirs(rdir, exist_ok=True)
        shown = set()
        for r in fresh:
            if r["monitor"] in shown: continue
            shown.add(r["monitor"])
            path = replay or os.path.join(rdir, "%s-%s-%d-%d.json" % (r["monitor"], tier, seed, r["idx"]))
            if not replay:
                with open(path, "w") as f: json.dump(dict(r, property=prop, tier=tier), f, indent=1, default=str)
            print("%s[%d]: %s" % (r["monitor"], r["idx"], r["msg"]))
            print("  inputs: %s" % json.dumps(r["notes"], default=str)[:600])
            if os.environ.get("VERIF_TRACE"): print(r["trace"])
            print("VIOLATION property=%s replay=%s" % (prop, path))
            if len(shown) >= 6: break
        nf = collections.Counter(r["monitor"] for r in fresh)
        print("%s: violated: %s" % (prop, dict(nf)))
        return 1
    for e in errors: print("ERROR", e)
    if errors: return 2
    if not replay:
        empty = [m for m, p in perm.items() if (not only or m in only) and not p["held"] and not any(k["monitor"] == m for k in known)]
        if empty:
            print("INCONCLUSIVE property=%s: monitors that observed nothing: %s" % (prop, empty)); return 2
    print("%s held: %d cases (%d distinct), %d oracle evaluations, %d monitors, %.1f s" % (prop, len(results), distinct, ev["coverage"]["oracle_evaluations"], len(seen), time.time()-t0))
    return 0

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER_OVERRIDE") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay"); ap.add_argument("--only", action="append"); ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--nproc", type=int)
    a = ap.parse_args()
    sys.path.insert(0, os.path.join(HERE, "props"))
    try:
        custom = os.path.join(HERE, "props", a.prop + "_run.py")
        if os.path.exists(custom):
            spec = importlib.util.spec_from_file_location("custom", custom); mod = importlib.util.module_from_spec(spec); spec.loader.exec_module(mod)
            rc = mod.run(a)
        else:
            rc = run(a.prop, a.tier, a.seed, a.only, a.replay, a.scale, a.nproc)
    except pxbuild.BuildError as e:
        print("ERROR", e); rc = 2
    sys.stdout.flush()
    sys.exit(rc)
if __name__ == "__main__": main()

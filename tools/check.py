#!/usr/bin/env python3
"""check.py PROPERTY [--thorough] : decides one property against /repo's current tree.
   check.py --replay FILE         : replays a violation file.
   check.py --setup               : builds every flavour once, to see that it can be built.
Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken. Anything else: the check itself failed."""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent import futures
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
from config import CONFIG, LEVEL_RULE

VERIF = B.VERIF
KNOWN = os.path.join(VERIF, "known_findings.txt")
JOBS = 8

class Err(Exception):
    pass

def known(prop):
    k = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"known: property=(\S+) cls=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                k[m.group(2)] = m.group(3)
    return k

def sh(cmd, timeout):
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Err("timeout: " + " ".join(cmd))

def merge(total, sets, text):
    for line in text.split("\n"):
        p = line.split()
        if len(p) == 3 and p[0] == "n":
            total[p[1]] = total.get(p[1], 0) + int(p[2])
        elif len(p) >= 2 and p[0] == "s":
            sets.setdefault(p[1], set()).update(p[2:])

def batch(exe, prop, seed, n, thorough, limit, out, kn, start=0):
    procs = []
    for w in range(JOBS):
        od = os.path.join(out, "w%d" % w)
        os.makedirs(od, exist_ok=True)
        log = open(os.path.join(od, "log"), "w")
        cmd = [exe, "run", "--prop", prop, "--seed", str(seed), "--from", str(start), "--ticket", os.path.join(out, "ticket"), "--to", str(start + n),
               "--limit", str(limit), "--out", od, "--thorough", "1" if thorough else "0", "--sample", os.path.join(od, "sample"), "--stop", os.path.join(out, "stop")]
        if kn:
            cmd += ["--known", ",".join(kn)]
        procs.append((subprocess.Popen(cmd, stdout=log, stderr=open(os.path.join(od, "err"), "w")), log, od))
    total, sets, viols, samples = {}, {}, [], []
    deadline = time.time() + limit + 240
    for p, log, od in procs:
        try:
            p.wait(max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            for q, _, _ in procs:
                q.kill()
            raise Err("worker did not finish")
        log.close()
        txt = open(os.path.join(od, "log")).read()
        if p.returncode != 0 or not txt.rstrip().endswith("E"):
            raise Err("worker exited %d: %s" % (p.returncode, open(os.path.join(od, "err")).read()[-1500:]))
        for line in txt.split("\n"):
            if line.startswith("V "):
                head, msg = line.split(" | ", 1)
                _, idx, rest = head.split(" ", 2)
                cls, path = rest.rsplit(" ", 1)
                viols.append((int(idx), cls, path, msg))
        merge(total, sets, txt[txt.index("S\n"):])
        sp = os.path.join(od, "sample")
        if os.path.exists(sp):
            samples.append(open(sp).read())
    return total, sets, sorted(viols), samples

def replay(exe, path, kn):
    r = sh([exe, "replay", path] + (["--known", ",".join(kn)] if kn else []), 400)
    if r.returncode == 0 and r.stdout.startswith("PASS"):
        return None
    if r.returncode == 1 and r.stdout.startswith("FAIL"):
        f = r.stdout.strip().split(" | ")
        return f[0][5:], f[2], f[-1]
    raise Err("replay of %s exited %d: %s %s" % (path, r.returncode, r.stdout[-500:], r.stderr[-800:]))

def determinism(exe, prop, seed, n, thorough, kn):
    """the same seeds in other processes, in another grouping: every event log must hash the same"""
    idx = n // 2
    def hashes(frm, step, to):
        r = sh([exe, "run", "--prop", prop, "--seed", str(seed), "--from", str(frm), "--step", str(step), "--to", str(to), "--hashes", "--thorough", "1" if thorough else "0", "--out", "/nonexistent"] + (["--known", ",".join(kn)] if kn else []), 400)
        return [l for l in r.stdout.split("\n") if l.startswith("H ")]
    whole = hashes(idx, 1, idx + 12)
    parts = []
    for k in range(3):
        parts += hashes(idx + k, 3, idx + 12)
    a, b = sorted(whole), sorted(parts)
    return len(a), a == b and len(a) == 12

def exe_for(scratch, flavour, variants):
    return B.build(os.path.join(scratch, "b"), flavour, variants)

def run_check(prop, thorough):
    t0 = time.time()
    cfg = CONFIG[prop]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    kn = known(prop)
    scratch = tempfile.mkdtemp(prefix="mbesim-")
    try:
        total, sets, samples, viol, det, stages = {}, {}, [], None, [], []
        search = 0.0
        tb = time.time()
        exes = {}
        for st in cfg["stages"]:
            exes[st["flavour"]] = exe_for(scratch, st["flavour"], st["variants"])
        build_s = time.time() - tb
        for si, st in enumerate(cfg["stages"]):
            exe = exes[st["flavour"]]
            n = st["thorough"] if thorough else st["quick"]
            limit = st.get("thorough_limit", 600) if thorough else st.get("limit", 45)
            ts = time.time()
            sseed = seed * 1000003 + si
            t, s, vs, sm = batch(exe, prop, sseed, n, thorough, limit, os.path.join(scratch, "o%d" % si), kn)
            dt = time.time() - ts
            search += dt
            stages.append({"flavour": st["flavour"], "variants": st["variants"], "runs": t.get("runs", 0), "seconds": round(dt, 2)})
            for k, x in t.items():
                total[k] = total.get(k, 0) + x
            for k, x in s.items():
                sets.setdefault(k, set()).update(x)
            samples += sm[:2]
            if vs:
                viol = (exe, st, vs)
                break
            m, ok = determinism(exe, prop, sseed, n, thorough, kn)
            det.append({"flavour": st["flavour"], "seeds_repeated_in_other_processes": m, "identical": ok})
            if not ok:
                raise Err("two executions of the same seeds differ: the simulation is not deterministic")
        res = 0
        if viol:
            exe, st, vs = viol
            for idx, cls, path, msg in vs[:6]:
                tr = time.time()
                with futures.ThreadPoolExecutor(2) as ex:
                    a, b = ex.map(lambda _: replay(exe, path, kn), range(2))
                slow = time.time() - tr > 15
                if a and b and a[0] == b[0]:
                    cls = a[0]
                    break
            else:
                raise Err("violation %s of run %d does not replay: %s / %s" % (cls, idx, a, b))
            rd = os.path.join(VERIF, "replays")
            os.makedirs(rd, exist_ok=True)
            final = os.path.join(rd, "%s-%d-%d.plan" % (prop, seed, idx))
            mini = os.path.join(scratch, "min.plan")
            # a run of days of air time is its own minimal trace: shortening it costs a rerun per step
            try:
                r = None if slow else sh([exe, "minimise", path, mini, "--limit", "60"] + (["--known", ",".join(kn)] if kn else []), 200)
            except Err:
                r = None
            if r:
                print(r.stdout.strip())
            ok = bool(r) and r.returncode == 0 and os.path.exists(mini)
            if ok:
                c, d = replay(exe, mini, kn), replay(exe, mini, kn)
                ok = bool(c and d and c[0] == cls and d[0] == cls)
            shutil.copy(mini if ok else path, final)
            with open(final) as f:
                txt = f.read()
            with open(final, "w") as f:
                f.write("# violation %s\n# %s\n# flavour %s\n# replay: python3 /verif/tools/check.py --replay %s\n" % (cls, (c if ok else a)[1], st["flavour"], final) + txt)
            print("%s: %s" % (cls, (c if ok else a)[1]))
            print("VIOLATION property=%s replay=%s" % (prop, final))
            res = 1
        for cls, what in kn.items():
            if total.get("known." + cls, 0):
                print("KNOWN-FINDING: property=%s %s (%s, seen %d times)" % (prop, what, cls, total["known." + cls]))
        wall = time.time() - t0
        ev = {
            "property": prop, "tier": "thorough" if thorough else "quick", "seed": seed, "level": "exploration",
            "coverage": {
                "evaluations": total.get("runs", 0),
                "distinct_nontrivial": len(sets.get("nontrivial_plans", ())),
                "rule": LEVEL_RULE + " " + cfg["rule"],
                "samples": samples[:2],
                "stages": stages,
                "library_executions": total.get("exec.total", 0),
                "library_calls": total.get("exec.ops", 0),
                "seeds_per_hour": int(total.get("runs", 0) / max(search, 1e-9) * 3600),
                "executions_per_hour": int(total.get("exec.total", 0) / max(search, 1e-9) * 3600),
                "simulated_air_time_s": round(0.02 * (total.get("sim.frames", 0) + total.get("sim.long_frames", 0)), 2),
                "faults_and_environment": {k: v for k, v in sorted(total.items()) if k.startswith(("fault.", "env."))},
                "workload": {k: v for k, v in sorted(total.items()) if k.startswith(("op.",))},
                "schedule": {k: v for k, v in sorted(total.items()) if k.startswith("sched.")},
                "oracle": {k: v for k, v in sorted(total.items()) if k.startswith(("oracle.", "model."))},
                "probes": {k: v for k, v in sorted(total.items()) if k.startswith("probe.")},
                "distinct": {k: len(v) for k, v in sorted(sets.items())},
                "skipped": {k: v for k, v in sorted(total.items()) if k.startswith(("runs.", "skip."))},
                "determinism": det,
                "real_code": "the whole library from /repo's current tree (all of src/), unmodified, including the bundled FFT",
                "stubs": "heap allocator and locks wrapped, clocks/randomness/environment replaced, threads parked and released one at a time by the simulated scheduler; channel and transmitter are the simulator's reference encoder",
            },
            "assumptions": cfg.get("assumptions", []),
            "wall_s": round(wall, 2),
            "violations": 1 if res else 0,
        }
        ev["coverage"]["build_s"] = round(build_s, 2)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s %s: %d runs, %d executions, %.1f s air time, %.1f s wall (build %.1f s)" % (prop, "VIOLATED" if res else "held", total.get("runs", 0), total.get("exec.total", 0), 0.02 * (total.get("sim.frames", 0) + total.get("sim.long_frames", 0)), wall, build_s))
        return res
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def do_replay(path):
    txt = open(path).read()
    m = re.search(r"^prop (\S+)", txt, re.M)
    fl = re.search(r"^# flavour (\S+)", txt, re.M)
    prop = m.group(1)
    st = [s for s in CONFIG[prop]["stages"] if not fl or s["flavour"] == fl.group(1)][0]
    scratch = tempfile.mkdtemp(prefix="mbesim-")
    try:
        exe = exe_for(scratch, st["flavour"], st["variants"])
        r = replay(exe, path, known(prop))
        if r:
            print("%s: %s" % (r[0], r[1]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        print("held on this replay")
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def main():
    a = sys.argv[1:]
    try:
        if a[0] == "--replay":
            return do_replay(a[1])
        if a[0] == "--setup":
            scratch = tempfile.mkdtemp(prefix="mbesim-")
            try:
                for fl in ("fast", "sched", "asan"):
                    exe_for(scratch, fl, ["scalar"])
            finally:
                shutil.rmtree(scratch, ignore_errors=True)
            print("setup ok")
            return 0
        return run_check(a[0], "--thorough" in a or os.environ.get("VERIF_TIER") == "thorough")
    except (Err, B.BuildError) as e:
        print("ERROR: %s" % e)
        return 3

sys.exit(main())

#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--count N] : decide one property on /repo's current tree.
   check.py --replay FILE                           : replay a saved failing case.
Exit 0: held on everything explored. Exit 1 + VIOLATION line: broken. Exit 2: the check itself failed."""
import argparse, array, json, os, re, shutil, signal, subprocess, sys, tempfile, time, hashlib
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import common
from registry import CHECKS
VERIF = common.VERIF
NPROC = 8

def henv(extra=None):
    e = common.env(); e.update(extra or {}); return e

def sh(cmd, timeout, env=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, env=henv(env), cwd=common.BUILD)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as ex:
        return -999, (ex.stdout or b"").decode("utf8", "replace") if isinstance(ex.stdout, bytes) else (ex.stdout or "")

def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) probe=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid: out.append((m.group(2), m.group(3)))
    return out

class Violation(Exception):
    def __init__(self, path, text): self.path, self.text = path, text

def save_violation(pid, config, binary, tape_path, work, origin, first_output):
    """confirm, shrink and write the replay file; returns path or None if it does not reproduce"""
    fails, out = 0, first_output
    for _ in range(3):
        rc, o = sh([binary, "replay", tape_path], 120)
        if rc not in (0, -9, 137): fails += 1; out = o
        elif rc != 0: pass
    if not fails: return None, out
    shr = os.path.join(work, "shrunk.tape")
    if fails == 3:
        rc, so = sh([binary, "shrink", tape_path, shr, "45"], 150)
        if rc == 0 and os.path.exists(shr):
            rc, o = sh([binary, "replay", shr], 120)
            if rc not in (0, -9, 137): tape_path, out = shr, o
    rc, trace = sh([binary, "replay", tape_path], 120, {"PBT_TRACE": "1"})
    tape = [int(x) for x in open(tape_path).read().split()]
    rd = os.path.join(VERIF, "replays"); os.makedirs(rd, exist_ok=True)
    path = os.path.join(rd, "%s-%s.json" % (pid, hashlib.sha256(repr(tape).encode()).hexdigest()[:10]))
    with open(path, "w") as f:
        json.dump({"property": pid, "config": config, "harness": CHECKS[pid]["src"], "origin": origin, "reproduced": "%d of 3" % fails,
                   "tape": tape, "trace": trace[-6000:], "output": out[-6000:]}, f, indent=1)
    return path, out

def fail_line(out):
    for l in out.splitlines():
        if "FAIL" in l: return l.strip()[:400]
    for l in out.splitlines():
        if "ERROR: AddressSanitizer" in l or "SUMMARY" in l or "ThreadSanitizer" in l: return l.strip()[:400]
    return (out.strip().splitlines() or ["(no output)"])[-1][:400]

def explore(pid, c, config, binary, seed, count, maxs, work, workers):
    """random exploration; returns aggregated stats; raises Violation"""
    procs = []
    for w in range(workers):
        st, cur, log = (os.path.join(work, "%s.%d.%s" % (config, w, x)) for x in ("stats", "cur", "log"))
        lf = open(log, "wb")
        p = subprocess.Popen([binary, "run", str(seed), str(w), str(workers), str(count), str(maxs), st, cur], stdout=lf, stderr=subprocess.STDOUT, env=henv(), cwd=work)
        procs.append((p, w, st, cur, log))
    agg = {"done": 0, "nontrivial": 0, "truncated": False, "classes": {}, "samples": [], "hash": set()}
    deadline = time.time() + maxs + 240
    bad, killed = [], []
    pending = list(procs)
    while pending:
        for t in list(pending):
            rc = t[0].poll()
            if rc is None:
                if time.time() > deadline: t[0].kill(); t[0].wait(); killed.append(t); pending.remove(t)
                continue
            pending.remove(t)
            if rc == 0: continue
            if rc in (-9, 137, 3): killed.append(t)
            else: bad.append((t, rc))
        if bad and not killed:          # a failure: stop the others
            for t in pending: t[0].kill(); t[0].wait()
            pending = []
        time.sleep(0.02)
    for (t, rc) in bad:
        p, w, st, cur, log = t
        idx = array.array("Q", open(cur, "rb").read(16))[0]
        out = open(log, errors="replace").read()
        tape = os.path.join(work, "fail.tape")
        rc2, o2 = sh([binary, "case", str(seed), str(idx), tape], 120)
        if rc2 not in (0, -9, 137, 3) and os.path.exists(tape):
            path, o = save_violation(pid, config, binary, tape, work, {"seed": seed, "case": idx}, out)
            if path: raise Violation(path, fail_line(o))
        # not reproducible alone: does the same prefix of cases fail again at the same place?
        again = 0
        for _ in range(3):
            rc3, o3 = sh([binary, "run", str(seed), str(w), str(workers), str(idx + 1), str(maxs), st, cur], maxs + 240)
            if rc3 not in (0, -9, 137, 3): again += 1
        if again:
            rd = os.path.join(VERIF, "replays"); os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, "%s-range-%d-%d.json" % (pid, seed, idx))
            json.dump({"property": pid, "config": config, "harness": c["src"], "reproduced": "%d of 3" % again,
                       "range": [seed, w, workers, idx + 1], "output": out[-6000:]}, open(path, "w"), indent=1)
            raise Violation(path, fail_line(out))
        if c.get("racy") and (re.search(r"FAIL \S+\.[ch]:\d+", out) or "ThreadSanitizer" in out):
            # several threads: the outcome was judged exactly, only the schedule is not repeatable; press for it
            tape2, n, bad2 = None, 0, 0; end = time.time() + 60
            if os.path.exists(tape):
                while time.time() < end and n < 2000 and not bad2:
                    ps = [subprocess.Popen([binary, "replay", tape], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=henv(), cwd=work) for _ in range(NPROC)]
                    for q in ps:
                        try: r = q.wait(120)
                        except subprocess.TimeoutExpired: q.kill(); r = 0
                        n += 1; bad2 += r not in (0, -9, 137, 3)
            rd = os.path.join(VERIF, "replays"); os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, "%s-race-%d-%d.json" % (pid, seed, idx))
            json.dump({"property": pid, "config": config, "harness": c["src"], "reproduced": "%d of %d repetitions" % (bad2, n), "repeat": 2000,
                       "tape": [int(x) for x in open(tape).read().split()] if os.path.exists(tape) else [], "range": [seed, w, workers, idx + 1], "output": out[-6000:]}, open(path, "w"), indent=1)
            raise Violation(path, fail_line(out))
        print("note: case %d failed once and did not fail again (%s); not reported" % (idx, fail_line(out)))
        agg["unreproduced"] = agg.get("unreproduced", 0) + 1
    if killed: print("note: %d worker(s) were ended from outside (memory or time)" % len(killed))
    for p, w, st, cur, log in procs:
        if not os.path.exists(st): agg["truncated"] = True; continue
        s = json.load(open(st))
        agg["done"] += s["done"]; agg["nontrivial"] += s["nontrivial"]; agg["truncated"] |= s["truncated"]
        for k, v in s["classes"].items(): agg["classes"][k] = agg["classes"].get(k, 0) + v
        agg["samples"] += s["samples"]
        a = array.array("Q"); hp = st + ".hash"
        a.frombytes(open(hp, "rb").read()); agg["hash"].update(a)
    if agg["done"] == 0: raise RuntimeError("no case was executed")
    return agg

def fuzz(pid, c, th, seed, secs, work):
    """coverage-guided exploration (libFuzzer) of the same harness; returns stats; raises Violation"""
    binary = common.build_harness(c["src"], "fuzz", th, c.get("cflags", ()), fuzz=True)
    rep = common.build_harness(c["src"], "asan", th, c.get("cflags", ()))
    procs = []
    for w in range(NPROC):
        cd = os.path.join(work, "corpus%d" % w); os.makedirs(cd); ad = os.path.join(work, "art%d_" % w)
        lf = open(os.path.join(work, "fuzz%d.log" % w), "wb")
        procs.append((subprocess.Popen([binary, "-seed=%d" % (seed * 100 + w + 1), "-max_total_time=%d" % secs, "-max_len=%d" % c.get("fuzz_len", 2048),
                     "-timeout=25", "-rss_limit_mb=3500", "-detect_leaks=0", "-artifact_prefix=" + ad, "-print_final_stats=1", cd],
                     stdout=lf, stderr=subprocess.STDOUT, env=henv(), cwd=work), w))
    execs, cov = 0, 0
    deadline = time.time() + secs + 120
    for p, w in procs:
        try: p.wait(max(1, deadline - time.time()))
        except subprocess.TimeoutExpired: p.kill(); p.wait()
    for p, w in procs:
        out = open(os.path.join(work, "fuzz%d.log" % w), errors="replace").read()
        m = re.search(r"stat::number_of_executed_units:\s*(\d+)", out)
        if m: execs += int(m.group(1))
        for m in re.finditer(r"cov: (\d+)", out): cov = max(cov, int(m.group(1)))
        for a in sorted(os.listdir(work)):
            if a.startswith("art%d_" % w) and not a.startswith("art%d_slow" % w) and not a.startswith("art%d_oom" % w):
                tape = os.path.join(work, "fuzz.tape")
                sh([rep, "bytes", os.path.join(work, a), tape], 120)
                path, o = save_violation(pid, "asan", rep, tape, work, {"libfuzzer_seed": seed, "artifact": a}, out) if os.path.exists(tape) else (None, "")
                if path: raise Violation(path, fail_line(o))
                print("note: fuzzer artifact %s does not reproduce in the replay build; not reported" % a)
    return {"executions": execs, "edges_covered": cov, "workers": NPROC, "seconds": secs}

def do_check(pid, tier, seed, count):
    c = CHECKS[pid]; t0 = time.time()
    os.makedirs(common.BUILD, exist_ok=True)
    th = common.tree_hash(); common.clean_other_builds(th)
    work = tempfile.mkdtemp(prefix="w_%s_" % pid, dir=common.BUILD)
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": []}
    violations, viol = [], None
    detail, hashes, classes = {}, set(), {}
    try:
        configs = c.get("configs", ["asan"])
        if tier == "thorough": configs = c.get("thorough_configs", configs)
        n = count or (c["quick"] if tier == "quick" else c.get("thorough", c["quick"] * 12))
        complaint = common.usable(pid, configs[0], th)
        if complaint:
            rd = os.path.join(VERIF, "replays"); os.makedirs(rd, exist_ok=True); path = os.path.join(rd, pid + "-usable.json")
            with open(path, "w") as f: json.dump({"property": pid, "config": configs[0], "usable": "harness/use/%s.c" % pid, "output": complaint[-6000:]}, f, indent=1)
            raise Violation(path, "a public name of this property cannot be used: " + next((l for l in complaint.splitlines() if "error" in l), complaint[:300]))
        for config in configs:
            binary = common.build_harness(c["src"], config, th, c.get("cflags", ()))
            for probe, desc in known_findings(pid):
                if config == configs[0]:
                    rc, o = sh([binary, "probe", probe], 120)
                    if rc != 0: print("KNOWN-FINDING: property=%s %s" % (pid, desc))
            share = c.get("share", {}).get(config, 1.0)
            agg = explore(pid, c, config, binary, seed, max(1, int(n * share)), 250 if tier == "quick" else 500, work, c.get("workers", NPROC))
            cov["evaluations"] += agg["done"]; hashes |= agg["hash"]
            for k, v in agg["classes"].items(): classes[k] = classes.get(k, 0) + v
            detail[config] = {"cases": agg["done"], "nontrivial_cases": agg["nontrivial"], "truncated_by_time": agg["truncated"]}
            if config == configs[0]:
                for idx in agg["samples"][:3]:
                    rc, tr = sh([binary, "case", str(seed), str(idx)], 60, {"PBT_TRACE": "1"})
                    cov["samples"].append({"case": idx, "trace": tr[:1500]})
        if tier == "thorough" and c.get("fuzz", True):
            detail["libfuzzer"] = fuzz(pid, c, th, seed, c.get("fuzz_secs", 150), work)
            cov["evaluations"] += detail["libfuzzer"]["executions"]
    except Violation as v:
        viol = v; violations.append({"replay": v.path, "what": v.text})
    finally:
        shutil.rmtree(work, ignore_errors=True)
    cov["distinct_nontrivial"] = len(hashes)
    cov["rule"] = c["rule"]; cov["classes"] = classes; cov["configurations"] = detail
    if not cov["samples"]: cov["samples"] = [violations[0]["what"] if violations else "none collected"]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": c.get("level", "exploration"), "coverage": cov, "wall_s": round(time.time() - t0, 2),
          "violations": len(violations), "violation_details": violations, "assumptions": c.get("assumptions", "The compilers, AddressSanitizer and the reference model in harness/%s are trusted; absence of violations is established only for the generated cases." % c["src"])}
    if not isinstance(ev["assumptions"], list): ev["assumptions"] = [ev["assumptions"]]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
    if viol:
        print("property %s is broken: %s" % (pid, viol.text))
        print("VIOLATION property=%s replay=%s" % (pid, viol.path)); return 1
    print("%s: held on %d cases (%d distinct non-trivial), %.1f s" % (pid, cov["evaluations"], len(hashes), time.time() - t0))
    return 0

SANITIZED = {"ubsan": re.compile(r"(\S+): runtime error: (.*)"), "msan": re.compile(r"MemorySanitizer: (use-of-uninitialized-value)")}

def undefined(config, out):
    """the sanitizer's complaint in this output: (text, whether it lies in the library's own files)"""
    m = SANITIZED[config].search(out)
    if not m: return None
    where = m.group(1) if config == "ubsan" else " ".join(re.findall(r"#\d+ .*", out[m.start():])[:3])
    return (m.group(0)[:300] if config == "ubsan" else m.group(0) + " " + where[:300]), os.path.join(common.REPO, "") in where

def outcomes(binary, tape, n=3):
    return [sh([binary, "replay", tape], 120) for _ in range(n)]

def do_meta(pid, tier, seed, count):
    """every other property's generator and model, in builds that only watch how the library computes"""
    from concurrent.futures import ThreadPoolExecutor
    c = CHECKS[pid]; t0 = time.time(); os.makedirs(common.BUILD, exist_ok=True)
    th = common.tree_hash(); common.clean_other_builds(th); work = tempfile.mkdtemp(prefix="w_%s_" % pid, dir=common.BUILD)
    ids = [i for i in CHECKS if CHECKS[i].get("src") and i not in c["without"]]
    configs = c["configs"] if tier == "quick" else c["thorough_configs"]
    n = count or (c["quick"] if tier == "quick" else c["quick"] * 25); maxs = 10 if tier == "quick" else 100
    detail = {k: {"cases": 0, "nontrivial_cases": 0, "set_aside": 0} for k in configs}; hashes, samples, viols, notes = set(), [], [], []
    def job(a):
        config, i = a
        if viols: return
        k = CHECKS[i]; d = os.path.join(work, config + i); os.makedirs(d)
        if config not in SANITIZED and k.get("racy"): return
        binary = common.build_harness(k["src"], config, th, k.get("cflags", ()))
        st, cur, log, tape = (os.path.join(d, x) for x in ("st", "cur", "log", "tape"))
        num = max(200, int(n * c["scale"].get(config, 1.0)))
        for part in range(2):       # after a failure that is not for this property, the rest of the cases once more from behind it
            with open(log, "wb") as lf:
                try: rc = subprocess.run([binary, "run", str(seed + 7 * part), "0", "1", str(num), str(maxs), st, cur], stdout=lf, stderr=subprocess.STDOUT, env=henv({"PBT_HANG": "120"}), cwd=d, timeout=maxs + 200).returncode
                except subprocess.TimeoutExpired: rc = -9
            if rc in (-9, 137, 3): notes.append("%s of %s was ended from outside" % (config, i)); return
            if rc == 0:
                s = json.load(open(st)); h = array.array("Q"); h.frombytes(open(st + ".hash", "rb").read())
                detail[config]["cases"] += s["done"]; detail[config]["nontrivial_cases"] += s["nontrivial"]; hashes.update((i, x) for x in h)
                if config == configs[0] and len(samples) < 4 and s["samples"]:
                    samples.append({"generator": i, "case": s["samples"][0], "trace": sh([binary, "case", str(seed), str(s["samples"][0])], 60, {"PBT_TRACE": "1"})[1][:800]})
                return
            out = open(log, errors="replace").read(); idx = array.array("Q", open(cur, "rb").read(16))[0]
            sh([binary, "case", str(seed + 7 * part), str(idx), tape], 120)
            if not os.path.exists(tape): continue
            model = lambda: common.build_harness(k["src"], "asan", th, k.get("cflags", ()))
            what = None
            if config in SANITIZED:
                u = undefined(config, out)
                if u and undefined(config, sh([binary, "replay", tape], 120)[1]) and (u[1] or not any(r for r, _ in outcomes(model(), tape))): what = u[0]
            elif all(r not in (0, -9, 137, 3) for r, _ in outcomes(binary, tape)):
                for other in [x for x in c["compared"] if x != config]:
                    b = model() if other == "asan" else common.build_harness(k["src"], other, th, k.get("cflags", ()))
                    if not any(r for r, _ in outcomes(b, tape)): what = "built as %s it fails (%s), built as %s it does not" % (config, fail_line(out), other); break
            if what:
                shr = os.path.join(d, "shr"); rc, _ = sh([binary, "shrink", tape, shr, "30"], 120)
                if rc == 0 and os.path.exists(shr) and config in SANITIZED:
                    u = undefined(config, sh([binary, "replay", shr], 120)[1])
                    if u and u[1]: tape = shr
                rc, o = sh([binary, "replay", tape], 120, {"PBT_TRACE": "1"}); t = [int(x) for x in open(tape).read().split()]
                rd = os.path.join(VERIF, "replays"); os.makedirs(rd, exist_ok=True); path = os.path.join(rd, "%s-%s.json" % (pid, hashlib.sha256(repr((i, config, t)).encode()).hexdigest()[:10]))
                with open(path, "w") as f: json.dump({"property": pid, "generator": i, "config": config, "harness": k["src"], "tape": t, "what": what, "output": o[-6000:]}, f, indent=1)
                viols.append({"replay": path, "what": "%s (histories of %s): %s" % (config, i, what)}); return
            detail[config]["set_aside"] += 1
    try:
        with ThreadPoolExecutor(NPROC) as ex:
            list(ex.map(lambda k: common.build_lib(k, th), configs))
            list(ex.map(job, [(k, i) for k in configs for i in ids]))
    finally: shutil.rmtree(work, ignore_errors=True)
    for x in notes: print("note: " + x)
    total = sum(d["cases"] for d in detail.values())
    ev = {"property": pid, "tier": tier, "seed": seed, "level": c.get("level", "exploration"), "wall_s": round(time.time() - t0, 2), "violations": len(viols), "violation_details": viols,
          "coverage": {"evaluations": total, "distinct_nontrivial": len(hashes), "rule": c["rule"], "samples": samples or [v["what"] for v in viols] or ["none"], "generators": ids, "configurations": detail}, "assumptions": [c["assumptions"]]}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
    if viols:
        print("property %s is broken: %s" % (pid, viols[0]["what"])); print("VIOLATION property=%s replay=%s" % (pid, viols[0]["replay"])); return 1
    if not total: raise RuntimeError("no case was executed")
    print("%s: held on %d cases (%d distinct non-trivial), %.1f s" % (pid, total, len(hashes), time.time() - t0)); return 0

def do_replay(path):
    r = json.load(open(path)); c = CHECKS[r.get("generator", r["property"])]
    os.makedirs(common.BUILD, exist_ok=True)
    if "usable" in r:
        o = common.usable(r["property"], r["config"]); print(o or "the saved case passes")
        if o: print("VIOLATION property=%s replay=%s" % (r["property"], path))
        return 1 if o else 0
    binary = common.build_harness(c["src"], r["config"], None, c.get("cflags", ()))
    with tempfile.TemporaryDirectory(dir=common.BUILD) as d:
        if r.get("repeat") and r["tape"]:
            open(d + "/t", "w").write("\n".join(map(str, r["tape"])) + "\n"); rc = 0; end = time.time() + 300; n = 0; o = ""
            while not rc and n < r["repeat"] and time.time() < end:
                ps = [subprocess.Popen([binary, "replay", d + "/t"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=henv(), cwd=common.BUILD) for _ in range(NPROC)]
                for q in ps:
                    t = q.communicate()[0]; n += 1
                    if q.returncode: rc, o = q.returncode, t
            if not rc: o = "%d repetitions passed" % n
        elif "range" in r:
            s, w, n, cnt = r["range"]
            rc, o = sh([binary, "run", str(s), str(w), str(n), str(cnt), "600", d + "/s", d + "/c"], 900)
        else:
            open(d + "/t", "w").write("\n".join(map(str, r["tape"])) + "\n")
            rc, o = sh([binary, "replay", d + "/t"], 300, {"PBT_TRACE": "1"})
    print(o)
    if rc: print("VIOLATION property=%s replay=%s" % (r["property"], path)); return 1
    print("the saved case passes"); return 0

def main():
    ap = argparse.ArgumentParser(); ap.add_argument("id", nargs="?"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay"); ap.add_argument("--count", type=int); ap.add_argument("--seed", type=int)
    a = ap.parse_args()
    if a.replay: return do_replay(a.replay)
    try: seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1"))
    except ValueError: seed = 1
    try:
        return (do_meta if "without" in CHECKS[a.id] else do_check)(a.id, a.tier if a.tier in ("quick", "thorough") else "quick", seed, a.count)
    except common.BuildError as e:
        print("build error: %s" % e); return 2
sys.exit(main())

#!/usr/bin/env python3
"""Runs one property check: builds the library from /repo's working tree, runs the monitored
workload in shards, collects what the monitors saw and decides.

  check.py P01 [--tier quick|thorough] [--replay FILE]

exit 0: nothing violated; 1: VIOLATION line printed; 2: the check itself could not run."""
import sys, os, json, time, subprocess, signal, re, argparse, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
from plan import PLAN

VERIF = vbuild.VERIF
EVID = os.environ.get("VF_EVIDENCE", os.path.join(VERIF, "evidence"))
WORK = os.path.join(vbuild.BUILD, "run")
NPROC = 8

ENV = dict(os.environ, MKL_NUM_THREADS="1", OMP_NUM_THREADS="1", MKL_CBWR="COMPATIBLE", MKL_DYNAMIC="FALSE",
           ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:exitcode=99:detect_stack_use_after_return=1",
           UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=99",
           TSAN_OPTIONS="exitcode=66:halt_on_error=0:report_signal_unsafe=0:history_size=4",
           MSAN_OPTIONS="exitcode=77:print_stats=0:poison_in_malloc=0:poison_in_free=1")

class Infra(Exception):
    pass

def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+)\s+(.*)", ln.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out

def parse(path):
    r = dict(began=None, ended=None, viol=[], done=None)
    if not os.path.exists(path):
        return r
    with open(path, errors="replace") as f:
        for ln in f:
            if ln.startswith("B "): r["began"] = int(ln[2:])
            elif ln.startswith("E "): r["ended"] = int(ln[2:])
            elif ln.startswith("V "):
                try: r["viol"].append(json.loads(ln[2:]))
                except ValueError: pass
            elif ln.startswith("DONE "):
                try: r["done"] = json.loads(ln[5:])
                except ValueError: pass
    return r

def crash_key(rc, err):
    """A stable name for an abnormal end: sanitizer report type and first frame in the library."""
    kind = None
    m = re.search(r"SUMMARY: (\w+)Sanitizer: ([\w-]+)", err)
    if m: kind = m.group(1).lower() + ":" + m.group(2)
    m2 = re.search(r"runtime error: (.*)", err)
    if m2 and (not kind or "undefined" in kind):
        kind = "ubsan:" + re.sub(r"0x[0-9a-f]+|-?\d+", "N", m2.group(1)).strip().replace(" ", "_")[:60]
    if not kind:
        kind = ("signal:%d" % -rc) if rc < 0 else "exit:%d" % rc
    fn = ""
    for m in re.finditer(r"#\d+ 0x[0-9a-f]+ in (\S+) ([^\n:]+)", err):
        if vbuild.REPO + "/" in m.group(2):
            fn = m.group(1); break
    if not fn:
        for m in re.finditer(r"#\d+ (\S+) ([^\n:]+):\d+", err):      # tsan style
            if vbuild.REPO + "/" in m.group(2):
                fn = m.group(1); break
    if not fn:
        m = re.search(re.escape(vbuild.REPO) + r"/(\S+?\.[ch]):(\d+)", err)
        if m: fn = os.path.basename(m.group(1))
    return "crash:" + kind + (":" + fn if fn else "")

# odd cases run with every fresh block filled with a byte pattern: memory read before it is written shows
def heap(case): return {"GLIBC_TUNABLES": "glibc.malloc.tcache_count=0:glibc.malloc.perturb=%d" % (85 if case % 4 == 1 else 254)} if case % 2 else {}

class Shard:
    def __init__(self, exe, prop, part, seed, tier, start, stride, cases, idx, limit):
        self.a = (exe, prop, part, seed, tier, stride, cases, idx, limit)
        self.exe, self.prop, self.part, self.seed, self.tier = exe, prop, part, seed, tier
        self.stride, self.cases, self.limit = stride, cases, limit
        self.idx = idx; self.start = start
        self.results = []; self.restarts = 0
        self.launch()
    def launch(self):
        self.out = os.path.join(WORK, "%s.%s.%d.%d.out" % (self.prop, self.part["variant"], self.idx, self.restarts))
        self.errf = self.out[:-4] + ".err"
        cmd = [self.exe, "--prop", self.part.get("prop", self.prop), "--seed", str(self.seed), "--start", str(self.start), "--stride", str(self.stride),
               "--cases", str(self.cases), "--out", self.out, "--variant", self.part["variant"], "--tier", "1" if self.tier == "thorough" else "0"]
        self.scratch = os.path.join(WORK, "scratch.%s.%d" % (self.part["variant"], self.idx))
        os.makedirs(self.scratch, exist_ok=True)
        env = dict(ENV, VF_SCRATCH=self.scratch, VF_REPO=vbuild.REPO, VF_VERIF=VERIF, **(heap(self.start) if self.stride % 4 == 0 else {})); env.update(self.part.get("env", {}))
        self.p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open(self.errf, "w"), env=env, cwd=self.scratch, start_new_session=True)
        self.last = time.time(); self.lastcase = None
    def kill(self):
        try: os.killpg(self.p.pid, signal.SIGKILL)
        except OSError: pass
        self.p.wait()

def tail_case(path):
    try:
        with open(path, "rb") as f:
            f.seek(0, 2); n = f.tell(); f.seek(max(0, n - 4096))
            ls = f.read().decode(errors="replace").split("\n")
    except OSError:
        return None
    for ln in reversed(ls[:-1] if ls else ls):
        if ln[:2] in ("B ", "E "): return ln
    return None

def run_only(exe, prop, part, seed, tier, case, limit):
    out = os.path.join(WORK, "%s.only.out" % prop)
    scratch = os.path.join(WORK, "scratch.only"); os.makedirs(scratch, exist_ok=True)
    cmd = [exe, "--prop", part.get("prop", prop), "--seed", str(seed), "--only", str(case), "--out", out, "--variant", part["variant"], "--verbose", "1",
           "--tier", "1" if tier == "thorough" else "0"]
    env = dict(ENV, VF_SCRATCH=scratch, VF_REPO=vbuild.REPO, VF_VERIF=VERIF, **heap(case)); env.update(part.get("env", {}))
    p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env, cwd=scratch, start_new_session=True)
    try:
        _, err = p.communicate(timeout=limit)
        return p.returncode, err.decode(errors="replace"), parse(out)
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        p.wait()
        return None, "", parse(out)

def run_part(prop, part, seed, tier, deadline):
    exe = vbuild.build(part["variant"], ["main.cpp", "gen.cpp", "internals.cpp"] + part["srcs"], "vf-" + prop, extra_link=part.get("link", ()))
    cases = part["cases"][1 if tier == "thorough" else 0]
    limit = part.get("case_limit", 60)
    nsh = min(part.get("shards", NPROC), max(1, cases))
    shards = [Shard(exe, prop, part, seed, tier, k, nsh, cases, k, limit) for k in range(nsh)]
    res = dict(events={}, sigs=set(), samples=[], viol=[], cases=0, crashed=0)
    def absorb(sh, r):
        d = r["done"]
        if d:
            for k, v in d["events"].items(): res["events"][k] = res["events"].get(k, 0) + v
            res["sigs"].update(d["sigs"]); res["samples"] += d["samples"]
        for v in r["viol"]:
            v["variant"] = part["variant"]; res["viol"].append(v)
    live = list(shards)
    stop = False
    t0 = time.time(); scan = t0 + 120; known = [k[0] for k in known_findings(prop)]
    while live:
        time.sleep(0.05)
        if tier == "quick" and time.time() > scan:      # a violation is on record and this takes long: the answer is known
            scan = time.time() + 15
            if any(v["key"] not in known for v in res["viol"] + [v for sh in live for v in parse(sh.out)["viol"]]):
                for o in live: o.kill(); absorb(o, parse(o.out))
                res["events"]["stopped_early"] = len(live); return res
        for sh in list(live):
            rc = sh.p.poll()
            if rc is None:
                t = tail_case(sh.out)
                if t != sh.lastcase: sh.lastcase, sh.last = t, time.time()
                if time.time() - sh.last > sh.limit or time.time() > deadline:
                    late = time.time() > deadline
                    sh.kill(); r = parse(sh.out); absorb(sh, r)
                    c = r["began"]
                    res["cases"] += (c - sh.start) // sh.stride if c is not None else 0
                    if late:
                        res["events"]["stopped_by_deadline"] = res["events"].get("stopped_by_deadline", 0) + 1
                        live.remove(sh); continue
                    if c is None: raise Infra("shard made no progress")
                    again = min(3 * sh.limit, max(sh.limit, deadline - time.time()))
                    rc2, err2, r2 = run_only(exe, prop, part, seed, tier, c, again)
                    if rc2 is None:     # confirmed alone: an answer, so the rest of the exploration is given up
                        res["viol"].append(dict(case=c, key="hang", msg="case did not finish in %d s" % again, note="", variant=part["variant"]))
                        for o in live:
                            if o is not sh: o.kill(); absorb(o, parse(o.out))
                        return res
                    elif rc2 != 0:
                        res["viol"].append(dict(case=c, key=crash_key(rc2, err2), msg=err2[-1500:], note="", variant=part["variant"]))
                    sh.restarts += 1; sh.start = c + sh.stride
                    if sh.restarts > 4 or sh.start >= sh.cases: live.remove(sh)
                    else: sh.launch()
                continue
            r = parse(sh.out); absorb(sh, r)
            if r["done"] and rc == 0:
                res["cases"] += len(range(sh.start, sh.cases, sh.stride)); live.remove(sh); continue
            err = open(sh.errf, errors="replace").read()
            if r["done"] and rc == 66:      # thread sanitizer: reports were printed, run completed
                res["cases"] += len(range(sh.start, sh.cases, sh.stride)); live.remove(sh)
                for blk in err.split("==================")[1::2]:
                    res["viol"].append(dict(case=-1, key=crash_key(66, blk), msg=blk[:1500], note="", variant=part["variant"]))
                continue
            if r["began"] is None:
                raise Infra("shard failed to start (rc %s): %s" % (rc, err[-1000:]))
            if rc == -9:
                raise Infra("shard was killed (out of memory?)")
            c = r["began"]; res["crashed"] += 1
            res["cases"] += (c - sh.start) // sh.stride + 1
            rc2, err2, r2 = run_only(exe, prop, part, seed, tier, c, 3 * sh.limit)
            if rc2 not in (0, None): err = err2; rc = rc2
            res["viol"].append(dict(case=c, key=crash_key(rc, err), msg=err[-1800:] if "SUMMARY" not in err else err[:2500], note="reproduces alone" if rc2 not in (0, None) else "only in sequence", variant=part["variant"]))
            sh.restarts += 1; sh.start = c + sh.stride
            if sh.restarts > 6 or sh.start >= sh.cases: live.remove(sh)
            else: sh.launch()
    return res

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or "1"))
    ap.add_argument("--replay"); ap.add_argument("--scale", type=float, default=1.0); ap.add_argument("--part", type=int)
    a = ap.parse_args()
    prop = a.prop; P = PLAN[prop]
    os.makedirs(EVID, exist_ok=True)
    shutil.rmtree(WORK, ignore_errors=True); os.makedirs(WORK, exist_ok=True)
    if a.replay:
        v = json.load(open(a.replay))
        part = next(p for p in P["parts"] if p["variant"] == v["variant"])
        exe = vbuild.build(part["variant"], ["main.cpp", "gen.cpp", "internals.cpp"] + part["srcs"], "vf-" + prop, extra_link=part.get("link", ()))
        rc, err, r = run_only(exe, prop, part, v["seed"], v["tier"], v["case"], 900)
        print(err); print(json.dumps(r["viol"], indent=1)); print("rc", rc)
        return 1 if (r["viol"] or rc != 0) else 0
    t0 = time.time(); deadline = t0 + P.get("budget", (780, 5400))[1 if a.tier == "thorough" else 0]
    ev, sigs, samples, viol, cases, per = {}, set(), [], [], 0, {}
    parts = P["parts"] if a.part is None else [P["parts"][a.part]]
    for part in parts:
        if a.tier not in part.get("tiers", ("quick", "thorough")): continue
        if time.time() - t0 > 240 and a.tier == "quick" and any(not any(v["key"] == k[0] for k in known_findings(prop)) for v in viol): continue   # the answer is known
        if a.scale != 1.0: part = dict(part, cases=tuple(max(1, int(c * a.scale)) for c in part["cases"]))
        t1 = time.time()
        r = run_part(prop, part, a.seed, a.tier, deadline)
        for k, v in r["events"].items(): ev[k] = ev.get(k, 0) + v
        sigs |= r["sigs"]; samples += r["samples"][:2]; viol += r["viol"]; cases += r["cases"]
        per[part["variant"] + (":" + part["prop"] if "prop" in part else "")] = dict(cases=r["cases"], seconds=round(time.time() - t1, 1))
    known = known_findings(prop)
    fresh, seen_known = [], {}
    for v in viol:
        k = next((kk for kk in known if v["key"] == kk[0] or (kk[0].endswith("*") and v["key"].startswith(kk[0][:-1]))), None)
        if k: seen_known.setdefault(k, []).append(v)
        else: fresh.append(v)
    need = P.get("need", {})
    lacking = [] if (fresh or a.scale != 1.0 or a.part is not None) else [k for k, n in need.items() if ev.get(k, 0) < n]
    evid = dict(property=prop, tier=a.tier, seed=a.seed, level=P["level"],
                coverage=dict(evaluations=cases, distinct_nontrivial=len(sigs), rule=P["rule"], samples=(samples or ["(none)"])[:6],
                              monitor_events=dict(sorted(ev.items())), parts=per),
                assumptions=P.get("assumptions", []), violations=[dict(key=v["key"], case=v["case"], variant=v["variant"], msg=v["msg"][:600]) for v in fresh[:20]],
                known_findings=[dict(key=k[0], hits=len(x)) for k, x in seen_known.items()], wall_s=round(time.time() - t0, 2))
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(evid, f, indent=1)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k[1]))
    print("%s %s: %d cases, %d distinct, %d oracle checks, %.1f s" % (prop, a.tier, cases, len(sigs), ev.get("oracle_checks", 0), time.time() - t0))
    if fresh:
        by = {}
        for v in fresh: by.setdefault(v["key"], []).append(v)
        for n, (k, vs) in enumerate(sorted(by.items())):
            v = vs[0]
            path = os.path.join(EVID, "replay-%s-%d.json" % (prop, n))
            with open(path, "w") as f:
                json.dump(dict(v, seed=a.seed, tier=a.tier, property=prop, count=len(vs)), f, indent=1)
            print("  [%s] x%d case %s (%s): %s | %s" % (k, len(vs), v["case"], v["variant"], v["msg"][:700], v.get("note", "")[:300]))
            if n < 5: print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if lacking:
        print("check error: the monitors saw too little of: " + ", ".join("%s=%d<%d" % (k, ev.get(k, 0), need[k]) for k in lacking)); return 2
    if cases == 0 or ev.get("oracle_checks", 0) == 0:
        print("check error: nothing was observed"); return 2
    return 0

if __name__ == "__main__":
    try:
        sys.exit(main())
    except (Infra, vbuild.BuildError) as e:
        print("check error: %s" % e); sys.exit(2)

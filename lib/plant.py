"""Runs planted bugs (development tool, not a check): in a private clone of /repo, applies /verif/seeded/<id>/patch.diff,
builds, runs the stable tests and the demonstration, then the property's check against the clone.
plant.py [ID...] [--check-only] [--no-check] [--all-checks] [--demo-only] [--w=TAG]   (VERIF_SEED is passed on)"""
import sys, os, subprocess, json, time, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
fl = [a for a in sys.argv[1:] if a.startswith("-")]
W = "/tmp/plant-%s" % next((a[4:] for a in fl if a.startswith("--w=")), "0"); R = W + "/repo"
S = next((a[4:] for a in fl if a.startswith("--s=")), os.path.join(V, "seeded"))
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def script(n):
    t = open("/opt/vp/%s.sh" % n).read().replace("/repo", R).replace("bash /opt/vp/build.sh", "bash %s/build.sh" % W); open("%s/%s.sh" % (W, n), "w").write(t)
def clone():
    head = sh("git -C /repo rev-parse HEAD").stdout.strip()
    if not os.path.isdir(R): os.makedirs(W, exist_ok=True); sh("git clone -q /repo %s" % R); [script(n) for n in ("build", "test")]
    if sh("git -C %s rev-parse HEAD" % R).stdout.strip() != head: sh("cd %s && git checkout -q -- . && git fetch -q origin && git checkout -q %s" % (R, head))
    sh("git -C %s checkout -q -- ." % R)
def build(): return sh("bash %s/build.sh" % W)
def tests():
    sh("bash %s/test.sh %s/t.json" % (W, W))
    try: got = set(json.load(open(W + "/t.json")).get("passed", []))
    except Exception: return "no result"
    b = json.load(open("/opt/vp/BASELINE.json")); want = set(b.get("stable") or b.get("passed") or [])
    miss = sorted(want - got)
    return "pass" if not miss else "FAIL %d: %s" % (len(miss), miss[:3])
def demo(i):
    try: r = sh("bash %s/demo.sh" % os.path.join(S, i), cwd=R, timeout=300); return r.returncode, r.stdout[-250:].replace("\n", " | ")
    except subprocess.TimeoutExpired: return 124, "timeout"
def main():
    ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(S))
    claimed = [c["property"] for c in json.load(open(os.path.join(V, "MANIFEST.json")))["checks"]]
    clone(); env = dict(os.environ, VF_REPO=R, VF_BUILD=W + "/vfbuild", VF_EVIDENCE=W + "/evidence"); env.setdefault("VERIF_SEED", "1")
    for i in ids:
        p = json.load(open(os.path.join(S, i, "meta.json")))["property"]; out = ["%s %s" % (i, p)]
        if "--check-only" not in fl:
            build(); c, o = demo(i); out.append("clean demo %d %s" % (c, o if c else ""))
            if c: out[0] += " INVALID"
        r = sh("git -C %s apply %s" % (R, os.path.join(S, i, "patch.diff")))
        if r.returncode: print(i, "INVALID does not apply", r.stdout[:300], flush=True); continue
        try:
            if "--check-only" not in fl:
                b = build()
                if b.returncode: print(i, "INVALID BUILD FAILS", b.stdout[-800:], flush=True); continue
                c, o = demo(i); t = tests(); out.append("tests %s; demo %d %s" % (t, c, o))
                if not c or t != "pass": out[0] += " INVALID"
            if "--no-check" not in fl:
                for q in ([p] if "--all-checks" not in fl else claimed):
                    if q not in claimed: out.append("%s not claimed" % q); continue
                    t = time.time(); r = sh("python3 lib/check.py %s --tier quick" % q, cwd=V, env=env)
                    v = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]; first = [l for l in r.stdout.split("\n") if l.startswith("  [")]
                    ok = r.returncode == 1 and v
                    if q == p and not ok: out[0] += " MISSED"
                    if q == p or r.returncode: out.append("%s: exit %d (%.0fs) %s" % (q, r.returncode, time.time() - t, ((" ".join(x.split(" case")[0].strip() for x in first)[:150] + " | " + first[0][:110]) if first else r.stdout[-200:].replace("\n", " | ")) if r.returncode else ""))
        finally: sh("git -C %s checkout -q -- ." % R)
        print("\n    ".join(out), flush=True)
main()

"""Random mutation of /repo in a private clone (development tool, not a check): mutants that build and pass the stable tests are
shown to the checks at a reduced scale; survivors are listed for inspection.
mutate.py TAG SEED COUNT [--files=a.c,b.c] [--scale=0.15]"""
import sys, os, re, random, subprocess, json, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
tag, seed, count = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
opt = dict(a[2:].split("=", 1) for a in sys.argv[4:] if a.startswith("--"))
sys.argv = ["plant.py", "--w=mut" + tag]
src = open(os.path.join(V, "lib", "plant.py")).read().rsplit("\nmain()", 1)[0]
__file__ = os.path.join(V, "lib", "plant.py"); exec(src)
FILES = opt.get("files", "src/auxil.c,src/osqp_api.c,src/polish.c,src/scaling.c,src/util.c,src/derivative.c,src/codegen.c,src/interrupt_unix.c,src/timing_linux.c,src/error.c,src/profilers.c,"
  "algebra/_common/csc_math.c,algebra/_common/csc_utils.c,algebra/_common/kkt.c,algebra/_common/reduced_kkt.c,algebra/builtin/matrix.c,algebra/builtin/vector.c,algebra/mkl/matrix.c,algebra/mkl/vector.c,"
  "algebra/mkl/lin_sys/direct/pardiso_interface.c,algebra/mkl/lin_sys/indirect/mkl-cg_interface.c,algebra/_common/lin_sys/qdldl/qdldl_interface.c").split(",")
PRI = {"derivative": ["P33"], "codegen": ["P32"], "interrupt": ["P19", "P16"], "timing": ["P28"], "error": ["P20", "P21"], "profilers": ["P35"], "polish": ["P13", "P17", "P18"], "scaling": ["P26", "P08"],
       "util": ["P27", "P10", "P09"], "csc_": ["P23", "P22", "P24"], "kkt": ["P24", "P33"], "builtin": ["P23", "P30", "P22"], "mkl/matrix": ["P23", "P22"], "mkl/vector": ["P23"], "lin_sys": ["P24", "P17", "P18", "P06"], "auxil": ["P25", "P29", "P02"], "osqp_api": ["P20", "P09", "P12", "P28"]}
ORDER = "P08 P25 P26 P24 P09 P10 P29 P11 P12 P02 P01 P13 P27 P28 P20 P21 P22 P23 P33 P34 P35 P07 P14 P15 P03 P04 P05 P19 P31 P30 P06 P17 P18 P16 P32".split()
SUB = [(r"<=", "<"), (r">=", ">"), (r"(?<![<>=!\-])<(?![<=])", "<="), (r"(?<![<>=!\-])>(?![>=])", ">="), (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "),
       (r"\b1\b", "2"), (r"\b0\b", "1"), (r"\b1\.0\b", "2.0"), (r"\b0\.0\b", "1.0"), (r"c_max", "c_min"), (r"c_min", "c_max"), (r"\bsettings->eps_abs\b", "settings->eps_rel"), (r"\bOSQP_NULL\b", "(void*)1"), (r"->l\b", "->u"), (r"->u\b", "->l"),
       (r"\bwork->x\b", "work->x_prev"), (r"->Dinv\b", "->D"), (r"->E\b", "->Einv"), (r"->Einv\b", "->E"), (r"->D\b", "->Dinv"), (r"\bm\b", "n"), (r"\bn\b", "m"), (r"\+=", "="), (r"!(?=\w)", ""), (r"(?<=if \()", "!"), (r"\+\+", "--"), (r"->cinv\b", "->c"), (r"->c\b", "->cinv"), (r"\bi\b", "i+1"), (r"\bj\b", "j+1")]
def bodies(lines):
    depth, out, com = 0, [], False
    for k, l in enumerate(lines):
        s = re.sub(r'"(\\.|[^"])*"', '""', l); s = re.sub(r"/\*.*?\*/", "", s); s = s.split("//")[0]
        if com:
            if "*/" in s: s = s.split("*/", 1)[1]; com = False
            else: continue
        if "/*" in s: s = s.split("/*")[0]; com = True
        if depth > 0 and s.strip() and not s.strip().startswith("#"): out.append(k)
        if 'extern ""' in s: continue
        depth += s.count("{") - s.count("}")
    return out
def mutate(rng):
    for _ in range(1000):
        f = rng.choice(FILES); p = os.path.join(R, f); lines = open(p).read().split("\n"); b = bodies(lines)
        if not b: continue
        k = rng.choice(b); l = lines[k]; code = l.split("//")[0]
        if rng.random() < 0.3:
            st = code.strip()
            if not re.match(r"^[\w\->\.\[\]\*\(]+.*;$", st) or re.match(r"^(OSQP\w+|c_int|int|const|static|return.*|case|default|char|csc|LinSys\w+|\w+_solver|\w+ ?\*)\s.*[;=]", st) or st.startswith("c_print") or "fprintf" in st and "codegen" not in f: continue
            new = ";"; 
        else:
            cands = [(mm, r) for pat, r in SUB for mm in re.finditer(pat, code)]
            if not cands or "c_print" in l: continue
            mm, rep = rng.choice(cands); new = code[:mm.start()] + rep + code[mm.end():]
        lines[k] = new + " /*M*/"; return f, p, k, l.strip(), new.strip(), "\n".join(lines)
def main2():
    clone(); rng = random.Random(seed); env = dict(os.environ, VF_REPO=R, VF_BUILD=W + "/vfbuild", VF_EVIDENCE=W + "/evidence", VERIF_SEED="1")
    build(); done = 0
    while done < count:
        f, p, k, old, new, text = mutate(rng); orig = open(p).read(); open(p, "w").write(text); t0 = time.time(); d = "%s:%d  %s  ==>  %s" % (f, k + 1, old, new)
        try:
            if build().returncode: continue
            if tests() != "pass": print("tests-kill", d, flush=True); continue
            done += 1; pri = [x for key, v in PRI.items() if key in f for x in v]; res = None; other = []
            for q in pri + [x for x in ORDER if x not in pri]:
                try: r = sh("python3 lib/check.py %s --tier quick --scale %s" % (q, opt.get("scale", "0.15")), cwd=V, env=env, timeout=900)
                except subprocess.TimeoutExpired: other.append(q + ":timeout"); continue
                if r.returncode == 1: first = [l for l in r.stdout.split("\n") if l.startswith("  [")]; res = q + " " + (first[0][:110] if first else ""); break
                if r.returncode: other.append("%s:%d %s" % (q, r.returncode, r.stdout[-100:].replace("\n", "|")))
            print(("CAUGHT %s" % res if res else "SURVIVES"), d, other, "%.0fs" % (time.time() - t0), flush=True)
        finally: open(p, "w").write(orig)
main2()

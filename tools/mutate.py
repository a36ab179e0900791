#!/usr/bin/env python3
"""mutate.py PROP[,PROP...] N [SEED] [FILE...]: how many random small changes to the files of a property do the quick searches notice?
Each change is made in a scratch copy of /repo, built, searched with the quick number of runs; survivors are listed."""
import os, random, re, subprocess, sys, glob, shutil, time
sys.path.insert(0, "/verif")
import props
P = sys.argv[1]; N = int(sys.argv[2]); SEED = int(sys.argv[3]) if len(sys.argv) > 3 else 1
D = "/tmp/w/mut/" + P; REPO = D + "/repo"; B = D + "/vb"; OUT = D + "/out"
if not os.path.exists(REPO):
    os.makedirs(REPO); subprocess.check_call("git -C /repo archive HEAD | tar x -C %s; cp -a /repo/config.h %s; cp -a /repo/src/mac %s/src/; cp /repo/include/amino/cblas_order.h %s/include/amino/" % (REPO, REPO, REPO, REPO), shell=True)
env = dict(os.environ, VSIM_REPO=REPO, VSIM_BUILD=B)
files = [f for f in (sys.argv[4:] or props.TEXT[P.split(",")[0]]["files"]) if f.endswith((".c", ".cpp", ".h", ".hpp", ".l", ".y", ".py"))]
PS = P.split(","); suites = sorted({props.PROPS[p]["suites"][0] for p in PS})
rng = random.Random(SEED)
OPS = [(r"<=", "<"), (r">=", ">"), (r"(?<![-<>=])<(?![<=])", "<="), (r"(?<![->=])>(?![>=])", ">="), (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"),
       (r"(?<=[\w\])] )\+(?= )", "-"), (r"(?<=[\w\])] )-(?= )", "+"), (r"(?<=[\w\])])\+(?=[\w(])", "-"), (r"(?<=[\w\])])-(?=[\w(])", "+"), (r"(?<= )\*(?= )", "/"), (r"\+\+", "--"), (r"\+=", "-="), (r"-=", "+="),
       (r"\b0\b(?!\.)", "1"), (r"\b1\b(?!\.)", "0"), (r"\b1\b(?!\.)", "2"), (r"\b2\b(?!\.)", "1"), (r"\b3\b(?!\.)", "2")]
def py_candidates(L):
    out = []; doc = False
    for i, l in enumerate(L):
        s = l.strip()
        if doc or s.startswith(('"""', "r\"\"\"")):
            if s.count('"""') == 1: doc = not doc
            continue
        if not s or not l.startswith("    ") or s.startswith(("#", "def ", "class ", "@", "raise", "import", "ctypes.")): continue
        code = re.sub(r"'[^']*'|\"[^\"]*\"", lambda m: "\x01" * len(m.group()), s)
        for a, b in OPS + [(r"\band\b", "or"), (r"\bor\b", "and"), (r"\bnot ", ""), (r"\bis not None", "is None"), (r"\bis None", "is not None"), (r"\.x\b", ".y"), (r"\.y\b", ".z"), (r"\bself\b", "other"), (r"\bother\b", "self")]:
            for m in re.finditer(a, code): out.append((i, "op", m.start(), m.end(), b))
        if re.match(r"^[\w.\[\]]+(\(.*\)| [-+*/]?= .*)$", code): out += [(i, "pydel", 0, 0, "")] * 3
    return L, out
def candidates(f):
    if f.endswith(".py"): return py_candidates(open(REPO + "/" + f).read().split("\n"))
    L = open(REPO + "/" + f).read().split("\n"); out = []; comment = False; depth = 0
    for i, l in enumerate(L):
        s = l.strip()
        if comment:
            if "*/" in s: comment = False
            continue
        if s.startswith("/*"):
            if "*/" not in s: comment = True
            continue
        d = depth; depth += l.count("{") - l.count("}")
        if d < 1 or not s or s.startswith(("//", "#", "*", "assert", "fprintf", "printf", "case", "AA_LOG")) or "assert" in s or "extern \"C\"" in s: continue
        code = re.sub(r'"[^"]*"', lambda m: "\x01" * len(m.group()), s.split("//")[0].split("/*")[0])
        for a, b in OPS:
            for m in re.finditer(a, code):
                out.append((i, "op", m.start(), m.end(), b))
        if re.match(r"^[\w>.\-\[\]()*]+\s*(\(.*\)|[-+*/]?=.*);$", code) and not re.match(r"^(return|goto|break|double|int|size_t|struct|const|void|char)\b", code): out += [(i, "del", 0, 0, "")] * 3
        m = re.match(r"^(else )?if\s*\((.*)\)\s*\{?$", code)
        if m: out += [(i, "neg", 0, 0, "")]
        if re.match(r"^(break|continue);$", code): out += [(i, "del", 0, 0, "")]
    return L, out
def build():
    r = subprocess.run(["python3", "/verif/vsim.py", "build"] + suites, env=env, capture_output=True, text=True)
    return "BUILD-FAILED" not in r.stdout + r.stderr and r.returncode == 0
def search():
    for p in PS:
        h = search1(p, props.PROPS[p]["suites"][0], props.PROPS[p]["quick"][0])
        if h: return p
def search1(P, suite, runs):
    shutil.rmtree(OUT, ignore_errors=True); os.makedirs(OUT); ps = []
    for k in range(8): ps.append(subprocess.Popen([B + "/sim_" + suite, "--prop", P, "--seed", "1", "--from", str(k), "--to", str(runs), "--stride", "8", "--out", OUT, "--max-viol", "1", "--max-seconds", "60"], env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True))
    t0 = time.time(); hit = None
    while time.time() - t0 < 120:
        live = [p for p in ps if p.poll() is None]; v = glob.glob(OUT + "/viol*")
        if v: hit = v[0]; break
        if any(p.poll() not in (None, 0, 1) for p in ps): hit = "exit %s" % [p.poll() for p in ps]; break
        if not live: break
        time.sleep(0.1)
    else: hit = "timeout"
    for p in ps:
        if p.poll() is None: p.kill()
        p.wait()
    return hit
assert build(), "base does not build"
log = open(D + "/log", "a"); k = s = b = 0
pool = []
for f in files:
    L, c = candidates(f); pool += [(f, x) for x in c]
rng.shuffle(pool); seen = set()
for f, (i, kind, a, e, rep) in pool:
    if k + s >= N: break
    if (f, i) in seen: continue
    seen.add((f, i))
    src = open(REPO + "/" + f).read(); L = src.split("\n"); line = L[i]; ind = len(line) - len(line.lstrip()); t = line.strip()
    if kind == "op": new = t[:a] + rep + t[e:]
    elif kind == "del": new = ";"
    elif kind == "pydel": new = "pass"
    else: new = re.sub(r"if\s*\((.*)\)(\s*\{?)$", r"if(!(\1))\2", t)
    if new == t: continue
    L[i] = line[:ind] + new; open(REPO + "/" + f, "w").write("\n".join(L))
    try:
        if f.endswith(".py"):
            try: compile("\n".join(L), f, "exec")
            except SyntaxError: b += 1; continue
        if not build(): b += 1; continue
        h = search()
    finally: open(REPO + "/" + f, "w").write(src)
    if h: k += 1
    else: s += 1
    log.write("%s %s:%d: %s  =>  %s\n" % ("killed by " + h if h else "SURVIVED", f, i + 1, t[:110], new[:110])); log.flush()
print("%s: %d noticed, %d survived, %d did not build" % (P, k, s, b))

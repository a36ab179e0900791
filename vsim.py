#!/usr/bin/env python3
"""Driver of the amino deterministic simulation.

  vsim.py check PROP [quick|thorough]   build from /repo, search, gate, minimise, report
  vsim.py replay FILE                   rebuild and replay one recorded schedule
  vsim.py build [SUITE...]              build only
  vsim.py determinism [PROP...]         same seeds in fresh processes must give the same hashes
"""
import json, os, re, shutil, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VSIM_REPO", "/repo")
BUILD = os.environ.get("VSIM_BUILD", os.path.join(VERIF, "build"))
NW = int(os.environ.get("VSIM_WORKERS", "8"))
sys.path.insert(0, VERIF)
from props import PROPS, SUITES, COMPONENTS  # noqa: E402

# ------------------------------------------------------------------ build
INSTR = ("-g -O1 -fno-pie -fno-omit-frame-pointer -fsanitize=thread --param tsan-instrument-func-entry-exit=0 "
         "-fno-builtin-memcpy -fno-builtin-memset -fno-builtin-memmove -U_FORTIFY_SOURCE -w")
PLAIN = "-g -O1 -fno-pie -fno-omit-frame-pointer -U_FORTIFY_SOURCE -Wall -Wno-unused-function"


def am_sources(var):
    """The file list of an automake _SOURCES variable, all conditionals taken."""
    out, acc = [], None
    for line in open(os.path.join(REPO, "Makefile.am")):
        line = line.rstrip("\n")
        if acc is None:
            m = re.match(r"\s*%s\s*\+?=\s*(.*)$" % re.escape(var), line)
            if not m:
                continue
            acc = m.group(1)
        else:
            acc += " " + line
        if acc.rstrip().endswith("\\"):
            acc = acc.rstrip()[:-1]
            continue
        out += [t for t in acc.split("#")[0].split() if re.search(r"\.(c|cpp|f)$", t)]
        acc = None
    return out


def exists(p):
    return os.path.exists(os.path.join(REPO, p))


class Ninja:
    def __init__(self):
        self.lines, self.done = [], {}

    def rule(self, name, cmd, dep=True, restat=False):
        self.lines += ["rule %s" % name, "  command = %s" % cmd, "  description = %s $out" % name]
        if dep:
            self.lines += ["  depfile = $out.d", "  deps = gcc"]

    def build(self, out, rule, ins, implicit=(), **kw):
        if out in self.done:
            return out
        self.done[out] = 1
        self.lines.append("build %s: %s %s%s" % (out, rule, " ".join(ins), (" | " + " ".join(implicit)) if implicit else ""))
        for k, v in kw.items():
            self.lines.append("  %s = %s" % (k, v))
        return out


def objname(pfx, src):
    return pfx + "/" + re.sub(r"[^A-Za-z0-9_.]", "_", os.path.relpath(src, "/")) + ".o"


def gen_ninja(suites):
    n = Ninja()
    gen = os.path.join(VERIF, "gen")
    inc = ["-I%s" % BUILD + "/gen", "-I%s" % REPO, "-I%s/include" % REPO, "-I%s/src/mac" % REPO, "-I%s/src" % REPO, "-I%s/src/rx" % REPO]
    if not exists("config.h"):
        inc.append("-I%s" % gen)
    if not exists("include/amino/cblas_order.h"):
        os.makedirs(BUILD + "/fb/amino", exist_ok=True)
        shutil.copy(gen + "/cblas_order.h", BUILD + "/fb/amino/cblas_order.h")
        inc.append("-I%s/fb" % BUILD)
    I = " ".join(inc)
    n.rule("cc", "gcc -DHAVE_CONFIG_H %s %s $x -MMD -MF $out.d -c $in -o $out" % (I, INSTR))
    n.rule("cxx", "g++ -DHAVE_CONFIG_H %s %s $x -MMD -MF $out.d -c $in -o $out" % (I, INSTR))
    n.rule("scc", "gcc -Werror=implicit-function-declaration -DHAVE_CONFIG_H -I%s/sim -I%s/scen %s %s $x -MMD -MF $out.d -c $in -o $out" % (VERIF, VERIF, I, PLAIN))
    n.rule("scxx", "g++ -DHAVE_CONFIG_H -I%s/sim -I%s/scen %s %s $x -MMD -MF $out.d -c $in -o $out" % (VERIF, VERIF, I, PLAIN))
    n.rule("fpp", "gcc -E -P -I%s/include -I$incdir -x c $in -o $out" % REPO, dep=False)
    n.rule("fc", "gfortran -g -O1 -fsanitize=thread --param tsan-instrument-func-entry-exit=0 -fno-pie -fno-underscoring -ffree-line-length-none -fimplicit-none -J . -c $in -o $out".replace("-fno-underscoring ", ""), dep=False)
    n.rule("f77", "gfortran -g -O1 -fsanitize=thread --param tsan-instrument-func-entry-exit=0 -fno-pie -c $in -o $out", dep=False)
    n.rule("lex", "flex -t $in > $out", dep=False)
    ren = " ".join("--redefine-sym %s=__real_%s" % (f, f) for f in ("memcpy", "memmove", "memset", "vsnprintf", "snprintf"))
    n.rule("rt", "$cxx -O2 -g -fno-pie -fno-builtin-malloc -Wall -Wextra -MMD -MF $out.d -c $in -o $out.t && objcopy %s $out.t $out" % ren)
    wrap = "-Wl," + ",".join("--wrap=%s" % f for f in ("memcpy", "memmove", "memset", "vsnprintf", "snprintf", "exit"))
    n.rule("link", "g++ -no-pie -rdynamic -pthread %s -o $out $in $libs -lpthread -ldl -lm" % wrap, dep=False)

    n.build("obj/sim.o", "rt", [VERIF + "/sim/sim.c"], cxx="gcc")
    n.build("obj/simnew.o", "rt", [VERIF + "/sim/simnew.cpp"], cxx="g++")

    def lib(var, pfx, x=""):
        objs = []
        for s in am_sources(var):
            if s == "euler.c":
                continue
            p = os.path.join(REPO, s)
            if s.endswith(".f"):
                if not os.path.exists(p):
                    p = os.path.join(gen, os.path.basename(s))
                objs.append(n.build(objname(pfx, p), "f77", [p]))
                continue
            if not os.path.exists(p):
                continue
            objs.append(n.build(objname(pfx, p), "cxx" if s.endswith(".cpp") else "cc", [p], x=x))
        return objs

    # the dynamic loader is behind a seam: see sim_dl in sim.h
    core = lib("libamino_la_SOURCES", "core", " ".join("-D%s=sim_%s" % (f, f) for f in ("dlopen", "dlsym", "dlclose", "dlerror")))
    lsdir = REPO + "/src/mac" if exists("src/mac/aa_ls_se3.f90") else gen
    prev = []
    for src, out in (("src/mem_mod.F90", "mem_mod"), ("src/la_mod.F90", "la_mod"), ("src/tff.F90", "tf_mod")):
        f90 = n.build("gen/%s.f90" % out, "fpp", [os.path.join(REPO, src)], incdir=lsdir)
        o = n.build("core/%s.o" % out, "fc", [f90], implicit=list(prev))
        prev.append(o)
        core.append(o)
    for l in ("wavefront", "mtl"):
        c = n.build("gen/%s.c" % l, "lex", [REPO + "/src/wavefront/%s.l" % l])
        core.append(n.build("core/lex_%s.o" % l, "cc", [c]))
    sets = {"core": core}
    if "gl" in suites or "all" in suites:
        sets["gl"] = lib("libamino_gl_la_SOURCES", "gl", "-I/usr/include/SDL2 -D_REENTRANT")
    if "cl" in suites or "mp" in suites:
        sets["cl"] = lib("libamino_collision_la_SOURCES", "cl", "-std=c++11 -I/usr/include/eigen3")
    if "mp" in suites:
        sets["mp"] = lib("libamino_planning_la_SOURCES", "mp", "-std=c++14 -I/usr/include/ompl-1.5 -I/usr/include/eigen3")
    CORE_LIBS = "-lnlopt -lglpk -llpsolve55_pic -ldl -llapack -lblas -lcolamd -lClp -lCoinUtils -loctomap -loctomath -lgfortran -lm"
    LIBS = {"core": CORE_LIBS, "gl": "-lspnav " + CORE_LIBS,
            "cl": "-lfcl -lccd " + CORE_LIBS,
            "mp": "-lompl -lboost_serialization -lboost_filesystem -lboost_system -lode -lfcl -lccd " + CORE_LIBS}
    LIBS["gl"] = CORE_LIBS
    LIBS["cpp"] = CORE_LIBS
    if "py" in suites:
        gen_py(n, I, gen, lsdir)
    for s in suites:
        cfg = SUITES[s]
        if s == "py":
            continue
        objs = ["obj/sim.o", "obj/simnew.o"]
        for f in cfg["scen"]:
            p = os.path.join(VERIF, "scen", f)
            txt = open(p).read()
            m = re.search(r"SIM:FLAGS (.*?)\*?/?$", txt, re.M)
            x = m.group(1).replace("*/", "").strip() if m else ""
            if s == "gl":
                x += " -I/usr/include/SDL2 -D_REENTRANT"
            if s in ("cl", "mp"):
                x += " -I/usr/include/eigen3 -I/usr/include/ompl-1.5"
            instr = "SIM:TSAN" in txt
            rule = ("cxx" if instr else "scxx") if f.endswith(".cpp") else ("cc" if instr else "scc")
            if instr:
                x += " -I%s/sim -I%s/scen" % (VERIF, VERIF)
            objs.append(n.build(objname("scen_" + s, p), rule, [p], x=x))
        for l in cfg["libs"]:
            objs += sets[l]
        n.build("sim_" + s, "link", objs, libs=LIBS[s])
    os.makedirs(BUILD, exist_ok=True)
    txt = "\n".join(n.lines) + "\n"
    fn = os.path.join(BUILD, "build-%s.ninja" % "-".join(sorted(suites)))
    if not os.path.exists(fn) or open(fn).read() != txt:
        open(fn, "w").write(txt)
    return fn


def gen_py(n, I, gen, lsdir):
    """The shared libraries the Python bindings load, with an address checker, and the shim put before them."""
    A = "-g -O1 -fPIC -fno-omit-frame-pointer -fsanitize=address -U_FORTIFY_SOURCE -w"
    n.rule("pcc", "gcc -DHAVE_CONFIG_H %s %s $x -MMD -MF $out.d -c $in -o $out" % (I, A))
    n.rule("pcxx", "g++ -DHAVE_CONFIG_H %s %s $x -MMD -MF $out.d -c $in -o $out" % (I, A))
    n.rule("pfc", "gfortran -g -O1 -fPIC -ffree-line-length-none -fimplicit-none -J pyobj -c $in -o $out", dep=False)
    n.rule("pf77", "gfortran -g -O1 -fPIC -c $in -o $out", dep=False)
    wrap = "-Wl," + ",".join("--wrap=%s" % f for f in ("malloc", "calloc", "realloc", "posix_memalign", "strdup", "_Znwm", "_Znam"))
    n.rule("pso", "g++ -shared -fsanitize=address %s -o $out $in $libs -lpthread -ldl -lm" % wrap, dep=False)
    n.rule("pshim", "g++ -std=c++14 -O1 -g -fPIC -shared -w -I/usr/include/eigen3 -I/usr/include/ompl-1.5 -MMD -MF $out.d -o $out $in -lompl -lnlopt -ldl")
    n.rule("pwrap", "printf '#!/bin/sh\\nexec /usr/bin/python3 %s/pysim/runner.py --lib %s/py \"$$@\"\\n' > $out && chmod +x $out" % (VERIF, BUILD), dep=False)

    def lib(var, x=""):
        objs = []
        for s in am_sources(var):
            if s == "euler.c":
                continue
            p = os.path.join(REPO, s)
            if s.endswith(".f"):
                if not os.path.exists(p):
                    p = os.path.join(gen, os.path.basename(s))
                objs.append(n.build(objname("pyobj", p), "pf77", [p]))
            elif os.path.exists(p):
                objs.append(n.build(objname("pyobj", p), "pcxx" if s.endswith(".cpp") else "pcc", [p], x=x))
        return objs

    core = lib("libamino_la_SOURCES")
    prev = []
    for src, out in (("src/mem_mod.F90", "mem_mod"), ("src/la_mod.F90", "la_mod"), ("src/tff.F90", "tf_mod")):
        f90 = n.build("gen/%s.f90" % out, "fpp", [os.path.join(REPO, src)], incdir=lsdir)
        prev.append(n.build("pyobj/%s.o" % out, "pfc", [f90], implicit=list(prev)))
    core += prev
    for l in ("wavefront", "mtl"):
        c = n.build("gen/%s.c" % l, "lex", [REPO + "/src/wavefront/%s.l" % l])
        core.append(n.build("pyobj/lex_%s.o" % l, "pcc", [c]))
    base = "-lnlopt -lglpk -llpsolve55_pic -ldl -llapack -lblas -lcolamd -lClp -lCoinUtils -loctomap -loctomath -lgfortran -lm"
    a = n.build("py/libamino.so", "pso", core, libs=base)
    c = n.build("py/libamino-collision.so", "pso", lib("libamino_collision_la_SOURCES", "-std=c++11 -I/usr/include/eigen3"), implicit=[a], libs="-Lpy -lamino -lfcl -lccd")
    m = n.build("py/libamino-planning.so", "pso", lib("libamino_planning_la_SOURCES", "-std=c++14 -I/usr/include/ompl-1.5 -I/usr/include/eigen3"), implicit=[a, c],
                libs="-Lpy -lamino -lamino-collision -lompl -lboost_serialization -lboost_filesystem -lboost_system -lode -lfcl -lccd")
    g = n.build("py/libpyshim.so", "pshim", [VERIF + "/pysim/shim.cpp"])
    pl = n.build("pyobj/plug.o", "pcc", [VERIF + "/pysim/plug.c"])
    k = n.build("py/libpyplug.so", "pso", [pl], implicit=[a], libs="-Lpy -lamino")
    n.build("sim_py", "pwrap", [], implicit=[a, c, m, g, k])


def build(suites):
    fn = gen_ninja(list(suites))
    for d in ("obj", "gen", "pyobj", "py"):
        os.makedirs(os.path.join(BUILD, d), exist_ok=True)
    r = subprocess.run(["ninja", "-f", fn, "-j", str(NW)] + ["sim_" + s for s in suites], cwd=BUILD,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stdout.write(r.stdout[-6000:])
        print("BUILD-FAILED (no verdict)")
        sys.exit(2)


# ------------------------------------------------------------------ replay / minimise
STREAMS = ("cfg", "op", "sched", "fault")


def slim(rep, st):
    return {"property": rep["property"], "scenario": rep["scenario"], **{s: st[s] for s in STREAMS}}


class Server:
    def __init__(self, binary, tmp):
        self.p = subprocess.Popen([binary, "--serve"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        self.f = os.path.join(tmp, "cand-%d.json" % id(self))
        self.n = 0

    def run(self, rep):
        with open(self.f, "w") as f:
            json.dump(rep, f, separators=(",", ":"))
        self.p.stdin.write(self.f + "\n")
        self.p.stdin.flush()
        self.n += 1
        line = self.p.stdout.readline()
        return json.loads(line, strict=False) if line else None

    def close(self):
        self.p.stdin.close()
        self.p.wait()


def trim(v):
    v = list(v)
    while v and v[-1] == 0:
        v.pop()
    return v


def minimise(binary, rep, tmp, budget=25.0, evals=500):
    """Smaller choice streams with the same violation class.  Returns (best result, evaluations)."""
    srv = Server(binary, tmp)
    t0 = time.time()
    best = {s: trim(rep[s]) for s in STREAMS}
    cls = rep["class"]
    last = srv.run(slim(rep, best))
    if not last or last["status"] != 2 or last["class"] != cls:
        srv.close()
        return None, 1

    def ok():
        return time.time() - t0 < budget and srv.n < evals

    def attempt(st):
        nonlocal best, last
        r = srv.run(slim(rep, st))
        if r and r["status"] == 2 and r["class"] == cls:
            # the run's own record is canonical (unused tail dropped)
            best = {s: trim(r[s]) for s in STREAMS}
            last = r
            return True
        return False

    progress = True
    while progress and ok():
        progress = False
        size0 = sum(len(best[s]) + sum(1 for v in best[s] if v) for s in STREAMS)
        for s in ("fault", "sched", "op", "cfg"):
            if ok() and best[s]:
                st = dict(best); st[s] = []
                attempt(st)
            # cut tails
            k = len(best[s]) // 2
            while k >= 1 and ok():
                st = dict(best); st[s] = best[s][:len(best[s]) - k]
                if not best[s] or not attempt(st):
                    k //= 2
            # delete / zero blocks
            k = max(1, len(best[s]) // 2)
            while k >= 1 and ok():
                i = 0
                while i < len(best[s]) and ok():
                    cur = best[s]
                    st = dict(best); st[s] = cur[:i] + cur[i + k:]
                    if s == "op" and attempt(st):
                        continue
                    if any(cur[i:i + k]):
                        st = dict(best); st[s] = cur[:i] + [0] * len(cur[i:i + k]) + cur[i + k:]
                        attempt(st)
                    i += k
                k //= 2
            if s in ("op", "cfg"):
                i = 0
                while i < len(best[s]) and ok():
                    v = best[s][i]
                    for nv in (1, v // 2, v - 1):
                        if 0 < nv < v and ok() and i < len(best[s]):
                            st = dict(best); st[s] = best[s][:i] + [nv] + best[s][i + 1:]
                            if attempt(st):
                                break
                    i += 1
        size1 = sum(len(best[s]) + sum(1 for v in best[s] if v) for s in STREAMS)
        progress = size1 < size0
    srv.close()
    return last, srv.n


def symbolise(binary, msg):
    pcs = re.findall(r"pc=0x([0-9a-f]+)", msg)
    if not pcs:
        return msg
    out = []
    for pc in pcs:
        r = subprocess.run(["addr2line", "-fCpe", binary, hex(int(pc, 16) - 1)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        out.append(r.stdout.strip())
    return msg + " {" + "; ".join(out) + "}"


def replay_once(binary, path):
    r = subprocess.run([binary, "--replay", path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    try:
        return json.loads(r.stdout.strip().splitlines()[-1], strict=False)
    except Exception:
        return None


# ------------------------------------------------------------------ known findings
def known_findings():
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) scenario=(\S+) class=(\S+) match=/(.*)/ (.*)$", line.strip())
            if m:
                out.append(dict(property=m.group(1), scenario=m.group(2), cls=m.group(3), rx=re.compile(m.group(4)), what=m.group(5)))
    return out


def is_known(kf, prop, rep, symmsg):
    for k in kf:
        if k["property"] == prop and k["scenario"] in ("*", rep["scenario"]) and k["cls"] == rep["class"] and k["rx"].search(symmsg):
            return k
    return None


# ------------------------------------------------------------------ check
def read_hist(path, hs):
    try:
        with open(path, "rb") as f:
            a, b, c = struct.unpack("<3Q", f.read(24))
            for i, n in enumerate((a, b, c)):
                hs[i].update(struct.unpack("<%dQ" % n, f.read(8 * n)))
    except OSError:
        pass


def check(prop, tier):
    t00 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    P = PROPS[prop]
    suites = P["suites"]
    build(suites)
    t_build = time.time() - t00
    tmp = tempfile.mkdtemp(prefix="vsim-%s-" % prop)
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tot = dict(runs=0, steps=0, switches=0, allocs=0, sim_ns=0, mt_runs=0, fault_free_runs=0, max_threads=0)
    faults, probes, scens = {}, {}, {}
    hs = [set(), set(), set()]
    viols, sdet, samples = [], {}, []
    wall_search = 0.0
    per_suite = []
    for si, suite in enumerate(suites):
        binary = os.path.join(BUILD, "sim_" + suite)
        runs = P[tier][si]
        cap = P.get("cap", {}).get(tier, 240 if tier == "quick" else 700) / len(suites)
        ts = time.time()
        procs = []
        for w in range(NW):
            procs.append(subprocess.Popen([binary, "--prop", prop, "--seed", str(seed), "--from", str(w), "--to", str(runs), "--stride", str(NW),
                                           "--max-seconds", str(cap), "--out", tmp], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True))
        outs = [p.communicate()[0] for p in procs]
        wall_search += time.time() - ts
        rs = 0
        for w, o in enumerate(outs):
            got = False
            for line in o.splitlines():
                if line.startswith("V "):
                    _, idx, scen, cls, path = line.split()
                    viols.append((suite, int(idx), scen, cls, path))
                elif line.startswith("D "):
                    _, idx, same = line.split()
                    sdet[(suite, int(idx))] = same == "1"
                elif line.startswith("S "):
                    got = True
                    s = json.loads(line[2:])
                    for k in tot:
                        if k == "max_threads":
                            tot[k] = max(tot[k], s[k])
                        else:
                            tot[k] += s[k]
                    rs += s["runs"]
                    for d, src in ((faults, s["faults"]), (probes, s["probes"])):
                        for k, v in src.items():
                            a = d.setdefault(k, [0, 0])
                            a[0] += v[0]; a[1] += v[1]
                    for k, v in s["scenarios"].items():
                        scens[k] = scens.get(k, 0) + v
                    read_hist(s["hist"], hs)
            if not got:
                print("worker %d of %s ended without a summary" % (w, suite))
                shutil.rmtree(tmp)
                sys.exit(2)
        per_suite.append((suite, rs, runs))
        for i in range(0, min(runs, 40)):
            if len(samples) >= 3 * (si + 1):
                break
            d = os.path.join(tmp, "sample.json")
            subprocess.run([binary, "--prop", prop, "--seed", str(seed), "--from", str(i), "--to", str(i + 1), "--dump", d, "--out", tmp],
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            try:
                j = json.load(open(d), strict=False)
            except Exception:
                continue
            if j["scenario"] in [x["scenario"] for x in samples] and i < 30:
                continue
            samples.append({"scenario": j["scenario"], "run_seed": j["run_seed"], "steps": j["steps"], "switches": j["switches"], "hash": j["hash"],
                            "trace": j["trace"].splitlines()[:14]})
    # ---- gate, classify and minimise
    kf = known_findings()
    reported, known_seen, discarded = [], {}, 0
    viols.sort()
    seen_cls = set()
    for suite, idx, scen, cls, path in viols:
        binary = os.path.join(BUILD, "sim_" + suite)
        rep = json.load(open(path), strict=False)
        k = is_known(kf, prop, rep, symbolise(binary, rep["message"]))
        if k:
            known_seen.setdefault(k["what"], 0)
            known_seen[k["what"]] += 1
            continue
        again = replay_once(binary, path)
        if not (again and again["status"] == 2 and again["class"] == rep["class"] and again["hash"] == rep["hash"]):
            discarded += 1
            print("note: run %d of %s/%s did not replay exactly (%s); not reported" % (idx, prop, scen, cls))
            continue
        if (scen, cls) in seen_cls or len(reported) >= 3:
            continue
        seen_cls.add((scen, cls))
        mini, ne = minimise(binary, rep, tmp)
        out = mini or rep
        out["property"], out["scenario"] = prop, scen
        out["suite"], out["verif_seed"], out["found_at_run"], out["minimiser_evaluations"] = suite, seed, idx, ne
        dst = os.path.join(rdir, "%s-%s-s%d-r%d.json" % (prop, scen, seed, idx))
        with open(dst, "w") as f:
            json.dump(out, f, separators=(",", ":"))
        fin = replay_once(binary, dst)
        if not (fin and fin["status"] == 2 and fin["hash"] == out["hash"]):
            shutil.copy(path, dst)
            d = json.load(open(dst), strict=False); d["suite"] = suite
            json.dump(d, open(dst, "w"), separators=(",", ":"))
            out = rep
        reported.append((scen, out, dst, symbolise(binary, out["message"])))
    for what, c in known_seen.items():
        print("KNOWN-FINDING: property=%s %s (%d runs)" % (prop, what, c))
    for scen, out, dst, msg in reported:
        print("violation in scenario %s: [%s] %s" % (scen, out["class"], msg))
        tr = out.get("trace", "").splitlines()
        for l in tr[-25:]:
            print("    " + l)
        print("VIOLATION property=%s replay=%s" % (prop, dst))
    wall = time.time() - t00
    fired = {k: {"injected": v[0], "runs": v[1]} for k, v in sorted(faults.items())}
    never = [p for p in P.get("must_probe", []) if p not in probes]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": P["level"],
        "coverage": {
            "evaluations": tot["runs"], "distinct_nontrivial": len(hs[0]),
            "rule": "one evaluation = one complete simulated run; two runs are distinct when their recorded histories (workload, results, faults, outcome) hash differently",
            "samples": samples,
            "runs_per_hour": int(tot["runs"] / max(wall_search, 1e-3) * 3600),
            "seeds": "one run = one seed derived from (VERIF_SEED, property, run index)",
            "simulated_time_s": round(tot["sim_ns"] * 1e-9, 6), "scheduler_steps": tot["steps"], "context_switches": tot["switches"],
            "runs_with_thread_interleaving": tot["mt_runs"], "max_threads": tot["max_threads"],
            "distinct_interleavings": len(hs[1]), "interleaving_measure": "hash of the sequence (thread, sync operation kind, object, program counter of preemption) of a run",
            "distinct_states": len(hs[2]), "state_measure": P.get("state_measure", "hash of the reference model's abstract state after each operation"),
            "faults_injected": fired, "fault_free_runs": tot["fault_free_runs"],
            "probes": {k: v[1] for k, v in sorted(probes.items())}, "probes_never_hit": never,
            "scenarios": scens, "per_suite": [{"suite": a, "runs": b, "planned": c} for a, b, c in per_suite],
            "real_components": COMPONENTS[suites[-1]]["real"], "stubbed_components": COMPONENTS[suites[-1]]["stub"],
            "allocations_checked": tot["allocs"], "unreplayable_discarded": discarded,
            "build_s": round(t_build, 1), "search_s": round(wall_search, 1),
        },
        "wall_s": round(wall, 2),
        "assumptions": P.get("assumptions", []) + ["the simulator preempts at instrumented memory accesses, synchronisation calls and I/O of amino's own code; closed libraries (LAPACK, FCL, OMPL, NLopt, LP solvers) run uninstrumented between those points",
                                                   "memory is sequentially consistent in the simulation; weaker orders are covered by the happens-before race oracle"],
        "violations": len(reported),
    }
    if reported:
        ev["coverage"]["violation_details"] = [{"class": o["class"], "message": m, "replay": d, "scenario": s} for s, o, d, m in reported]
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    shutil.rmtree(tmp)
    print("%s %s: %d runs, %d distinct histories, %d interleavings, faults %s, build %.1fs search %.1fs, violations %d" %
          (prop, tier, tot["runs"], len(hs[0]), len(hs[1]), {k: v[0] for k, v in faults.items()}, t_build, wall_search, len(reported)))
    if never:
        print("note: probes never hit: %s" % never)
    sys.exit(1 if reported else 0)


def determinism(props):
    bad = 0
    for prop in props or sorted(PROPS):
        suites = PROPS[prop]["suites"]
        build(suites)
        for suite in suites:
            b = os.path.join(BUILD, "sim_" + suite)
            def hashes(stride):
                h = {}
                ps = [subprocess.Popen([b, "--prop", prop, "--seed", "7", "--from", str(w), "--to", "160", "--stride", str(stride), "--hashes", "--out", "/tmp"],
                                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True) for w in range(stride)]
                for p in ps:
                    for l in p.communicate()[0].splitlines():
                        if l.startswith("H "):
                            _, i, st, hh, il = l.split()
                            h[int(i)] = (st, hh, il)
                for w in range(stride):
                    try:
                        os.unlink("/tmp/hist-%s-%d.bin" % (prop, w))
                    except OSError:
                        pass
                return h
            a, c = hashes(1), hashes(8)
            diff = [i for i in a if a[i] != c.get(i)]
            print("%s %s: %d runs, 1 process vs 8 processes: %d differ %s" % (prop, suite, len(a), len(diff), diff[:5]))
            bad += len(diff)
    sys.exit(1 if bad else 0)


def gen_files():
    """Write properties.jsonl and MANIFEST.json from props.py."""
    import props
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for pid in sorted(props.TEXT):
            t = props.TEXT[pid]
            f.write(json.dumps({"id": pid, "title": t["title"], "statement": t["statement"],
                                "quantifier": {"over": t["over"], "text": t["qtext"]}, "why_tests_cant": t["why"],
                                "anchors": {"files": t["files"], "mechanism": [{"name": a, "where": b} for a, b in t["mech"]],
                                            "observe_at": t.get("observe", []), "hook_needed": None}}) + "\n")
    checks = []
    for pid in sorted(props.PROPS):
        t = props.TEXT[pid]
        checks.append({"property": pid, "quick_cmd": "python3 vsim.py check %s quick" % pid, "thorough_cmd": "python3 vsim.py check %s thorough" % pid,
                       "technique": "deterministic simulation with fault injection: " + t["technique"], "level": "exploration", "level_note": t["note"]})
    na = [{"property": pid, "reason": props.TEXT[pid]["na"]} for pid in sorted(props.TEXT) if pid not in props.PROPS]
    m = {"version": 1, "setup_cmd": "python3 vsim.py build", "hooks": {"guard": "none (no hooks in /repo were needed)", "enable": "the checks compile /repo's sources with compiler instrumentation and interpose libc, pthread, SDL and GL at link time", "source_commits": []},
         "checks": checks, "not_applicable": na}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__); sys.exit(2)
    if a[0] == "check":
        check(a[1], a[2] if len(a) > 2 else os.environ.get("VERIF_TIER", "quick"))
    elif a[0] == "build":
        build(a[1:] or sorted(SUITES))
    elif a[0] == "gen":
        gen_files()
    elif a[0] == "determinism":
        determinism(a[1:])
    elif a[0] == "replay":
        rep = json.load(open(a[1]), strict=False)
        suite = rep.get("suite") or PROPS[rep["property"]]["suites"][0]
        build([suite])
        b = os.path.join(BUILD, "sim_" + suite)
        r = replay_once(b, a[1])
        same = r["status"] == 2 and r["class"] == rep["class"] and r["hash"] == rep["hash"]
        print(r.get("trace", ""))
        print("[%s] %s" % (r["class"], symbolise(b, r["message"])))
        print("exact reproduction" if same else "did not reproduce exactly")
        sys.exit(1 if r["status"] == 2 else 0)


if __name__ == "__main__":
    main()

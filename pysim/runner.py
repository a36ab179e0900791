#!/usr/bin/python3
"""Runs simulated histories of the Python bindings.  Same command line and records as the sim_* binaries.

The parent process starts a child in which amino's libraries are built with an address checker and every clock, random seed,
release of a reference, garbage collection and interrupt is decided by the run's seed; a child that dies is a violation of its run."""
import hashlib, json, mmap, os, re, select, struct, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VSIM_REPO", "/repo")
STREAMS = ("cfg", "op", "sched", "fault")
MAXCH, LOGSZ = 4096, 1 << 18
HDR = 64                      # run index, chosen counts, log length
OFF = {s: HDR + i * MAXCH * 4 for i, s in enumerate(STREAMS)}
LOGOFF = HDR + 4 * MAXCH * 4
TOTAL = LOGOFF + LOGSZ


def run_seed(seed, prop, i):
    return int.from_bytes(hashlib.sha256(("%d/%s/%d" % (seed, prop, i)).encode()).digest()[:8], "little")


class Record:
    """What a run has chosen and seen so far; lives in a shared mapping so that it survives the child."""
    def __init__(self, fd):
        self.m = mmap.mmap(fd, TOTAL)
        self.clear(0)

    def clear(self, idx):
        self.m[:HDR] = struct.pack("<Q5I", idx, 0, 0, 0, 0, 0).ljust(HDR, b"\0")
        self.n = [0, 0, 0, 0]
        self.nlog = 0

    def choose(self, k, v):
        n = self.n[k]
        if n < MAXCH:
            struct.pack_into("<I", self.m, HDR + k * MAXCH * 4 + n * 4, v)
        self.n[k] = n + 1
        struct.pack_into("<I", self.m, 8 + 4 * k, n + 1)

    def log(self, s):
        b = (s + "\n").encode("utf-8", "replace")
        n = self.nlog
        if n + len(b) <= LOGSZ:
            self.m[LOGOFF + n:LOGOFF + n + len(b)] = b
            self.nlog = n + len(b)
            struct.pack_into("<I", self.m, 24, self.nlog)

    def load(self):
        h = struct.unpack_from("<Q5I", self.m, 0)
        st = {}
        for i, s in enumerate(STREAMS):
            n = min(h[1 + i], MAXCH)
            v = list(struct.unpack_from("<%dI" % n, self.m, OFF[s]))
            while v and v[-1] == 0:
                v.pop()
            st[s] = v
        return h[0], st, bytes(self.m[LOGOFF:LOGOFF + h[5]]).decode("utf-8", "replace")


def digest(log, status, cls, msg):
    return hashlib.md5(("%s|%d|%s|%s" % (log, status, cls, msg)).encode()).hexdigest()[:16]


# ------------------------------------------------------------------ parent
class Child:
    def __init__(self, lib, prop):
        self.tmp = tempfile.TemporaryFile()
        self.tmp.truncate(TOTAL)
        self.rec = Record(self.tmp.fileno())
        self.err = tempfile.TemporaryFile()
        asan = subprocess.run(["gcc", "-print-file-name=libasan.so"], stdout=subprocess.PIPE, text=True).stdout.strip()
        env = {k: v for k, v in os.environ.items() if not k.startswith(("LD_", "PYTHON", "ASAN"))}
        env.update(LD_PRELOAD="%s %s/libpyshim.so" % (os.path.realpath(asan), lib), LD_LIBRARY_PATH=lib, PYTHONPATH=REPO + "/python", PYTHONMALLOC="malloc",
                   PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", LC_ALL="C.UTF-8", SDL_VIDEODRIVER="dummy",
                   ASAN_OPTIONS="detect_leaks=0:detect_odr_violation=0:halt_on_error=1:exitcode=99:free_fill_byte=213:max_free_fill_size=1048576:quarantine_size_mb=64:detect_stack_use_after_return=0:allocator_may_return_null=0")
        self.p = subprocess.Popen(["/usr/bin/python3", os.path.join(HERE, "child.py"), str(self.tmp.fileno()), prop], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=self.err, env=env, text=True, pass_fds=(self.tmp.fileno(),))

    def run(self, idx, seed, scen, streams=None):
        """One run; the result record."""
        try:
            self.p.stdin.write(json.dumps({"idx": idx, "seed": seed, "scenario": scen, "streams": streams}) + "\n")
            self.p.stdin.flush()
            ok = select.select([self.p.stdout], [], [], 60)[0]
            line = self.p.stdout.readline() if ok else ""
            hang = not ok
        except BrokenPipeError:
            line, hang = "", False
        if line:
            return json.loads(line)
        self.p.kill() if hang else None
        self.p.wait()
        _, st, log = self.rec.load()
        self.err.seek(0)
        e = self.err.read().decode("utf-8", "replace")
        if hang:
            cls, msg = "hang", "the run does not end"
        else:
            m = re.search(r"ERROR: AddressSanitizer: (\S+)", e)
            if m:
                fr = [f for f in re.findall(r"#\d+ 0x[0-9a-f]+ in (\S+) ", e.split("freed by")[0]) if f.startswith("aa_")]
                cls, msg = "memory", "%s in %s" % (m.group(1), fr[0] if fr else "the interpreter, at memory the bindings pointed it to")
            else:
                last = [l for l in e.strip().splitlines() if l.strip()][-1:] or [""]
                cls, msg = "died", "the interpreter ended with code %d: %s" % (self.p.returncode, re.sub(r"0x[0-9a-f]+", "0x", last[0])[:200])
        m = re.match(r"# (\S+) (\S+)", log)
        return dict(idx=idx, dead=1, status=2, cls=cls, msg=msg, log=log, st=st, hash=digest(log, 2, cls, msg), ilv="0" * 16, steps=log.count("\n"), switches=0, allocs=0, sim_ns=0,
                    faults={}, probes={}, states=[], scenario=m.group(2) if m else (scen or "?"))

    def close(self):
        if self.p.poll() is None:
            self.p.stdin.close()
            try:
                self.p.wait(20)
            except subprocess.TimeoutExpired:
                self.p.kill()
        self.p.wait()
        self.p.stdout.close()
        self.err.close()
        self.rec.m.close()
        self.tmp.close()


def main():
    a = sys.argv[1:]
    o = dict(lib="", prop=None, seed=1, frm=0, to=1, stride=1, maxs=1e9, replay=None, out=".", dump=None, hashes=0, serve=0, maxviol=3, only=None, v=0)
    i = 0
    while i < len(a):
        k = a[i]
        if k in ("--hashes", "--serve", "-v"):
            o[k.strip("-")] = 1
            i += 1
            continue
        v = a[i + 1]
        i += 2
        nm = {"--from": "frm", "--max-seconds": "maxs", "--max-viol": "maxviol", "--scenario": "only"}.get(k, k[2:])
        o[nm] = float(v) if nm == "maxs" else int(v) if nm in ("seed", "frm", "to", "stride", "maxviol") else v
    child = None

    def go(prop, idx, seed, scen=None, streams=None):
        nonlocal child
        if child is None or child.p.poll() is not None:
            if child:
                child.close()
            child = Child(o["lib"], prop)
        r = child.run(idx, seed, scen, streams)
        if r.get("dead"):
            child.close()
            child = None
        return r

    def full(prop, r, seed, idx):
        return dict(property=prop, scenario=r["scenario"], run_seed=str(seed), run=idx, status=r["status"], **{"class": r["cls"]}, message=r["msg"], hash=r["hash"], interleaving=r["ilv"],
                    steps=r["steps"], switches=r["switches"], threads=1, overflow=0, trace=r["log"], **r["st"])

    if o["serve"]:
        for line in sys.stdin:
            rep = json.load(open(line.strip()), strict=False)
            r = go(rep["property"], 0, 0, rep["scenario"], {s: rep[s] for s in STREAMS})
            print(json.dumps(full(rep["property"], r, 0, 0)), flush=True)
        if child:
            child.close()
        return 0
    if o["replay"]:
        rep = json.load(open(o["replay"]), strict=False)
        r = go(rep["property"], 0, 0, rep["scenario"], {s: rep[s] for s in STREAMS})
        if o["v"]:
            print(r["log"])
        print(json.dumps(full(rep["property"], r, 0, 0)))
        if child:
            child.close()
        return 1 if r["status"] == 2 else 0
    prop = o["prop"]
    t0 = time.time()
    T = dict(runs=0, violations=0, steps=0, switches=0, allocs=0, sim_ns=0, max_threads=1, mt_runs=0, fault_free_runs=0)
    F, P, S, H, I, ST = {}, {}, {}, [], [], set()
    for idx in range(o["frm"], o["to"], o["stride"]):
        if time.time() - t0 > o["maxs"]:
            break
        sd = run_seed(o["seed"], prop, idx)
        r = go(prop, idx, sd, o["only"])
        T["runs"] += 1
        for k in ("steps", "switches", "allocs", "sim_ns"):
            T[k] += r[k]
        for d, src in ((F, r["faults"]), (P, r["probes"])):
            for k, v in src.items():
                c = d.setdefault(k, [0, 0])
                c[0] += v
                c[1] += 1
        if not r["faults"]:
            T["fault_free_runs"] += 1
        S[r["scenario"]] = S.get(r["scenario"], 0) + 1
        H.append(int(r["hash"], 16))
        I.append(int(r["ilv"], 16))
        ST.update(r["states"])
        if o["dump"]:
            json.dump(full(prop, r, sd, idx), open(o["dump"], "w"))
        if o["hashes"]:
            print("H %d %d %s %s" % (idx, r["status"], r["hash"], r["ilv"]))
        if r["status"] == 2:
            path = "%s/viol-%s-%d.json" % (o["out"], prop, idx)
            json.dump(full(prop, r, sd, idx), open(path, "w"))
            print("V %d %s %s %s" % (idx, r["scenario"], r["cls"], path), flush=True)
            T["violations"] += 1
            if child:
                child.close()
                child = None
            r2 = go(prop, idx, sd, o["only"])
            print("D %d %d" % (idx, r2["hash"] == r["hash"]), flush=True)
            if T["violations"] >= o["maxviol"]:
                break
    if child:
        child.close()
    path = "%s/hist-%s-%d.bin" % (o["out"], prop, o["frm"])
    with open(path, "wb") as f:
        f.write(struct.pack("<3Q", len(H), len(I), len(ST)))
        for l in (sorted(H), sorted(I), sorted(ST)):
            f.write(struct.pack("<%dQ" % len(l), *l))
    print("S " + json.dumps(dict(T, wall=round(time.time() - t0, 3), faults=F, probes=P, scenarios=S, hist=path)))
    return 1 if T["violations"] else 0


if __name__ == "__main__":
    sys.exit(main())

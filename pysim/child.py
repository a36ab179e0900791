"""The simulated side: one run per line on stdin, inside the interpreter with the instrumented libraries."""
import ctypes, gc, hashlib, json, os, random, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import runner
from runner import Record, STREAMS, digest

OUT = os.dup(1)
os.dup2(2, 1)          # nothing the library prints gets between the records
SHIM = ctypes.CDLL(None)
SHIM.pysim_total.restype = ctypes.c_ulonglong
SHIM.pysim_live_new.restype = ctypes.c_longlong
SHIM.pysim_elapsed.restype = ctypes.c_longlong
SHIM.pysim_reset.argtypes = [ctypes.c_uint, ctypes.c_longlong]
SHIM.pysim_jump.argtypes = [ctypes.c_longlong]
SHIM.pysim_init()
import types                                       # noqa: E402
sys.modules["amino.scenewin"] = types.ModuleType("amino.scenewin")      # no windows here
sys.modules["amino.scenewin"].SceneWin = type("SceneWin", (), {})
import amino                                       # noqa: E402
import amino.lib                                   # noqa: E402
PKG = os.path.dirname(os.path.abspath(amino.__file__))


class Violation(Exception):
    def __init__(self, cls, msg):
        super().__init__(msg)
        self.cls, self.msg = cls, msg


class Interrupt(BaseException):
    """An asynchronous exception, as a signal handler would raise it."""


class Sim:
    def __init__(self, rec, prop):
        self.rec, self.prop = rec, prop
        self.ks = {s: i for i, s in enumerate(STREAMS)}
        self.unraisable = []
        sys.unraisablehook = lambda u: self.unraisable.append("%s in %s" % (type(u.exc_value).__name__, getattr(u.object, "__qualname__", u.object)))

    def begin(self, idx, seed, streams):
        self.rec.clear(idx)
        self.streams = streams
        self.pos = {s: 0 for s in STREAMS}
        self.rng = {s: random.Random("%d/%s" % (seed, s)) for s in STREAMS}
        self.faults, self.probes, self.states, self.steps, self.ilv = {}, {}, set(), 0, hashlib.md5()
        self.leaky = False
        self.unraisable.clear()
        SHIM.pysim_reset(self.draw("cfg", 1 << 16), 5000 + 5000 * self.draw("sched", 8))

    def draw(self, s, n):
        if n <= 1:
            return 0
        if self.streams is not None:
            i = self.pos[s]
            self.pos[s] = i + 1
            l = self.streams[s]
            v = l[i] % n if i < len(l) else 0
        else:
            v = int(self.rng[s].random() * n)
        self.rec.choose(self.ks[s], v)
        return v

    def op(self, n): return self.draw("op", n)
    def cfg(self, n): return self.draw("cfg", n)

    def pick(self, l): return l[self.draw("op", len(l))]

    def num(self):
        """A number; small whole numbers first."""
        v = self.draw("op", 4096)
        k = v & 3
        v >>= 2
        if k == 0:
            return float(v % 5 - 2) if v % 5 else 0.0
        if k == 1:
            return (v - 512) / 64.0
        if k == 2:
            return (v - 511.5) * 1.7e-3
        return (v - 511.3) * 0.37

    def log(self, s): self.rec.log(s)

    def fault(self, k):
        self.faults[k] = self.faults.get(k, 0) + 1
        self.ilv.update(("f%s%d" % (k, self.steps)).encode())

    def probe(self, k): self.probes[k] = self.probes.get(k, 0) + 1
    def state(self, t): self.states.add(int.from_bytes(hashlib.md5(repr(t).encode()).digest()[:8], "little"))

    def step(self, name):
        self.steps += 1
        self.ilv.update(name.encode())

    def fail(self, cls, msg): raise Violation(cls, msg)

    def check(self, ok, cls, msg):
        if not ok:
            raise Violation(cls, msg() if callable(msg) else msg)

    def interrupted(self, fn, allow=True):
        """Calls fn, perhaps with an exception injected at one of the lines of the package it runs through.  (done, value)"""
        if not allow or self.draw("fault", 24) != 23:
            return True, fn()
        n = [1 + self.draw("fault", 12)]

        def tr(frame, ev, arg):
            c = frame.f_code
            if not c.co_filename.startswith(PKG) or c.co_name == "__del__":
                return None
            if ev == "line":
                n[0] -= 1
                if n[0] == 0:
                    sys.settrace(None)
                    raise Interrupt()
            return tr
        sys.settrace(tr)
        try:
            v = fn()
            sys.settrace(None)
            return True, v
        except Interrupt:
            self.fault("interrupt")
            self.leaky = True
            self.log("  ! interrupted")
            return False, None
        finally:
            sys.settrace(None)

    def release(self, o):
        """Lets go of an object: at once, or with the cycle it is in when the collector next runs."""
        if self.draw("fault", 4) == 3:
            c = [o]
            c.append(c)
            self.fault("cyclic garbage")
            del c
        del o

    def maybe_gc(self):
        if self.draw("fault", 6) == 5:
            self.fault("collection")
            gc.collect()


def main():
    rec, prop = Record(int(sys.argv[1])), sys.argv[2]
    import scen_num, scen_scene
    table = {"P29": [("vectors", scen_num.vectors, 3), ("motions", scen_num.motions, 3)], "P30": [("scenes", scen_scene.scenes, 1)]}[prop]
    sim = Sim(rec, prop)
    gc.disable()
    gc.freeze()
    region_destroy = amino.lib.libamino.aa_mem_region_local_destroy
    for line in sys.stdin:
        q = json.loads(line)
        names = [t for t in table if t[0] == q["scenario"]]
        if names:
            t = names[0]
        else:
            w = random.Random("%d/which" % q["seed"]).randrange(sum(x[2] for x in table))
            for t in table:
                if w < t[2]:
                    break
                w -= t[2]
        gc.collect()
        SHIM.pysim_flush()
        region_destroy()
        SHIM.pysim_begin()
        sim.begin(q["idx"], q["seed"], q["streams"])
        sim.log("# %s %s" % (prop, t[0]))
        status, cls, msg = 0, "", ""
        try:
            t[1](sim)
        except Violation as v:
            status, cls, msg = 2, v.cls, v.msg
        except Exception as e:       # an exception the scenario did not expect
            tb = [f for f in traceback.extract_tb(e.__traceback__)]
            w = tb[-1]
            inpkg = any(f.filename.startswith(PKG) for f in tb)
            if not inpkg:
                traceback.print_exc()
                os._exit(7)
            status, cls, msg = 2, "exception", "%s: %s in %s" % (type(e).__name__, str(e)[:160], w.name)
            del e, tb
        elapsed, total = SHIM.pysim_elapsed(), SHIM.pysim_total()
        if status == 0:
            gc.collect()
            SHIM.pysim_flush()
            region_destroy()
            if sim.unraisable and not sim.leaky:
                status, cls, msg = 2, "release", "an exception while an object was released: " + sim.unraisable[0]
            elif SHIM.pysim_live_new() and not sim.leaky:
                b = ctypes.create_string_buffer(1 << 16)
                n = SHIM.pysim_leaks(b, len(b))
                by = {}
                for l in b.value.decode().splitlines():
                    nm = l.rsplit(":", 1)[0]
                    by[nm] = by.get(nm, 0) + 1
                status, cls, msg = 2, "leak", "%d blocks were never given back: %s" % (n, ", ".join("%s x%d" % kv for kv in sorted(by.items())))
        _, st, log = rec.load()
        r = dict(idx=q["idx"], status=status, cls=cls, msg=msg, hash=digest(log, status, cls, msg), ilv=sim.ilv.hexdigest()[:16], steps=sim.steps, switches=0, allocs=total, sim_ns=elapsed,
                 faults=sim.faults, probes=sim.probes, states=list(sim.states), scenario=t[0])
        if status == 2 or q["idx"] < 48 or q["streams"] is not None:
            r.update(log=log, st=st)
        else:
            r.update(log="", st={s: [] for s in STREAMS})
        os.write(OUT, (json.dumps(r) + "\n").encode())
    os._exit(0)


main()

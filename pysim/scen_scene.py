"""Scene graphs, kinematics, collision checking and planning of the Python bindings against a plain model of the scene."""
import gc, math
from amino import DVec, DMat, Vec3, Quat, QuatTrans, DualQuat, TfMat, TfVel, SceneGraph, Geom, GeomOpt, SceneFK, SceneDK, SceneIK, SceneCollision, SceneCollisionSet, MotionPlan
from scen_num import qmul, qconj, qrot, add3, axq, norm, qdist

ID = ((0.0, 0.0, 0.0, 1.0), (0.0, 0.0, 0.0))


def mul(a, b): return qmul(a[0], b[0]), add3(a[1], qrot(a[0], b[1]))
def inv(a): return qconj(a[0]), tuple(-x for x in qrot(qconj(a[0]), a[1]))


class Frame:
    def __init__(self, name, parent, kind, E, cfg=None, axis=None, offset=0.0, limits=None):
        self.name, self.parent, self.kind, self.E, self.cfg, self.axis, self.offset, self.limits = name, parent, kind, E, cfg, axis, offset, limits
        self.spheres = []         # radii that collide

    def rel(self, q):
        if self.kind == "fixed":
            return self.E
        v = q[self.cfg] + self.offset
        j = (axq(self.axis, v), (0, 0, 0)) if self.kind == "revolute" else (ID[0], tuple(v * x for x in self.axis))
        return mul(self.E, j)

    def clone(self):
        f = Frame(self.name, self.parent, self.kind, self.E, self.cfg, self.axis, self.offset, self.limits)
        f.spheres = list(self.spheres)
        return f


class World:
    """The model of one scene."""
    def __init__(self):
        self.frames, self.clean, self.frozen, self.allowed, self.cl, self.plugged = {}, True, False, set(), False, False

    def clone(self):
        w = World()
        w.frames = {k: f.clone() for k, f in self.frames.items()}
        w.allowed = set(self.allowed)
        return w

    def configs(self): return [f.cfg for f in self.frames.values() if f.cfg]

    def pose(self, name, q):
        E = ID
        while name != "":
            f = self.frames[name]
            E = mul(f.rel(q), E)
            name = f.parent
        return E

    def path(self, name):
        p = []
        while name != "":
            p.append(name)
            name = self.frames[name].parent
        return p[::-1]

    def kids(self, name): return [f.name for f in self.frames.values() if f.parent == name]


def scenes(s):
    scs = []                      # [SceneGraph or None, World]
    deps = []                     # [what, object, world, extra]
    geoms = []                    # [Geom, radius or None]
    opts = []
    nsteps = 6 + s.cfg(26)
    faulty = s.cfg(3) == 2
    serial = [0]

    def angle(): return (s.op(63) - 31) * 0.09
    def number(): return (s.op(41) - 20) / 10.0
    near = s.cfg(2)               # everything close together

    def rnd_v(): return tuple(number() * (0.3 if near else 1.0) for _ in range(3))

    def unit():
        k = s.op(5)
        if k < 3:
            return tuple(float(i == k) for i in range(3))
        v = (number() + 2.5, number(), number())
        n = norm(v)
        return tuple(x / n for x in v)

    def rnd_E():
        if s.op(4) == 0:
            return ID
        return axq(unit(), angle()), rnd_v()

    def py_E(E):
        k = s.op(6)
        if k == 0: return (Quat(list(E[0])), list(E[1]))
        if k == 1: return QuatTrans((Quat(list(E[0])), Vec3(E[1])))
        if k == 2: return QuatTrans(list(E[0] + E[1]))
        if k == 3: return DualQuat((Quat(list(E[0])), Vec3(E[1])))
        if k == 4: return TfMat((Quat(list(E[0])), Vec3(E[1])))
        return list(E[0] + E[1])

    def same(what, t, E, tol=1e-8):
        q, v = (t.quat.x, t.quat.y, t.quat.z, t.quat.w), (t.trans.x, t.trans.y, t.trans.z)
        s.check(qdist(q, E[0]) < tol and norm([a - b for a, b in zip(v, E[1])]) < tol * (1 + norm(E[1])), "value", lambda: "%s: the pose is %s, not %s" % (what, vals(q + v), vals(E[0] + E[1])))

    def vals(l): return "(" + ", ".join("garbage" if x != x or x and (abs(x) < 1e-100 or abs(x) > 1e60) else "%.6g" % (x + 0.0) for x in l) + ")"

    def raises(exc, fn, what):
        s.fault("bad argument")
        try:
            fn()
        except exc:
            return
        s.fail("accepted", what)

    def live(): return [p for p in scs if p[0] is not None]

    def some_scene(ok=lambda w: True):
        l = [p for p in live() if ok(p[1])]
        if l and s.op(4):
            return s.pick(l)
        p = [SceneGraph(), World()]
        scs.append(p)
        return p

    def name(pre):
        serial[0] += 1
        return "%s%d" % (pre, serial[0])

    def new_opt():
        d, e = {}, {"visual": None, "collision": None}
        for k in ("visual", "collision", "no_shadow"):
            if s.op(2):
                d[k] = bool(s.op(2))
        for k in ("alpha", "scale"):
            if s.op(2):
                d[k] = (s.op(9) + 1) / 8.0
        for k in ("color", "specular"):
            if s.op(2):
                d[k] = [s.op(9) / 8.0, s.op(9) / 8.0, s.op(9) / 8.0]
        return GeomOpt(d) if s.op(2) else GeomOpt.ensure(d), d

    def check_opt(o, d):
        for k, v in d.items():
            g = getattr(o, k)
            ok = all(abs(a - b) < 1e-6 for a, b in zip(g, v)) if isinstance(v, list) else abs(g - v) < 1e-6
            s.check(ok, "value", lambda: "the option %s was set to %r and reads %r" % (k, v, g))

    def new_geom():
        col = s.op(4) != 0
        sc = (1.0, 0.5, 2.0)[s.op(3)]
        d = {"collision": col, "scale": sc, "visual": bool(s.op(2))}
        o = GeomOpt(d) if s.op(2) else d
        k = s.op(8)
        r = (s.op(4) + 1) / (4.0 if near else 10.0)
        if k == 7: return [Geom.box({"collision": False}, [r, r, r]), None]
        if k == 6: return [Geom.cylinder({"collision": False}, r, r), None]
        if k == 5: return [Geom.cone({"collision": False}, r, r, r / 2) if s.op(2) else Geom.torus({"collision": False}, 6.28, r, r / 3) if s.op(2) else Geom.grid({"collision": False}, [1, 1], [.1, .1], .01), None]
        return [Geom.sphere(o, r), r * sc if col else None]

    def build(p):
        sg, w = p
        t = s.op(12)
        what = ""
        if t < 6 or not w.frames:
            par = s.pick([""] + list(w.frames)) if w.frames else ""
            n = name("f")
            E = rnd_E()
            gl = []
            while len(gl) < 2 and s.op(3) >= (1 if near and not gl else 2):
                gl.append(s.pick(geoms) if geoms and s.op(2) else new_geom())
            ga = None if not gl else gl[0][0] if len(gl) == 1 else [g[0] for g in gl] if s.op(2) else tuple(g[0] for g in gl)
            kind = s.op(3)
            pn, nn = (par.encode(), n.encode()) if s.op(6) == 5 else (par, n)
            if kind == 0:
                sg.add_frame_fixed(pn, nn, py_E(E), geom=ga) if E is not ID or s.op(2) else sg.add_frame_fixed(pn, nn, geom=ga)
                w.frames[n] = Frame(n, par, "fixed", E)
            else:
                a = unit() if s.op(2) else None
                off = (0.0, 0.25, -0.5)[s.op(3)]
                kw = dict(offset=off, geom=ga)
                cfg = n
                if s.op(2):
                    kw["config_name"] = cfg = name("q")
                if a is not None:
                    kw["axis"] = Vec3(a) if s.op(2) else list(a)
                lim = None
                if kind == 1:
                    sg.add_frame_revolute(pn, nn, py_E(E), **kw)
                else:
                    if s.op(4):
                        lim = kw["limits"] = (-1.0 - s.op(2), 1.0 + s.op(3))
                    sg.add_frame_prismatic(pn, nn, py_E(E), **kw)
                w.frames[n] = Frame(n, par, "revolute" if kind == 1 else "prismatic", E, cfg, a or (0.0, 0.0, 1.0), off, lim)
            w.frames[n].spheres += [g[1] for g in gl if g[1]]
            for g in gl:
                if g not in geoms and s.op(2) and len(geoms) < 4:
                    geoms.append(g)
            what = "frame %s under %r" % (n, par)
            s.probe("frame")
        elif t == 6:
            leaves = [n for n in w.frames if not w.kids(n)]
            if leaves:
                n = s.pick(leaves)
                sg.remove_frame(n)
                del w.frames[n]
                w.allowed = {a for a in w.allowed if n not in a}
                what = "frame %s removed" % n
        elif t in (7, 8):
            n = s.pick(list(w.frames))
            l = [m for m in [""] + list(w.frames) if n not in w.path(m)]
            m = s.pick(l)
            E = rnd_E()
            sg.reparent(m, n, py_E(E)) if E is not ID or s.op(2) else sg.reparent(m, n)
            f = w.frames[n]
            f.parent, f.E = m, E
            what = "frame %s put under %r" % (n, m)
        else:
            n = s.pick(list(w.frames))
            g = s.pick(geoms) if geoms and s.op(2) else new_geom()
            if g not in geoms and len(geoms) < 4 and s.op(2):
                geoms.append(g)
            sg.attach_geom(n, g[0])
            if g[1]:
                w.frames[n].spheres.append(g[1])
            what = "geometry on %s" % n
        w.clean = False
        return what

    def load(p):
        """A scene from a plugin, or a plugin that cannot be had."""
        sg, w = p
        t = s.op(6)
        par = s.pick([""] + list(w.frames)) if w.frames else ""
        if t >= 4:
            before = (sg.frame_count, sg.config_count) if w.clean else None
            f, n = (("libpyplug.so", "refuses"), ("libpyplug.so", "nothing"), ("/nonexistent/plug.so", "rig"))[s.op(3)]
            raises(LookupError, lambda: sg.load(f, n, par), "the plugin scene %s:%s, which cannot be had" % (f, n))
            s.check(before is None or before == (sg.frame_count, sg.config_count), "value", "a plugin that could not be loaded changed the scene")
            return "no plugin"
        pre = ("rig", "lab")[t & 1]
        if pre + "_base" in w.frames or pre + "_arm" in w.frames or pre + "_hand" in w.frames or (w.plugged and not s.op(2)):
            return "plugin is there already"
        if par or s.op(2): sg.load("libpyplug.so", pre, par)
        else: sg.load("libpyplug.so", pre)
        q, v = (0.0, 0.0, 1.0, 0.0), (0.5, 0.25, -1.0)
        w.frames[pre + "_base"] = Frame(pre + "_base", par, "fixed", (q, v))
        w.frames[pre + "_arm"] = Frame(pre + "_arm", pre + "_base", "revolute", (ID[0], v), pre + "_arm", (0.0, 1.0, 0.0), 0.5, (-2.0, 2.0))
        w.frames[pre + "_hand"] = Frame(pre + "_hand", pre + "_arm", "fixed", (q, ID[1]))
        w.frames[pre + "_hand"].spheres.append(0.25)
        w.plugged, w.clean = True, False
        s.probe("plugin")
        return "plugin %s below %r" % (pre, par)

    def ready(p):
        if not p[1].clean:
            s.check(p[0].init() is p[0], "value", "init returns something else")
            p[1].clean = True

    def examine(p):
        """What the scene says about itself."""
        sg, w = p
        n, c = list(w.frames), w.configs()
        s.check(sg.frame_count == len(n) and sg.config_count == len(c), "value", lambda: "%d frames and %d configurations, not %d and %d" % (sg.frame_count, sg.config_count, len(n), len(c)))
        ids = {}
        for i in range(len(n)):
            ids[sg.frame_name(i)] = i
            s.check(sg.ensure_frame_name(i) == sg.frame_name(i) and sg.ensure_frame_id(i) == i, "value", "frame ids and names")
        s.check(sorted(ids) == sorted(n), "value", lambda: "the frames are %r, not %r" % (sorted(ids), sorted(n)))
        for m in n:
            s.check(sg.frame_id(m) == ids[m] and sg.ensure_frame_id(m) == ids[m] and sg.ensure_frame_id_actual(m) == ids[m] and sg.ensure_frame_name(m) == m, "value", "frame ids and names")
            par = w.frames[m].parent
            s.check(par == "" or ids[par] < ids[m], "value", "a frame comes before its parent")
            s.check(sg.get_parent(m) == par and sg.get_parent(ids[m]) == par, "value", lambda: "the parent of %s is %r, not %r" % (m, sg.get_parent(m), par))
        cid = {}
        for i in range(len(c)):
            cid[sg.config_name(i)] = i
            s.check(sg.ensure_config_name(i) == sg.config_name(i) and sg.ensure_config_id(i) == i, "value", lambda: "configuration %d is named %r and %r" % (i, sg.ensure_config_name(i), sg.config_name(i)))
        s.check(sorted(cid) == sorted(c), "value", lambda: "the configurations are %r, not %r" % (sorted(cid), sorted(c)))
        for m in c:
            s.check(sg.config_id(m) == cid[m] and sg.ensure_config_id(m) == cid[m] and sg.ensure_config_name(m) == m, "value", "configuration ids and names")
        return ids, cid

    def rnd_q(w):
        q = {}
        for f in w.frames.values():
            if f.cfg:
                q[f.cfg] = (f.limits[0] + (f.limits[1] - f.limits[0]) * (1 + s.op(15)) / 16.0) if f.limits else angle()
        return q

    def vec(sg, q): return [q[sg.config_name(i)] for i in range(sg.config_count)]

    def check_fk(d):
        """d = ["fk", SceneFK, world, q, order of frames]"""
        _, fk, w, q, names = d
        s.check(len(fk) == len(names), "value", "the kinematics count %d frames, not %d" % (len(fk), len(names)))
        for i, n in enumerate(names):
            same("frame " + n, fk[n if i % 2 else i], w.pose(n, q))
        if names and s.op(2):
            a, b = s.pick(names + [""]), s.pick(names + [""])
            same("%r seen from %r" % (b, a), fk[a, b], mul(inv(w.pose(a, q)), w.pose(b, q)))
        if s.op(3) == 0:
            same("the root", fk[""], ID)

    def gap(w, a, b, q):
        pa, pb = w.pose(a, q)[1], w.pose(b, q)[1]
        return min([norm([x - y for x, y in zip(pa, pb)]) - r1 - r2 for r1 in w.frames[a].spheres for r2 in w.frames[b].spheres] or [9e9])

    def add(d):
        d[2].frozen = True
        if len(deps) >= 9:
            drop(s.op(len(deps)))
        deps.append(d)

    def drop(i):
        d = deps.pop(i)
        if any(x[1] is not None and x[2] is d[2] for x in deps):
            s.fault("early release")
        s.log("  release of %s" % d[0])
        s.release(d[1])

    def of(kind): return [d for d in deps if d[0] == kind]

    def pick_scene():
        l = [p for p in live() if p[1].frames]
        if not l:
            return None
        p = s.pick(l)
        ready(p)
        return p

    def chain_fk():
        """Kinematics and a chain of one or two joints for the same scene, most of the time."""
        if s.op(4) == 0:
            return
        p = pick_scene()
        if not p:
            return
        sg, w = p
        tips = [n for n in w.frames if 1 <= len([m for m in w.path(n) if w.frames[m].cfg]) <= 2]
        if not tips:
            return
        tip = s.pick(tips)
        ch = sg["":tip]
        got = [int(x) for x in ch.gather_config(DVec([float(i) for i in range(sg.config_count)]))]
        add(["chain", ch, w, ("", tip), [sg.config_name(i) for i in got]])
        if not any(x[1].scenegraph is sg for x in of("fk")):
            x = ["fk", SceneFK(sg), w, rnd_q(w), [sg.frame_name(i) for i in range(sg.frame_count)]]
            x[1].config = dict(x[3])
            add(x)

    def cl_fk():
        """A collision checker and kinematics for the same scene, most of the time."""
        l = of("collision")
        if not l:
            if not s.op(4):
                return
            p = pick_scene()
            if not p:
                return
            l = [["collision", SceneCollision(p[0]), p[1], set(p[1].allowed)]]
            p[1].cl = True
            add(l[0])
            s.probe("collision")
        d = l[s.op(len(l))]
        if s.op(4) and not any(x[1].scenegraph is d[1].scenegraph for x in of("fk")):
            sg, w = d[1].scenegraph, d[2]
            x = ["fk", SceneFK(sg), w, rnd_q(w), [sg.frame_name(i) for i in range(sg.frame_count)]]
            x[1].config = dict(x[3])
            add(x)

    for _ in range(nsteps):
        k = s.op(45)
        s.step("op%d" % k)
        what = "step %d" % k
        p = d = sg = o = g = v = ch = None
        if k < 11:
            p = some_scene(lambda w: not w.frozen)
            for _ in range(1 + s.op(3)):
                what = load(p) if s.op(16) == 15 else build(p)
                s.log("  " + what)
        elif k == 11:
            p = pick_scene()
            if p:
                examine(p)
                what = "examined"
        elif k == 12:
            p = pick_scene()
            if p and len(scs) < 6:
                scs.append([p[0].copy(), p[1].clone()])
                what = "copy"
                examine(scs[-1])
                s.probe("copy")
        elif k == 13:
            o, v = new_opt()
            check_opt(o, v)
            opts.append((o, v))
            if len(opts) > 3:
                s.release(opts.pop(s.op(len(opts)))[0])
            for o, v in opts:
                check_opt(o, v)
            what = "options"
        elif k == 14:
            if geoms and s.op(2):
                s.fault("early release")
                s.release(geoms.pop(s.op(len(geoms)))[0])
                what = "geometry released"
            else:
                geoms.append(new_geom())
                if len(geoms) > 5:
                    geoms.pop(0)
                what = "geometry"
        elif k in (15, 16, 17):
            p = pick_scene()
            if p:
                sg, w = p
                ids, cid = examine(p)
                done, o = s.interrupted(lambda: SceneFK(sg), faulty)
                if done:
                    d = ["fk", o, w, {c: 0.0 for c in w.configs()}, sorted(ids, key=lambda n: ids[n])]
                    add(d)
                    check_fk(d)
                    what = "kinematics"
                    s.probe("fk")
        elif k in (18, 19, 20):
            l = of("fk")
            if l:
                d = s.pick(l)
                fk, w, sg = d[1], d[2], d[1].scenegraph
                q = rnd_q(w)
                t = s.op(5)
                if t == 0: fk.config = vec(sg, q)
                elif t == 1: fk.config = DVec(vec(sg, q))
                elif t == 2: fk.config = dict(q)
                elif t == 3:
                    m = DMat((2, max(1, len(q))))
                    v = m.row_vec(1)
                    if len(q): v.copy_from(vec(sg, q))
                    fk.config = v if len(q) else DVec(0)
                else:             # some of the values
                    keep = {c: q[c] for c in q if s.op(2)}
                    fk.config = keep
                    q = dict(d[3], **keep)
                d[3] = q
                check_fk(d)
                s.check(all(abs(a - b) < 1e-12 for a, b in zip(list(fk.config), vec(sg, q))), "value", "the configuration of the kinematics")
                v = sg.config_dict(sg.config_vector(dict(q)))
                s.check(v == q and list(sg.copy_config(q)) == vec(sg, q), "value", "configuration as dictionary and vector")
                what = "configuration"
        elif k in (21, 22, 23):
            p = pick_scene()
            if p:
                sg, w = p
                tip = s.pick(list(w.frames))
                pth = w.path(tip)
                root = s.pick([""] + pth[:-1])
                rk = root if root or s.op(2) else None
                tk = sg.frame_id(tip) if s.op(3) == 2 else tip
                done, ch = s.interrupted(lambda: sg[rk:tk], faulty)
                if done:
                    on = [w.frames[n].cfg for n in pth[(pth.index(root) + 1 if root else 0):] if w.frames[n].cfg]
                    s.check(ch.config_count == len(on), "value", "a chain with %d configurations, not %d" % (ch.config_count, len(on)))
                    s.check(ch.end_effector_id == sg.frame_id(tip), "value", "the end of the chain is another frame")
                    n = sg.config_count
                    got = [int(x) for x in ch.gather_config(DVec([float(i) for i in range(n)]))]
                    order = [sg.config_name(i) for i in got]
                    s.check(sorted(order) == sorted(on), "value", lambda: "a chain over %r gathers %r" % (on, order))
                    add(["chain", ch, w, (root, tip), order])
                    s.probe("chain")
                what = "chain"
        elif k == 24:
            l = of("chain")
            if l:
                d = s.pick(l)
                ch, w, order = d[1], d[2], d[4]
                sg = ch.scenegraph
                q, r = rnd_q(w), rnd_q(w)
                allv = DVec(vec(sg, q))
                s.check(list(ch.gather_config(allv)) == [q[c] for c in order], "value", "gathered configuration")
                o = ch.scatter_config(DVec([r[c] for c in order]), allv)
                s.check(o is allv and list(allv) == [r[c] if c in order else q[c] for c in [sg.config_name(i) for i in range(sg.config_count)]], "value", "scattered configuration")
                v = DVec(len(order))
                z = ch.scatter_config(DVec([r[c] for c in order]))
                s.check(z is not allv and len(z) == sg.config_count and all(z[sg.config_id(c)] == r[c] for c in order), "value", "configuration scattered into a new vector")
                s.check(ch.gather_config(allv, v) is v and list(v) == [r[c] for c in order], "value", "configuration gathered into a vector")
                what = "gather and scatter"
        elif k in (25, 26):
            l = [d for d in of("chain") if d[4] and all(f.limits or f.kind != "prismatic" for f in d[2].frames.values())]
            if l:
                d = s.pick(l)
                ch, w, (root, tip), order = d[1], d[2], d[3], d[4]
                # the reference is a pose in the whole scene, whose other joints are at zero
                q = {c: v if c in order else 0.0 for c, v in rnd_q(w).items()}
                exact = s.op(3) == 0
                seed = [q[c] + (0 if exact else (s.op(9) - 4) * 0.05) for c in order]
                E = w.pose(tip, q)
                t = s.op(3)
                tol = (None, 1e-3, 1e-6)

                def run():
                    ik = SceneIK(ch)
                    ik.restart_time = 0.02
                    s.check(abs(ik.restart_time - 0.02) < 1e-9, "value", "the restart time")
                    if t:
                        ik.set_tol_angle(tol[t])
                        ik.set_tol_trans(tol[t])
                    if s.op(4) == 3:
                        ik.set_seed_center()
                        if s.op(2): ik.set_seed_rand()
                    ik.set_seed(DVec(seed) if s.op(2) else seed)
                    ref = QuatTrans((Quat(list(E[0])), list(E[1])))
                    ik.ref_tf = ref if s.op(3) else py_E(E)
                    ref.trans, ref.quat = Vec3([7.0, 8.0, 9.0]), Quat(1)
                    same("the reference pose", ik.ref_tf, E)
                    return ik, ik.solve()
                done, r = s.interrupted(run, faulty)
                if done:
                    ik, sol = r
                    s.probe("ik")
                    s.check(sol is not None or len(order) > 1 and not exact, "value", "no solution, although the seed was close")
                    s.check(not exact or norm([a - b for a, b in zip(sol, seed)]) < 1e-2, "value", lambda: "the seed %s was a solution, but the answer is %s" % (seed, list(sol)))
                    if sol is not None:
                        s.probe("ik solved")
                        q2 = dict(q)
                        q2.update(zip(order, list(sol)))
                        F = w.pose(tip, q2)
                        dq = qdist(F[0], E[0])
                        s.check(dq < (1.01 * tol[t] if t else 1.76e-3) and norm([a - b for a, b in zip(F[1], E[1])]) < (1.01 * tol[t] if t else 1.01e-4), "value", lambda: "a solution %s away" % vals([dq] + [a - b for a, b in zip(F[1], E[1])]))
                    if s.op(2):
                        add(["ik", ik, w, None])
                    ik = r = run = None
                what = "inverse kinematics"
        elif k in (27, 42, 43):
            chain_fk()
            l = [d for d in of("chain") if d[4] and len(d[4]) <= 2 and d[3][0] == ""]
            f = of("fk")
            if l and f:
                d = s.pick(l)
                f = [x for x in f if x[1].scenegraph is d[1].scenegraph]
                if f:
                    x = s.pick(f)
                    ch, w, tip, order, q = d[1], d[2], d[3][1], d[4], x[3]
                    h = 1e-6
                    J = []
                    for c in order:
                        a, b = w.pose(tip, dict(q, **{c: q[c] - h})), w.pose(tip, dict(q, **{c: q[c] + h}))
                        u = qmul(b[0], qconj(a[0]))
                        sg_ = 1 if u[3] > 0 else -1
                        J.append([(m - n) / (2 * h) for m, n in zip(b[1], a[1])] + [sg_ * 2 * v_ / (2 * h) for v_ in u[:3]])
                    g = [[sum(a * b for a, b in zip(r, t)) for t in J] for r in J]
                    det = g[0][0] if len(g) == 1 else g[0][0] * g[1][1] - g[0][1] * g[1][0]
                    want = [(s.op(9) - 4) / 4.0 for _ in order]
                    dx = [sum(J[i][j] * want[i] for i in range(len(order))) for j in range(6)]
                    tv = TfVel()
                    tv.translational, tv.rotational = dx[:3], dx[3:]
                    done, dk = s.interrupted(lambda: SceneDK(ch, x[1]), faulty)
                    if done:
                        if s.op(3) == 0:
                            s.probe("pose reference")
                            step = {c: q[c] + 0.05 * v_ for c, v_ in zip(order, want)}
                            E = w.pose(tip, dict(q, **step))
                            ref = py_E(E)
                            dk.ref_tf = ref
                            if isinstance(ref, QuatTrans) and s.op(2): ref.trans = Vec3([7.0, 8.0, 9.0])
                            r = dk.solve_vel()
                            again = dk.solve_vel(DVec(len(order)) if s.op(2) else None)
                            s.check((r is None) == (again is None) and (r is None or max(abs(a - b) for a, b in zip(r, again)) <= 1e-9 * (1 + r.nrm2())), "value", lambda: "velocities for the same reference are %s and then %s" % (vals(list(r)), vals(list(again))))
                            if r is not None and det > 0.3 and any(want):
                                def off(e):
                                    F = w.pose(tip, dict(q, **{c: q[c] + e * v_ for c, v_ in zip(order, r)}))
                                    return norm([a - b for a, b in zip(F[1], E[1])]) ** 2 + 4 * qdist(F[0], E[0]) ** 2
                                s.check(off(0.01) < off(0.0) or off(0.0) < 1e-12, "value", "the velocities lead away from the reference pose")
                            same("the reference pose", dk.ref_tf, E)
                            dk.ref_tf = (Quat(list(ID[0])), list(ID[1]))
                            dk = SceneDK(ch, x[1])
                        dk.ref_tf_vel = tv
                        r = dk.solve_vel()
                        if r is not None and len(r) == len(order) and det > 0.3:
                            s.probe("velocity")
                            res = [sum(J[i][j] * r[i] for i in range(len(order))) - dx[j] for j in range(6)]
                            s.check(norm(res) <= 0.06 * norm(dx) + 1e-6, "value", lambda: "velocities %s move the frame at %s off the asked %s" % (vals(list(r)), vals(res), vals(dx)))
                        add(["dk", dk, w, None])
                        dk = None
                what = "velocity"
        elif k in (28, 29):
            p = pick_scene()
            if p:
                sg, w = p
                if s.op(2) and len(w.frames) >= 2 and not w.frozen:
                    a, b = s.pick(list(w.frames)), s.pick(list(w.frames))
                    if a != b:
                        al = s.op(4) != 3
                        sg.allow_collision(a if s.op(2) else sg.frame_id(a), b, 1 if al else 0)
                        (w.allowed.add if al else w.allowed.discard)(frozenset((a, b)))
                done, o = s.interrupted(lambda: SceneCollision(sg), faulty)
                if done:
                    w.cl = True
                    add(["collision", o, w, set(w.allowed)])
                    s.probe("collision")
                what = "collision checker"
        elif k in (30, 31, 32):
            cl_fk()
            l, f = of("collision"), of("fk")
            l = [d for d in l if any(x[1].scenegraph is d[1].scenegraph for x in f)]
            if l:
                d = s.pick(l)
                o, w, al = d[1], d[2], d[3]
                x = s.pick([x for x in f if x[1].scenegraph is o.scenegraph])
                n = list(w.frames)
                if s.op(3) == 0 and len(n) >= 2:
                    a, b = s.pick(n), s.pick(n)
                    if a != b:
                        o.allow(a, b)
                        al.add(frozenset((a, b)))
                if s.op(6) == 5 and all(abs(gap(w, n[i], n[j], x[3])) > 1e-4 for i in range(len(n)) for j in range(i)):
                    o.allow_config(vec(o.scenegraph, x[3]) if s.op(2) else dict(x[3]))
                    al |= {frozenset((n[i], n[j])) for i in range(len(n)) for j in range(i) if gap(w, n[i], n[j], x[3]) < 0}
                    s.probe("allowed")
                hit, near_ = set(), False
                for i in range(len(n)):
                    for j in range(i):
                        gp = gap(w, n[i], n[j], x[3])
                        if abs(gp) < 1e-4: near_ = True
                        if gp < 0 and frozenset((n[i], n[j])) not in al: hit.add(frozenset((n[i], n[j])))
                v = [y[1] for y in of("set") if y[1].scenegraph is o.scenegraph]
                v = s.pick(v) if v and s.op(2) else (o.collision_set() if s.op(2) else SceneCollisionSet(o.scenegraph)) if s.op(4) else None
                done, r = s.interrupted(lambda: o.check(x[1], v), faulty)
                if done and not near_:
                    s.check(r == bool(hit), "value", "a collision is %s" % ("missed" if hit else "reported where there is none"))
                    s.probe("hit" if hit else "free")
                    if v is not None:
                        for i in range(len(n)):
                            for j in range(i):
                                e = frozenset((n[i], n[j])) in hit
                                s.check(v[n[i], n[j]] == e and v[n[j], n[i]] == e, "value", "a pair in the set is %s" % ("missing" if e else "too many"))
                        if s.op(3) == 2 and hit:
                            o.allow_set(v)
                            al |= hit
                            s.check(not o.check(x[1]), "value", "allowed collisions are reported")
                        if len(n) >= 2 and s.op(2):
                            v[n[0], n[1]] = True
                            s.check(v[n[1], n[0]], "value", "an entry that was set")
                            u = SceneCollisionSet(o.scenegraph)
                            u.fill(v)
                            s.check(all(u[n[i], n[j]] == v[n[i], n[j]] for i in range(len(n)) for j in range(i)), "value", "a set filled from another")
                            u.clear()
                            s.check(not any(u[n[i], n[j]] for i in range(len(n)) for j in range(i)) and v[n[0], n[1]], "value", "a set that was cleared")
                            u = None
                        if s.op(2) and not any(y[1] is v for y in deps):
                            add(["set", v, w, None])
                r = hit = None
                what = "check"
        elif k in (33, 34):
            cl_fk()
            l, f = of("collision"), of("fk")
            l = [d for d in l if any(x[1].scenegraph is d[1].scenegraph for x in f)]
            if l:
                d = s.pick(l)
                o, w, al = d[1], d[2], d[3]
                x = s.pick([x for x in f if x[1].scenegraph is o.scenegraph])
                n = [m for m in w.frames if w.frames[m].spheres]
                v = o.collision_dist()
                done, _ = s.interrupted(lambda: v.check(x[1]), faulty)
                if done:
                    for i in range(len(n)):
                        for j in range(i):
                            gp = gap(w, n[i], n[j], x[3])
                            if gp > 0.01 and frozenset((n[i], n[j])) not in al:
                                r = v.dist[n[i], n[j]]
                                s.check(abs(r - gp) < 1e-3 * (1 + gp), "value", lambda: "a distance is %.6g, not %.6g" % (r, gp))
                                dd, pa, pb = v.points[n[i], n[j]]
                                s.check(abs(norm([a - b for a, b in zip(pa, pb)]) - gp) < 1e-3 * (1 + gp) and abs(dd - gp) < 1e-3 * (1 + gp), "value", "the nearest points are not that far apart")
                                s.probe("distance")
                    if s.op(2):
                        add(["dist", v, w, None])
                what = "distances"
        elif k in (35, 36, 44):
            l = [d for d in of("chain") if d[4] and d[3][0] == "" and d[2].cl and all(d[2].frames[n].limits for n in d[2].frames if d[2].frames[n].cfg in d[4])]
            if l:
                d = s.pick(l)
                ch, w, order = d[1], d[2], d[4]
                sg = ch.scenegraph
                q, g = rnd_q(w), rnd_q(w)
                goal = [g[c] for c in order]
                mp = MotionPlan(ch)
                what = "plan"
                if s.op(2):       # only the plan keeps the chain
                    deps.remove(d)
                    s.fault("early release")
                    s.release(d[1])
                    d = ch = l = None
                    gc.collect() if s.op(2) else None
                start = vec(sg, q)
                names = [sg.config_name(i) for i in range(sg.config_count)]
                frames, al = list(w.frames), set(w.allowed)
                for i in range(len(frames)):       # what touches at the start may go on touching
                    al |= {frozenset((frames[i], frames[j])) for j in range(i) if gap(w, frames[i], frames[j], q) < 1e-4}
                sg = None
                path = mp.motion_plan(start, goal, 0.2)
                s.probe("plan" if path else "no plan")
                if path:
                    s.check(all(len(x) == len(start) for x in path) and len(path) >= 2, "value", "the shape of a path")
                    s.check(max(abs(a - b) for a, b in zip(path[0], start)) < 1e-9, "value", "a path starts elsewhere")
                    end = dict(q, **{c: g[c] for c in order})
                    s.check(all(abs(v - end[c]) < 1e-6 for c, v in zip(names, path[-1])), "value", lambda: "a path ends at %s, not %s" % (vals(path[-1]), vals([end[c] for c in names])))
                    for x in path:
                        at = dict(zip(names, x))
                        s.check(all(abs(at[c] - q[c]) < 1e-9 for c in names if c not in order), "value", "a path moves a joint that is not in the chain")
                        for f in w.frames.values():
                            if f.cfg in order: s.check(f.limits[0] - 1e-9 <= at[f.cfg] <= f.limits[1] + 1e-9, "value", "a path leaves the limits of %s" % f.cfg)
                        for i in range(len(frames)):
                            for j in range(i):
                                s.check(frozenset((frames[i], frames[j])) in al or gap(w, frames[i], frames[j], at) > -1e-4, "value", "a path goes through a collision of %s and %s" % (frames[i], frames[j]))
                    at = None
                if s.op(3):
                    add(["plan", mp, w, (start, goal)])
                mp = path = None
        elif k == 37:
            p = pick_scene()
            if p:
                sg = p[0]
                t = s.op(9)
                n = sg.frame_count
                if t == 0: raises(ValueError, lambda: sg.ensure_frame_id("nothing"), "the id of a frame that is not there")
                elif t == 1: raises(IndexError, lambda: sg.ensure_frame_id(n + s.op(3)), "a frame id beyond the end")
                elif t == 2: raises(IndexError, lambda: sg.ensure_frame_id_actual(""), "the root as a frame of the scene")
                elif t == 3: raises(ValueError, lambda: sg.ensure_config_id("nothing"), "the id of a configuration that is not there")
                elif t == 4: raises(IndexError, lambda: sg.ensure_config_id(sg.config_count), "a configuration id beyond the end")
                elif t == 5: raises(IndexError, lambda: sg.frame_name(n), "the name of a frame beyond the end")
                elif t == 6: raises(IndexError, lambda: sg.copy_config([0.0] * (sg.config_count + 1)), "a configuration that is too long")
                elif t == 7: raises(LookupError, lambda: sg["":sg.frame_name(0):2], "a chain with a step")
                else: raises((IndexError, ValueError), lambda: sg.config_vector({"nothing": 1.0}), "a configuration that is not there")
                what = "bad argument %d" % t
        elif k in (40, 41):
            l = of("dk") + of("dist") + of("set") + of("plan") + of("collision")
            if l:
                d = s.pick(l)
                o, w = d[1], d[2]
                what = d[0] + " used again"
                s.probe(what)
                if d[0] == "dk": o.solve_vel()
                elif d[0] == "dist":
                    n = [m for m in w.frames if w.frames[m].spheres]
                    if len(n) > 1: s.check(isinstance(o.dist[n[0], n[1]], float) and len(o.points[n[1], n[0]]) == 3, "value", "a distance")
                elif d[0] == "set":
                    n = list(w.frames)
                    s.check(all(o[a, b] == o[b, a] for a in n for b in n), "value", "a set that is not symmetric")
                elif d[0] == "plan": o.motion_plan(d[3][0], d[3][1], 0.1)
                else:
                    fk = SceneFK(o.scenegraph)
                    if not s.op(3): o.collision_dist().check(fk)
                    o.check(fk)
        elif k == 38:
            if deps:
                drop(s.op(len(deps)))
                what = "release"
        else:
            l = live()
            if l:
                p = s.pick(l)
                if any(d[2] is p[1] for d in deps):
                    s.fault("early release")
                sg, p[0] = p[0], None
                s.release(sg)
                what = "scene released"
        s.maybe_gc()
        p = d = sg = o = g = v = ch = x = fk = ik = l = f = u = None
        s.log(what)
        for d in of("fk"):
            check_fk(d)
        d = None
        s.state((sorted(x[0] for x in deps), sorted((len(x[1].frames), x[0] is None) for x in scs)))
    while deps:
        drop(s.op(len(deps)))
        for d in of("fk"):
            check_fk(d)
        d = None

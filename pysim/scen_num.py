"""Vectors, matrices and transforms of the Python bindings against plain arithmetic."""
import gc, math
from amino import DVec, DMat, Vec3, XAngle, YAngle, ZAngle, EulerZYX, EulerRPY, AxAng, Quat, RotMat, TfMat, DualQuat, QuatTrans, TfVel, Twist
from amino.mat import CBLAS_NO_TRANS, CBLAS_TRANS


# ------------------------------------------------------------------ vectors and matrices
class V:
    """A vector as (storage, places)."""
    kind = "vec"

    def __init__(self, buf, idx):
        self.buf, self.idx = buf, idx

    def vals(self): return [self.buf[i] for i in self.idx]

    def put(self, vals):
        for i, v in zip(self.idx, vals):
            self.buf[i] = v

    def shape(self): return ("v", len(self.idx))


class M:
    kind = "mat"

    def __init__(self, buf, r, c, off, ld):
        self.buf, self.r, self.c, self.off, self.ld = buf, r, c, off, ld

    def at(self, i, j): return self.buf[self.off + i + j * self.ld]
    def set(self, i, j, v): self.buf[self.off + i + j * self.ld] = v
    def vals(self): return [self.at(i, j) for j in range(self.c) for i in range(self.r)]

    def put(self, vals):
        k = 0
        for j in range(self.c):
            for i in range(self.r):
                self.set(i, j, vals[k])
                k += 1

    def rows(self): return [[self.at(i, j) for j in range(self.c)] for i in range(self.r)]
    def shape(self): return ("m", self.r, self.c)


def nv(vals): return V(list(vals), list(range(len(vals))))


def nm(r, c, vals): return M(list(vals), r, c, 0, r)


def get_vec(o): return [o[i] for i in range(len(o))]


def get_mat(o): return [o[i, j] for j in range(o.cols) for i in range(o.rows)]


def close(a, b, tol): return a == b or abs(a - b) <= tol * (1 + abs(a) + abs(b))


def near(a, b, scale): return all(abs(x - y) <= 1e-13 * (1 + scale) for x, y in zip(a, b))


def show(vals):
    """Numbers for a message; what can only be stray memory is not printed, it differs from one process to the next."""
    return "(" + ", ".join("garbage" if v != v or v and (abs(v) < 1e-100 or abs(v) > 1e60) else "%.9g" % v for v in vals) + ")"


def vectors(s):
    objs = []                     # [object, model]
    nsteps = 3 + s.cfg(18)
    faulty = s.cfg(3) == 2

    def seen(o, m): return get_vec(o) if m.kind == "vec" else get_mat(o)

    def verify(what, target=None, tol=0.0):
        for o, m in objs:
            if m.kind == "vec":
                s.check(len(o) == len(m.idx), "value", "%s: a vector has the wrong length" % what)
                a = get_vec(o)
            else:
                s.check((o.rows, o.cols) == (m.r, m.c) and len(o) == m.r * m.c, "value", "%s: a matrix has the wrong size" % what)
                a = get_mat(o)
            e = m.vals()
            t = tol if (target is not None and m.buf is target.buf) else 0.0
            for x, y in zip(a, e):
                s.check(close(x, y, t), "value" if target is not None and m.buf is target.buf else "disturbed",
                        lambda: "%s: %s is %s, not %s" % (what, "the result" if target is not None and m.buf is target.buf else "something else", show(a), show(e)))
            if t:
                m.put(a)

    def add(o, m):
        if len(objs) >= 7:
            i = s.op(len(objs))
            s.release(objs.pop(i)[0])
        objs.append((o, m))

    def vecs(n=None): return [p for p in objs if p[1].kind == "vec" and (n is None or len(p[1].idx) == n)]
    def mats(f=None): return [p for p in objs if p[1].kind == "mat" and (f is None or f(p[1]))]
    def nums(n): return [s.num() for _ in range(n)]

    def some_vec(n=None):
        """A vector of length n: one there is, or a new one."""
        l = vecs(n)
        if l and s.op(3):
            return s.pick(l)
        x = nums(s.op(5) + 1 if n is None else n)
        p = (DVec(x), nv(x))
        add(*p)
        return p

    def some_mat(r=None, c=None):
        l = mats(lambda m: (r is None or m.r == r) and (c is None or m.c == c))
        if l and s.op(3):
            return s.pick(l)
        r = s.op(4) + 1 if r is None else r
        c = s.op(4) + 1 if c is None else c
        x = nums(r * c)
        o = DMat((r, c))
        k = 0
        for j in range(c):
            for i in range(r):
                o[i, j] = x[k]
                k += 1
        p = (o, nm(r, c, x))
        add(*p)
        return p

    def raises(exc, fn, what):
        try:
            fn()
        except exc:
            return
        s.fail("accepted", what)

    for _ in range(nsteps):
        k = s.op(36)
        s.step("op%d" % k)
        target, tol, what = None, 0.0, ""
        if k == 0:                # new vectors
            t = s.op(5)
            x = nums(s.op(5))
            if t == 0: o, m = DVec(x), nv(x)
            elif t == 1: o, m = DVec(tuple(x)), nv(x)
            elif t == 2:
                n = s.op(6)
                o, m = DVec(n), nv([0.0] * n)
            elif t == 3:
                p = some_vec()
                o, m = DVec(p[0]), nv(p[1].vals())
            else:
                p = some_vec()
                s.check(DVec.ensure(p[0]) is p[0], "value", "ensure of a vector is another vector")
                o, m = DVec.ensure(x), nv(x)
            add(o, m)
            what, target = "new vector", m
        elif k == 1:              # new matrices
            t = s.op(4)
            if t == 0:
                r, c = s.op(4) + 1, s.op(4) + 1
                o, m = DMat((r, c)), nm(r, c, [0.0] * (r * c))
            elif t == 1:
                p = some_mat()
                o, m = DMat(p[0]), nm(p[1].r, p[1].c, p[1].vals())
            else:
                r, c = s.op(4) + 1, s.op(4) + 1
                rows = [nums(c) for _ in range(r)]
                arg = [DVec(x) for x in rows] if s.op(2) else rows
                if t == 2:
                    o, m = DMat.row_matrix(arg), nm(r, c, [rows[i][j] for j in range(c) for i in range(r)])
                else:
                    o, m = DMat.col_matrix(arg), nm(c, r, [v for x in rows for v in x])
            add(o, m)
            what, target = "new matrix", m
        elif k in (2, 3, 4, 5):   # a view of a matrix
            o, m = some_mat()
            t = s.op(4)
            if t == 0:
                i = s.op(m.r)
                w, wm = o.row_vec(i), V(m.buf, [m.off + i + j * m.ld for j in range(m.c)])
            elif t == 1:
                j = s.op(m.c)
                w, wm = o.col_vec(j), V(m.buf, [m.off + i + j * m.ld for i in range(m.r)])
            elif t == 2:
                w, wm = o.diag_vec(), V(m.buf, [m.off + i + i * m.ld for i in range(min(m.r, m.c))])
            else:
                i0 = s.op(m.r)
                i1 = i0 + 1 + s.op(m.r - i0)
                j0 = s.op(m.c)
                j1 = j0 + 1 + s.op(m.c - j0)
                w, wm = o[i0:i1, j0:j1], M(m.buf, i1 - i0, j1 - j0, m.off + i0 + j0 * m.ld, m.ld)
            what, target = "view %d" % t, wm
            s.probe("view")
            del o
            add(w, wm)
        elif k in (6, 7):         # a slice of a vector
            o, m = some_vec()
            n = len(m.idx)
            if n:
                a = s.op(n)
                st = 1 + s.op(2)
                if st == 2 and n - a < 2:
                    st = 1
                b = a + st * (1 + s.op((n - a) // st))       # whole steps: the library rounds the number of the others down
                sl = slice(None if a == 0 and s.op(2) else a, None if b == n and s.op(2) else b, None if st == 1 and s.op(2) else st)
                w, wm = o[sl], V(m.buf, m.idx[a:b:st])
                what, target = "slice", wm
                s.probe("view")
                del o
                add(w, wm)
        elif k in (8, 9):         # a view of something that is kept by nothing else
            r, c = s.op(3) + 1, s.op(3) + 1
            x = nums(r * c)
            m = nm(r, c, x)
            a = DMat((r, c))
            for j in range(c):
                for i in range(r):
                    a[i, j] = m.at(i, j)
            t = s.op(5)
            if t == 0: w, wm = DMat(a).row_vec(0), V(m.buf, [j * r for j in range(c)])
            elif t == 1: w, wm = a.transpose().col_vec(0), V(m.buf, [j * r for j in range(c)])
            elif t == 2: w, wm = DMat(a).diag_vec(), V(m.buf, [i + i * r for i in range(min(r, c))])
            elif t == 3: w, wm = DMat(a)[0:r, 0:c], M(m.buf, r, c, 0, r)
            else: w, wm = DVec(x)[0:r * c], V(m.buf, list(range(r * c)))
            del a
            add(w, wm)
            s.fault("early release")
            what, target = "view of a temporary %d" % t, wm
        elif k in (10, 11, 12):   # vector arithmetic, new result
            o, m = some_vec()
            a = m.vals()
            n = len(a)
            t = s.op(14)
            y = s.num()
            if s.op(3) == 2:
                y = int(y)
            if t in (0, 1, 2, 3, 4):
                po, pm = some_vec(n)
                b = pm.vals()
                if t == 0: fn, e = (lambda: o + po), [p + q for p, q in zip(a, b)]
                elif t == 1: fn, e = (lambda: o - po), [p - q for p, q in zip(a, b)]
                elif t == 2: fn, e = (lambda: o + b), [p + q for p, q in zip(a, b)]
                elif t == 3: fn, e = (lambda: o - b), [p - q for p, q in zip(a, b)]
                else: fn, e = (lambda: b - o), [q - p for p, q in zip(a, b)]
            elif t == 5: fn, e = (lambda: o + y), [p + y for p in a]
            elif t == 6: fn, e = (lambda: y + o), [p + y for p in a]
            elif t == 7: fn, e = (lambda: o - y), [p - y for p in a]
            elif t == 8: fn, e = (lambda: y - o), [y - p for p in a]
            elif t == 9: fn, e = (lambda: o * y), [p * y for p in a]
            elif t == 10: fn, e = (lambda: y * o), [p * y for p in a]
            elif t == 11: fn, e = (lambda: o / (y or 1)), [p / (y or 1) for p in a]
            elif t == 12: fn, e = (lambda: -o), [-p for p in a]
            else: fn, e = (lambda: a + o), [p + p for p in a]
            what = "vector operator %d" % t
            done, w = s.interrupted(fn, faulty)
            if done:
                s.check(isinstance(w, DVec) and w is not o, "value", what + ": not a new vector")
                m = nv(e)
                add(w, m)
                target, tol = m, 1e-14
        elif k in (13, 14, 15):   # vector, in place
            o, m = some_vec()
            a = m.vals()
            n = len(a)
            y = s.num()
            t = s.op(13)
            w = o
            others = [p for p in vecs(n) if p[1].buf is not m.buf]
            po, pm = s.pick(others) if others and s.op(3) else (None, None)
            if po is None:
                x = nums(n)
                po, pm = DVec(x), nv(x)
            b = pm.vals()

            def run():
                nonlocal w
                if t == 0: w += po
                elif t == 1: w -= po
                elif t == 2: w += y
                elif t == 3: w -= y
                elif t == 4: w *= y
                elif t == 5: w /= (y or 1)
                elif t == 6: w += b
                elif t == 7: w.axpy(y, po)
                elif t == 8: w.zero()
                elif t == 9: w.set(y)
                elif t == 10: w.increment(y)
                elif t == 11: w.copy_from(po if s.op(2) else b)
                else: po.copy_to(w)
            e = [[p + q for p, q in zip(a, b)], [p - q for p, q in zip(a, b)], [p + y for p in a], [p - y for p in a], [p * y for p in a], [p / (y or 1) for p in a],
                 [p + q for p, q in zip(a, b)], [p + y * q for p, q in zip(a, b)], [0.0] * n, [y] * n, [p + y for p in a], b, b][t]
            done, _ = s.interrupted(run, faulty)
            what = "vector in place %d" % t
            if done:
                s.check(w is o, "value", what + ": the operator left the vector as it was and made another")
                m.put(e)
                target, tol = m, 1e-14
            else:
                m.put(get_vec(o))
        elif k in (16, 17, 18):   # matrix arithmetic, new result
            o, m = some_mat()
            r, c, a = m.r, m.c, m.vals()
            t = s.op(12)
            y = s.num()
            if s.op(3) == 2:
                y = int(y)
            if t in (0, 1):
                po, pm = some_mat(r, c)
                b = pm.vals()
                sg = 1 if t == 0 else -1
                fn, e = (lambda: o + po if t == 0 else o - po), nm(r, c, [p + sg * q for p, q in zip(a, b)])
            elif t == 2: fn, e = (lambda: o + y), nm(r, c, [p + y for p in a])
            elif t == 3: fn, e = (lambda: y + o), nm(r, c, [p + y for p in a])
            elif t == 4: fn, e = (lambda: o - y), nm(r, c, [p - y for p in a])
            elif t == 5: fn, e = (lambda: y - o), nm(r, c, [y - p for p in a])
            elif t == 6: fn, e = (lambda: o * y), nm(r, c, [p * y for p in a])
            elif t == 7: fn, e = (lambda: y * o), nm(r, c, [p * y for p in a])
            elif t == 8: fn, e = (lambda: o / (y or 1)), nm(r, c, [p / (y or 1) for p in a])
            elif t == 9: fn, e = (lambda: -o), nm(r, c, [-p for p in a])
            elif t == 10: fn, e = (lambda: o.transpose()), nm(c, r, [m.at(i, j) for i in range(r) for j in range(c)])
            else:
                po, pm = some_mat(c, None)
                e = nm(r, pm.c, [sum(m.at(i, q) * pm.at(q, j) for q in range(c)) for j in range(pm.c) for i in range(r)])
                fn = lambda: o * po
            what = "matrix operator %d" % t
            done, w = s.interrupted(fn, faulty)
            if done:
                s.check(isinstance(w, DMat) and w is not o, "value", what + ": not a new matrix")
                add(w, e)
                target, tol = e, 1e-11
        elif k in (19, 20, 21):   # matrix in place
            o, m = some_mat()
            r, c, a = m.r, m.c, m.vals()
            t = s.op(9)
            y = s.num()
            w = o
            x = nums(r * c)
            pm = nm(r, c, x)
            po = DMat.row_matrix(pm.rows())

            def run():
                nonlocal w
                if t == 0: w += po
                elif t == 1: w -= po
                elif t == 2: w += y
                elif t == 3: w -= y
                elif t == 4: w *= y
                elif t == 5: w /= (y or 1)
                elif t == 6: w.copy_from(po)
                elif t == 7: w.row_vec(r - 1).copy_from(pm.rows()[r - 1])
                else: w.col_vec(c - 1).set(y)
            last = [x[i + j * r] if i == r - 1 else a[i + j * r] for j in range(c) for i in range(r)]
            e = [[p + q for p, q in zip(a, x)], [p - q for p, q in zip(a, x)], [p + y for p in a], [p - y for p in a], [p * y for p in a], [p / (y or 1) for p in a], x, last,
                 a[:(c - 1) * r] + [y] * r][t]
            done, _ = s.interrupted(run, faulty)
            what = "matrix in place %d" % t
            if done:
                s.check(w is o, "value", what + ": the operator left the matrix as it was and made another")
                m.put(e)
                target, tol = m, 1e-14
            else:
                m.put(get_mat(o))
        elif k in (22, 23):       # products
            o, m = some_mat()
            r, c = m.r, m.c
            if s.op(2):
                po, pm = some_vec(c)
                b = pm.vals()
                e = nv([sum(m.at(i, j) * b[j] for j in range(c)) for i in range(r)])
                done, w = s.interrupted(lambda: o * (po if s.op(2) else b), faulty)
                what = "matrix times vector"
                if done:
                    add(w, e)
                    target, tol = e, 1e-11
            else:
                tr = s.op(2)
                x, y = nums(r if tr else c), nums(c if tr else r)
                al, be = s.num(), s.num()
                w = DVec(y)
                opm = [[m.at(i, j) for i in range(r)] for j in range(c)] if tr else m.rows()
                e = nv([al * sum(p * q for p, q in zip(row, x)) + be * v for row, v in zip(opm, y)])
                w.gemv(CBLAS_TRANS if tr else CBLAS_NO_TRANS, al, o, DVec(x), be)
                add(w, e)
                what, target, tol = "gemv %d" % tr, e, 1e-11
        elif k == 24:             # general product
            ta, tb = s.op(2), s.op(2)
            r, q, c = s.op(3) + 1, s.op(3) + 1, s.op(3) + 1
            ao, am = some_mat(*((q, r) if ta else (r, q)))
            bo, bm = some_mat(*((c, q) if tb else (q, c)))
            x = nums(r * c)
            al, be = s.num(), s.num()
            e = nm(r, c, x)
            w = DMat.row_matrix(e.rows())
            e.put([al * sum((am.at(h, i) if ta else am.at(i, h)) * (bm.at(j, h) if tb else bm.at(h, j)) for h in range(q)) + be * e.at(i, j) for j in range(c) for i in range(r)])
            w.gemm(CBLAS_TRANS if ta else CBLAS_NO_TRANS, CBLAS_TRANS if tb else CBLAS_NO_TRANS, al, ao, bo, be)
            add(w, e)
            what, target, tol = "gemm %d%d" % (ta, tb), e, 1e-11
        elif k == 25:             # inverse and pseudoinverse
            n = s.op(4) + 1
            x = nums(n * n)
            m = nm(n, n, x)
            for i in range(n):
                m.set(i, i, m.at(i, i) + 60.0 + 40 * sum(abs(m.at(i, j)) for j in range(n)) / 10)
            for i in range(n):    # dominant diagonal: far from singular
                m.set(i, i, m.at(i, i) + sum(abs(m.at(i, j)) for j in range(n)))
            o = DMat.row_matrix(m.rows())
            iv = o.inv() if s.op(2) else o.pinv()
            s.check((iv.rows, iv.cols) == (n, n), "value", "the inverse has another size")
            for i in range(n):
                for j in range(n):
                    p = sum(m.at(i, h) * iv[h, j] for h in range(n))
                    s.check(abs(p - (i == j)) < 1e-9, "value", "a matrix times its inverse is not one")
            add(o, m)
            what = "inverse"
        elif k in (26, 27):       # questions
            o, m = some_vec()
            a = m.vals()
            po, pm = some_vec(len(a))
            b = pm.vals()
            e = sum((p - q) ** 2 for p, q in zip(a, b))
            what = "questions"
            s.check(close(o.ssd(po), e, 1e-12) and close(o.ssd(b), e, 1e-12), "value", "wrong sum of squared differences")
            s.check(close(o.nrm2(), math.sqrt(sum(p * p for p in a)), 1e-12), "value", "wrong norm")
            s.check((o == po) == (a == b) and (o != po) == (a != b), "value", "wrong answer whether two vectors are equal")
            s.check(str(o) == "DVec([" + ", ".join("%f" % p for p in a) + "])", "value", "wrong text of a vector")
            s.check(o.isclose(po, 0.0, e * (1 + 1e-9) + 1e-9) and (e == 0 or not o.isclose(po, 0.0, 0.99 * e)), "value", "wrong answer whether two vectors are close")
            s.check(list(o) == a, "value", "a vector is iterated wrongly")
        elif k == 28:
            o, m = some_mat()
            a = m.vals()
            po, pm = some_mat(m.r, m.c)
            e = sum((p - q) ** 2 for p, q in zip(a, pm.vals()))
            s.check(close(o.ssd(po), e, 1e-12), "value", "wrong sum of squared differences of matrices")
            s.check(close(o.nrm2(), math.sqrt(sum(p * p for p in a)), 1e-12), "value", "wrong norm of a matrix")
            s.check((o == po) == (a == pm.vals()), "value", "wrong answer whether two matrices are equal")
            w = eval(str(o))      # the text of a matrix reads back as the matrix
            s.check(isinstance(w, DMat) and (w.rows, w.cols) == (m.r, m.c) and all(abs(p - q) < 6e-7 for p, q in zip(get_mat(w), a)), "value", lambda: "the text of a matrix reads %s" % str(o))
            what = "questions"
        elif k in (29, 30):       # elements
            y = s.num()
            if s.op(2):
                o, m = some_vec()
                if m.idx:
                    i = s.op(len(m.idx))
                    o[i] = y
                    m.buf[m.idx[i]] = y
                    target = m
            else:
                o, m = some_mat()
                i, j = s.op(m.r), s.op(m.c)
                o[i, j] = y
                m.set(i, j, y)
                target = m
            what = "element"
        elif k == 31:             # what does not fit is refused
            s.fault("bad argument")
            t = s.op(12)
            o, m = some_vec()
            n = len(m.idx)
            q, qm = some_mat()
            po, pm = some_mat()
            bo, bm = some_mat()
            if t == 0: raises(IndexError, lambda: o[n], "an element beyond the end")
            elif t == 1: raises(IndexError, lambda: o.__setitem__(n + s.op(3), 1.0), "setting an element beyond the end")
            elif t == 2: raises(IndexError, lambda: o[-1 - n], "an element before the start")
            elif t == 3: raises(IndexError, lambda: o.copy_from([0.0] * (n + 1)), "copying a longer list into a vector")
            elif t == 4: raises(IndexError, lambda: q[qm.r, 0], "a row beyond the end")
            elif t == 5: raises(IndexError, lambda: q[0, qm.c], "a column beyond the end")
            elif t == 6: raises(IndexError, lambda: q * DVec(qm.c + 1), "a product of sizes that do not fit")
            elif t == 7: raises(IndexError, lambda: q.row_vec(qm.r), "a row vector beyond the end")
            elif t == 8: raises(IndexError, lambda: q.__setitem__((qm.r + s.op(2), s.op(qm.c)), 1.0), "setting an element in a row beyond the end")
            elif t == 9: raises(IndexError, lambda: q.__setitem__((s.op(qm.r), qm.c + s.op(2)), 1.0), "setting an element in a column beyond the end")
            else:                 # products of matrices that need not fit
                ta, tb = s.op(2), s.op(2)
                l = (qm.c, qm.r) if ta else (qm.r, qm.c)
                r = (pm.c, pm.r) if tb else (pm.r, pm.c)
                if l[1] != r[0] or (l[0], r[1]) != (bm.r, bm.c):
                    raises(IndexError, lambda: bo.gemm((CBLAS_NO_TRANS, CBLAS_TRANS)[ta], (CBLAS_NO_TRANS, CBLAS_TRANS)[tb], 1.0, q, po, 1.0), "a product of matrices of sizes that do not fit")
                if qm.c != pm.r:
                    raises(IndexError, lambda: q * po, "a product of matrices of sizes that do not fit")
            what = "bad argument %d" % t
        elif k in (32, 33, 34):   # release
            if objs:
                i = s.op(len(objs))
                o, m = objs.pop(i)
                if any(p[1].buf is m.buf for p in objs):
                    s.fault("early release")
                s.release(o)
                what = "release"
        else:
            what = "collect"
            s.fault("collection")
            gc.collect()
        s.maybe_gc()
        o = po = w = bo = ao = q = x = fn = run = None      # only the pool keeps things alive
        s.log("%s" % what)
        verify(what, target, tol)
        s.state(sorted(p[1].shape() for p in objs))
    s.log(repr([[round(v, 9) for v in p[1].vals()] for p in objs])[:2000])
    while objs:
        s.release(objs.pop(s.op(len(objs)))[0])
        verify("release at the end")


# ------------------------------------------------------------------ transforms
def qmul(a, b):
    ax, ay, az, aw = a
    bx, by, bz, bw = b
    return (aw * bx + ax * bw + ay * bz - az * by, aw * by + ay * bw + az * bx - ax * bz, aw * bz + az * bw + ax * by - ay * bx, aw * bw - ax * bx - ay * by - az * bz)


def qconj(a): return (-a[0], -a[1], -a[2], a[3])


def qrot(q, v):
    r = qmul(qmul(q, (v[0], v[1], v[2], 0.0)), qconj(q))
    return r[:3]


def add3(a, b): return tuple(x + y for x, y in zip(a, b))


def axq(ax, th): return tuple(math.sin(th / 2) * x for x in ax) + (math.cos(th / 2),)


def norm(a): return math.sqrt(sum(x * x for x in a))


def qdist(a, b):
    return min(norm([x - y for x, y in zip(a, b)]), norm([x + y for x, y in zip(a, b)]))


def content(o):
    if isinstance(o, (XAngle, YAngle, ZAngle)): return (o.value,)
    if isinstance(o, EulerZYX): return (o._z, o._y, o._x)
    if isinstance(o, AxAng): return (o.axis.x, o.axis.y, o.axis.z, o.angle)
    if isinstance(o, Vec3): return (o.x, o.y, o.z)
    if isinstance(o, Quat): return (o.x, o.y, o.z, o.w)
    if isinstance(o, RotMat): return tuple(content(o.cx) + content(o.cy) + content(o.cz))
    if isinstance(o, TfMat): return content(o.R) + content(o.v)
    if isinstance(o, DualQuat): return content(o.real) + content(o.dual)
    if isinstance(o, QuatTrans): return content(o.quat) + content(o.trans)
    return content(o.trans) + content(o.rot)


def mat2q(c):
    """Unit quaternion of a rotation matrix by columns."""
    m = [[c[i + 3 * j] for j in range(3)] for i in range(3)]
    t = m[0][0] + m[1][1] + m[2][2]
    k = max(range(4), key=lambda i: (m[0][0], m[1][1], m[2][2], t)[i])
    if k == 3:
        q = (m[2][1] - m[1][2], m[0][2] - m[2][0], m[1][0] - m[0][1], 1 + t)
    else:
        i, j, l = k, (k + 1) % 3, (k + 2) % 3
        q = [0.0] * 4
        q[i] = 1 + m[i][i] - m[j][j] - m[l][l]
        q[j] = m[i][j] + m[j][i]
        q[l] = m[i][l] + m[l][i]
        q[3] = m[l][j] - m[j][l]
    n = norm(q)
    return tuple(x / n for x in q)


def motion(o):
    """The motion an object stands for: unit quaternion and translation (None for pure rotations)."""
    c = content(o)
    if isinstance(o, XAngle): return axq((1, 0, 0), c[0]), None
    if isinstance(o, YAngle): return axq((0, 1, 0), c[0]), None
    if isinstance(o, ZAngle): return axq((0, 0, 1), c[0]), None
    if isinstance(o, EulerZYX): return qmul(qmul(axq((0, 0, 1), c[0]), axq((0, 1, 0), c[1])), axq((1, 0, 0), c[2])), None
    if isinstance(o, AxAng): return axq(c[:3], c[3]), None
    if isinstance(o, Quat): return c, None
    if isinstance(o, RotMat): return mat2q(c), None
    if isinstance(o, TfMat): return mat2q(c[:9]), c[9:]
    if isinstance(o, QuatTrans): return c[:4], c[4:]
    r, d = c[:4], c[4:]
    return r, tuple(2 * x for x in qmul(d, qconj(r))[:3])


def qmulo(a, b):
    return Quat(list(qmul(motion(a)[0], qconj(motion(b)[0]))))


def motions(s):
    pool = []
    nsteps = 3 + s.cfg(16)
    faulty = s.cfg(3) == 2
    ANG = (XAngle, YAngle, ZAngle)

    def angle():
        v = s.op(64)
        return (v - 32) * 0.0937 if v else 0.0

    def unit():
        while True:
            a = [s.num() for _ in range(3)]
            n = norm(a)
            if n > 0.2:
                return tuple(x / n for x in a)
            a = [(1, 0, 0), (0, 1, 0), (0, 0, 1)][s.op(3)]
            return a

    def rnd_q(): return axq(unit(), angle())
    def rnd_v(): return tuple(s.num() for _ in range(3))

    def check_motion(what, o, q, v, tol=1e-9):
        aq, av = motion(o)
        s.check(qdist(aq, q) < tol, "value", lambda: "%s: %r is another rotation than %r" % (what, aq, q))
        if v is not None and av is not None:
            s.check(norm([x - y for x, y in zip(av, v)]) < tol * (1 + norm(v)), "value", lambda: "%s: %r is another translation than %r" % (what, av, v))

    def make():
        k = s.op(11)
        q, v = rnd_q(), rnd_v()
        R = rotmat(q)
        if k < 3: return ANG[k](angle())
        if k == 3: return EulerZYX((angle(), angle(), angle()))
        if k == 4:
            r, p, y = angle(), angle(), angle()
            o = EulerRPY([r, p, y])
            s.check((o.r, o.p, o.y) == (r, p, y), "value", "roll, pitch and yaw are mixed up")
            return o
        if k == 5:
            a = unit()
            return AxAng([a[0], a[1], a[2], angle()])
        if k == 6: return Quat(list(q))
        if k == 7: return RotMat.row_matrix([[R[i][j] for j in range(3)] for i in range(3)]) if s.op(2) else RotMat.col_matrix([[R[i][j] for i in range(3)] for j in range(3)])
        if k == 8: return TfMat.row_matrix([[R[i][j] for j in range(3)] + [v[i]] for i in range(3)]) if s.op(2) else TfMat((Quat(q), v))
        if k == 9: return DualQuat((Quat(q), list(v)))
        return QuatTrans((Quat(q), v)) if s.op(2) else QuatTrans(list(q + v))

    def rotmat(q):
        cols = [qrot(q, e) for e in ((1, 0, 0), (0, 1, 0), (0, 0, 1))]
        return [[cols[j][i] for j in range(3)] for i in range(3)]

    ROT = (XAngle, YAngle, ZAngle, EulerZYX, EulerRPY, AxAng, Quat, RotMat)
    TF = (TfMat, DualQuat, QuatTrans)

    def some(f=None):
        l = [p for p in pool if f is None or f(p[0])]
        if l and s.op(3):
            return s.pick(l)[0]
        for _ in range(12):
            o = make()
            if f is None or f(o):
                keep(o)
                return o
        o = [o for o in (Quat(list(rnd_q())), QuatTrans(), RotMat(), AxAng(), EulerZYX(), TfMat(), DualQuat()) if f(o)][0]
        keep(o)
        return o

    def keep(o):
        if len(pool) >= 7:
            s.release(pool.pop(s.op(len(pool)))[0])
        pool.append([o, content(o)])

    def touched(o):
        for p in pool:
            if p[0] is o:
                p[1] = content(o)

    def verify(what):
        for o, c in pool:
            s.check(content(o) == c, "disturbed", lambda: "%s: another object was %r and is %r" % (what, c, content(o)))

    def raises(exc, fn, what):
        try:
            fn()
        except exc:
            return
        s.fail("accepted", what)

    for _ in range(nsteps):
        k = s.op(28)
        s.step("op%d" % k)
        what = ""
        if k < 5:                 # conversion between rotations
            src = some(lambda o: not isinstance(o, TF))
            q, _ = motion(src)
            to = s.pick((Quat, RotMat, AxAng, Quat, RotMat, AxAng, EulerZYX, EulerRPY))
            if to in (EulerZYX, EulerRPY) and not isinstance(src, ANG + (Quat,)):
                to = Quat
            if isinstance(src, EulerZYX) and to is AxAng:
                to = RotMat
            what = "%s from %s" % (to.__name__, type(src).__name__)
            done, w = s.interrupted(lambda: to(src), faulty)
            if done:
                check_motion(what, w, q, None)
                s.check(w is not src, "value", what + ": not a new object")
                keep(w)
        elif k < 8:               # conversion between transforms
            src = some(lambda o: isinstance(o, TF))
            q, v = motion(src)
            to = s.pick(TF)
            what = "%s from %s" % (to.__name__, type(src).__name__)
            done, w = s.interrupted(lambda: to.ensure(src) if s.op(2) and not isinstance(src, to) else to((src.rotation, src.translation)) if s.op(2) or isinstance(src, to) else to(src), faulty)
            if done:
                check_motion(what, w, q, v)
                keep(w)
        elif k < 11:              # chaining
            t = s.pick((Quat, RotMat) + TF)
            a, b = some(lambda o: isinstance(o, t)), some(lambda o: isinstance(o, t))
            (qa, va), (qb, vb) = motion(a), motion(b)
            done, w = s.interrupted(lambda: a * b, faulty)
            what = "product of %ss" % t.__name__
            if done:
                check_motion(what, w, qmul(qa, qb), None if va is None else add3(va, qrot(qa, vb)))
                keep(w)
        elif k < 13:              # inverse
            a = some(lambda o: isinstance(o, (AxAng, Quat, RotMat) + TF))
            q, v = motion(a)
            w = ~a
            if isinstance(a, (Quat, DualQuat, QuatTrans)) and s.op(2):
                w = a.conj()
            what = "inverse of %s" % type(a).__name__
            check_motion(what, w, qconj(q), None if v is None else tuple(-x for x in qrot(qconj(q), v)))
            keep(w)
        elif k < 16:              # moving a point
            a = some(lambda o: isinstance(o, (AxAng, Quat, RotMat) + TF))
            q, v = motion(a)
            p = rnd_v()
            arg = Vec3(p) if s.op(2) else list(p) if s.op(2) else p
            done, w = s.interrupted(lambda: a.transform(arg) if v is not None else a.rotate(arg), faulty)
            what = "point moved by %s" % type(a).__name__
            if done:
                e = qrot(q, p)
                if v is not None:
                    e = add3(e, v)
                s.check(norm([x - y for x, y in zip(content(w), e)]) < 1e-9 * (1 + norm(e)), "value", lambda: "%s: %r, not %r" % (what, content(w), e))
                s.check(tuple(arg) == p, "disturbed", what + ": the point itself moved")
        elif k == 16:             # setters of the parts
            a = some(lambda o: isinstance(o, TF))
            q, v = motion(a)
            if s.op(2):
                r = some(lambda o: isinstance(o, (Quat, RotMat, AxAng)) if not isinstance(a, TfMat) else isinstance(o, (Quat, RotMat, AxAng)))
                rq, _ = motion(r)
                a.rotation = r
                check_motion("rotation set", a, rq, v)
            else:
                p = rnd_v()
                a.translation = Vec3(p) if s.op(2) else p
                check_motion("translation set", a, q, p)
            touched(a)
            what = "part of %s set" % type(a).__name__
        elif k == 17:             # parts read
            a = some(lambda o: isinstance(o, TF))
            q, v = motion(a)
            check_motion("rotation part", a.rotation, q, None)
            s.check(norm([x - y for x, y in zip(content(a.translation), v)]) < 1e-9 * (1 + norm(v)), "value", "the translation part is another")
            what = "parts"
        elif k == 18:             # exponential and logarithm
            a = some(lambda o: isinstance(o, (Quat, RotMat)))
            q, _ = motion(a)
            if abs(q[3]) > 0.02 and norm(q[:3]) > 1e-3:
                if isinstance(a, Quat):
                    check_motion("exp of ln", a.ln().exp(), q, None, 1e-8)
                    h = a.normalize() if s.op(2) else a.minimize()
                    s.check(h is a and (abs(a.nrm2() - 1) < 1e-12), "value", "normalize or minimize gave another object or length")
                    check_motion("normalized", a, q, None)
                    touched(a)
                else:
                    l = a.ln()
                    th = norm(content(l))
                    check_motion("rotation of the logarithm", AxAng([x / th for x in content(l)] + [th]), q, None, 1e-7)
            what = "exp and ln"
        elif k == 19:             # vectors
            a, b = rnd_v(), rnd_v()
            va, vb = Vec3(a), Vec3(list(b))
            y = s.num() or 2.0
            t = s.op(14)
            tests = [(lambda: va + vb, add3(a, b)), (lambda: va - vb, tuple(p - q for p, q in zip(a, b))), (lambda: va * y, tuple(p * y for p in a)), (lambda: y * va, tuple(p * y for p in a)),
                     (lambda: va / y, tuple(p / y for p in a)), (lambda: va + y, tuple(p + y for p in a)), (lambda: y + va, tuple(p + y for p in a)), (lambda: va - y, tuple(p - y for p in a)),
                     (lambda: y - va, tuple(y - p for p in a)), (lambda: va + list(b), add3(a, b)), (lambda: va.cross(vb), (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])),
                     (lambda: b - va, tuple(q - p for p, q in zip(a, b))), (lambda: b + va, add3(a, b)), (lambda: va - list(b), tuple(p - q for p, q in zip(a, b)))]
            w = tests[t][0]()
            s.check(near(content(w), tests[t][1], norm(a) * (1 + norm(b))), "value", lambda: "vector operator %d: %r, not %r" % (t, content(w), tests[t][1]))
            s.check(content(va) == a and content(vb) == b, "disturbed", "an operand of vector operator %d changed" % t)
            s.check(near([va.dot(vb)], [sum(p * q for p, q in zip(a, b))], norm(a) * norm(b)) and close(va.nrm2(), norm(a), 1e-12) and close(va.ssd(vb), norm([p - q for p, q in zip(a, b)]), 1e-12),
                    "value", "wrong dot product, norm or difference")
            u = va
            u += vb
            u *= y
            u -= b
            s.check(u is va and near(content(va), [(q + r) * y - r for q, r in zip(a, b)], (1 + norm(a)) * (1 + norm(b)) * (1 + abs(y))), "value", "vector operators in place")
            what = "vector %d" % t
        elif k == 20:             # quaternions as numbers
            a, b = tuple(s.num() for _ in range(4)), tuple(s.num() for _ in range(4))
            qa, qb = Quat(a), Quat(list(b))
            y = s.num()
            t = s.op(9)
            tests = [(lambda: qa + qb, tuple(p + q for p, q in zip(a, b))), (lambda: qa - qb, tuple(p - q for p, q in zip(a, b))), (lambda: qa * qb, qmul(a, b)), (lambda: qa * y, tuple(p * y for p in a)),
                     (lambda: y * qa, tuple(p * y for p in a)), (lambda: list(b) * qa, qmul(b, a)), (lambda: qa.conj(), qconj(a)), (lambda: b - qa, tuple(q - p for p, q in zip(a, b))), (lambda: qa + list(b), tuple(p + q for p, q in zip(a, b)))]
            w = tests[t][0]()
            s.check(near(content(w), tests[t][1], (1 + norm(a)) * (1 + norm(b))), "value", lambda: "quaternion operator %d: %r, not %r" % (t, content(w), tests[t][1]))
            s.check(content(qa) == a and content(qb) == b, "disturbed", "an operand of quaternion operator %d changed" % t)
            if norm(a) > 0.1:
                i = qmul(content(~qa), a)
                s.check(norm([i[0], i[1], i[2], i[3] - 1]) < 1e-9, "value", "a quaternion times its inverse is not one")
            s.check(close(qa.nrm2(), norm(a), 1e-11) and close(qa.ssd(qb), norm([p - q for p, q in zip(a, b)]), 1e-12), "value", "wrong norm or difference of quaternions")
            s.check(content(qa.vector()) == a[:3] and qa.scalar() == a[3] and content(Quat(Vec3(a[:3]))) == a[:3] + (0.0,) and content(Quat(2)) == (0, 0, 0, 2), "value", "vector and scalar part")
            u = qa
            u += qb
            u -= qb
            u *= 2
            s.check(u is qa and near(content(qa), [2 * q for q in a], norm(a) + norm(b)), "value", "quaternion operators in place")
            what = "quaternion %d" % t
        elif k == 21:             # six-element velocities
            x, y = rnd_v(), rnd_v()
            t = s.pick((TfVel, Twist))
            a, b = t(), t()
            a.translational = x
            a.rotational = list(y)
            b.translational = y
            b.rotational = x
            d1 = a.to_dvec()
            d2 = b.to_dvec()
            s.check(list(d1) == list(x + y) and list(d2) == list(y + x), "value", lambda: "the vector of a velocity is %r, not %r" % (list(d1), x + y))
            c = t()
            c.from_dvec(d1)
            s.check(content(c) == x + y and list(c[i] for i in range(6)) == list(x + y) and len(c) == 6, "value", "a velocity read from a vector")
            c.copy_from(b)
            c[1] = 9.0
            s.check(content(b) == y + x and content(a) == x + y and content(c) == (y[0], 9.0, y[2]) + x, "disturbed", "a velocity was changed through another")
            d3 = DVec(6)
            s.check(a.to_dvec(d3) is d3 and list(d3) == list(x + y), "value", "to_dvec into a vector")
            what = "velocity"
        elif k == 22:             # elements
            a = some(lambda o: isinstance(o, (Vec3, Quat, RotMat, TfMat, DualQuat, QuatTrans)))
            c = list(content(a))
            i = s.op(len(c))
            y = s.num()
            key = (i % 3, i // 3) if isinstance(a, (RotMat, TfMat)) else i
            s.check(a[key] == c[i], "value", "an element of %s is read wrongly" % type(a).__name__)
            a[key] = y
            c[i], old = y, c[i]
            s.check(list(content(a)) == c, "value", "setting an element of %s" % type(a).__name__)
            a[key] = old
            s.fault("bad argument")
            raises(IndexError, lambda: a[(3, 0) if isinstance(a, (RotMat, TfMat)) else len(c)], "an element beyond the end")
            raises(IndexError, lambda: Vec3([1, 2]), "a vector of two")
            raises(IndexError, lambda: Quat([1, 2, 3]), "a quaternion of three")
            what = "elements of %s" % type(a).__name__
        elif k == 23:             # the text of an object reads back as the object
            a = some(lambda o: not isinstance(o, AxAng) or norm(content(o)[:3]) > 0.5)      # no rotation has no axis
            w = eval(repr(a))
            q, v = motion(a)
            s.check(type(w) is type(a), "value", lambda: "the text of %s reads %r" % (type(a).__name__, a))
            check_motion("text of " + type(a).__name__, w, q, v, 1e-5)
            if isinstance(a, EulerZYX):
                s.check(norm([x - y for x, y in zip(content(w), content(a))]) < 2e-6, "value", lambda: "the text of %r" % a)
            p = rnd_v()
            s.check(norm([x - y for x, y in zip(content(eval(repr(Vec3(p)))), p)]) < 2e-6, "value", "the text of a point")
            what = "text of " + type(a).__name__
        elif k == 24:             # back to the identity
            a = some(lambda o: isinstance(o, (AxAng, Quat, RotMat) + TF))
            a.set_identity()
            touched(a)
            check_motion("identity", a, (0, 0, 0, 1), (0, 0, 0), 0.0 + 1e-15)
            t = type(a)
            check_motion("new " + t.__name__, t(), (0, 0, 0, 1), (0, 0, 0), 1e-15)
            s.check(content(t()) == content(a) and abs(norm(content(a)[:3]) - 1) < 1e-15 or not isinstance(a, AxAng), "value", "a new AxAng has no unit axis")
            h = Quat(list(rnd_q()))
            h.zero()
            p = Vec3(rnd_v())
            p.zero()
            w = s.pick((TfVel, Twist))()
            w.translational, w.rotational = rnd_v(), rnd_v()
            w.zero()
            s.check(content(h) == (0, 0, 0, 0) and content(p) == (0, 0, 0) and content(w) == (0,) * 6, "value", "zero leaves something")
            if isinstance(a, (Quat, DualQuat, QuatTrans)):
                check_motion("identity()", t.identity(), (0, 0, 0, 1), (0, 0, 0), 1e-15)
            what = "identity of " + t.__name__
        elif k == 25:             # Euler angles set one by one
            a = some(lambda o: isinstance(o, EulerZYX))
            c = list(content(a))
            i = s.op(3)
            y = angle()
            names = ("y", "p", "r") if isinstance(a, EulerRPY) else ("z", "y", "x")
            setattr(a, names[i], y)
            c[i] = y
            touched(a)
            s.check(list(content(a)) == c and [getattr(a, n) for n in names] == c, "value", "%s set" % names[i])
            what = "angle " + names[i]
        elif k == 26:             # how far apart
            a, b = some(lambda o: isinstance(o, RotMat)), some(lambda o: isinstance(o, (Quat, RotMat)))
            q, _ = motion(qmulo(a, b))
            th = 2 * math.atan2(norm(q[:3]), abs(q[3]))
            if th < 3:
                s.check(a.isclose(b, th * 1.01 + 1e-6) and (th < 1e-3 or not a.isclose(b, th * 0.99)), "value", lambda: "two rotations %g apart" % th)
            p, q = tuple(s.num() for _ in range(4)), tuple(s.num() for _ in range(4))
            if norm(p) > 0.1:     # the length of a dual quaternion is a dual number
                d = DualQuat(list(p + q))
                r, e = d.norm_parts()
                s.check(close(r, norm(p), 1e-12) and close(e, sum(x * y for x, y in zip(p, q)) / norm(p), 1e-11), "value", lambda: "the length of a dual quaternion is %r" % ((r, e),))
                d = None
            g = some(lambda o: isinstance(o, AxAng))
            y = 0.1 + abs(s.num())
            c = content(g)
            if norm(c[:3]) > 0.5:
                h = AxAng(g)
                h.axis.copy_from([x * y for x in c[:3]])
                s.check(h.normalize() is h, "value", "normalize gave another object")
                check_motion("normalized axis", h, motion(g)[0], None)
            what = "distance"
        else:
            if pool:
                s.release(pool.pop(s.op(len(pool)))[0])
            what = "release"
        s.maybe_gc()
        d = g = h = None
        src = w = a = b = None
        s.log(what)
        verify(what)
        s.state(sorted(type(p[0]).__name__ for p in pool))
    s.log(repr([[round(v, 7) for v in c] for _, c in pool])[:2000])

"""Models of library functions, and of the repository's own classes, for the symbolic abstract interpreter."""
import math
from fractions import Fraction
from .sai import (Boo, Cont, D, I, INF, Lam, Lin, L, Mat, N, Obj, Opq, Ptr, Scal, StrV, Sum, V, ANYF, clean, targ)
from . import ir
from .saiexec import TRUE, FALSE, ANY, q0
from .saiexpr import Sai as _Sai

VOID = Opq("void")


class Sai(_Sai):
    def libcall(self, q, fn, args, S, fr, e, this):
        name = q.split("::")[-1]
        if q.startswith("std::vector::") or q.startswith("std::list::") or q.startswith("std::deque::") or q.startswith("std::set::"):
            return self.vecmethod(name, fn, args, S, fr, e, this)
        if q.startswith("std::map::"):
            if name in ("size", "empty"):
                return [(S, Scal(self.sym("opaque", "map.size()", "i", 0)) if name == "size" else Boo(None, ANY, ANY))]
            return None
        if q.startswith("std::basic_string") or q.startswith("std::basic_stringstream") or q.startswith("std::basic_o") or q.startswith("std::basic_i"):
            states = self.evargs(args, S, fr)
            if name in ("size", "length", "find", "find_first_of", "rfind"):
                return [(s, Scal(self.sym("opaque", "string.size()", "i", 0))) for s in states]
            if name == "at":
                for s in states:
                    self.throwlib(s, fr, e, "std::out_of_range")
            if name in ("str", "substr", "c_str", "data", "append", "operator+"):
                return [(s, StrV()) for s in states]
            return [(s, self.unknown(fn["ret"], name)) for s in states]
        if q.startswith("arma::"):
            return self.arma(name, q, fn, args, S, fr, e, this)
        if q.startswith("std::") or "::" not in q:
            f = getattr(self, "f_" + name, None)
            if f is not None:
                return f(fn, args, S, fr, e)
            if name in MATH:
                return [(s, self.mathf(s, name, vs, e)) for s, vs in self.argvals(args, S, fr)]
        if q in ("boost::math::quantile",):
            out = []
            for s, vs in self.argvals(args, S, fr):
                self.throwlib(s, fr, e, "std::domain_error")
                out.append((s, Scal(self.sym("op", name, "f"), "f", V | I | N)))
            return out
        if q in ("boost::math::cdf",):
            out = []
            for s, vs in self.argvals(args, S, fr):
                self.throwlib(s, fr, e, "std::domain_error")
                out.append((s, Scal(self.sym("op", name, "f", 0, 1), "f", V)))
            return out
        return None

    # -------------------------------------------------------------- std::vector
    def vecmethod(self, name, fn, args, S, fr, e, this):
        c = self.read(S, this) if this is not None else None
        if not isinstance(c, Cont):
            c = None
        if name in ("size", "length"):
            return [(S, Scal(c.len if c is not None and c.len is not None else self.sym("opaque", "size()", "i", 0)))]
        if name == "empty":
            if c is None or c.len is None:
                return [(S, Boo(None, ANY, ANY))]
            return [(S, self.cmp(S, "==", Scal(c.len), Scal(L(0))))]
        if name in ("begin", "end", "cbegin", "cend", "rbegin", "rend", "data"):
            if c is None or c.len is None or name in ("rbegin", "rend"):
                return [(S, Ptr(None))]
            return [(S, Ptr(this, L(0) if name in ("begin", "cbegin", "data") else c.len))]
        if name in ("reserve", "shrink_to_fit", "capacity", "max_size"):
            return [(s, self.unknown(fn["ret"])) for s in self.evargs(args, S, fr)]
        if name in ("front", "back", "at", "operator[]"):
            if name == "operator[]":
                return [(s, self.read(s, p) if p else self.unknown(fn["ret"])) for s, p in self.index(e, e["o"], args, S, fr)]
            r = self.lv(e, S, fr)
            return [(s, Ptr(p) if p else self.unknown(fn["ret"])) for s, p in r]
        states = self.argvals(args, S, fr)
        out = []
        for s, vs in states:
            c = self.read(s, this) if this is not None else None
            ret = VOID
            if isinstance(c, Cont):
                n = c.len if c.len is not None else self.sym("opaque", "size()", "i", 0)
                if name in ("push_back", "emplace_back"):
                    v = self.coerce(s, self.tov(vs[0]), c.et) if vs else self.default(c.et)
                    if isinstance(v, Cont) and v.kind == "init":
                        v = self.initlist(s, v, c.et)
                    n = self.canon(s, n)
                    if not n.m and n.c < 12:
                        cells = dict(c.cells)
                        cells[n] = (v, True)
                        nc = c.with_(len=n + 1, cells=cells)
                    else:
                        x = self.summ(s, v)
                        f = c
                        # the new element joins the summary; the other tracked elements stay
                        el = x if (c.elem is None and c.tag is None) else self.jsum(c.elem, x)
                        nc = f.with_(len=n + 1, elem=el)
                    self.write(s, this, nc)
                elif name == "pop_back":
                    self.access(s, fr, e["l"], n - 1, n, "pop_back()", e)
                    f = self.fold(s, c)
                    self.addfact(s, n - 1)
                    self.write(s, this, f.with_(len=n - 1))
                elif name == "clear":
                    self.write(s, this, Cont(L(0), None, c.et, c.kind))
                elif name == "resize" or name == "assign" and len(vs) == 2 and isinstance(vs[0], Scal):
                    m = self.canon(s, vs[0].lin) if isinstance(vs[0], Scal) else self.sym("opaque", "size()", "i", 0)
                    if not self.ent(s, m):
                        self.event("alloc", fr, e.get("l"), "size %s may be negative" % self.show(m), "alarm" if self.closed(s, m) else "undecided")
                        self.addfact(s, m)
                    fill = self.coerce(s, self.tov(vs[1]), c.et) if len(vs) > 1 else self.default(c.et)
                    x = self.summ(s, fill)
                    nn = self.canon(s, n)
                    if name == "assign" or nn == L(0):
                        nc = Cont(m, x, c.et, c.kind)
                    elif nn == m:
                        nc = c
                    else:
                        f = self.fold(s, c)
                        el = f.elem if self.ent(s, nn - m) else (self.jsum(f.elem, x) if not (f.elem is None and f.tag is None) else x)
                        nc = f.with_(len=m, elem=el)
                    self.write(s, this, nc)
                elif name in ("erase", "insert"):
                    f = self.fold(s, c)
                    if name == "erase" and len(vs) == 1:
                        self.write(s, this, f.with_(len=self.canon(s, n) - 1))
                    else:
                        nl = self.sym("opaque", "size()", "i", 0)
                        self.write(s, this, f.with_(len=nl, elem=None if name == "insert" else f.elem, tag="?"))
                    ret = Ptr(None)
                elif name == "swap" and args:
                    for s2, p in self.lv(args[0], s, fr):
                        o = self.read(s2, p)
                        self.write(s2, this, o)
                        self.write(s2, p, c)
                elif name == "assign":
                    self.write(s, this, Cont(self.sym("opaque", "size()", "i", 0), None, c.et, c.kind, tag="?"))
                elif name == "operator=":
                    v = vs[0]
                    if isinstance(v, Cont) and v.kind == "init":
                        v = self.initlist(s, v, fn["ret"])
                    self.write(s, this, v)
                else:
                    if not fn.get("const"):
                        self.write(s, this, Cont(self.sym("opaque", "size()", "i", 0), None, c.et, c.kind, tag="?"))
                    ret = self.unknown(fn["ret"], name)
            out.append((s, ret))
        return out

    # -------------------------------------------------------------- std functions
    def minmax(self, which, args, S, fr, e):
        out = []
        for s, vs in self.argvals(args[:2], S, fr):
            a, b = vs[0], vs[1]
            if not isinstance(a, Scal) or not isinstance(b, Scal):
                out.append((s, self.unknown(e["t"], which)))
                continue
            la, lb = self.canon(s, a.lin), self.canon(s, b.lin)
            ma, mb = self.plain(s, a) if a.ty == "f" else V, self.plain(s, b) if b.ty == "f" else V
            ty = "f" if a.ty == "f" else "i"
            # std::min(a, b) returns a when the comparison is false: a NaN first argument wins, a NaN second one loses
            m = ma | (mb & ~N) if ty == "f" else V
            if ty == "f" and ma == N:
                out.append((s, a))
                continue
            if ty == "f" and mb == N:
                out.append((s, a))
                continue
            if m == V and ma == V and mb == V:
                if self.ent(s, lb - la):
                    out.append((s, a if which == "min" else b))
                    continue
                if self.ent(s, la - lb):
                    out.append((s, b if which == "min" else a))
                    continue
            ba, bb = self.bounds(s, la), self.bounds(s, lb)
            f = min if which == "min" else max
            x, y = sorted((la, lb), key=lambda l: (len(l.m), sorted(l.m.items()), l.c))
            exact = ma == V and mb == V
            lo, hi = f(ba[0], bb[0]), f(ba[1], bb[1])
            if not exact and (mb & N):
                # the result may be a itself
                lo, hi = min(lo, ba[0]), max(hi, ba[1])
            if exact:
                l = self.opsym((which, x, y), ty, -INF, INF, "op", (which, (x, y)))
                if lo != -INF:
                    self.addfact(s, l - lo)
                if hi != INF:
                    self.addfact(s, -l + hi)
            else:
                l = self.sym("op", (which, x, y), ty, lo, hi)
            out.append((s, Scal(l, ty, m)))
        return out

    def f_min(self, fn, args, S, fr, e):
        if len(args) > 2:
            return None
        return self.minmax("min", args, S, fr, e)

    def f_max(self, fn, args, S, fr, e):
        if len(args) > 2:
            return None
        return self.minmax("max", args, S, fr, e)

    f_fmin = f_min
    f_fmax = f_max

    def f_isnan(self, fn, args, S, fr, e):
        return [(s, self.maskb(s, vs[0], N)) for s, vs in self.argvals(args, S, fr)]

    def f_isinf(self, fn, args, S, fr, e):
        return [(s, self.maskb(s, vs[0], I)) for s, vs in self.argvals(args, S, fr)]

    def f_isfinite(self, fn, args, S, fr, e):
        return [(s, self.maskb(s, vs[0], V | D)) for s, vs in self.argvals(args, S, fr)]

    def maskb(self, S, v, bits):
        if not isinstance(v, Scal) or v.ty != "f":
            return FALSE if isinstance(v, Scal) and not bits & V else Boo(None, ANY, ANY)
        m = self.mask(S, v)
        if not m & bits:
            return FALSE
        if not m & ~bits:
            return TRUE
        return Boo(None, ((("mask", v, bits),),), ((("mask", v, (ANYF | D) & ~bits),),))

    def f_abs(self, fn, args, S, fr, e):
        out = []
        for s, vs in self.argvals(args, S, fr):
            v = vs[0]
            if not isinstance(v, Scal):
                out.append((s, self.unknown(e["t"], "abs")))
                continue
            l = self.canon(s, v.lin)
            m = self.plain(s, v) if v.ty == "f" else V
            if m == V and self.ent(s, l):
                out.append((s, v))
                continue
            lo, hi = self.bounds(s, l)
            nlo = max(lo, -hi, 0)
            nhi = max(hi, -lo)
            r = self.opsym(("abs", l), v.ty, 0, INF, "op", ("max", (l, -l)))
            if nhi != INF:
                self.addfact(s, -r + nhi)
            out.append((s, Scal(r, v.ty, m)))
        return out

    f_fabs = f_abs

    def mathf(self, S, name, vs, e):
        v = vs[0] if vs else None
        if not all(isinstance(x, Scal) for x in vs):
            return self.unknown(e["t"], name)
        m = 0
        for x in vs:
            m |= self.plain(S, x) if x.ty == "f" else V
        l = self.canon(S, v.lin)
        lo, hi = self.bounds(S, l)
        extra = 0
        rlo, rhi = -INF, INF
        if name == "sqrt":
            if not (lo >= 0 or self.ent(S, l)):
                extra |= N
            rlo = math.sqrt(lo) if 0 <= lo < INF else 0
            rhi = math.sqrt(hi) * (1 + 1e-9) if 0 <= hi < INF else INF
        elif name in ("log", "log10", "log2", "log1p"):
            if lo <= 0:
                extra |= N | I
        elif name == "exp":
            rlo = 0
            if hi <= 700:
                rhi = math.exp(hi) * (1 + 1e-9)
            if lo > -INF and lo > -700:
                rlo = math.exp(lo) * (1 - 1e-9) if lo < 700 else 0
        elif name in ("sin", "cos"):
            rlo, rhi = -1, 1
        elif name in ("acos", "asin"):
            if lo < -1 or hi > 1:
                extra |= N
            rlo, rhi = (0, math.pi) if name == "acos" else (-math.pi / 2, math.pi / 2)
        elif name in ("atan", "atan2"):
            rlo, rhi = -math.pi * 1.0000001, math.pi * 1.0000001
        elif name == "tanh":
            rlo, rhi = -1, 1
        elif name == "pow":
            b = self.canon(S, vs[1].lin)
            intexp = not b.m and float(b.c) == int(b.c)
            if not (lo > 0 or lo >= 0 and not b.m and b.c >= 0 or intexp and b.c >= 0):
                extra |= N | I
            if lo >= 0 or intexp and int(b.c) % 2 == 0:
                rlo = 0
            if intexp and b.c == 2:
                hi2 = max(abs(lo), abs(hi))
                rhi = hi2 * hi2 if hi2 != INF else INF
            # x^0 and 1^y are 1 even for NaN, ignored unless the exponent is the constant 0
        elif name == "fmod":
            b = self.canon(S, vs[1].lin)
            blo, bhi = self.bounds(S, b)
            if blo <= 0 <= bhi:
                extra |= N
            mx = max(abs(blo), abs(bhi))
            rlo = 0 if lo >= 0 else -mx
            rhi = mx if hi > 0 else 0
        elif name in ("floor", "ceil", "round", "trunc", "rint", "nearbyint"):
            fn = {"floor": math.floor, "ceil": math.ceil}.get(name, math.floor)
            rlo = math.floor(lo) if lo not in (INF, -INF) else lo
            rhi = math.ceil(hi) if hi not in (INF, -INF) else hi
        if not (m & (V | I)):
            return Scal(self.sym("op", "missing", "f"), "f", N)
        if m & V:
            m |= extra
        if m & I:
            m |= N
        key = (name,) + tuple(self.canon(S, x.lin) for x in vs) + (m, rlo, rhi)
        r = self.opsym(key, "f", rlo, rhi)
        if name in ("floor", "ceil") and not m & (N | I):
            d = l - r if name == "floor" else r - l
            self.addfact(S, d)
            self.addfact(S, -d + 1)
        return Scal(r, "f", m)

    def f_sort(self, fn, args, S, fr, e):
        out = []
        for s, vs in self.argvals(args, S, fr):
            if isinstance(vs[0], Ptr) and vs[0].path is not None:
                c = self.read(s, vs[0].path)
                if isinstance(c, Cont):
                    self.write(s, vs[0].path, self.fold(s, c))
            out.append((s, VOID))
        return out

    f_reverse = f_stable_sort = f_nth_element = f_partial_sort = f_random_shuffle = f_sort

    def f_swap(self, fn, args, S, fr, e):
        out = []
        for s, p in self.lv(args[0], S, fr):
            for s2, q in self.lv(args[1], s, fr):
                a, b = self.read(s2, p), self.read(s2, q)
                self.write(s2, p, b)
                self.write(s2, q, a)
                out.append((s2, VOID))
        return out

    def f_make_pair(self, fn, args, S, fr, e):
        return [(s, Obj("std::pair", {"first": self.tov(vs[0]), "second": self.tov(vs[1])}, "")) for s, vs in self.argvals(args, S, fr)]

    def f_make_shared(self, fn, args, S, fr, e):
        t = targ(clean(e["t"]))
        return [(s, Ptr((self.newcell(s, Obj(self.rec(t) or t, {}, "")), ()))) for s, vs in self.argvals(args, S, fr)]

    def f_move(self, fn, args, S, fr, e):
        if len(args) == 1:
            return self.ev(args[0], S, fr)
        return None

    f_forward = f_move

    def f_accumulate(self, fn, args, S, fr, e):
        return [(s, self.unknown(e["t"], "sum")) for s, vs in self.argvals(args, S, fr)]

    def f_rand(self, fn, args, S, fr, e):
        return [(S, Scal(self.sym("opaque", "rand()", "i", 0)))]

    def f_getenv(self, fn, args, S, fr, e):
        return [(s, StrV()) for s in self.evargs(args, S, fr)]

    def f_exit(self, fn, args, S, fr, e):
        return []

    f_abort = f_terminate = f_exit

    def f_omp_get_max_threads(self, fn, args, S, fr, e):
        return [(S, Scal(self.sym("opaque", "threads", "i", 1)))]

    def f_back_inserter(self, fn, args, S, fr, e):
        return [(s, Ptr(p)) for s, p in self.lv(args[0], S, fr)]

    # -------------------------------------------------------------- arma
    def arma(self, name, q, fn, args, S, fr, e, this):
        out = []
        if this is not None:
            for s, vs in self.argvals(args, S, fr):
                v = self.read(s, this)
                if name in ("t", "st") and isinstance(v, Mat):
                    out.append((s, Mat(v.c, v.r, v.elem)))
                elif name in ("zeros", "ones", "fill", "eye", "print"):
                    out.append((s, VOID))
                else:
                    out.append((s, self.unknown(fn["ret"], name)))
            return out
        for s, vs in self.argvals(args, S, fr):
            v = vs[0] if vs else None
            if name in ("inv", "pinv", "inv_sympd", "sqrt", "real", "diagmat", "chol", "exp", "abs", "log", "trans"):
                if name in ("inv", "pinv", "chol", "inv_sympd") and len(args) > 1 and isinstance(vs[1], Mat):
                    # inv(B, A): no exception, false on failure
                    src = vs[1]
                    for s2, p in self.lv(args[0], s, fr):
                        no = s2.fork()
                        self.write(no, p, Mat(L(0), L(0)))
                        self.write(s2, p, Mat(src.c, src.r) if name == "pinv" else Mat(src.r, src.c))
                        out += [(no, FALSE), (s2, TRUE)]
                    continue
                if name in ("inv", "chol", "inv_sympd"):
                    self.throwlib(s, fr, e, "std::runtime_error (%s)" % name)
                if name == "diagmat" and isinstance(v, Mat):
                    n = v.r if v.c == L(1) else v.c if v.r == L(1) else None
                    out.append((s, Mat(n, n) if n is not None else Mat(v.r, v.c)))
                    continue
                if name == "trans" and isinstance(v, Mat):
                    out.append((s, Mat(v.c, v.r)))
                    continue
                out.append((s, Mat(v.r, v.c) if isinstance(v, Mat) else self.unknown(e["t"], name)))
            elif name in ("eye", "ones", "zeros", "randu", "randn"):
                out.append((s, self.mkmat(s, e["t"] if "Mat" in e["t"] or "Col" in e["t"] or "Row" in e["t"] else "arma::Mat<double>", vs)))
            elif name in ("dot", "rcond", "det", "norm"):
                out.append((s, Scal(self.sym("op", name, "f"), "f", ANYF)))
            elif name in ("max", "min", "mean", "sum", "stddev"):
                if isinstance(v, Mat) and self.tkind(e["t"]) == "f":
                    out.append((s, Scal(self.sym("op", name, "f"), "f", ANYF)))
                elif isinstance(v, Mat):
                    dim1 = len(vs) > 1 and isinstance(vs[1], Scal) and vs[1].lin == L(1)
                    out.append((s, Mat(v.r, L(1)) if dim1 else Mat(L(1), v.c)))
                else:
                    out.append((s, self.unknown(e["t"], name)))
            elif name == "eig_sym":
                for i, a in enumerate(args[:2]):
                    for s2, p in self.lv(a, s, fr):
                        src = vs[2] if len(vs) > 2 else None
                        if isinstance(src, Mat):
                            self.write(s2, p, Mat(src.r, L(1)) if i == 0 else Mat(src.r, src.c))
                out.append((s, Scal(self.sym("opaque", "ok", "i", 0, 1))))
            else:
                out.append((s, self.unknown(e["t"], name)))
        return out


MATH = {"sqrt", "exp", "log", "log10", "log2", "log1p", "sin", "cos", "tan", "acos", "asin", "atan", "atan2", "tanh", "pow", "fmod", "floor", "ceil", "round",
        "trunc", "rint", "nearbyint", "sqrtf", "expf", "logf", "powf"}


# ------------------------------------------------------------------ gridpp's own classes
def gdims(A, o):
    key = ("dims", o.cls, o.name)
    if key not in A.vn:
        lo = 1 if A.nonempty else 0
        nm = o.name or "grid"
        if o.cls == "gridpp::Grid":
            A.vn[key] = (A.sym("dim", nm + ".ny", "i", lo), A.sym("dim", nm + ".nx", "i", lo))
        else:
            A.vn[key] = (A.sym("dim", nm + ".n", "i", lo),)
    return A.vn[key]


FVEC = "std::vector<float, std::allocator<float>>"


def inv_grid(A, o, n):
    if not o.name:
        return None
    ny, nx = gdims(A, o)
    if n in ("mLats", "mLons", "mElevs", "mLafs"):
        m = V if n in ("mLats", "mLons") else ANYF
        lo, hi = (-90, 90) if n == "mLats" and False else (-INF, INF)
        return Cont(ny, Cont(nx, Sum("f", m, lo, hi), "float"), FVEC)
    if n == "mX":
        return Scal(nx)
    if n == "mTree":
        return Obj("gridpp::KDTree", {}, o.name + ".tree")
    return None


def inv_points(A, o, n):
    if not o.name:
        return None
    (k,) = gdims(A, o)
    if n in ("mLats", "mLons", "mElevs", "mLafs"):
        return Cont(k, Sum("f", V if n in ("mLats", "mLons") else ANYF), "float")
    if n == "mTree":
        t = Obj("gridpp::KDTree", {}, o.name + ".tree")
        A.vn[("dims", t.cls, t.name)] = (k,)
        return t
    return None


def inv_tree(A, o, n):
    if not o.name:
        return None
    (k,) = gdims(A, o)
    if n in ("mLats", "mLons", "mX", "mY", "mZ"):
        return Cont(k, Sum("f", V), "float")
    if n == "mType":
        key = ("type", o.name)
        if key not in A.vn:
            A.vn[key] = A.sym("dim", o.name + ".type", "i", 0)
        return Scal(A.vn[key])
    return None


INV = {"gridpp::Grid": inv_grid, "gridpp::Points": inv_points, "gridpp::KDTree": inv_tree}


def objdims(A, S, this):
    """Extents of the Grid/Points a path denotes."""
    o = A.read(S, this) if this is not None else None
    if not isinstance(o, Obj):
        return None
    lat = A.field(S, o, "mLats")
    if not isinstance(lat, Cont) or lat.len is None:
        return None
    if o.cls == "gridpp::Points" or o.cls == "gridpp::KDTree":
        return (lat.len,)
    inner = lat.elem
    if not isinstance(inner, Cont) or inner.len is None:
        return None
    return (lat.len, inner.len)


def objtype(A, S, o):
    """Coordinate type (as a value) of a Grid, Points, KDTree or Point."""
    if not isinstance(o, Obj):
        return None
    if o.cls == "gridpp::Point":
        v = A.field(S, o, "type")
    elif o.cls == "gridpp::KDTree":
        v = A.field(S, o, "mType")
    else:
        t = A.field(S, o, "mTree")
        v = A.field(S, t, "mType") if isinstance(t, Obj) else None
    return v.lin if isinstance(v, Scal) else None


def mktree(vs, i, n):
    """The search tree of a newly built Grid or Points whose i-th constructor argument is the coordinate type."""
    f = {}
    if len(vs) > i and isinstance(vs[i], Scal):
        f["mType"] = vs[i]
    if n is not None:
        f.update({k: Cont(n, Sum("f", V), "float") for k in ("mLats", "mLons", "mX", "mY", "mZ")})
    return Obj("gridpp::KDTree", f, "")


SPATIAL = ("gridpp::Grid", "gridpp::Points", "gridpp::KDTree")


def located(A):
    """The location sets among the inputs of the function under analysis."""
    if not hasattr(A, "_located"):
        f = A.root.func
        out = [Obj(clean(p["t"]), {}, p["n"]) for p in f.params if clean(p["t"]) in SPATIAL and p["n"]]
        if f.cls in SPATIAL and not f.static and not f.d.get("ctor"):
            out.append(Obj(f.cls, {}, "this"))
        A._located = out
    return A._located


def lookup(A, S, fr, e, this, fn=None, args=None):
    """A search in a tree converts the coordinates it is given, which throws for coordinates that do not fit the type of the tree.
    Whatever else the search throws is found in its body."""
    if S.omp and fn and not A.mute:
        f = A.p.funcs.get(fn["m"])
        if f is not None and f.body is not None and throws(A, f):
            A.searching += 1
            try:
                A.inline(f, args, S.fork(), fr, e, this=this)
            finally:
                A.searching -= 1
    if not S.omp or len(located(A)) < 2:
        return
    t = objtype(A, S, A.read(S, this)) if this is not None else None
    bad = False
    for o in located(A):
        x = objtype(A, S, o)
        if t is None or x is None:
            A.event("lookup", fr, e.get("l"), "coordinate type not known", "undecided")
            return
        if not A.eqzero(S, t - x):
            bad = True
    if bad:
        A.throw(S.fork(), fr, e.get("l"), "invalid_argument")
    else:
        A.event("lookup", fr, e.get("l"), "coordinate types agree", "ok")


def throws(A, f):
    """Does the function, or one that it calls, throw something other than the exception about coordinates?"""
    memo = A.p.__dict__.setdefault("_throws", {})
    if f.m in memo:
        return memo[f.m]
    memo[f.m] = False
    if f.q == "gridpp::convert_coordinates":
        return False
    r = False
    for n in ir.walk(f.body):
        if n.get("k") == "Throw":
            r = True
        elif n.get("k") in ("Call", "MCall"):
            g = A.p.funcs.get((n.get("fn") or {}).get("m"))
            r = r or (g is not None and g.body is not None and throws(A, g))
        if r:
            break
    memo[f.m] = r
    return r


def m_grid_size(A, S, fr, e, fn, args, this):
    d = objdims(A, S, this)
    if d is None:
        return None
    return [(S, Cont(L(2), None, "int", "vec", {L(0): (Scal(d[0]), True), L(1): (Scal(d[1]), True)}))]


def m_points_size(A, S, fr, e, fn, args, this):
    d = objdims(A, S, this)
    if d is None:
        return None
    return [(S, Scal(d[0]))]


def rng(A, n, name):
    s = A.sym("opaque", name, "i", 0)
    return s


def outdist(A, S, fr, args, i, n):
    """A non-const reference argument that receives one distance per neighbour."""
    for s, p in A.lv(args[i], S, fr):
        A.write(s, p, Cont(n, Sum("f", V, 0), "float"))
        return s
    return S


def m_grid_nn(A, S, fr, e, fn, args, this):
    d = objdims(A, S, this)
    if d is None:
        return None
    lookup(A, S, fr, e, this, fn, args)
    out = []
    for s in A.evargs(args, S, fr):
        y, x = A.sym("opaque", "nearest.y", "i", 0), A.sym("opaque", "nearest.x", "i", 0)
        if A.ent(s, d[0] - 1) and A.ent(s, d[1] - 1):
            A.addfact(s, d[0] - y - 1)
            A.addfact(s, d[1] - x - 1)
            out.append((s, Cont(L(2), None, "int", "vec", {L(0): (Scal(y), True), L(1): (Scal(x), True)})))
        else:
            s1 = s.fork()
            if A.addfact(s1, d[0] - 1) and A.addfact(s1, d[1] - 1):
                A.addfact(s1, d[0] - y - 1)
                A.addfact(s1, d[1] - x - 1)
                out.append((s1, Cont(L(2), None, "int", "vec", {L(0): (Scal(y), True), L(1): (Scal(x), True)})))
            s2 = s
            if A.addfact(s2, -d[0]) :
                out.append((s2, Cont(L(0), None, "int", "vec")))
    return out


def m_grid_neigh(A, S, fr, e, fn, args, this):
    d = objdims(A, S, this)
    if d is None:
        return None
    lookup(A, S, fr, e, this, fn, args)
    out = []
    name = fn["q"].split("::")[-1]
    for s, vs in A.argvals(args, S, fr):
        n = A.sym("opaque", "neighbours", "i", 0)
        if name == "get_closest_neighbours" and len(vs) > 2 and isinstance(vs[2], Scal):
            A.addfact(s, vs[2].lin - n) if A.ent(s, vs[2].lin) else None
        inner = Cont(L(2), Sum("i", V, 0, INF), "int", "vec", {L(0): (Sum("i", V, 0, INF, d[0] - 1), True), L(1): (Sum("i", V, 0, INF, d[1] - 1), True)})
        el = Neigh(inner)
        out.append((s, Cont(n, el, "std::vector<int, std::allocator<int>>", "vec")))
        if name.endswith("with_distance"):
            outdist(A, s, fr, args, 3, n)
    return out


def Neigh(c):
    return c


def m_points_nn(A, S, fr, e, fn, args, this):
    d = objdims(A, S, this)
    if d is None:
        return None
    lookup(A, S, fr, e, this, fn, args)
    out = []
    for s in A.evargs(args, S, fr):
        y = A.sym("opaque", "nearest", "i", -1)
        if A.ent(s, d[0] - 1):
            A.addfact(s, y)
        A.addfact(s, d[0] - y - 1)
        out.append((s, Scal(y)))
    return out


def m_points_neigh(A, S, fr, e, fn, args, this):
    d = objdims(A, S, this)
    if d is None:
        return None
    lookup(A, S, fr, e, this, fn, args)
    out = []
    name = fn["q"].split("::")[-1]
    for s, vs in A.argvals(args, S, fr):
        n = A.sym("opaque", "neighbours", "i", 0)
        A.addfact(s, d[0] - n)
        if name == "get_closest_neighbours" and len(vs) > 2 and isinstance(vs[2], Scal):
            A.addfact(s, vs[2].lin - n) if A.ent(s, vs[2].lin) else None
        out.append((s, Cont(n, Sum("i", V, 0, INF, d[0] - 1), "int", "vec")))
        if name.endswith("with_distance"):
            outdist(A, s, fr, args, 3, n)
    return out


def m_num(A, S, fr, e, fn, args, this):
    lookup(A, S, fr, e, this, fn, args)
    return [(s, Scal(A.sym("opaque", "neighbours", "i", 0))) for s in A.evargs(args, S, fr)]


def m_skip(A, S, fr, e, fn, args, this):
    return [(s, VOID) for s in A.evargs(args, S, fr)]


def m_clock(A, S, fr, e, fn, args, this):
    return [(s, Scal(A.sym("opaque", "clock", "f"), "f", V)) for s in A.evargs(args, S, fr)]


def m_corr(A, S, fr, e, fn, args, this):
    o = A.read(S, this) if this else None
    out = []
    for s, vs in A.argvals(args, S, fr):
        if len(vs) > 1 and isinstance(vs[1], Cont):
            out.append((s, Cont(vs[1].len if vs[1].len is not None else A.sym("opaque", "size()", "i", 0), Sum("f", V, 0, 1), "float")))
        else:
            out.append((s, Scal(A.sym("opaque", "rho", "f", 0, 1), "f", V)))
    return out


def m_locdist(A, S, fr, e, fn, args, this):
    return [(s, Scal(A.sym("opaque", "localization distance", "f", 0), "f", V)) for s in A.evargs(args, S, fr)]


def m_convert(A, S, fr, e, fn, args, this):
    """convert_coordinates writes its reference arguments."""
    if len(args) != 6 and len(args) != 7:
        return None
    return None


def c_grid(A, S, vs, e, fr):
    if not vs:
        return Obj("gridpp::Grid", {"mLats": Cont(L(0), Cont(L(0), None, "float"), FVEC), "mLons": Cont(L(0), Cont(L(0), None, "float"), FVEC), "mX": Scal(L(0))}, "")
    if len(vs) >= 2 and isinstance(vs[0], Cont) and isinstance(vs[1], Cont):
        ln = vs[0].len
        inner = vs[0].elem
        built(A, S, vs, 4, e, fr, "Grid")
        if isinstance(inner, Cont):
            mk = lambda m: Cont(ln, Cont(inner.len, Sum("f", m), "float"), FVEC)
            return Obj("gridpp::Grid", {"mLats": mk(V), "mLons": mk(V), "mElevs": mk(ANYF), "mLafs": mk(ANYF), "mX": Scal(inner.len) if inner.len is not None else Scal(A.sym("opaque", "nx", "i", 0)), "mTree": mktree(vs, 4, None)}, "")
    if len(vs) == 1 and isinstance(vs[0], Obj):
        return vs[0]
    return Obj("gridpp::Grid", {}, "")


def c_points(A, S, vs, e, fr):
    if not vs:
        z = Cont(L(0), None, "float")
        return Obj("gridpp::Points", {"mLats": z, "mLons": z, "mElevs": z, "mLafs": z}, "")
    if isinstance(vs[0], Cont) and vs[0].len is not None:
        built(A, S, vs, 4, e, fr, "Points")
        mk = lambda m: Cont(vs[0].len, Sum("f", m), "float")
        return Obj("gridpp::Points", {"mLats": mk(V), "mLons": mk(V), "mElevs": mk(ANYF), "mLafs": mk(ANYF), "mTree": mktree(vs, 4, vs[0].len)}, "")
    if isinstance(vs[0], Obj) and vs[0].cls == "gridpp::KDTree":
        lat = A.field(S, vs[0], "mLats")
        if isinstance(lat, Cont) and lat.len is not None:
            mk = lambda m: Cont(lat.len, Sum("f", m), "float")
            return Obj("gridpp::Points", {"mLats": mk(V), "mLons": mk(V), "mElevs": mk(ANYF), "mLafs": mk(ANYF), "mTree": vs[0]}, "")
    if len(vs) == 1 and isinstance(vs[0], Obj):
        return vs[0]
    return None


def built(A, S, vs, i, e, fr, what):
    """A location made from coordinates: where those come from a location set, it keeps the type of that set."""
    if not located(A) or any(isinstance(v, Scal) and not v.lin.m for v in vs[:2]):
        return
    if len(vs) <= i or not isinstance(vs[i], Scal):
        A.event("point", fr, e.get("l"), what, "undecided")
        return
    ts = [objtype(A, S, o) for o in located(A)]
    if None in ts:
        A.event("point", fr, e.get("l"), what, "undecided")
    elif any(A.eqzero(S, t - vs[i].lin) for t in ts):
        A.event("point", fr, e.get("l"), what, "ok")
    else:
        if S.omp:
            A.throw(S.fork(), fr, e.get("l"), "invalid_argument")
        A.event("point", fr, e.get("l"), "%s of type %s" % (what, A.show(A.canon(S, vs[i].lin))), "alarm")


def c_point(A, S, vs, e, fr):
    if len(vs) == 1:
        return vs[0] if isinstance(vs[0], Obj) else None
    if len(vs) not in (5, 8) or not all(isinstance(v, Scal) for v in vs):
        return None
    if len(vs) == 5:
        built(A, S, vs, 4, e, fr, "Point")
    f = dict(zip(("lat", "lon", "elev", "laf", "type"), vs))
    for i, n in enumerate(("x", "y", "z")):
        f[n] = vs[5 + i] if len(vs) == 8 else Scal(A.sym("opaque", n, "f"), "f", V)
    return Obj("gridpp::Point", f, "")


def c_copy(A, S, vs, e, fr):
    if len(vs) == 1 and isinstance(vs[0], Obj):
        return vs[0]
    return None


def c_tree(A, S, vs, e, fr):
    if len(vs) == 1 and isinstance(vs[0], Obj):
        return vs[0]
    if vs and isinstance(vs[0], Cont) and vs[0].len is not None:
        built(A, S, vs, 2, e, fr, "KDTree")
        return mktree(vs, 2, vs[0].len)
    return mktree(vs, 0, None)


def m_topoints(A, S, fr, e, fn, args, this):
    d = objdims(A, S, this)
    if d is None:
        return None
    n = A.iarith(S, "*", d[0], d[1], e, fr).lin
    mk = lambda m: Cont(n, Sum("f", m), "float")
    f = {"mLats": mk(V), "mLons": mk(V), "mElevs": mk(ANYF), "mLafs": mk(ANYF)}
    t = A.field(S, A.read(S, this), "mTree")
    if isinstance(t, Obj):
        f["mTree"] = t
    return [(S, Obj("gridpp::Points", f, ""))]


def m_get_box(A, S, fr, e, fn, args, this):
    """Analysed for what it may throw; then: true means that the corners lie inside the grid."""
    d = objdims(A, S, this)
    if d is None or A.root.func.q == "gridpp::Grid::get_box":
        return None
    f = A.p.funcs.get(fn["m"])
    if f is None or f.body is None or len(args) != 6:
        return None
    if not A.mute:
        A.inline(f, args, S.fork(), fr, e, this=this)
    out = []
    for s in A.evargs(args[:2], S, fr):
        no, yes = s.fork(), s
        paths = []
        for i, n in enumerate(("Y1", "X1", "Y2", "X2")):
            (_, p), = A.lv(args[2 + i], s, fr)
            A.write(no, p, Scal(A.sym("opaque", n, "i")))
            x = A.sym("opaque", n, "i", 0)
            A.write(yes, p, Scal(x))
            paths.append(x)
        ok = A.addfact(yes, d[0] - 2) and A.addfact(yes, d[1] - 2)
        for i, x in enumerate(paths):
            ok = ok and A.addfact(yes, d[i % 2] - 1 - x)
        out.append((no, FALSE))
        if ok:
            out.append((yes, TRUE))
    return out


MODELS = {
    "gridpp::Grid::get_box": m_get_box,
    "gridpp::Grid::size": m_grid_size,
    "gridpp::Points::size": m_points_size,
    "gridpp::KDTree::size": m_points_size,
    "gridpp::Grid::get_nearest_neighbour": m_grid_nn,
    "gridpp::Grid::get_neighbours": m_grid_neigh,
    "gridpp::Grid::get_neighbours_with_distance": m_grid_neigh,
    "gridpp::Grid::get_closest_neighbours": m_grid_neigh,
    "gridpp::Grid::get_num_neighbours": m_num,
    "gridpp::Grid::to_points": m_topoints,
    "gridpp::Points::get_nearest_neighbour": m_points_nn,
    "gridpp::Points::get_neighbours": m_points_neigh,
    "gridpp::Points::get_neighbours_with_distance": m_points_neigh,
    "gridpp::Points::get_closest_neighbours": m_points_neigh,
    "gridpp::Points::get_num_neighbours": m_num,
    "gridpp::KDTree::get_neighbours": m_points_neigh,
    "gridpp::KDTree::get_neighbours_with_distance": m_points_neigh,
    "gridpp::KDTree::get_closest_neighbours": m_points_neigh,
    "gridpp::KDTree::get_nearest_neighbour": m_points_nn,
    "gridpp::KDTree::get_num_neighbours": m_num,
    "gridpp::debug": m_skip,
    "gridpp::warning": m_skip,
    "gridpp::future_deprecation_warning": m_skip,
    "gridpp::clock": m_clock,
    "gridpp::StructureFunction::corr": m_corr,
    "gridpp::StructureFunction::corr_background": m_corr,
    "gridpp::StructureFunction::localization_distance": m_locdist,
    ("ctor", "gridpp::Grid"): c_grid,
    ("ctor", "gridpp::Points"): c_points,
    ("ctor", "gridpp::KDTree"): c_tree,
    ("ctor", "gridpp::Point"): c_point,
}


def make(prog, nonempty=True, models=None, drop=()):
    m = {k: v for k, v in MODELS.items() if k not in drop}
    if models:
        m.update(models)
    return Sai(prog, m, INV, nonempty)

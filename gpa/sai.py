"""Symbolic abstract interpreter over the resolved program.

A function is interpreted abstractly, once per entry, over all its inputs: scalars are linear expressions over
symbols (array extents, parameters, loop counters, opaque values) together with linear inequalities that hold on
the path; containers are an extent plus a summary of their elements plus the elements the path is looking at;
floats also carry the set {valid, NaN, infinite, never assigned}. Calls to functions of the repository are
interpreted in place with their actual arguments. Loops are closed by candidate invariants that are kept only
when every way round the loop preserves them. Nothing is executed and no solver is used: entailment is a bounded
elimination over the inequalities of the path."""
import time
import re
from . import deps
from fractions import Fraction
from . import ir
from .ir import walk

V, N, I, D = 1, 2, 4, 8
ANYF = V | N | I
INF = float("inf")
U64 = 1 << 63


# ------------------------------------------------------------------ linear expressions
class Lin:
    __slots__ = ("c", "m", "_h")

    def __init__(self, c=0, m=None):
        self.c = c
        self.m = m or {}
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.c, frozenset(self.m.items())))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.m == o.m

    def __ne__(self, o):
        return not self == o

    def __add__(self, o):
        if not isinstance(o, Lin):
            return Lin(self.c + o, self.m)
        if not o.m:
            return Lin(self.c + o.c, self.m)
        m = dict(self.m)
        for k, v in o.m.items():
            x = m.get(k, 0) + v
            if x:
                m[k] = x
            else:
                m.pop(k, None)
        return Lin(self.c + o.c, m)

    def __neg__(self):
        return Lin(-self.c, {k: -v for k, v in self.m.items()})

    def __sub__(self, o):
        if not isinstance(o, Lin):
            return Lin(self.c - o, self.m)
        return self + (-o)

    def scale(self, k):
        if k == 0:
            return Lin(0)
        return Lin(self.c * k, {s: v * k for s, v in self.m.items()})

    @property
    def const(self):
        return not self.m

    def single(self):
        """The symbol when this is exactly one symbol."""
        if self.c == 0 and len(self.m) == 1:
            (s, v), = self.m.items()
            if v == 1:
                return s
        return None


def L(c):
    return Lin(c)


def quot(v, a):
    if v.__class__ is float or a.__class__ is float:
        v, a = Fraction(v), Fraction(a)
    q = Fraction(v, a)
    return q.numerator if q.denominator == 1 else q


class Sym:
    __slots__ = ("id", "kind", "name", "ty", "lo", "hi", "info", "origin")

    def __init__(self, id, kind, name, ty, lo, hi, info=None, origin=None):
        self.id, self.kind, self.name, self.ty, self.lo, self.hi, self.info, self.origin = id, kind, name, ty, lo, hi, info, origin


# ------------------------------------------------------------------ abstract values
class Scal:
    __slots__ = ("lin", "ty", "mask")

    def __init__(self, lin, ty="i", mask=V):
        self.lin, self.ty, self.mask = lin, ty, mask

    def __eq__(self, o):
        return isinstance(o, Scal) and self.lin == o.lin and self.mask == o.mask

    def __hash__(self):
        return hash((self.lin, self.mask))


class Sum:
    """Some value out of a set: used for elements of containers."""
    __slots__ = ("ty", "mask", "lo", "hi", "ub", "tag")

    def __init__(self, ty="f", mask=ANYF, lo=-INF, hi=INF, ub=None, tag=None):
        self.ty, self.mask, self.lo, self.hi, self.ub, self.tag = ty, mask, lo, hi, ub, tag

    def __eq__(self, o):
        return isinstance(o, Sum) and (self.ty, self.mask, self.lo, self.hi, self.ub, self.tag) == (o.ty, o.mask, o.lo, o.hi, o.ub, o.tag)

    def __hash__(self):
        return hash((self.ty, self.mask, self.lo, self.hi, self.ub))


class Boo:
    """Truth value: val when known, otherwise the facts that hold when true (pos) / false (neg)."""
    __slots__ = ("val", "pos", "neg")

    def __init__(self, val=None, pos=(), neg=()):
        self.val, self.pos, self.neg = val, tuple(pos), tuple(neg)

    def __eq__(self, o):
        return isinstance(o, Boo) and self.val == o.val and self.pos == o.pos and self.neg == o.neg

    def __hash__(self):
        return hash((self.val, self.pos))


class Cont:
    """Container: extent, element summary, and individually tracked elements (index -> (value, written))."""
    __slots__ = ("len", "elem", "cells", "et", "kind", "tag", "_vs")

    def __init__(self, len_, elem, et, kind="vec", cells=None, tag=None):
        self.len, self.elem, self.et, self.kind, self.cells, self.tag = len_, elem, et, kind, cells or {}, tag

    def with_(self, **kw):
        c = Cont(self.len, self.elem, self.et, self.kind, self.cells, self.tag)
        for k, v in kw.items():
            setattr(c, k, v)
        return c

    def __eq__(self, o):
        return isinstance(o, Cont) and self.len == o.len and self.elem == o.elem and self.cells == o.cells

    def __hash__(self):
        return hash(self.len)


class Mat:
    """arma matrix or vector: extents and an element summary."""
    __slots__ = ("r", "c", "elem")

    def __init__(self, r, c, elem=None):
        self.r, self.c, self.elem = r, c, elem or Sum("f", ANYF)

    def __eq__(self, o):
        return isinstance(o, Mat) and self.r == o.r and self.c == o.c and self.elem == o.elem

    def __hash__(self):
        return hash((self.r, self.c))


class Obj:
    __slots__ = ("cls", "fields", "name", "_vs")

    def __init__(self, cls, fields=None, name=""):
        self.cls, self.fields, self.name = cls, fields or {}, name

    def with_(self, n, v):
        f = dict(self.fields)
        f[n] = v
        return Obj(self.cls, f, self.name)

    def __eq__(self, o):
        return isinstance(o, Obj) and self.cls == o.cls and self.fields == o.fields and self.name == o.name

    def __hash__(self):
        return hash(self.cls)


class Ptr:
    """Pointer, reference or iterator: where it points, and (iterators) at which offset."""
    __slots__ = ("path", "off", "ct")

    def __init__(self, path, off=None, ct=None):
        self.path, self.off, self.ct = path, off, ct

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.path == o.path and self.off == o.off

    def __hash__(self):
        return hash(self.path)


class Opq:
    __slots__ = ("t",)

    def __init__(self, t=""):
        self.t = t

    def __eq__(self, o):
        return isinstance(o, Opq) and self.t == o.t

    def __hash__(self):
        return 7


class StrV:
    __slots__ = ("s",)

    def __init__(self, s=None):
        self.s = s

    def __eq__(self, o):
        return isinstance(o, StrV) and self.s == o.s

    def __hash__(self):
        return hash(self.s)


class Lam:
    __slots__ = ("node", "frame")

    def __init__(self, node, frame):
        self.node, self.frame = node, frame

    def __eq__(self, o):
        return isinstance(o, Lam) and self.node is o.node

    def __hash__(self):
        return id(self.node)


# ------------------------------------------------------------------ types
def clean(t):
    t = t.strip()
    while t.endswith("&"):
        t = t[:-1].strip()
    if t.startswith("const "):
        t = t[6:]
    if t.endswith(" const"):
        t = t[:-6]
    return t.strip()


def targ(t):
    """First template argument."""
    i = t.index("<") + 1
    d = 0
    for j in range(i, len(t)):
        ch = t[j]
        if ch == "<":
            d += 1
        elif ch == ">":
            if d == 0:
                return t[i:j].strip()
            d -= 1
        elif ch == "," and d == 0:
            return t[i:j].strip()
    return t[i:].strip()


INTS = {"int", "long", "unsigned long", "unsigned int", "size_t", "short", "unsigned short", "long long", "unsigned long long", "char",
        "unsigned char", "signed char", "std::size_t", "std::vector::size_type", "arma::uword", "time_t", "ptrdiff_t"}
UNSIGNED = {"unsigned long", "unsigned int", "size_t", "unsigned long long", "arma::uword"}
FLOATS = {"float", "double", "long double"}


class StopPaths(Exception):
    pass


class State:
    __slots__ = ("store", "facts", "sub", "refine", "nes", "memo", "pos", "preds", "omp", "tries", "guards", "heap", "kept")

    def __init__(self):
        self.store = {}
        self.facts = {}      # sym -> tuple of Lin (each >= 0)
        self.sub = {}        # sym -> Lin (equalities in solved form)
        self.refine = {}     # Lin -> mask
        self.nes = ()        # Lin != 0
        self.preds = {}
        self.memo = {}
        self.pos = set()
        self.omp = 0
        self.tries = ()
        self.kept = frozenset()     # goals (facts about the inputs) that hold although a join lost the reason
        self.guards = frozenset()   # conditions passed that the analysis could make nothing of

    def fork(self):
        s = State()
        s.store = dict(self.store)
        s.facts = dict(self.facts)
        s.sub = dict(self.sub)
        s.refine = dict(self.refine)
        s.nes = self.nes
        s.preds = dict(self.preds)
        s.memo = {}
        s.pos = set(self.pos) if len(self.pos) < 300 else set()
        s.omp = self.omp
        s.tries = self.tries
        s.guards = self.guards
        s.kept = self.kept
        return s


class Event:
    __slots__ = ("kind", "func", "file", "line", "text", "verdict", "chain", "data")

    def __init__(self, kind, func, file, line, text, verdict, chain, data=None):
        self.kind, self.func, self.file, self.line, self.text, self.verdict, self.chain, self.data = kind, func, file, line, text, verdict, chain, data


class Frame:
    _n = 0

    def __init__(self, func, parent, this=None):
        Frame._n += 1
        self.id = Frame._n
        self.func = func
        self.parent = parent
        self.this = this
        self.vars = {}
        self.depth = parent.depth + 1 if parent else 0
        self.line = 0
        self.lexical = None
        self.call = None

    def chain(self):
        out = []
        f = self
        while f:
            out.append((f.func.q, f.line))
            f = f.parent
        return out


class Analyzer:
    MAXP = 40
    MAXDEPTH = 14
    BUDGET = 400000
    DEADLINE = None
    goals = None

    def __init__(self, prog, models=None, inv=None, nonempty=True):
        self.p = prog
        self.syms = []
        self.vn = {}
        self.events = []
        self.mute = 0
        self.searching = 0
        self.mute_exits = False
        self.ncell = 0
        self.models = models or {}
        self.contracts = {}
        self.guardinfo = {}
        self.deps = deps.Deps()
        self.inv = inv or {}
        self.nonempty = nonempty
        self.active = []
        self.steps = 0
        self.unmodelled = {}
        self.loopn = 0
        self.wrapsym = None
        self.inlined = set()
        self.globalcells = {}
        self.truncated = 0
        self.hooks = {}

    # -------------------------------------------------------------- symbols
    def sym(self, kind, name, ty="i", lo=-INF, hi=INF, info=None, origin=None):
        s = Sym(len(self.syms), kind, name, ty, lo, hi, info, origin)
        self.syms.append(s)
        return Lin(0, {s.id: 1})

    def opsym(self, key, ty, lo, hi, kind="op", info=None):
        if key in self.vn:
            return self.vn[key]
        l = self.sym(kind, key, ty, lo, hi, info)
        self.vn[key] = l
        return l

    def show(self, l):
        if not isinstance(l, Lin):
            return str(l)
        out = []
        for s, v in sorted(l.m.items()):
            n = self.symname(self.syms[s])
            out.append(n if v == 1 else "-%s" % n if v == -1 else "%s*%s" % (v, n))
        if l.c or not out:
            c = l.c
            if isinstance(c, Fraction) and c.denominator == 1:
                c = int(c)
            out.append(str(c))
        return " + ".join(out).replace("+ -", "- ")

    def symname(self, s):
        if isinstance(s.name, str):
            return s.name
        if isinstance(s.name, tuple):
            return "%s(%s)" % (s.name[0], ", ".join(self.show(x) if isinstance(x, Lin) else str(x) for x in s.name[1:]))
        return "s%d" % s.id

    # -------------------------------------------------------------- facts
    def canon(self, S, l):
        if not S.sub:
            return l
        for _ in range(8):
            hit = [s for s in l.m if s in S.sub]
            if not hit:
                return l
            for s in hit:
                v = l.m.get(s)
                if v:
                    m = dict(l.m)
                    del m[s]
                    l = Lin(l.c, m) + S.sub[s].scale(v)
        return l

    def lobound(self, l):
        t = l.c
        for s, v in l.m.items():
            sy = self.syms[s]
            b = sy.lo if v > 0 else sy.hi
            if b in (INF, -INF):
                return -INF
            t += v * b
        return t

    def ent(self, S, g, depth=6):
        """Is g >= 0 implied?"""
        g = self.canon(S, g)
        if not g.m:
            return g.c >= 0
        if self.lobound(g) >= 0:
            return True
        if g in S.pos:
            return True
        key = (g, depth)
        r = S.memo.get(key)
        if r is None:
            self.entbudget = 300
            self.entseen = {}
            r = self._ent(S, g, depth)
            if r:
                S.pos.add(g)
            else:
                S.memo[key] = r
        return r

    def _ent(self, S, g, depth):
        if not g.m:
            return g.c >= 0
        if self.lobound(g) >= 0:
            return True
        if depth == 0 or self.entbudget <= 0:
            return False
        if self.entseen.get(g, -1) >= depth:
            return False
        self.entseen[g] = depth
        self.entbudget -= 1
        for s in sorted(g.m, reverse=True):
            v = g.m[s]
            sy = self.syms[s]
            cand = []
            rest = Lin(g.c, {k: x for k, x in g.m.items() if k != s})
            # static bound
            b = sy.lo if v > 0 else sy.hi
            for f in S.facts.get(s, ()):
                a = f.m.get(s, 0)
                if a and (a > 0) == (v > 0):
                    # g - (v / a) f
                    k = -1 if v == a else -v if a == 1 else v if a == -1 else quot(-v, a)
                    m = dict(g.m)
                    for t, y in f.m.items():
                        x = m.get(t, 0) + (y if k == 1 else k * y)
                        if x:
                            m[t] = x.numerator if x.__class__ is Fraction and x.denominator == 1 else x
                        else:
                            m.pop(t, None)
                    x = Lin(g.c + k * f.c, m)
                    if not m:
                        if x.c >= 0:
                            return True
                        continue
                    cand.append(self.canon(S, x))
            if sy.info and sy.info[0] in ("min", "max"):
                ops = sy.info[1]
                up = (sy.info[0] == "min") == (v < 0)
                # v<0: need an upper bound of s.  min: any operand bounds it from above; max: all must
                alts = [self.canon(S, rest + o.scale(v)) for o in ops]
                if up:
                    cand += alts
                elif all(self._ent(S, x, depth - 1) for x in alts):
                    return True
            if b not in (INF, -INF):
                cand.append(rest + v * b)
            for x in cand:
                if self._ent(S, x, depth - 1):
                    return True
            if cand and sy.kind not in ("elem", "opaque"):
                # the newest symbol has bounds but they do not suffice
                return False
        return False

    def eqzero(self, S, l):
        l = self.canon(S, l)
        if not l.m:
            return l.c == 0
        return self.ent(S, l) and self.ent(S, -l)

    def isint(self, l):
        return all(self.syms[s].ty == "i" for s in l.m) and all(isinstance(v, int) or v.denominator == 1 if not isinstance(v, float) else v == int(v) for v in l.m.values())

    def addfact(self, S, f, check=True):
        """Assume f >= 0; False when that cannot be."""
        f = self.canon(S, f)
        if not f.m:
            return f.c >= 0
        if f in S.pos:
            return True
        if check:
            eps = 1 if self.isint(f) else Fraction(1, 10**9)
            if self.ent(S, -f - eps):
                return False
        for n in S.nes:
            n = self.canon(S, n)
            if n == f or -n == f:
                if self.isint(f):
                    f = f - 1
        if self.lobound(f) >= 0:
            return True
        S.memo = {}
        for s in f.m:
            old = S.facts.get(s, ())
            if any(x.m == f.m and x.c <= f.c for x in old):
                continue
            S.facts[s] = tuple(x for x in old if x.m != f.m) + (f,)
        return True

    def addeq(self, S, l):
        l = self.canon(S, l)
        if not l.m:
            return l.c == 0
        eps = 1 if self.isint(l) else Fraction(1, 10**9)
        if self.ent(S, l - eps) or self.ent(S, -l - eps):
            return False
        for n in S.nes:
            n = self.canon(S, n)
            if n == l or -n == l:
                return False
        S.memo = {}
        # solve for the newest symbol with unit coefficient
        for s in sorted(l.m, reverse=True):
            v = l.m[s]
            if v in (1, -1):
                rest = Lin(l.c, {k: x for k, x in l.m.items() if k != s}).scale(-1 if v == 1 else 1)
                old = S.facts.pop(s, ())
                S.sub[s] = rest
                sy = self.syms[s]
                for f in old:
                    for k in f.m:
                        if k != s:
                            S.facts[k] = tuple(x for x in S.facts.get(k, ()) if x is not f and x != f)
                for f in old:
                    if not self.addfact(S, f):
                        return False
                if sy.lo != -INF and not self.addfact(S, rest - sy.lo):
                    return False
                if sy.hi != INF and not self.addfact(S, -rest + sy.hi):
                    return False
                # min/max that became equal to something
                if sy.info and sy.info[0] in ("min", "max"):
                    for o in sy.info[1]:
                        if not self.addfact(S, (o - rest) if sy.info[0] == "min" else (rest - o)):
                            return False
                return True
        return self.addfact(S, l) and self.addfact(S, -l)

    def addne(self, S, l):
        l = self.canon(S, l)
        if not l.m:
            return l.c != 0
        if self.eqzero(S, l):
            return False
        S.memo = {}
        if self.isint(l):
            if self.ent(S, l):
                return self.addfact(S, l - 1)
            if self.ent(S, -l):
                return self.addfact(S, -l - 1)
        S.nes = S.nes + (l,)
        return True

    def mask(self, S, v):
        if isinstance(v, Sum):
            return v.mask
        if not isinstance(v, Scal):
            return ANYF
        if v.ty != "f" or not v.lin.m:
            return v.mask
        r = S.refine.get(v.lin)
        return v.mask if r is None else v.mask & r

    def assume(self, S, atom):
        k = atom[0]
        if k == "ge":
            return self.addfact(S, atom[1])
        if k == "eq":
            return self.addeq(S, atom[1])
        if k == "ne":
            return self.addne(S, atom[1])
        if k == "mask":
            v, allowed = atom[1], atom[2]
            m = self.mask(S, v) & allowed
            if not m:
                return False
            if v.lin.m:
                S.refine[v.lin] = m
            return True
        if k == "pred":
            old = S.preds.get(atom[1])
            if old is not None and old != atom[2]:
                return False
            S.preds[atom[1]] = atom[2]
            return True
        if k == "false":
            return False
        raise ValueError(k)

    def assume_all(self, S, atoms):
        for a in atoms:
            if not self.assume(S, a):
                return False
        return True

    def bounds(self, S, l):
        """Constant bounds of l from static symbol bounds and single-symbol facts."""
        l = self.canon(S, l)
        lo = hi = l.c
        for s, v in l.m.items():
            a, b = self.symbounds(S, s)
            if v > 0:
                lo, hi = lo + v * a, hi + v * b
            else:
                lo, hi = lo + v * b, hi + v * a
        return lo, hi

    def symbounds(self, S, s):
        sy = self.syms[s]
        a, b = sy.lo, sy.hi
        for f in S.facts.get(s, ()):
            if len(f.m) == 1:
                v = f.m[s]
                x = -Fraction(f.c) / v if not isinstance(f.c, float) else -f.c / float(v)
                if v > 0:
                    a = max(a, x)
                else:
                    b = min(b, x)
        return a, b

    # -------------------------------------------------------------- dead symbols
    def vsyms(self, v):
        """Symbols a value mentions."""
        if isinstance(v, Scal):
            return v.lin.m.keys()
        if isinstance(v, Sum):
            return v.ub.m.keys() if v.ub is not None else ()
        if isinstance(v, (Cont, Obj)):
            try:
                return v._vs
            except AttributeError:
                pass
            out = set()
            if isinstance(v, Cont):
                if v.len is not None:
                    out |= v.len.m.keys()
                if v.elem is not None:
                    out.update(self.vsyms(v.elem))
                for k, (x, w) in v.cells.items():
                    out.update(self.vsyms(x))
            else:
                for x in v.fields.values():
                    out.update(self.vsyms(x))
            v._vs = out
            return out
        if isinstance(v, Mat):
            return set(v.r.m) | set(v.c.m) | set(self.vsyms(v.elem))
        if isinstance(v, Ptr):
            out = set()
            if v.off is not None:
                out |= v.off.m.keys()
            if v.path:
                for st in v.path[1]:
                    if st[0] == "e" and st[1] is not None:
                        out |= st[1].m.keys()
            return out
        if isinstance(v, Boo):
            out = set()
            for alts in (v.pos, v.neg):
                for conj in alts:
                    for a in conj:
                        if isinstance(a[1], Lin):
                            out |= a[1].m.keys()
                        elif isinstance(a[1], Scal):
                            out |= a[1].lin.m.keys()
            return out
        return ()

    def keysyms(self, v):
        if isinstance(v, Cont):
            if not v.cells:
                return ()
            out = set()
            for k, (x, w) in v.cells.items():
                out |= k.m.keys()
                out.update(self.keysyms(x))
            return out
        if isinstance(v, Obj):
            out = set()
            for x in v.fields.values():
                if isinstance(x, (Cont, Obj)):
                    out.update(self.keysyms(x))
            return out
        return ()

    def prune(self, S, v, gone):
        """Merge into the summary the elements tracked under an index that nothing refers to any more."""
        if isinstance(v, Cont):
            if not v.cells:
                return v
            drop = {k: c for k, c in v.cells.items() if gone(k)}
            keep = {}
            ch = bool(drop)
            for k, (x, w) in v.cells.items():
                if k in drop:
                    continue
                y = self.prune(S, x, gone) if isinstance(x, (Cont, Obj)) else x
                ch = ch or y is not x
                keep[k] = (y, w)
            if not ch:
                return v
            if drop:
                f = self.fold(S, v.with_(cells=drop))
                return f.with_(cells=keep)
            return v.with_(cells=keep)
        if isinstance(v, Obj):
            ch = {}
            for n, x in v.fields.items():
                if isinstance(x, (Cont, Obj)):
                    y = self.prune(S, x, gone)
                    if y is not x:
                        ch[n] = y
            if ch:
                return Obj(v.cls, dict(v.fields, **ch), v.name)
        return v

    def gc(self, S, start, extra=None):
        """Forget symbols made since start that no value mentions any more; what they imply about others is kept."""
        cand = {s for s in S.facts if s >= start} | {s for s in S.sub if s >= start}
        if not cand and not any(s >= start for l in S.refine for s in l.m):
            return
        # elements tracked under an index nobody holds any more
        live = set()
        for c, v in S.store.items():
            live.update(self.vsyms(v))
        if extra is not None:
            live.update(self.vsyms(extra))
        work = list(live)
        while work:
            s = work.pop()
            info = self.syms[s].info
            more = ()
            if info and info[0] in ("min", "max"):
                more = [k for o in info[1] for k in o.m]
            elif info and info[0] == "div":
                more = list(info[1].m)
            if s in S.sub:
                more = list(more) + list(S.sub[s].m)
            for k in more:
                if k not in live:
                    live.add(k)
                    work.append(k)
        okind = ("dim", "param", "const")

        def gone(k):
            return any(s >= start and s not in live and self.syms[s].kind not in okind for s in k.m)

        for c, v in S.store.items():
            if isinstance(v, (Cont, Obj)):
                w = self.prune(S, v, gone)
                if w is not v:
                    S.store[c] = w
        for c, v in S.store.items():
            live.update(self.keysyms(v))
        dead = sorted((s for s in cand if s not in live and self.syms[s].kind not in ("dim", "param", "const")), reverse=True)
        if dead:
            ds = set(dead)
            facts = dict(S.facts)
            for s in dead:
                S.sub.pop(s, None)
                fs = facts.pop(s, ())
                if not fs:
                    continue
                for f in fs:
                    for k in f.m:
                        if k != s and k in facts:
                            facts[k] = tuple(x for x in facts[k] if x is not f and x != f)
                up = [f for f in fs if f.m[s] > 0]
                dn = [f for f in fs if f.m[s] < 0]
                sy = self.syms[s]
                if sy.lo != -INF:
                    up.append(Lin(-sy.lo, {s: 1}))
                if sy.hi != INF:
                    dn.append(Lin(sy.hi, {s: -1}))
                if len(up) * len(dn) <= 16:
                    for a in up:
                        for b in dn:
                            if len(a.m) > 3 or len(b.m) > 3:
                                continue
                            g = a.scale(-b.m[s]) + b.scale(a.m[s])
                            if not g.m or self.lobound(g) >= 0 or len(g.m) > 3:
                                continue
                            gg = {abs(x) for x in g.m.values()}
                            if gg != {1}:
                                d = min(gg)
                                if all(x % d == 0 for x in gg) and g.c % d == 0:
                                    g = g.scale(Fraction(1, d)) if isinstance(d, Fraction) else Lin(g.c // d if not isinstance(g.c, Fraction) else g.c / d, {k: x // d for k, x in g.m.items()})
                            for k in g.m:
                                old = facts.get(k, ())
                                if any(x.m == g.m and x.c <= g.c for x in old):
                                    continue
                                facts[k] = tuple(x for x in old if x.m != g.m) + (g,)
            S.facts = {k: v for k, v in facts.items() if v}
            S.memo = {}
            if S.nes:
                S.nes = tuple(n for n in S.nes if not (n.m.keys() & ds))
        if S.refine:
            S.refine = {l: m for l, m in S.refine.items() if all(s < start or s in live or self.syms[s].kind in ("dim", "param", "const") for s in l.m)}

    # -------------------------------------------------------------- values by type
    def rec(self, t):
        t = clean(t)
        for q in (t, "gridpp::" + t):
            if q in self.p.records:
                return q
        return None

    def isenum(self, t):
        t = clean(t)
        if t.startswith("enum "):
            t = t[5:]
        return t in self.p.enums or "gridpp::" + t in self.p.enums

    def tkind(self, t):
        t = clean(t)
        if t in INTS or t.startswith("enum ") or self.isenum(t):
            return "i"
        if t in FLOATS:
            return "f"
        if t == "bool":
            return "b"
        if t.startswith("std::vector<") or t.startswith("std::list<") or t.startswith("std::deque<") or t.startswith("std::set<"):
            return "vec"
        if t.startswith("std::map<") or t.startswith("std::multimap<"):
            return "map"
        if t.endswith("]"):
            return "arr"
        if t.startswith("arma::Mat") or t.startswith("arma::Col") or t.startswith("arma::Row"):
            return "mat"
        if t.startswith("std::basic_string<") or t == "std::string" or t.startswith("char *") or t.startswith("const char *"):
            return "str"
        if t.endswith("*") or t.startswith("std::shared_ptr<") or t.startswith("std::unique_ptr<") or "__normal_iterator<" in t:
            return "ptr"
        if t.startswith("std::pair<"):
            return "pair"
        if self.rec(t):
            return "obj"
        return "opq"

    def unknown(self, t, name="?", closed=False, mask=None, kind=None):
        """A value of type t about which nothing is known."""
        k = self.tkind(t)
        kd = kind or ("param" if closed else "opaque")
        if k == "i":
            ct = clean(t)
            lo = 0 if ct in UNSIGNED else -INF
            return Scal(self.sym(kd, name, "i", lo), "i")
        if k == "b":
            return Scal(self.sym(kd, name, "i", 0, 1), "i")
        if k == "f":
            return Scal(self.sym(kd, name, "f"), "f", ANYF if mask is None else mask)
        if k == "vec":
            et = targ(clean(t))
            if closed:
                return self.paramvec(et, name, 0)
            return Cont(self.sym("opaque", name + ".size()", "i", 0), None, et, tag=name)
        if k == "arr":
            ct = clean(t)
            n = int(re.search(r"\[(\d+)\]$", ct).group(1)) if re.search(r"\[(\d+)\]$", ct) else None
            et = re.sub(r"\s*\[\d*\]$", "", ct)
            return Cont(L(n) if n is not None else self.sym("opaque", "len", "i", 0), None, et, kind="arr")
        if k == "mat":
            return Mat(self.sym("opaque", name + ".n_rows", "i", 0), self.sym("opaque", name + ".n_cols", "i", 0))
        if k == "str":
            return StrV()
        if k == "obj":
            return Obj(self.rec(t), {}, name)
        if k == "pair":
            return Obj("std::pair", {}, name)
        if k == "ptr":
            return Ptr(None)
        return Opq(clean(t))

    def paramvec(self, et, name, depth):
        """A container parameter: rectangular, with one extent symbol per level."""
        l = self.sym("dim", "%s.%d" % (name, depth), "i", 1 if self.nonempty else 0)
        k = self.tkind(et)
        if k == "vec":
            el = self.paramvec(targ(clean(et)), name, depth + 1)
        elif k == "f":
            el = Sum("f", ANYF, tag=name)
        elif k in ("i", "b"):
            el = Sum("i", V, 0 if k == "b" or clean(et) in UNSIGNED else -INF, 1 if k == "b" else INF, tag=name)
        else:
            el = None
        return Cont(l, el, et, tag=name)

    def default(self, t):
        """Value-initialised value."""
        k = self.tkind(t)
        if k in ("i", "b"):
            return Scal(L(0), "i")
        if k == "f":
            return Scal(L(0), "f", V | D)
        if k == "vec":
            return Cont(L(0), None, targ(clean(t)))
        if k == "str":
            return StrV("")
        if k == "mat":
            return Mat(L(0), L(0))
        if k == "ptr":
            return Ptr(None)
        if k == "pair":
            return Obj("std::pair", {}, "")
        if k == "obj":
            q = self.rec(t)
            return Obj(q, {}, "")
        return self.unknown(t)

    def inst(self, S, e, et, tag=None):
        """A member of the set that e summarises."""
        if e is None:
            v = self.unknown(et, tag or "element", kind="elem")
            return v
        if isinstance(e, Sum):
            if e.ty == "i" and e.lo == e.hi:
                return Scal(L(e.lo), "i")
            l = self.sym("elem", e.tag or "element", e.ty, e.lo, e.hi, origin=tag)
            if e.ub is not None:
                self.addfact(S, e.ub - l)
            return Scal(l, e.ty, e.mask)
        if isinstance(e, Cont):
            ln = e.len
            if ln is None:
                ln = self.sym("opaque", (tag or "inner") + ".size()", "i", 0)
            return e.with_(len=ln)
        if isinstance(e, Mat):
            return e
        if isinstance(e, Obj):
            f = {}
            for k, v in e.fields.items():
                f[k] = self.inst(S, v, None) if isinstance(v, Sum) else v
            return Obj(e.cls, f, e.name)
        return e

    def summ(self, S, v):
        if isinstance(v, Scal):
            m = self.mask(S, v)
            l = self.canon(S, v.lin)
            if not l.m or all(self.syms[s].kind in ("dim", "param") for s in l.m):
                return Scal(l, v.ty, m)
            lo, hi = self.bounds(S, l)
            ub = None
            if v.ty == "i":
                ub = self.symub(S, l)
            return Sum(v.ty, m, lo, hi, ub)
        if isinstance(v, Boo):
            if v.val is not None:
                return Scal(L(int(v.val)), "i")
            return Sum("i", V, 0, 1)
        if isinstance(v, Cont):
            if v.cells:
                v = self.fold(S, v)
            return v.with_(elem=v.elem if not isinstance(v.elem, Scal) else self.summ(S, v.elem))
        if isinstance(v, Obj):
            return Obj(v.cls, {k: self.summ(S, x) for k, x in v.fields.items()}, v.name)
        return v

    def symub(self, S, l):
        """An upper bound over extents and parameters only, if one is evident."""
        l = self.canon(S, l)
        for _ in range(6):
            bad = [s for s in l.m if self.syms[s].kind not in ("dim", "param")]
            if not bad:
                return l
            s = max(bad)
            v = l.m[s]
            if v < 0:
                b = self.syms[s].lo
                if b == -INF:
                    b2 = [f for f in S.facts.get(s, ()) if f.m[s] > 0]
                    if not b2:
                        return None
                    f = b2[0]
                    l = self.canon(S, l - f.scale(Fraction(v, f.m[s])))
                    continue
                l = Lin(l.c + v * b, {k: x for k, x in l.m.items() if k != s})
                continue
            cand = [f for f in S.facts.get(s, ()) if f.m[s] < 0]
            if self.syms[s].info and self.syms[s].info[0] == "min":
                o = [x for x in self.syms[s].info[1]]
                l2 = Lin(l.c, {k: x for k, x in l.m.items() if k != s})
                for x in o:
                    r = self.symub(S, l2 + x.scale(v)) if not any(k == s for k in x.m) else None
                    if r is not None:
                        return r
                return None
            if not cand:
                b = self.syms[s].hi
                if b == INF:
                    return None
                l = Lin(l.c + v * b, {k: x for k, x in l.m.items() if k != s})
                continue
            f = cand[0]
            a = f.m[s]
            k = Fraction(v, a)
            if k.denominator == 1:
                k = int(k)
            l = self.canon(S, l - f.scale(k))
        return None

    def jsum(self, a, b):
        """Join of two element summaries."""
        if a is None or b is None:
            return None
        if a == b:
            return a
        if isinstance(a, (Scal, Sum)) and isinstance(b, (Scal, Sum)):
            def parts(x):
                if isinstance(x, Sum):
                    return x.ty, x.mask, x.lo, x.hi, x.ub
                if not x.lin.m:
                    return x.ty, x.mask, x.lin.c, x.lin.c, x.lin
                return x.ty, x.mask, self.lobound(x.lin), -self.lobound(-x.lin), x.lin
            if isinstance(a, Scal) and isinstance(b, Scal) and a.lin == b.lin:
                return Scal(a.lin, a.ty, a.mask | b.mask)
            ta, ma, la, ha, ua = parts(a)
            tb, mb, lb, hb, ub_ = parts(b)
            # NaN constants carry no range
            if not (ma & ~(N | D)):
                la, ha = lb, hb
            elif not (mb & ~(N | D)):
                lb, hb = la, ha
            u = ua if ua == ub_ else None
            if u is None and ua is not None and ub_ is not None:
                d = ua - ub_
                if d.const:
                    u = ua if d.c >= 0 else ub_
                elif self.lobound(d) >= 0:
                    u = ua
                elif self.lobound(-d) >= 0:
                    u = ub_
            return Sum(ta, ma | mb, min(la, lb), max(ha, hb), u)
        if isinstance(a, Boo) or isinstance(b, Boo):
            return Sum("i", V, 0, 1)
        if isinstance(a, Cont) and isinstance(b, Cont):
            ln = a.len if a.len == b.len else None
            if a.len is not None and b.len is not None:
                if a.len == L(0) and not b.cells and a.elem is None and not a.cells:
                    pass
            el = a.elem if a.len == L(0) and not a.cells and False else self.jsum(a.elem, b.elem)
            if a.len == L(0) and not a.cells:
                el = b.elem
            elif b.len == L(0) and not b.cells:
                el = a.elem
            return Cont(ln, el, a.et, a.kind, {}, a.tag)
        if isinstance(a, Mat) and isinstance(b, Mat):
            if a.r == b.r and a.c == b.c:
                return Mat(a.r, a.c, self.jsum(a.elem, b.elem))
            return Opq("mat")
        if isinstance(a, Obj) and isinstance(b, Obj) and a.cls == b.cls:
            f = {}
            for k in set(a.fields) & set(b.fields):
                f[k] = self.jsum(a.fields[k], b.fields[k])
                if f[k] is None:
                    del f[k]
            return Obj(a.cls, f, a.name if a.name == b.name else "")
        if isinstance(a, StrV) and isinstance(b, StrV):
            return StrV()
        return Opq("?")

    def fold(self, S, c):
        """Merge the individually tracked elements into the summary."""
        el = c.elem
        some = False
        for k, (v, w) in c.cells.items():
            if w:
                x = self.summ(S, v)
                el = x if (el is None and c.tag is None) else self.jsum(el, x)
                some = True
        return c.with_(elem=el, cells={})

    # -------------------------------------------------------------- store
    def newcell(self, S, v):
        self.ncell += 1
        S.store[self.ncell] = v
        return self.ncell

    def field(self, S, o, n):
        v = o.fields.get(n)
        if v is None:
            v = self.mkfield(o, n)
            if v is not None:
                # class-invariant fields are part of the object
                pass
        return v

    def mkfield(self, o, n):
        iv = self.inv.get(o.cls)
        if iv:
            v = iv(self, o, n)
            if v is not None:
                return v
        r = self.p.records.get(o.cls)
        t = None
        q = [o.cls]
        while q:
            c = q.pop()
            r = self.p.records.get(c)
            if not r:
                continue
            for f in r.get("fields", []):
                if f["n"] == n:
                    t = f["t"]
            q += r["bases"]
        key = ("field", o.cls, o.name, n)
        if t is None:
            return None
        if o.name and self.tkind(t) in ("i", "f", "b"):
            if key not in self.vn:
                self.vn[key] = self.unknown(t, "%s.%s" % (o.name, n))
            return self.vn[key]
        return self.unknown(t, "%s.%s" % (o.name or o.cls, n))

    def alias(self, S, a, b):
        """True same, False different, None maybe."""
        d = self.canon(S, a - b)
        if not d.m:
            return d.c == 0
        if self.eqzero(S, d):
            return True
        if self.ent(S, d - 1, 3) or self.ent(S, -d - 1, 3):
            return False
        for n in S.nes:
            n = self.canon(S, n)
            if n == d or -n == d:
                return False
        return None

    def nav(self, S, v, sels, fn, write):
        """Apply fn at the place v.sels; returns (new v, result)."""
        if not sels:
            return fn(v)
        k, a = sels[0]
        rest = sels[1:]
        if k == "f":
            if not isinstance(v, Obj):
                nv, r = self.nav(S, Opq(), rest, fn, write) if not rest or True else (v, None)
                return v, r
            ch = self.field(S, v, a)
            if ch is None:
                ch = Opq()
            nc, r = self.nav(S, ch, rest, fn, write)
            if nc is not v.fields.get(a):
                v = v.with_(a, nc)
            return v, r
        if k == "e":
            if isinstance(v, Mat):
                x = self.inst(S, v.elem, "double")
                nc, r = self.nav(S, x, rest, fn, write)
                if write:
                    v = Mat(v.r, v.c, self.jsum(v.elem, self.summ(S, nc)))
                return v, r
            if not isinstance(v, Cont):
                _, r = self.nav(S, Opq(), rest, fn, write)
                return v, r
            if a is None:
                x = self.inst(S, self.fold(S, v).elem, v.et, v.tag)
                nc, r = self.nav(S, x, rest, fn, write)
                if write:
                    v = self.fold(S, v)
                    v = v.with_(elem=self.jsum(v.elem, self.summ(S, nc)))
                return v, r
            hit = None
            maybe = []
            for key in v.cells:
                if key == a:
                    hit = key
                    break
            if hit is None:
                for key in v.cells:
                    al = self.alias(S, key, a)
                    if al is True:
                        hit = key
                        break
                    if al is None:
                        maybe.append(key)
            else:
                for key in v.cells:
                    if key is not hit and key != hit:
                        if write and self.alias(S, key, a) is None:
                            maybe.append(key)
            if hit is not None:
                ch, wr = v.cells[hit]
            else:
                wr = False
                wm = [key for key in maybe if v.cells[key][1]]
                if wm:
                    el = v.elem
                    for key in wm:
                        el = self.jsum(el, self.summ(S, v.cells[key][0]))
                    ch = self.inst(S, el, v.et, v.tag)
                    wr = True
                else:
                    ch = self.inst(S, v.elem, v.et, v.tag)
            nc, r = self.nav(S, ch, rest, fn, write)
            cells = dict(v.cells)
            if write:
                for key in maybe:
                    del cells[key]
                    # its old value stays possible, the new one too
                    ov, ow = v.cells[key]
                    if ow:
                        j = self.jsum(self.summ(S, ov), self.summ(S, nc))
                        cells[key] = (self.inst(S, j, v.et, v.tag), True)
            cells[hit if hit is not None else a] = (nc, wr or write)
            if len(cells) > 14:
                keep = hit if hit is not None else a
                c2 = self.fold(S, v.with_(cells={q: x for q, x in cells.items() if q != keep}))
                return c2.with_(cells={keep: cells[keep]}), r
            return v.with_(cells=cells), r
        raise ValueError(k)

    def read(self, S, path):
        if path is None or path[0] not in S.store:
            return Opq()
        root, r = self.nav(S, S.store[path[0]], path[1], lambda v: (v, v), False)
        S.store[path[0]] = root
        return r

    def write(self, S, path, val):
        if path is None or path[0] not in S.store:
            return
        if not path[1]:
            S.store[path[0]] = val
            return
        root, _ = self.nav(S, S.store[path[0]], path[1], lambda v: (val, None), True)
        S.store[path[0]] = root

    def update(self, S, path, fn):
        if path is None or path[0] not in S.store:
            return
        root, _ = self.nav(S, S.store[path[0]], path[1], lambda v: (fn(v), None), True)
        S.store[path[0]] = root

    # -------------------------------------------------------------- events
    @staticmethod
    def callers(fr):
        while fr is not None:
            yield fr.func.q
            fr = fr.parent

    def event(self, kind, fr, line, text, verdict, data=None):
        if self.mute:
            return
        if self.searching and (kind != "throw" or any(q == "gridpp::convert_coordinates" for q in self.callers(fr))):
            return
        self.events.append(Event(kind, fr.func, fr.func.file, line, text, verdict, fr.chain(), data))

    CLOSED = ("dim", "param", "const")

    def closed(self, S, l, seen=0):
        """Does l vary only with extents, parameters and counters that run up to such bounds?"""
        l = self.canon(S, l)
        if seen > 6:
            return False
        for s in l.m:
            sy = self.syms[s]
            if sy.kind in self.CLOSED:
                continue
            if sy.kind == "phi" and sy.info and sy.info[0] == "counter":
                continue
            if sy.info and sy.info[0] in ("min", "max"):
                if all(self.closed(S, o, seen + 1) for o in sy.info[1]):
                    continue
                return False
            if sy.info and sy.info[0] == "div":
                if self.closed(S, sy.info[1], seen + 1):
                    continue
                return False
            return False
        return True

    def guarded(self, S, fr, node):
        """Has the path passed a condition the analysis made nothing of, and which has to do with what this node uses?"""
        mine = self.deps.roots(fr, node)
        return any(self.guardinfo[g[0]] & mine for g in S.guards)

    def access(self, S, fr, line, idx, ln, what, node=None):
        """Obligation 0 <= idx < ln."""
        if idx is None or ln is None:
            self.event("access", fr, line, what, "undecided")
            return
        lo = self.ent(S, idx)
        hi = self.ent(S, ln - idx - 1)
        if lo and hi:
            self.event("access", fr, line, what, "ok")
            return
        cl = self.closed(S, idx) and self.closed(S, ln)
        if cl and S.guards and node is not None and self.guarded(S, fr, node):
            cl = False
        if not lo and cl:
            self.event("access", fr, line, "%s: index %s may be negative (size %s)" % (what, self.show(self.canon(S, idx)), self.show(self.canon(S, ln))), "alarm", ("lo", idx, ln))
        elif not hi and cl:
            self.event("access", fr, line, "%s: index %s is not below the size %s" % (what, self.show(self.canon(S, idx)), self.show(self.canon(S, ln))), "alarm", ("hi", idx, ln))
        else:
            # definitely out of range on every value
            if (self.ent(S, -idx - 1) or self.ent(S, idx - ln)) and not any(k in S.sub and self.syms[k].kind == "opaque" for k in ln.m):
                self.event("access", fr, line, "%s: index %s is never below the size %s" % (what, self.show(self.canon(S, idx)), self.show(self.canon(S, ln))), "alarm", ("def", idx, ln))
            else:
                self.event("access", fr, line, "%s [%s of %s]" % (what, self.show(self.canon(S, idx)), self.show(self.canon(S, ln))), "undecided")

    def tick(self):
        self.steps += 1
        if self.steps > self.BUDGET or self.DEADLINE and self.steps % 64 == 0 and time.time() > self.DEADLINE:
            raise StopPaths()

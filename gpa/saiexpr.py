"""Expressions and calls of the symbolic abstract interpreter (see sai.py)."""
import math
from fractions import Fraction
from . import contracts
from .sai import (Boo, Cont, D, Event, Frame, I, INF, Lam, Lin, L, Mat, N, Obj, Opq, Ptr, Scal, State, StopPaths, StrV, Sum, V, ANYF,
                  UNSIGNED, INTS, FLOATS, clean, targ)
from .saiexec import Interp, TRUE, FALSE, ANY, isunsigned, q0
from .ir import walk

WRAP = 1 << 62


def num(x):
    """Exact constant of a literal."""
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    f = float(x)
    if f != f or f in (INF, -INF):
        return None
    return int(f) if f == int(f) and abs(f) < 1e15 else Fraction(f).limit_denominator(10**12)


class Sai(Interp):
    # ============================================================== names
    def lookup(self, fr, vid):
        f = fr
        while f:
            if vid in f.vars:
                return f.vars[vid]
            f = f.lexical
        return None

    def lv(self, e, S, fr):
        """-> [(S, path or None)]"""
        k = e["k"]
        if k == "Ref":
            rk = e.get("rk")
            if rk in ("local", "param"):
                p = self.lookup(fr, e["id"])
                if p is None:
                    p = (self.newcell(S, self.unknown(e["t"], e["n"])), ())
                    fr.vars[e["id"]] = p
                if p[0] not in S.store:
                    S.store[p[0]] = self.unknown(e["t"], e["n"])
                return [(S, p)]
            if rk == "global":
                return [(S, self.globalcell(e, S))]
            return [(S, None)]
        if k == "This":
            return [(S, (self.newcell(S, Ptr(fr.this)), ()))]
        if k == "Member":
            return [(s, self.sub(p, ("f", e["n"])) if p is not None else None) for s, p in self.objpath(e["b"], S, fr, e.get("arrow"))]
        if k == "Cast":
            return self.lv(e["e"], S, fr)
        if k == "DefaultArg":
            return self.lv(e["e"], S, fr)
        if k == "OpCall":
            op = e["op"]
            if op == "[]" or (op == "()" and self.tkind(e["a"][0].get("t", "")) in ("mat",)):
                return self.index(e, e["a"][0], e["a"][1:], S, fr)
            if op in ("*", "->") and len(e["a"]) == 1:
                out = []
                for s, v in self.ev(e["a"][0], S, fr):
                    out.append((s, self.deref(v, s, fr, e)))
                return out
            if op in ("=", "+=", "-=", "*=", "/=", "<<", ">>", "++", "--"):
                out = []
                for s, _ in self.ev(e, S, fr):
                    out += [(s2, p) for s2, p in self.lv_noeffect(e["a"][0], s, fr)]
                return out
        if k == "Index":
            return self.index(e, e["b"], [e["i"]], S, fr)
        if k == "Un" and e["op"] == "*":
            out = []
            for s, v in self.ev(e["e"], S, fr):
                out.append((s, self.deref(v, s, fr, e)))
            return out
        if k == "Un" and e["op"] in ("++", "--"):
            return [(s2, p) for s, _ in self.ev(e, S, fr) for s2, p in self.lv_noeffect(e["e"], s, fr)]
        if k == "Assign":
            return [(s2, p) for s, _ in self.ev(e, S, fr) for s2, p in self.lv_noeffect(e["x"], s, fr)]
        if k == "Cond":
            T, F = self.cond(e["c"], S, fr)
            out = []
            for t in T:
                out += self.lv(e["x"], t, fr)
            for f in F:
                out += self.lv(e["y"], f, fr)
            return out
        if k == "MCall":
            n = e["fn"]["q"].split("::")[-1]
            if e["fn"]["q"].startswith("std::vector<") and n in ("at", "front", "back"):
                out = []
                for s, p in self.objpath(e["o"], S, fr):
                    v = self.read(s, p)
                    if not isinstance(v, Cont) or v.len is None:
                        out.append((s, None))
                        continue
                    if n == "at":
                        for s2, i in self.ev(e["a"][0], s, fr):
                            self.throwlib(s2, fr, e, "std::out_of_range")
                            out.append((s2, self.sub(p, ("e", i.lin if isinstance(i, Scal) else None))))
                    else:
                        idx = L(0) if n == "front" else v.len - 1
                        self.access(s, fr, e["l"], idx, v.len, "%s()" % n, e)
                        out.append((s, self.sub(p, ("e", idx))))
                return out
        if k in ("Call", "MCall") and (e.get("fn") or {}).get("ret", "").strip().endswith("&"):
            out = []
            for s, v in self.ev(e, S, fr, wantref=True):
                if isinstance(v, Ptr):
                    out.append((s, v.path))
                else:
                    out.append((s, (self.newcell(s, v), ())))
            return out
        out = []
        for s, v in self.ev(e, S, fr):
            out.append((s, (self.newcell(s, self.tov(v)), ())))
        return out

    def lv_noeffect(self, e, S, fr):
        while e.get("k") in ("Cast",) or (e.get("k") == "Assign") or (e.get("k") == "OpCall" and e["op"] in ("=", "+=", "-=", "*=", "/=", "<<", ">>")):
            e = e["e"] if e["k"] == "Cast" else e["x"] if e["k"] == "Assign" else e["a"][0]
        self.mute += 1
        try:
            return self.lv(e, S, fr)
        finally:
            self.mute -= 1

    def deref(self, v, S, fr, e):
        if isinstance(v, Ptr):
            if v.off is not None:
                c = self.read(S, v.path)
                if isinstance(c, Cont) and c.len is not None:
                    self.access(S, fr, e["l"], v.off, c.len, "iterator", e)
                return self.sub(v.path, ("e", v.off))
            return v.path
        return None

    def objpath(self, b, S, fr, arrow=None):
        """Path of the object an expression denotes (through pointers for arrow / This / smart pointers)."""
        while b.get("k") == "Cast" and b.get("ck") in ("UncheckedDerivedToBase", "DerivedToBase", "NoOp", "LValueToRValue"):
            b = b["e"]
        if b["k"] == "This":
            return [(S, fr.this or (fr.lexical.this if fr.lexical else None))]
        t = clean(b.get("t", ""))
        if b["k"] == "OpCall" and b["op"] in ("->", "*") and len(b["a"]) == 1:
            return self.lv(b, S, fr)
        if arrow or t.endswith("*"):
            out = []
            for s, v in self.ev(b, S, fr):
                out.append((s, v.path if isinstance(v, Ptr) and v.off is None else self.deref(v, s, fr, b) if isinstance(v, Ptr) else None))
            return out
        return self.lv(b, S, fr)

    def globalcell(self, e, S):
        q = e.get("q", e["n"])
        c = self.globalcells.get(q)
        if c is None:
            self.ncell += 1
            c = self.globalcells[q] = self.ncell
        if c not in S.store:
            g = self.p.globals.get(q)
            v = None
            if q.endswith("::MV") or q == "gridpp::MV":
                v = Scal(self.gsym("MV"), "f", N)
            elif q.endswith("MV_CML"):
                v = Scal(L(-999), "f", V)
            elif g and g.get("const") and g.get("init"):
                c0 = self.constval(g["init"])
                if c0 is not None:
                    v = Scal(L(c0), "f" if self.tkind(g["t"]) == "f" else "i", V)
            if v is None:
                key = ("global", q)
                if key not in self.vn:
                    self.vn[key] = self.unknown(e["t"], q)
                v = self.vn[key]
            S.store[c] = v
        return (c, ())

    def gsym(self, name):
        key = ("gsym", name)
        if key not in self.vn:
            self.vn[key] = self.sym("const", name, "f")
        return self.vn[key]

    def constval(self, e):
        while e.get("k") in ("Cast", "DefaultArg"):
            e = e["e"]
        if e.get("k") in ("Int", "Float", "Bool"):
            return num(e["v"])
        if e.get("k") == "Un" and e["op"] == "-":
            x = self.constval(e["e"])
            return None if x is None else -x
        return None

    def index(self, e, b, idx, S, fr):
        out = []
        bt = clean(b.get("t", ""))
        for s, p in self.objpath(b, S, fr):
            # evaluate the base first, then the indices
            states = [(s, [])]
            for i in idx:
                i0 = i
                while i0.get("k") == "Cast" and i0.get("ck") == "IntegralCast":
                    i0 = i0["e"]
                states = [(s3, vs + [v]) for s2, vs in states for s3, v in self.ev(i0, s2, fr)]
            for s2, vs in states:
                v = self.read(s2, p)
                if isinstance(v, Mat):
                    if len(vs) == 2 and all(isinstance(x, Scal) for x in vs):
                        self.access(s2, fr, e["l"], vs[0].lin, v.r, "%s(row)" % self.text(b), e)
                        self.access(s2, fr, e["l"], vs[1].lin, v.c, "%s(column)" % self.text(b), e)
                    elif len(vs) == 1 and isinstance(vs[0], Scal):
                        if v.c == L(1):
                            self.access(s2, fr, e["l"], vs[0].lin, v.r, self.text(b), e)
                        elif v.r == L(1):
                            self.access(s2, fr, e["l"], vs[0].lin, v.c, self.text(b), e)
                    out.append((s2, self.sub(p, ("e", None))))
                    continue
                if isinstance(v, Ptr):
                    if v.off is not None and isinstance(vs[0], Scal):
                        out.append((s2, self.sub(v.path, ("e", v.off + vs[0].lin))))
                    else:
                        out.append((s2, None))
                    continue
                if not isinstance(v, Cont):
                    self.event("access", fr, e["l"], self.text(b), "undecided")
                    out.append((s2, (self.newcell(s2, self.unknown(e["t"], "elem", kind="elem")), ())))
                    continue
                if v.kind == "map" or self.tkind(bt) == "map":
                    out.append((s2, self.sub(p, ("e", None))))
                    continue
                i = vs[0].lin if isinstance(vs[0], Scal) and vs[0].ty == "i" else None
                if isinstance(vs[0], Boo) and vs[0].val is not None:
                    i = L(int(vs[0].val))
                if i is not None:
                    i = self.canon(s2, i)
                self.access(s2, fr, e["l"], i, v.len, self.text(b), e)
                if i is not None and v.len is not None and not self.assume_index(s2, i, v.len):
                    continue
                out.append((s2, self.sub(p, ("e", i))))
        return out

    def assume_index(self, S, i, ln):
        """Past an access its index is in range (otherwise behaviour is undefined and already reported)."""
        return (self.ent(S, i) or self.addfact(S, i)) and (self.ent(S, ln - i - 1) or self.addfact(S, ln - i - 1))

    def text(self, e):
        k = e.get("k")
        if k == "Ref":
            return e["n"]
        if k == "Member":
            return (self.text(e["b"]) + "." if e["b"].get("k") != "This" else "") + e["n"]
        if k == "Cast":
            return self.text(e["e"])
        if k == "OpCall" and e["op"] == "[]":
            return "%s[%s]" % (self.text(e["a"][0]), self.text(e["a"][1]))
        if k == "Index":
            return "%s[%s]" % (self.text(e["b"]), self.text(e["i"]))
        if k in ("MCall",):
            return "%s.%s()" % (self.text(e["o"]), e["fn"]["q"].split("::")[-1])
        if k == "Call" and e.get("fn"):
            return "%s()" % e["fn"]["q"].split("::")[-1]
        if k == "Int":
            return str(e["v"])
        if k == "Bin":
            return "%s %s %s" % (self.text(e["x"]), e["op"], self.text(e["y"]))
        return k or "?"

    # ============================================================== conditions
    def cond(self, e, S, fr):
        k = e["k"]
        if k == "Cast" and e.get("ck") in ("NoOp", "LValueToRValue", None):
            return self.cond(e["e"], S, fr)
        if k == "Un" and e["op"] == "!":
            T, F = self.cond(e["e"], S, fr)
            return F, T
        if k == "Bin" and e["op"] == "&&":
            T, F = self.cond(e["x"], S, fr)
            TT = []
            for t in T:
                a, b = self.cond(e["y"], t, fr)
                TT += a
                F = F + b
            return TT, F
        if k == "Bin" and e["op"] == "||":
            T, F = self.cond(e["x"], S, fr)
            FF = []
            T = list(T)
            for f in F:
                a, b = self.cond(e["y"], f, fr)
                T += a
                FF += b
            return T, FF
        T, F = [], []
        for s, v in self.ev(e, S, fr):
            w = self.tobool(s, v)
            a, b = self.split(s, w)
            if a and b and self.opaque(s, w):
                if id(e) not in self.guardinfo:
                    self.guardinfo[id(e)] = self.deps.roots(fr, e)
                for x in a:
                    x.guards = x.guards | {(id(e), True)}
                for x in b:
                    x.guards = x.guards | {(id(e), False)}
            T += a
            F += b
        return T, F

    def opaque(self, S, w):
        """A condition of which nothing is known, or only that some flag has some value."""
        if w.val is not None:
            return False
        for alts in (w.pos, w.neg):
            for atoms in alts:
                for a in atoms:
                    if a[0] not in ("ge", "eq", "ne"):
                        return False
                    for s in a[1].m:
                        sy = self.syms[s]
                        if sy.ty != "i" or sy.kind in self.CLOSED or sy.lo < 0 or sy.hi > 1:
                            return False
        return True

    def tobool(self, S, v):
        if isinstance(v, Boo):
            return v
        if isinstance(v, Scal):
            l = self.canon(S, v.lin)
            if not l.m:
                return TRUE if l.c != 0 else FALSE
            lo, hi = self.bounds(S, l)
            if lo >= 0 and hi <= 1 and v.ty == "i":
                return Boo(None, ((("eq", l - 1),),), ((("eq", l),),))
            return Boo(None, ((("ne", l),),), ((("eq", l),),))
        if isinstance(v, Ptr) and v.path is not None:
            return Boo()if False else Boo(None, ANY, ANY)
        return Boo(None, ANY, ANY)

    def split(self, S, b):
        if b.val is True:
            return [S], []
        if b.val is False:
            return [], [S]
        T, F = [], []
        for alts, out in ((b.pos, T), (b.neg, F)):
            for atoms in alts:
                x = S.fork()
                if self.assume_all(x, atoms):
                    out.append(x)
        return T, F

    def cmp(self, S, op, a, b, ua=False, ub=False):
        """Comparison of two values; ua/ub: operand is an unsigned expression (a negative value means a huge one)."""
        if isinstance(a, Boo):
            a = self.coerce(S, a, "int")
        if isinstance(b, Boo):
            b = self.coerce(S, b, "int")
        if isinstance(a, StrV) and isinstance(b, StrV) and op in ("==", "!="):
            if a.s is not None and b.s is not None:
                return TRUE if (a.s == b.s) == (op == "==") else FALSE
            return Boo(None, ANY, ANY)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.off is not None and b.off is not None and a.path == b.path:
            a, b = Scal(a.off), Scal(b.off)
        if not isinstance(a, Scal) or not isinstance(b, Scal):
            return Boo(None, ANY, ANY)
        if op in (">", ">="):
            a, b, ua, ub = b, a, ub, ua
            op = "<" if op == ">" else "<="
        fl = a.ty == "f" or b.ty == "f"
        ma, mb = self.mask(S, a), self.mask(S, b)
        la, lb = self.canon(S, a.lin), self.canon(S, b.lin)
        if fl:
            na, nb = bool(ma & N), bool(mb & N)
            if not (ma & ~N) or not (mb & ~N):
                return TRUE if op == "!=" else FALSE
            # with infinities only the order facts are dropped
            exact = not ((ma | mb) & I)
            nonan = []
            if na and a.lin.m:
                nonan.append(("mask", a, ANYF & ~N | D))
            if nb and b.lin.m:
                nonan.append(("mask", b, ANYF & ~N | D))
            ge = lambda l: (("ge", l),) if exact else ()
            isn = []
            if na and a.lin.m:
                isn.append((("mask", a, N),))
            if nb and b.lin.m:
                isn.append((("mask", b, N),))
            if na and not a.lin.m or nb and not b.lin.m:
                isn.append(())
            inf = []
            if not exact and len(la.m) <= 1 and len(lb.m) <= 1 and self.closed(S, la) and self.closed(S, lb):
                # a single value given by the caller: the infinite case separately
                exact = True
                for v, m in ((a, ma), (b, mb)):
                    if m & I and v.lin.m:
                        nonan.append(("mask", v, V | D))
                        inf.append((("mask", v, I),))
            nonan = tuple(nonan)
            inf = tuple(inf)
            if op in ("<", "<="):
                d = lb - la
                if exact and not na and not nb and not inf and not d.m:
                    return TRUE if (d.c > 0 or d.c == 0 and op == "<=") else FALSE
                st = (("ne", d),) if exact and op == "<" else ()
                stn = (("ne", d),) if exact and op == "<=" else ()
                return Boo(None, (nonan + ge(d) + st,) + inf, (nonan + ge(-d) + stn,) + inf + tuple(isn))
            d = la - lb
            if exact and not na and not nb and not inf and not d.m:
                return TRUE if (d.c == 0) == (op == "==") else FALSE
            eq = (nonan + ((("eq", d),) if exact else ()),) + inf
            ne = (nonan + ((("ne", d),) if exact else ()),) + inf + tuple(isn)
            return Boo(None, eq, ne) if op == "==" else Boo(None, ne, eq)
        # integers
        wa = ua and not self.ent(S, la)
        wb = ub and not self.ent(S, lb)
        if op in ("<", "<="):
            d = lb - la - (1 if op == "<" else 0)      # >= 0 when true
            nd = -d - 1
            if wa and not wb:
                # a may be negative and then is huge
                pos = ((("ge", la), ("ge", d)),)
                neg = ((("ge", la), ("ge", nd)), (("ge", -la - 1),))
                if not (ub or self.ent(S, lb)):
                    pass
            elif wb and not wa:
                pos = ((("ge", lb), ("ge", d)), (("ge", -lb - 1), ("ge", L(WRAP) - la), ("eq", self.wrapped() - 1)))
                neg = ((("ge", lb), ("ge", nd)),)
            else:
                pos, neg = ((("ge", d),),), ((("ge", nd),),)
            if self.ent(S, d) and not wa and not wb:
                return TRUE
            if self.ent(S, nd) and not wa and not wb:
                return FALSE
            return Boo(None, pos, neg)
        d = la - lb
        if not d.m:
            return TRUE if (d.c == 0) == (op == "==") else FALSE
        eq, ne = ((("eq", d),),), ((("ne", d),),)
        return Boo(None, eq, ne) if op == "==" else Boo(None, ne, eq)

    def wrapped(self):
        if self.wrapsym is None:
            self.wrapsym = self.sym("const", "2^64-wraparound", "i", 1, 1)
        return self.wrapsym

    # ============================================================== expressions
    def ev(self, e, S, fr, wantref=False):
        self.tick()
        k = e["k"]
        if k in ("Int", "Bool"):
            return [(S, Scal(L(int(e["v"])), "i"))]
        if k == "Float":
            c = num(e["v"])
            return [(S, Scal(L(c), "f", V) if c is not None else Scal(self.gsym("inf"), "f", I))]
        m = getattr(self, "e_" + k, None)
        if m is None:
            self.unmodelled[k] = self.unmodelled.get(k, 0) + 1
            return [(S, self.unknown(e.get("t", ""), k))]
        if k in ("Call", "MCall"):
            return m(e, S, fr, wantref)
        return m(e, S, fr)

    def e_Str(self, e, S, fr):
        return [(S, StrV(e.get("v")))]

    def e_Null(self, e, S, fr):
        return [(S, Ptr(None))]

    def e_ZeroInit(self, e, S, fr):
        v = self.default(e["t"])
        return [(S, v)]

    def e_SizeOf(self, e, S, fr):
        return [(S, Scal(self.sym("opaque", "sizeof", "i", 1)))]

    def e_This(self, e, S, fr):
        return [(S, Ptr(fr.this or (fr.lexical.this if fr.lexical else None)))]

    def e_DefaultArg(self, e, S, fr):
        return self.ev(e["e"], S, fr)

    e_StdInit = e_DefaultArg

    def e_StmtExpr(self, e, S, fr):
        return [(S, self.unknown(e.get("t", ""), "stmtexpr"))]

    def e_New(self, e, S, fr):
        return [(S, Ptr(None))]

    def e_Delete(self, e, S, fr):
        return [(S, Opq())]

    def e_Lambda(self, e, S, fr):
        return [(S, Lam(e, fr))]

    def e_Ref(self, e, S, fr):
        rk = e.get("rk")
        if rk == "enum":
            return [(S, Scal(L(int(e["v"]))))]
        if rk == "func":
            return [(S, Opq("func"))]
        return self.rdlv(e, S, fr)

    def rdlv(self, e, S, fr):
        out = []
        for s, p in self.lv(e, S, fr):
            if p is None:
                out.append((s, self.unknown(e["t"], self.text(e))))
                continue
            v = self.read(s, p)
            if isinstance(v, Opq) and self.tkind(e["t"]) != "opq":
                v = self.unknown(e["t"], self.text(e), kind="elem")
                self.mute += 1
                self.write(s, p, v)
                self.mute -= 1
            out.append((s, v))
        return out

    e_Member = rdlv
    e_Index = rdlv

    def e_InitList(self, e, S, fr):
        t = e["t"]
        states = [(S, [])]
        for a in e.get("a", []):
            states = [(s2, vs + [self.tov(v)]) for s, vs in states for s2, v in self.ev(a, s, fr)]
        k = self.tkind(t)
        out = []
        for s, vs in states:
            if k in ("arr", "vec"):
                et = targ(clean(t)) if k == "vec" else clean(t).split("[")[0].strip()
                cells = {L(i): (v, True) for i, v in enumerate(vs)} if len(vs) <= 12 else {}
                el = None
                for i, v in enumerate(vs):
                    x = self.summ(s, v)
                    el = x if i == 0 else self.jsum(el, x)
                out.append((s, Cont(L(len(vs)), el, et, "vec", cells)))
            elif len(vs) == 1 and k in ("i", "f", "b"):
                out.append((s, vs[0]))
            else:
                out.append((s, Cont(L(len(vs)), None, "", "init", {L(i): (v, True) for i, v in enumerate(vs)}) if vs else self.default(t)))
        return out

    def e_Cast(self, e, S, fr):
        ck = e.get("ck")
        inner = e["e"]
        if ck in ("IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean"):
            return [(s, self.tobool(s, v) if not (ck == "FloatingToBoolean") else Boo(None, ANY, ANY)) for s, v in self.ev(inner, S, fr)]
        if ck == "FloatingToIntegral":
            return [(s, self.toint(s, v, fr, e)) for s, v in self.ev(inner, S, fr)]
        if ck == "IntegralToFloating":
            return [(s, self.coerce(s, v, "float")) for s, v in self.ev(inner, S, fr)]
        if ck in ("IntegralCast",):
            return [(s, self.coerce(s, v, "int") if not isinstance(v, Boo) else self.coerce(s, v, "int")) for s, v in self.ev(inner, S, fr)]
        if ck == "ToVoid":
            return self.ev(inner, S, fr)
        if ck == "NullToPointer":
            return [(S, Ptr(None))]
        out = self.ev(inner, S, fr)
        return out

    def toint(self, S, v, fr=None, e=None):
        if not isinstance(v, Scal):
            return Scal(self.sym("opaque", "int", "i"))
        if v.ty == "i":
            return v
        m = self.mask(S, v)
        if fr is not None and m & N:
            self.event("nan2int", fr, e["l"], "conversion of a possibly missing value to an integer", "alarm" if m == N else "maybe")
        l = self.canon(S, v.lin)
        if not l.m and m == V:
            return Scal(L(int(l.c)))
        lo, hi = self.bounds(S, l)
        import math as _m
        ilo = _m.trunc(lo) if lo not in (INF, -INF) else lo
        ihi = _m.trunc(hi) if hi not in (INF, -INF) else hi
        q = self.sym("opaque", "int(%s)" % self.show(l), "i", ilo, ihi)
        if not (m & (N | I)) and self.ent(S, l):
            self.addfact(S, l - q)
            self.addfact(S, q)
        return Scal(q)

    def e_Cond(self, e, S, fr):
        if self.isassert(e):
            T, F = self.cond(e["c"], S, fr)
            fail = F if self.noret(e["y"]) else T
            ok = T if self.noret(e["y"]) else F
            if fail:
                self.event("assert", fr, e["l"], "assert(%s)" % self.text(e["c"]), "maybe", [x.omp for x in fail])
            return [(s, Opq()) for s in ok]
        T, F = self.cond(e["c"], S, fr)
        out = []
        for t in T:
            out += self.ev(e["x"], t, fr)
        for f in F:
            out += self.ev(e["y"], f, fr)
        return out

    def noret(self, e):
        while e.get("k") == "Cast":
            e = e["e"]
        return e.get("k") == "Call" and bool((e.get("fn") or {}).get("noret"))

    def isassert(self, e):
        return self.noret(e["y"]) or self.noret(e["x"])

    def e_Throw(self, e, S, fr):
        self.throw(S, fr, e.get("l"), e.get("tt", ""))
        return []

    def throw(self, S, fr, line, tt):
        t = tt.replace("std::", "").strip()
        escapes = True
        regs = S.omp
        if S.tries:
            for (tid, omp, bucket, types) in reversed(S.tries):
                if any(self.catches(ty, t) for ty in types):
                    bucket.append(S.fork())
                    if omp == S.omp:
                        escapes = False
                    break
        verdict = "region" if regs and escapes else "plain"
        if verdict == "plain" and escapes and not S.tries and self.polymorphic() and not self.indexguard(S):
            verdict = "callback"
        self.event("throw", fr, line, t, verdict, (S.omp, S))

    def polymorphic(self):
        """Is the function under analysis one that the parallel loops call through StructureFunction?"""
        f = self.root.func
        return f.name in ("corr", "corr_background", "localization_distance") and bool(f.cls) and not f.static

    def indexguard(self, S):
        """The path compares the indices of a nearest neighbour with extents: it is only taken when a scale field does not fit the grid, which the constructors reject."""
        return any(self.syms[k].name.startswith("nearest") for fs in S.facts.values() for g in fs if len(g.m) > 1 for k in g.m)

    def catches(self, handler, t):
        h = clean(handler).replace("std::", "")
        if h in ("", "..."):
            return True
        if h == t or h == "exception":
            return True
        if h == "logic_error":
            return t in ("invalid_argument", "out_of_range", "domain_error", "length_error", "not_implemented_exception", "gridpp::not_implemented_exception")
        if h == "runtime_error":
            return t in ("overflow_error", "range_error", "underflow_error")
        return False

    def throwlib(self, S, fr, e, what):
        if S.tries:
            for (tid, omp, bucket, types) in reversed(S.tries):
                bucket.append(S.fork())
                if omp == S.omp:
                    return
                break
        self.event("libthrow", fr, e.get("l"), what, "region" if S.omp else "plain", S.omp)

    # -------------------------------------------------------------- operators
    def e_Un(self, e, S, fr):
        op = e["op"]
        if op == "!":
            if not S.tries and False:
                pass
            out = []
            for s, v in self.ev(e["e"], S, fr):
                b = self.tobool(s, v)
                out.append((s, Boo(None if b.val is None else not b.val, b.neg, b.pos)))
            return out
        if op == "-":
            return [(s, Scal(-v.lin, v.ty, self.mask(s, v)) if isinstance(v, Scal) else self.neg(v, e)) for s, v in self.ev(e["e"], S, fr)]
        if op == "+":
            return self.ev(e["e"], S, fr)
        if op in ("++", "--"):
            out = []
            for s, p in self.lv(e["e"], S, fr):
                v = self.read(s, p) if p else None
                d = 1 if op == "++" else -1
                if isinstance(v, Boo):
                    v = self.coerce(s, v, "int")
                if isinstance(v, Scal):
                    nv = Scal(self.canon(s, v.lin) + d, v.ty, self.mask(s, v) & ~D | (V if self.mask(s, v) & D else 0))
                elif isinstance(v, Ptr) and v.off is not None:
                    nv = Ptr(v.path, v.off + d, v.ct)
                else:
                    nv = self.unknown(e["t"], "incr")
                self.write(s, p, nv)
                out.append((s, v if e.get("post") and v is not None else nv))
            return out
        if op == "&":
            return [(s, Ptr(p)) for s, p in self.lv(e["e"], S, fr)]
        if op == "*":
            return self.rdlv(e, S, fr)
        if op == "~":
            return [(s, Scal(self.sym("opaque", "~", "i"))) for s, v in self.ev(e["e"], S, fr)]
        return [(s, self.unknown(e["t"], op)) for s, v in self.ev(e["e"], S, fr)]

    def neg(self, v, e):
        if isinstance(v, Mat):
            return v
        if isinstance(v, Boo):
            return Scal(self.sym("opaque", "-", "i", -1, 0))
        return self.unknown(e["t"], "-")

    def e_Bin(self, e, S, fr):
        op = e["op"]
        if op in ("&&", "||"):
            T, F = self.cond(e, S, fr)
            return [(t, TRUE) for t in T] + [(f, FALSE) for f in F]
        if op == ",":
            return [r for s, _ in self.ev(e["x"], S, fr) for r in self.ev(e["y"], s, fr)]
        if op in ("<", "<=", ">", ">=", "==", "!="):
            out = []
            x, y = e["x"], e["y"]
            ux, uy = isunsigned(x.get("t", "")), isunsigned(y.get("t", ""))
            for s, a in self.ev(x, S, fr):
                for s2, b in self.ev(y, s, fr):
                    out.append((s2, self.cmp(s2, op, a, b, ux, uy)))
            return out
        out = []
        for s, a in self.ev(e["x"], S, fr):
            for s2, b in self.ev(e["y"], s, fr):
                out.append((s2, self.arith(s2, op, a, b, e, fr)))
        return out

    def plain(self, S, v):
        """Mask of an operand: unassigned zero counts as a valid zero."""
        m = self.mask(S, v)
        return (m & ~D) | V if m & D else m

    def arith(self, S, op, a, b, e, fr, t=None):
        t = t or e.get("t", "")
        if isinstance(a, Boo):
            a = self.coerce(S, a, "int")
        if isinstance(b, Boo):
            b = self.coerce(S, b, "int")
        if isinstance(a, Ptr) and a.off is not None and isinstance(b, Scal) and op in ("+", "-"):
            return Ptr(a.path, a.off + b.lin if op == "+" else a.off - b.lin, a.ct)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.off is not None and b.off is not None and op == "-" and a.path == b.path:
            return Scal(a.off - b.off)
        if not isinstance(a, Scal) or not isinstance(b, Scal):
            if isinstance(a, StrV):
                return StrV()
            return self.unknown(t, op)
        fl = a.ty == "f" or b.ty == "f" or self.tkind(t) == "f"
        la, lb = self.canon(S, a.lin), self.canon(S, b.lin)
        if not fl:
            return self.iarith(S, op, la, lb, e, fr)
        ma, mb = self.plain(S, a) if a.ty == "f" else V, self.plain(S, b) if b.ty == "f" else V
        m = 0
        if (ma & V) and (mb & V):
            m |= V
        if (ma | mb) & N:
            m |= N
        if (ma | mb) & I:
            if (ma & (V | I)) and (mb & (V | I)):
                m |= I | N
        if op == "/" and m & V:
            lo, hi = self.bounds(S, lb)
            nz = lo > 0 or hi < 0 or any(self.canon(S, n) in (lb, -lb) for n in S.nes)
            if not nz:
                m |= N | I
                if self.canon(S, lb) == L(0):
                    m &= ~V
        if not (m & (V | I)):
            return Scal(self.sym("op", "missing", "f"), "f", N)
        if m == V and op in ("+", "-"):
            return Scal(la + lb if op == "+" else la - lb, "f", V)
        if m == V and op == "*" and (not la.m or not lb.m):
            return Scal(la.scale(lb.c) if not lb.m else lb.scale(la.c), "f", V)
        if m == V and op == "/" and not lb.m and lb.c:
            return Scal(la.scale(Fraction(1) / Fraction(lb.c)), "f", V)
        la_, lb_ = self.bounds(S, la), self.bounds(S, lb)
        lo, hi = self.iv(op, la_, lb_, la == lb)
        key = (op, la, lb, m)
        l = self.opsym(key, "f", lo, hi) if m & V else self.sym("op", key, "f", lo, hi)
        if m & V and op == "*" and la == lb:
            self.addfact(S, l)
        return Scal(l, "f", m)

    def iv(self, op, a, b, same=False):
        def mul(x, y):
            if x == 0 or y == 0:
                return 0
            return float(x) * float(y) if INF in (abs(x), abs(y)) else x * y
        if op == "+":
            return a[0] + b[0], a[1] + b[1]
        if op == "-":
            return a[0] - b[1], a[1] - b[0]
        if op == "*":
            c = [mul(x, y) for x in a for y in b]
            if same:
                return max(0, min(mul(a[0], a[0]), mul(a[1], a[1])) if a[0] > 0 or a[1] < 0 else 0), max(c)
            return min(c), max(c)
        if op == "/":
            if b[0] > 0 or b[1] < 0:
                def inv(y):
                    return 0 if y in (INF, -INF) else Fraction(1) / Fraction(y)
                c = [mul(x, inv(y)) for x in a for y in b]
                return min(c), max(c)
            if b[0] >= 0 and a[0] >= 0:
                return 0, INF
        return -INF, INF

    def iarith(self, S, op, la, lb, e, fr):
        if op == "+":
            return Scal(la + lb)
        if op == "-":
            return Scal(la - lb)
        if op == "*":
            if not la.m:
                return Scal(lb.scale(la.c))
            if not lb.m:
                return Scal(la.scale(lb.c))
            x, y = sorted((la, lb), key=lambda l: (len(l.m), sorted(l.m.items()), l.c))
            # 0/1 factor times something
            bx, by = self.bounds(S, x), self.bounds(S, y)
            lo, hi = self.iv("*", bx, by)
            l = self.opsym(("*", x, y), "i", -INF, INF, "op", ("mul", x, y))
            if lo != -INF:
                self.addfact(S, l - lo)
            if hi != INF:
                self.addfact(S, -l + hi)
            if self.ent(S, x) and self.ent(S, y):
                self.addfact(S, l)
            self.mulfacts(S, l, x, y)
            self.mulfacts(S, l, y, x)
            return Scal(l)
        if op in ("/", "%"):
            nz = self.ent(S, lb - 1) or self.ent(S, -lb - 1) or any(self.canon(S, n) in (lb, -lb) for n in S.nes)
            if not nz:
                self.event("div0", fr, e.get("l"), "%s by %s which may be zero" % ("division" if op == "/" else "remainder", self.show(lb)),
                           "alarm" if self.closed(S, lb) or not lb.m else "undecided")
                if not self.assume_nz(S, lb):
                    return Scal(self.sym("opaque", op, "i"))
            else:
                self.event("div0", fr, e.get("l"), "", "ok")
            if not la.m and not lb.m and lb.c:
                q = abs(la.c) // abs(lb.c) * (1 if (la.c >= 0) == (lb.c > 0) else -1)
                return Scal(L(q if op == "/" else la.c - q * lb.c))
            if op == "/":
                l = self.opsym(("/", la, lb), "i", -INF, INF, "op", ("div", la, lb) if not lb.m else None)
                if self.ent(S, la) and self.ent(S, lb - 1):
                    self.addfact(S, l)
                    self.addfact(S, la - l)
                    if not lb.m:
                        self.addfact(S, la - l.scale(lb.c))
                        self.addfact(S, l.scale(lb.c) - la + lb.c - 1)
                    else:
                        # a = i*b + j with 0 <= j < b
                        for s, v in la.m.items():
                            sy = self.syms[s]
                            if sy.info and sy.info[0] == "mul" and v == 1 and (sy.info[1] == lb or sy.info[2] == lb):
                                other = sy.info[2] if sy.info[1] == lb else sy.info[1]
                                rest = Lin(la.c, {k: x for k, x in la.m.items() if k != s})
                                if self.ent(S, rest) and self.ent(S, lb - rest - 1):
                                    return Scal(other)
                return Scal(l)
            l = self.opsym(("%", la, lb), "i", -INF, INF, "op")
            if self.ent(S, la) and self.ent(S, lb - 1):
                self.addfact(S, l)
                self.addfact(S, lb - l - 1)
                self.addfact(S, la - l)
            return Scal(l)
        if op in ("&", "|", "^", "<<", ">>"):
            return Scal(self.sym("opaque", op, "i", 0 if op == "&" and (self.ent(S, la) or self.ent(S, lb)) else -INF))
        return Scal(self.sym("opaque", op, "i"))

    def assume_nz(self, S, l):
        return self.addne(S, l)

    def mulfacts(self, S, l, x, y):
        """x*y compared with (upper bound of x)*y, for y >= 0."""
        if not self.ent(S, y):
            return
        s = x.single()
        if s is None:
            return
        for f in list(S.facts.get(s, ())):
            c = f.m[s]
            if c == -1 and all(self.syms[k].kind in ("dim", "param") for k in f.m if k != s):
                ub = Lin(f.c, {k: v for k, v in f.m.items() if k != s})
                # (ub)*y - l >= 0 ; ub = A - c0
                base = Lin(0, ub.m)
                if not base.m:
                    t = y.scale(ub.c)
                else:
                    a, b = sorted((base, y), key=lambda q: (len(q.m), sorted(q.m.items()), q.c))
                    t = self.opsym(("*", a, b), "i", -INF, INF, "op", ("mul", a, b)) + y.scale(ub.c)
                self.addfact(S, t - l)
                return

    def e_Assign(self, e, S, fr):
        op = e["op"]
        out = []
        y = e["y"]
        for s, v in self.ev(y, S, fr):
            for s2, p in self.lv(e["x"], s, fr):
                t = e["x"]["t"]
                if op == "=":
                    nv = self.coerce(s2, self.tov(v), t)
                else:
                    old = self.read(s2, p) if p else self.unknown(t)
                    if isinstance(old, Opq):
                        old = self.unknown(t, self.text(e["x"]))
                    nv = self.arith(s2, op[:-1], old, v, e, fr, t if self.tkind(t) == "f" or (isinstance(v, Scal) and v.ty == "i") else "double")
                    nv = self.coerce(s2, self.tov(nv), t)
                if p is None:
                    self.lostwrite(s2, fr, e)
                self.write(s2, p, nv)
                out.append((s2, nv))
        return out

    def lostwrite(self, S, fr, e):
        self.unmodelled["lost write"] = self.unmodelled.get("lost write", 0) + 1

    def e_OpCall(self, e, S, fr):
        op = e["op"]
        a = e["a"]
        t = e["t"]
        fn = e.get("fn")
        k0 = self.tkind(a[0].get("t", "")) if a else "opq"
        if op == "[]" or op == "()" and k0 == "mat":
            return self.rdlv(e, S, fr)
        if fn and fn["m"] in self.p.funcs and self.p.funcs[fn["m"]].body is not None and not self.p.funcs[fn["m"]].implicit:
            if e.get("ismem"):
                out = []
                for s, p in self.objpath(a[0], S, fr):
                    out += self.inline(self.p.funcs[fn["m"]], a[1:], s, fr, e, this=p)
                return out
            return self.inline(self.p.funcs[fn["m"]], a, S, fr, e)
        if op == "=":
            out = []
            for s, v in self.ev(a[1], S, fr):
                for s2, p in self.lv(a[0], s, fr):
                    v2 = self.tov(v)
                    if isinstance(v2, Cont) and v2.kind == "init":
                        v2 = self.initlist(s2, v2, a[0]["t"])
                    v2 = self.coerce(s2, v2, a[0]["t"])
                    if isinstance(v2, Mat) and clean(a[0]["t"]).startswith("arma::Col"):
                        pass
                    self.write(s2, p, v2)
                    out.append((s2, v2))
            return out
        if op in ("*", "->") and len(a) == 1:
            return self.rdlv(e, S, fr)
        if op == "<<" or op == ">>":
            out = []
            states = [S]
            for i, x in enumerate(a):
                nxt = []
                for s in states:
                    if op == ">>" and i == 1:
                        for s2, p in self.lv(x, s, fr):
                            self.write(s2, p, self.unknown(x["t"], "input"))
                            nxt.append(s2)
                    else:
                        nxt += [s2 for s2, _ in self.ev(x, s, fr)]
                states = nxt
            return [(s, Opq("stream")) for s in states]
        if op in ("==", "!=", "<", ">", "<=", ">="):
            out = []
            for s, x in self.ev(a[0], S, fr):
                for s2, y in self.ev(a[1], s, fr):
                    out.append((s2, self.cmp(s2, op, x, y)))
            return out
        if op in ("++", "--"):
            out = []
            for s, p in self.lv(a[0], S, fr):
                v = self.read(s, p)
                if isinstance(v, Ptr) and v.off is not None:
                    nv = Ptr(v.path, v.off + (1 if op == "++" else -1))
                else:
                    nv = self.unknown(t, op)
                self.write(s, p, nv)
                out.append((s, nv))
            return out
        if op in ("+", "-", "*", "/", "%", "+=", "-=", "*=", "/="):
            out = []
            for s, x in self.ev(a[0], S, fr):
                if len(a) == 1:
                    out.append((s, self.neg(x, e)))
                    continue
                for s2, y in self.ev(a[1], s, fr):
                    if isinstance(x, Mat) or isinstance(y, Mat):
                        r = self.matop(s2, op.rstrip("="), x, y, e, fr)
                    elif isinstance(x, StrV):
                        r = StrV()
                    else:
                        r = self.arith(s2, op.rstrip("="), x, y, e, fr, t if not op.endswith("=") else a[0]["t"])
                    if op.endswith("="):
                        for s3, p in self.lv_noeffect(a[0], s2, fr):
                            self.write(s3, p, r)
                    out.append((s2, r))
            return out
        if op == "()":
            out = []
            for s, f in self.ev(a[0], S, fr):
                if isinstance(f, Lam):
                    out += self.callam(f, a[1:], s, fr, e)
                else:
                    s2s = [s]
                    for x in a[1:]:
                        s2s = [z for s1 in s2s for z, _ in self.ev(x, s1, fr)]
                    out += [(z, self.unknown(t, "call")) for z in s2s]
            return out
        states = [S]
        for x in a:
            states = [s2 for s in states for s2, _ in self.ev(x, s, fr)]
        self.unmodelled["op " + op] = self.unmodelled.get("op " + op, 0) + 1
        return [(s, self.unknown(t, op)) for s in states]

    def matop(self, S, op, x, y, e, fr):
        if not isinstance(x, Mat) or not isinstance(y, Mat):
            return x if isinstance(x, Mat) and not isinstance(y, Opq) else y if isinstance(y, Mat) and not isinstance(x, Opq) else Opq("mat")
        if op == "*":
            d = self.canon(S, x.c - y.r)
            if self.eqzero(S, d):
                self.event("matdim", fr, e["l"], "product", "ok")
            elif self.closed(S, d) or not d.m:
                self.event("matdim", fr, e["l"], "matrix product of %s columns by %s rows" % (self.show(x.c), self.show(y.r)), "alarm")
            else:
                self.event("matdim", fr, e["l"], "matrix product of %s columns by %s rows" % (self.show(x.c), self.show(y.r)), "undecided")
            if x.r == L(1) and y.c == L(1):
                return Mat(L(1), L(1))
            return Mat(x.r, y.c)
        d1, d2 = self.canon(S, x.r - y.r), self.canon(S, x.c - y.c)
        for d in (d1, d2):
            if self.eqzero(S, d):
                self.event("matdim", fr, e["l"], "sum", "ok")
            else:
                self.event("matdim", fr, e["l"], "matrix %s of different extents (%s, %s)" % (op, self.show(d1), self.show(d2)), "alarm" if self.closed(S, d) else "undecided")
        return Mat(x.r, x.c)

    def initlist(self, S, v, t):
        et = targ(clean(t)) if "<" in t else ""
        el = None
        for i in range(len(v.cells)):
            x = self.summ(S, v.cells[L(i)][0]) if L(i) in v.cells else None
            el = x if i == 0 else self.jsum(el, x)
        return Cont(v.len, el, et, "vec", v.cells)

    # -------------------------------------------------------------- construction
    def e_Construct(self, e, S, fr):
        t = e["t"]
        fn = e.get("fn") or {}
        a = [x for x in e.get("a", []) if not (x.get("k") == "DefaultArg" and "allocator" in x.get("t", ""))]
        k = self.tkind(t)
        if (e.get("copy") or e.get("move")) and len(a) == 1 and not (k == "obj" and fn.get("m") in self.p.funcs and self.p.funcs[fn["m"]].body is not None and not self.p.funcs[fn["m"]].implicit):
            out = self.ev(a[0], S, fr)
            return [(s, (self.initlist(s, v, t) if isinstance(v, Cont) and v.kind == "init" else v) if not isinstance(v, Opq) else self.unknown(t, "copy")) for s, v in out]
        if k == "obj":
            r = self.construct_obj(e, fn, a, S, fr)
            if r is not None:
                return r
        states = [(S, [])]
        for x in a:
            states = [(s2, vs + [v]) for s, vs in states for s2, v in self.ev(x, s, fr)]
        out = []
        for s, vs in states:
            if k == "vec":
                out.append((s, self.mkvec(s, t, vs, fn, fr, e)))
            elif k == "mat":
                out.append((s, self.mkmat(s, t, vs)))
            elif k == "str":
                out.append((s, vs[0] if vs and isinstance(vs[0], StrV) else StrV("") if not vs else StrV()))
            elif k == "ptr":
                out.append((s, vs[0] if vs and isinstance(vs[0], Ptr) else Ptr(None)))
            elif k == "pair":
                o = Obj("std::pair", {}, "")
                if len(vs) == 2:
                    o = o.with_("first", self.tov(vs[0])).with_("second", self.tov(vs[1]))
                out.append((s, o))
            elif k in ("i", "f", "b"):
                out.append((s, self.coerce(s, vs[0], t) if vs else self.default(t)))
            elif k == "obj":
                o = Obj(self.rec(t), {}, "")
                out.append((s, o))
            else:
                out.append((s, Opq(clean(t))))
        return out

    def construct_obj(self, e, fn, a, S, fr):
        cls = self.rec(e["t"])
        m = fn.get("m")
        mod = self.models.get(("ctor", cls))
        if mod:
            states = [(S, [])]
            for x in a:
                states = [(s2, vs + [v]) for s, vs in states for s2, v in self.ev(x, s, fr)]
            out = []
            for s, vs in states:
                r = mod(self, s, vs, e, fr)
                if r is None:
                    return None
                out.append((s, r))
            return out
        f = self.p.funcs.get(m)
        if f is None or f.body is None or f.implicit or m in self.active or fr.depth > self.MAXDEPTH:
            return None
        c = self.newcell(S, Obj(cls, {}, ""))
        # default values of the fields
        out = []
        for s, _ in self.inline(f, e.get("a", []), S, fr, e, this=(c, ())):
            out.append((s, s.store.get(c, Obj(cls, {}, ""))))
        return out

    def mkvec(self, S, t, vs, fn, fr, e):
        et = targ(clean(t))
        if not vs:
            return Cont(L(0), None, et)
        if isinstance(vs[0], Cont):
            if vs[0].kind == "init":
                return self.initlist(S, vs[0], t)
            return vs[0]
        if isinstance(vs[0], Ptr) and vs[0].off is not None and len(vs) > 1 and isinstance(vs[1], Ptr) and vs[1].off is not None:
            src = self.read(S, vs[0].path)
            el = self.fold(S, src).elem if isinstance(src, Cont) else None
            return Cont(self.canon(S, vs[1].off - vs[0].off), el, et, tag=src.tag if isinstance(src, Cont) and el is None else None)
        if isinstance(vs[0], Scal):
            n = self.canon(S, vs[0].lin)
            if not self.ent(S, n):
                # a negative size converts to a huge one: the allocation throws
                self.event("alloc", fr, e.get("l"), "size %s may be negative" % self.show(n), "alarm" if self.closed(S, n) else "undecided")
                self.addfact(S, n)
            el = self.tov(vs[1]) if len(vs) > 1 else self.default(et)
            el = self.coerce(S, el, et)
            return Cont(n, self.summ(S, el), et)
        return Cont(self.sym("opaque", "size()", "i", 0), None, et)

    def mkmat(self, S, t, vs):
        ct = clean(t)
        if not vs:
            return Mat(L(0), L(1) if ct.startswith("arma::Col") else L(0))
        if isinstance(vs[0], Mat):
            return vs[0]
        if isinstance(vs[0], Scal) and vs[0].ty == "i":
            n = self.canon(S, vs[0].lin)
            if ct.startswith("arma::Col"):
                return Mat(n, L(1))
            if ct.startswith("arma::Row"):
                return Mat(L(1), n)
            if len(vs) > 1 and isinstance(vs[1], Scal):
                return Mat(n, self.canon(S, vs[1].lin))
        return Mat(self.sym("opaque", "n_rows", "i", 0), self.sym("opaque", "n_cols", "i", 0))

    # -------------------------------------------------------------- calls
    def e_Call(self, e, S, fr, wantref=False):
        fn = e.get("fn")
        if fn is None:
            ce = e.get("ce")
            if ce is not None:
                out = []
                for s, f in self.ev(ce, S, fr):
                    if isinstance(f, Lam):
                        out += self.callam(f, e["a"], s, fr, e)
                    else:
                        out += [(z, self.unknown(e["t"], "call")) for z in self.evargs(e["a"], s, fr)]
                return out
            return [(S, self.unknown(e["t"], "call"))]
        return self.unref(self.callfn(fn, e["a"], S, fr, e, None, wantref), fn, wantref)

    def e_MCall(self, e, S, fr, wantref=False):
        fn = e["fn"]
        out = []
        for s, p in self.objpath(e["o"], S, fr):
            out += self.callfn(fn, e["a"], s, fr, e, p, wantref, e.get("nonvirt"))
        return self.unref(out, fn, wantref)

    def unref(self, out, fn, wantref):
        if wantref or not fn.get("ret", "").strip().endswith("&"):
            return out
        return [(s, self.read(s, v.path) if isinstance(v, Ptr) and v.off is None else v) for s, v in out]

    def evargs(self, a, S, fr):
        states = [S]
        for x in a:
            states = [s2 for s in states for s2, _ in self.ev(x, s, fr)]
        return states

    def argvals(self, a, S, fr):
        states = [(S, [])]
        for x in a:
            states = [(s2, vs + [v]) for s, vs in states for s2, v in self.ev(x, s, fr)]
        return states

    def callfn(self, fn, args, S, fr, e, this, wantref=False, nonvirt=False):
        q = q0(fn["q"])
        mod = self.models.get(q)
        if mod is not None:
            r = mod(self, S, fr, e, fn, args, this)
            if r is not None:
                return r
        m = fn["m"]
        if m in self.p.funcs and not fn["q"].startswith("std::"):
            ts = self.p.targets(fn, nonvirt)
            ts = [t for t in ts if t.body is not None]
            if ts:
                if len(ts) > 1 or (fn.get("virt") and not nonvirt):
                    # dynamic type known?
                    o = self.read(S, this) if this else None
                    if isinstance(o, Obj):
                        own = [t for t in ts if t.cls == o.cls]
                        if own and o.name == "":
                            ts = own
                return self.callmany(ts, args, S, fr, e, this)
        elif fn.get("virt") and not fn["q"].startswith("std::"):
            ts = [t for t in self.p.targets(fn, nonvirt) if t.body is not None]
            if ts:
                return self.callmany(ts, args, S, fr, e, this)
        r = self.libcall(q, fn, args, S, fr, e, this)
        if r is not None:
            return r
        return self.opaquecall(fn, args, S, fr, e, this)

    def callmany(self, ts, args, S, fr, e, this):
        if len(ts) == 1:
            return self.inline(ts[0], args, S, fr, e, this=this)
        out = []
        for t in ts:
            out += self.inline(t, args, S.fork(), fr, e, this=this)
        if len(out) > 4:
            J, v = self.joinstates([s for s, _ in out], [v for _, v in out] if all(v is not None for _, v in out) else None)
            return [(J, v)]
        return out

    def opaquecall(self, fn, args, S, fr, e, this):
        q = q0(fn["q"])
        self.unmodelled[q] = self.unmodelled.get(q, 0) + 1
        states = [S]
        for i, x in enumerate(args):
            pt = fn["pt"][i] if i < len(fn["pt"]) else ""
            nxt = []
            for s in states:
                if pt.strip().endswith("&") and not pt.strip().startswith("const ") and not pt.strip().endswith("&&"):
                    for s2, p in self.lv(x, s, fr):
                        self.write(s2, p, self.unknown(x["t"], "out"))
                        nxt.append(s2)
                else:
                    for s2, v in self.ev(x, s, fr):
                        if isinstance(v, Ptr) and v.off is not None and not pt.startswith("const"):
                            c = self.read(s2, v.path)
                            if isinstance(c, Cont):
                                self.write(s2, v.path, c.with_(elem=None, cells={}))
                        nxt.append(s2)
            states = nxt
        if this is not None and not fn.get("const") and not fn.get("static"):
            for s in states:
                v = self.read(s, this)
                if isinstance(v, Obj):
                    self.write(s, this, Obj(v.cls, {}, ""))
                elif isinstance(v, Cont):
                    self.write(s, this, Cont(self.sym("opaque", "size()", "i", 0), None, v.et, v.kind))
        return [(s, self.unknown(fn["ret"], q.split("::")[-1] + "()")) for s in states]

    def inline(self, f, args, S, caller, e, this=None):
        if f.m in self.contracts and not (f.cls and not f.static):
            return contracts.call(self, self.contracts[f.m], f, args, S, caller, e, this)
        if f.m in self.active or caller.depth >= self.MAXDEPTH:
            return self.opaquecall(dict(q=f.q, pt=[p["t"] for p in f.params], ret=f.ret, const=f.const, static=f.static, m=f.m), args, S, caller, e, this)
        line = e.get("l") or caller.line
        gstart = len(self.syms)
        states = [(S, {})]
        for i, p in enumerate(f.params):
            if i >= len(args):
                break
            a = args[i]
            t = p["t"]
            nxt = []
            for s, b in states:
                if t.strip().endswith("&") and not t.strip().endswith("&&"):
                    for s2, path in self.lv(a, s, caller):
                        if path is None:
                            path = (self.newcell(s2, self.unknown(t, p["n"])), ())
                        # conversions make temporaries
                        v = None
                        b2 = dict(b)
                        b2[p["id"]] = path
                        nxt.append((s2, b2))
                else:
                    for s2, v in self.ev(a, s, caller):
                        v = self.tov(v)
                        if isinstance(v, Cont) and v.kind == "init":
                            v = self.initlist(s2, v, t)
                        v = self.coerce(s2, v, t)
                        b2 = dict(b)
                        b2[p["id"]] = (self.newcell(s2, v), ())
                        nxt.append((s2, b2))
            states = nxt
        caller.line = line
        self.inlined.add(f.m)
        out = []
        self.active.append(f.m)
        try:
            for s, b in states:
                fr = Frame(f, caller)
                fr.this = this
                fr.call = e
                fr.vars.update(b)
                cells0 = None
                for s2, v in self.body(f, s, fr):
                    caller.line = line
                    if v is None:
                        v = Opq("void") if clean(f.ret) == "void" else self.unknown(f.ret, f.name)
                    # locals of the callee are gone
                    for vid, pth in fr.vars.items():
                        if not pth[1] and vid not in b and pth[0] in s2.store and not isinstance(v, Ptr) and not isinstance(v, Lam):
                            del s2.store[pth[0]]
                    self.gc(s2, gstart, v)
                    out.append((s2, v))
        finally:
            self.active.pop()
        caller.line = line
        if len(out) > 1:
            out2 = self.compact([(s, ("ret", v)) for s, v in out], 8, 1)
            out = [(s, c[1]) for s, c in out2]
        return out

    def callam(self, lam, args, S, fr, e):
        node = lam.node
        ps = node.get("ps", [])
        states = [(S, {})]
        for i, p in enumerate(ps):
            if i >= len(args):
                break
            nxt = []
            for s, b in states:
                if p["t"].strip().endswith("&"):
                    for s2, path in self.lv(args[i], s, fr):
                        b2 = dict(b)
                        b2[p["id"]] = path or (self.newcell(s2, self.unknown(p["t"])), ())
                        nxt.append((s2, b2))
                else:
                    for s2, v in self.ev(args[i], s, fr):
                        b2 = dict(b)
                        b2[p["id"]] = (self.newcell(s2, self.coerce(s2, self.tov(v), p["t"])), ())
                        nxt.append((s2, b2))
            states = nxt
        out = []
        for s, b in states:
            f2 = Frame(fr.func, fr)
            f2.lexical = lam.frame
            f2.this = lam.frame.this
            f2.vars.update(b)
            for s2, ctl in self.exec(node["body"], s, f2):
                out.append((s2, ctl[1] if isinstance(ctl, tuple) and ctl[1] is not None else Opq("void")))
        return out

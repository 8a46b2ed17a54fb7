"""Statements, expressions, calls and loops of the symbolic abstract interpreter (see sai.py)."""
from fractions import Fraction
import re
from .sai import (Analyzer, Boo, Cont, D, Event, Frame, I, INF, Lam, Lin, L, Mat, N, Obj, Opq, Ptr, Scal, State, StopPaths, StrV, Sum, V, ANYF,
                  UNSIGNED, INTS, FLOATS, clean, targ)
from .ir import walk

TRUE, FALSE = Boo(True), Boo(False)
ANY = ((),)


def isunsigned(t):
    return clean(t) in UNSIGNED


def q0(q):
    """Qualified name without template arguments."""
    out, d = [], 0
    for ch in q:
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif d == 0:
            out.append(ch)
    return "".join(out)


class Interp(Analyzer):
    # ============================================================== entry
    def entry(self, f, bind=None, this=None):
        """Analyse f over all inputs; returns its exit states [(S, value, frame)]."""
        S = State()
        fr = Frame(f, None)
        if this is not None:
            fr.this = (self.newcell(S, this), ())
        for i, p in enumerate(f.params):
            v = bind(self, S, f, i, p) if bind else None
            if v is None:
                v = self.unknown(p["t"], p["n"] or "arg%d" % i, closed=True)
            fr.vars[p["id"]] = (self.newcell(S, v), ())
        self.root = fr
        self.inlined.add(f.m)
        self.active = [f.m]
        outs = self.body(f, S, fr)
        self.active = []
        return outs, fr

    def body(self, f, S, fr):
        states = [S]
        for ini in f.d.get("inits") or []:
            if ini.get("e") is None:
                continue
            nxt = []
            for s in states:
                if ini.get("n"):
                    for s2, v in self.ev(ini["e"], s, fr):
                        self.write(s2, self.sub(fr.this, ("f", ini["n"])), self.tov(v))
                        nxt.append(s2)
                else:
                    nxt += self.basector(ini, s, fr)
            states = nxt
        out = []
        for s in states:
            if f.body is None:
                out.append((s, None))
                continue
            for s2, ctl in self.exec(f.body, s, fr):
                out.append((s2, ctl[1] if isinstance(ctl, tuple) else None))
        return out

    def basector(self, ini, S, fr):
        e = ini["e"]
        if e.get("k") == "Construct" and e.get("fn"):
            m = e["fn"]["m"]
            if m in self.p.funcs and self.p.funcs[m].body is not None and not self.p.funcs[m].implicit:
                return [s for s, _ in self.inline(self.p.funcs[m], e.get("a", []), S, fr, e, this=fr.this)]
        return [s for s, _ in self.ev(e, S, fr)]

    @staticmethod
    def sub(path, sel):
        return None if path is None else (path[0], path[1] + (sel,))

    def tov(self, v):
        if isinstance(v, Boo) and v.val is not None:
            return Scal(L(int(v.val)), "i")
        return v

    # ============================================================== merging
    def joinvals(self, pairs, name="join"):
        """pairs: [(S, v)] -> value valid in their join."""
        vals = [v for _, v in pairs]
        a = vals[0]
        if all(x is a or x == a for x in vals[1:]):
            if isinstance(a, Scal) and a.ty == "f":
                m = 0
                for s, v in pairs:
                    m |= self.mask(s, v)
                return Scal(a.lin, a.ty, m)
            return a
        if all(isinstance(x, (Scal, Boo)) for x in vals):
            if any(isinstance(x, Boo) for x in vals):
                return Scal(self.sym("opaque", name, "i", 0, 1), "i")
            lins = [self.canon(s, v.lin) for s, v in pairs]
            ty = a.ty
            m = 0
            for s, v in pairs:
                m |= self.mask(s, v)
            if all(l == lins[0] for l in lins):
                return Scal(lins[0], ty, m)
            bs = [self.bounds(s, l) for (s, v), l in zip(pairs, lins) if ty == "i" or self.mask(s, v) & ~(N | D)]
            lo = min([b[0] for b in bs] or [-INF])
            hi = max([b[1] for b in bs] or [INF])
            return Scal(self.sym("opaque", name, ty, lo, hi), ty, m)
        if all(isinstance(x, Cont) for x in vals):
            ln = self.joinvals([(s, Scal(v.len)) for s, v in pairs], name + ".size()").lin
            keys = [k for k in a.cells if all(k in x.cells for x in vals)]
            cells = {}
            for k in keys:
                cells[k] = (self.joinvals([(s, v.cells[k][0]) for s, v in pairs], name + "[]"), any(v.cells[k][1] for v in vals))
            el = None
            first = True
            for s, v in pairs:
                f = self.fold(s, v.with_(cells={k: c for k, c in v.cells.items() if k not in keys}))
                if v.len == L(0) and not v.cells:
                    continue
                e = f.elem if not isinstance(f.elem, Scal) else self.summ(s, f.elem)
                el = e if first else self.jsum(el, e)
                first = False
            return Cont(ln, el, a.et, a.kind, cells, a.tag)
        if all(isinstance(x, Mat) for x in vals):
            if all(x.r == a.r and x.c == a.c for x in vals):
                el = a.elem
                for x in vals[1:]:
                    el = self.jsum(el, x.elem)
                return Mat(a.r, a.c, el)
            return Mat(self.joinvals([(s, Scal(v.r)) for s, v in pairs], name + ".n_rows").lin, self.joinvals([(s, Scal(v.c)) for s, v in pairs], name + ".n_cols").lin)
        if all(isinstance(x, Obj) and x.cls == a.cls for x in vals):
            f = {}
            for k in a.fields:
                if all(k in x.fields for x in vals):
                    f[k] = self.joinvals([(s, v.fields[k]) for s, v in pairs], name + "." + k)
            return Obj(a.cls, f, a.name if all(x.name == a.name for x in vals) else "")
        if all(isinstance(x, StrV) for x in vals):
            return StrV()
        if all(isinstance(x, Ptr) for x in vals):
            return Ptr(None)
        return Opq("?")

    def joinstates(self, Ss, extra=None):
        """Join of states; extra: values (one per state) joined along."""
        if len(Ss) == 1:
            return Ss[0], (extra[0] if extra else None)
        A = Ss[0]
        R = State()
        R.omp, R.tries = A.omp, A.tries
        R.guards = frozenset.intersection(*[s.guards for s in Ss])
        if self.goals:
            R.kept = frozenset(g for g in range(len(self.goals())) if all(g in s.kept or self.goalholds(s, g) for s in Ss))
        for c in A.store:
            if all(c in s.store for s in Ss[1:]):
                R.store[c] = self.joinvals([(s, s.store[c]) for s in Ss], "v%d" % c)
        ex = self.joinvals([(s, x) for s, x in zip(Ss, extra)]) if extra and extra[0] is not None else None
        for k, l in A.sub.items():
            d = Lin(0, {k: 1}) - l
            if all(s.sub.get(k) == l or self.eqzero(s, d) for s in Ss[1:]):
                R.sub[k] = l
        seen = set()
        for s in Ss:
            for fs in s.facts.values():
                for f in fs:
                    if f in seen:
                        continue
                    seen.add(f)
                    g = f
                    if all(t is s or any(g in t.facts.get(k, ()) for k in g.m) or self.ent(t, g, 4) for t in Ss):
                        for k in g.m:
                            if g not in R.facts.get(k, ()):
                                R.facts[k] = R.facts.get(k, ()) + (g,)
            # equalities that not all share may still hold as inequalities
            if s is A:
                for k, l in s.sub.items():
                    if k not in R.sub:
                        d = Lin(0, {k: 1}) - l
                        for g in (d, -d):
                            if all(self.ent(t, g, 4) for t in Ss):
                                for k2 in g.m:
                                    R.facts[k2] = R.facts.get(k2, ()) + (g,)
        for k, m in A.refine.items():
            if all(k in s.refine for s in Ss[1:]):
                for s in Ss[1:]:
                    m |= s.refine[k]
                R.refine[k] = m
        R.nes = tuple(n for n in A.nes if all(n in s.nes for s in Ss[1:]))
        R.preds = {k: v for k, v in A.preds.items() if all(s.preds.get(k) == v for s in Ss[1:])}
        return R, ex

    def goalholds(self, S, g):
        from . import contracts
        req, tok = self.goals()[g]
        return contracts.holds(self, S, req, tok) is True

    def dimfact(self, f):
        return all(self.syms[s].kind in ("dim", "param", "phi") for s in f.m)

    def compact(self, outs, cap=None, soft0=None):
        """outs: [(S, ctl)]: merge states that agree on everything stored."""
        cap = cap or self.MAXP
        if len(outs) < 2:
            return outs
        res = []
        for S, ctl in outs:
            done = False
            for i, (T, c2) in enumerate(res):
                if ctl == c2 and S.store == T.store and S.omp == T.omp:
                    if self.onlynoise(S, T):
                        J, _ = self.joinstates([T, S])
                        res[i] = (J, ctl)
                        done = True
                        break
            if not done:
                res.append((S, ctl))
        for level, soft in ((0, soft0 or self.SOFT), (1, 2 * self.SOFT)):
            if len(res) <= soft:
                break
            groups = {}
            for S, ctl in res:
                groups.setdefault(self.sig(S, ctl, level), []).append((S, ctl))
            if len(groups) < len(res):
                res = []
                for g in groups.values():
                    if len(g) == 1:
                        res.append(g[0])
                        continue
                    ctl = g[0][1]
                    if isinstance(ctl, tuple):
                        J, v = self.joinstates([s for s, _ in g], [c[1] for _, c in g])
                        res.append((J, ("ret", v)))
                    else:
                        res.append((self.joinstates([s for s, _ in g])[0], ctl))
        if len(res) > cap:
            groups = {}
            order = []
            for S, ctl in res:
                k = ctl if not isinstance(ctl, tuple) else ("ret", self.retkey(ctl[1]))
                if k not in groups:
                    groups[k] = []
                    order.append(k)
                groups[k].append((S, ctl))
            # preserve as many distinct groups as possible: merge inside the largest
            out = []
            for k in order:
                g = groups[k]
                if isinstance(k, tuple):
                    J, v = self.joinstates([s for s, _ in g], [c[1] for _, c in g])
                    out.append((J, ("ret", v)))
                else:
                    J, _ = self.joinstates([s for s, _ in g])
                    out.append((J, k))
            return out
        return res

    SOFT = 4

    def sig(self, S, ctl, level):
        """What two states must share to be merged early: control, integers, extents, and what is known of the inputs."""
        def vs(v):
            if isinstance(v, Scal):
                if v.ty == "f":
                    return ("f", self.mask(S, v)) if level == 0 else "f"
                return v.lin
            if isinstance(v, Boo):
                return ("b", v.val)
            if isinstance(v, Cont):
                if not v.cells:
                    return v.len
                return (v.len, tuple(sorted(((hash(k), vs(x)) for k, (x, w) in v.cells.items()), key=lambda q: q[0])) if not level else None)
            if isinstance(v, Mat):
                return (v.r, v.c)
            if isinstance(v, Obj):
                return tuple((n, vs(x)) for n, x in sorted(v.fields.items()))
            if isinstance(v, Ptr):
                return (v.path and v.path[0], v.off)
            return None
        known = frozenset(f for k, fs in S.facts.items() if self.syms[k].kind in ("dim", "param") for f in fs if self.dimonly(f))
        subs = frozenset((k, l) for k, l in S.sub.items() if self.syms[k].kind in ("dim", "param"))
        c = ctl if not isinstance(ctl, tuple) else ("ret", self.retkey(ctl[1]), vs(ctl[1]))
        return (c, S.omp, known, subs, frozenset(S.preds.items()), frozenset((k, vs(v)) for k, v in S.store.items()))

    def dimonly(self, f):
        return all(self.syms[s].kind in ("dim", "param") for s in f.m)

    def retkey(self, v):
        if isinstance(v, Boo):
            return ("b", v.val)
        if isinstance(v, Scal) and not v.lin.m and v.ty == "i":
            return ("c", v.lin.c)
        return type(v).__name__

    def onlynoise(self, S, T):
        a = {f for fs in S.facts.values() for f in fs}
        b = {f for fs in T.facts.values() for f in fs}
        for f in a ^ b:
            if all(self.syms[s].kind in ("dim", "param") for s in f.m):
                return False
        for k in set(S.sub) ^ set(T.sub):
            if self.syms[k].kind in ("dim", "param"):
                return False
        for k in set(S.sub) & set(T.sub):
            if S.sub[k] != T.sub[k]:
                return False
        if S.preds != T.preds:
            return False
        return True

    # ============================================================== statements
    def exec(self, s, S, fr):
        """-> [(S, ctl)], ctl in None, 'break', 'continue', ('ret', value)."""
        if s is None:
            return [(S, None)]
        self.tick()
        k = s["k"]
        if s.get("l"):
            fr.line = s["l"]
        m = getattr(self, "x_" + k, None)
        if m is None:
            return [(x, None) for x, _ in self.ev(s, S, fr)]
        return m(s, S, fr)

    def seq(self, stmts, S, fr):
        cur = [S]
        done = []
        for st in stmts:
            nxt = []
            for s in cur:
                for s2, ctl in self.exec(st, s, fr):
                    if ctl is None:
                        nxt.append((s2, None))
                    else:
                        done.append((s2, ctl))
            nxt = self.compact(nxt)
            cur = [s for s, _ in nxt]
            if not cur:
                break
        if len(done) > self.MAXP:
            done = self.compact(done)
        return [(s, None) for s in cur] + done

    def x_Block(self, s, S, fr):
        start = len(self.syms)
        out = self.seq(s["b"], S, fr)
        ids = [v["id"] for st in s["b"] if st["k"] == "Decl" for v in st["v"] if not v.get("static")]
        if ids:
            for x, ctl in out:
                self.leave(x, fr, ids, ctl[1] if isinstance(ctl, tuple) else None)
        for x, ctl in out:
            self.gc(x, start, ctl[1] if isinstance(ctl, tuple) else None)
        return out

    def leave(self, S, fr, ids, ret=None):
        """The variables go out of scope."""
        cells = [fr.vars[i][0] for i in ids if i in fr.vars and not fr.vars[i][1] and fr.vars[i][0] in S.store]
        if not cells:
            return
        if isinstance(ret, (Ptr, Lam)):
            return
        held = set()
        for v in S.store.values():
            if isinstance(v, Ptr) and v.path:
                held.add(v.path[0])
            elif isinstance(v, Lam):
                return
        for c in cells:
            if c not in held:
                del S.store[c]

    def x_Nop(self, s, S, fr):
        return [(S, None)]

    def x_Decl(self, s, S, fr):
        states = [S]
        for v in s["v"]:
            nxt = []
            for st in states:
                nxt += self.declare(v, st, fr)
            states = nxt
        return [(x, None) for x in states]

    def declare(self, v, S, fr):
        t = v["t"]
        init = v.get("init")
        if v.get("static"):
            fr.vars[v["id"]] = (self.newcell(S, self.unknown(t, v["n"])), ())
            return [S]
        if t.strip().endswith("&") and init is not None:
            out = []
            for s, p in self.lv(init, S, fr):
                if p is None:
                    p = (self.newcell(s, self.unknown(t, v["n"])), ())
                fr.vars[v["id"]] = p
                out.append(s)
            if len(out) > 1:
                # one binding per name: keep paths apart only when they agree
                pass
            return out
        if init is None:
            val = self.uninit(t, v["n"])
            c = self.cellfor(fr, v["id"], S)
            S.store[c] = val
            return [S]
        out = []
        c = self.cellfor(fr, v["id"], S)
        for s, val in self.ev(init, S, fr):
            val = self.coerce(s, self.tov(val), t)
            if isinstance(val, Cont) and not val.tag:
                val = val.with_(tag=v["n"]) if val.elem is not None else val
            s.store[c] = val
            out.append(s)
        return out

    def cellfor(self, fr, vid, S):
        if vid in fr.vars and not fr.vars[vid][1]:
            return fr.vars[vid][0]
        self.ncell += 1
        fr.vars[vid] = (self.ncell, ())
        return self.ncell

    def uninit(self, t, name):
        k = self.tkind(t)
        if k in ("vec", "str", "mat", "obj", "pair"):
            return self.default(t)
        return self.unknown(t, name)

    def coerce(self, S, v, t):
        k = self.tkind(t)
        if k == "f" and isinstance(v, Scal) and v.ty == "i":
            return Scal(v.lin, "f", V)
        if k == "i" and isinstance(v, Scal) and v.ty == "f":
            return self.toint(S, v)
        if k == "b" and isinstance(v, Scal) and v.ty == "f":
            return Scal(self.sym("opaque", "bool", "i", 0, 1), "i")
        if k in ("i", "f") and isinstance(v, Boo):
            if v.val is not None:
                return Scal(L(int(v.val)), k)
            return Scal(self.sym("opaque", "bool", "i", 0, 1), k)
        if isinstance(v, Opq) and k not in ("opq",):
            return self.unknown(t, "value")
        if k == "b" and isinstance(v, Scal):
            lo, hi = self.bounds(S, v.lin)
            if lo < 0 or hi > 1:
                b = self.tobool(S, v)
                return self.tov(b)
        return v

    def x_Expr(self, s, S, fr):
        return [(x, None) for x, _ in self.ev(s["e"], S, fr)]

    def x_Return(self, s, S, fr):
        if s.get("e") is None:
            return [(S, ("ret", None))]
        e = s["e"]
        if fr.func.ret.strip().endswith("&") and not fr.lexical:
            return [(x, ("ret", Ptr(p))) for x, p in self.lv(e, S, fr)]
        if clean(fr.func.ret) == "bool" and not fr.lexical:
            if e.get("k") == "Bin" and e["op"] in ("&&", "||") or e.get("k") == "Un" and e["op"] == "!":
                T, F = self.cond(e, S, fr)
                return [(x, ("ret", TRUE)) for x in T] + [(x, ("ret", FALSE)) for x in F]
        out = []
        for x, v in self.ev(e, S, fr):
            out.append((x, ("ret", self.coerce(x, self.tov(v), fr.func.ret) if not fr.lexical else self.tov(v))))
        return out

    def x_Break(self, s, S, fr):
        return [(S, "break")]

    def x_Continue(self, s, S, fr):
        return [(S, "continue")]

    def x_If(self, s, S, fr):
        out = []
        states = [S]
        if s.get("init"):
            states = [x for x, _ in self.exec(s["init"], S, fr)]
        if s.get("cv"):
            states = [y for x in states for y in self.declare(s["cv"], x, fr)]
        for st in states:
            T, F = self.cond(s["c"], st, fr)
            for x in T:
                out += self.exec(s["x"], x, fr) if s.get("x") else [(x, None)]
            for x in F:
                out += self.exec(s["y"], x, fr) if s.get("y") else [(x, None)]
        return self.compact(out)

    def x_Switch(self, s, S, fr):
        items = s["b"]["b"] if s["b"].get("k") == "Block" else [s["b"]]
        flat = []
        for it in items:
            labels = []
            while it is not None and it.get("k") in ("Case", "Default"):
                labels.append(it.get("cv") if it["k"] == "Case" else "default")
                it = it.get("b")
            flat.append((labels, it))
        out = []
        for st, v in self.ev(s["c"], S, fr):
            rest = [st]
            entries = []
            for i, (labels, _) in enumerate(flat):
                for lab in labels:
                    if lab == "default":
                        entries.append((i, None))
                    else:
                        entries.append((i, lab))
            for i, lab in entries:
                if lab is None:
                    continue
                nr = []
                for r in rest:
                    T, F = self.split(r, self.cmp(r, "==", v, Scal(L(lab if isinstance(lab, int) else 0))))
                    nr += F
                    for t in T:
                        out += self.runfrom(flat, i, t, fr)
                rest = nr
            d = [i for i, lab in entries if lab is None]
            for r in rest:
                out += self.runfrom(flat, d[0], r, fr) if d else [(r, None)]
        return self.compact([(x, None if c == "break" else c) for x, c in out])

    def runfrom(self, flat, i, S, fr):
        return self.seq([it for _, it in flat[i:] if it is not None], S, fr)

    def x_Case(self, s, S, fr):
        return self.exec(s.get("b"), S, fr)

    x_Default = x_Case

    def x_Try(self, s, S, fr):
        bucket = []
        S0 = S.fork()
        S.tries = S.tries + ((id(s), S.omp, bucket, [h.get("t", "") for h in s["h"]]),)
        out = []
        for x, ctl in self.exec(s["b"], S, fr):
            x.tries = x.tries[:-1] if x.tries else ()
            out.append((x, ctl))
        if bucket or True:
            T = bucket[:6]
            # states at the throw points; when none was seen (a library call may throw), the state at entry with everything assigned inside forgotten
            if not T:
                h0 = S0.fork()
                self.havoc_assigned(s["b"], h0, fr)
                T = [h0]
            if len(bucket) > 6:
                J, _ = self.joinstates(bucket)
                T = [J]
            for h in s["h"]:
                for t in T:
                    t2 = t.fork()
                    t2.tries = S0.tries
                    t2.omp = S0.omp
                    if h.get("v"):
                        fr.vars[h["v"]["id"] if isinstance(h["v"], dict) else h["v"]] = (self.newcell(t2, Opq("exception")), ())
                    out += self.exec(h["b"], t2, fr)
        return self.compact(out)

    def havoc_assigned(self, node, S, fr):
        for vid, t in self.assigned(node):
            p = self.lookup(fr, vid)
            if p is not None:
                self.write(S, p, self.unknown(t, "v"))

    def assigned(self, node):
        out = []
        for x in walk(node):
            k = x.get("k")
            tgt = None
            if k == "Assign":
                tgt = x["x"]
            elif k == "Un" and x["op"] in ("++", "--"):
                tgt = x["e"]
            while tgt is not None and tgt.get("k") == "Cast":
                tgt = tgt["e"]
            if tgt is not None and tgt.get("k") == "Ref" and tgt.get("rk") in ("local", "param"):
                out.append((tgt["id"], tgt["t"]))
        return out

    def x_OMP(self, s, S, fr):
        d = s.get("d", "")
        par = "parallel" in d
        if par:
            S.omp += 1
            self.event("region", fr, s["l"], d, "info")
        for cl in s.get("cl", []):
            if cl.get("c") in ("private",):
                for n, v in zip(cl.get("n", []), cl.get("v", [])):
                    p = self.lookup(fr, v)
                    if p is not None:
                        old = self.read(S, p)
                        if isinstance(old, Scal):
                            self.write(S, p, Scal(self.sym("opaque", n, old.ty), old.ty, ANYF if old.ty == "f" else V))
        out = self.exec(s["b"], S, fr) if s.get("b") else [(S, None)]
        if par:
            for x, _ in out:
                x.omp -= 1
        return out

    # ============================================================== loops
    def x_For(self, s, S, fr):
        states = [S]
        start = len(self.syms)
        if s.get("init"):
            states = [x for x, _ in self.exec(s["init"], S, fr)]
        out = []
        for st in states:
            out += self.loop(s, st, fr, s.get("c"), s.get("inc"), s["b"])
        if s.get("init") and s["init"]["k"] == "Decl":
            ids = [v["id"] for v in s["init"]["v"]]
            for x, ctl in out:
                self.leave(x, fr, ids, ctl[1] if isinstance(ctl, tuple) else None)
                self.gc(x, start, ctl[1] if isinstance(ctl, tuple) else None)
        return self.compact(out)

    def x_While(self, s, S, fr):
        return self.loop(s, S, fr, s["c"], None, s["b"])

    def x_Do(self, s, S, fr):
        # body once, then a while loop
        out = []
        for x, ctl in self.exec(s["b"], S, fr):
            if ctl in (None, "continue"):
                out += self.loop(s, x, fr, s["c"], None, s["b"])
            elif ctl == "break":
                out.append((x, None))
            else:
                out.append((x, ctl))
        return self.compact(out)

    def x_RangeFor(self, s, S, fr):
        out = []
        for st, p in self.lv(s["r"], S, fr):
            c = self.read(st, p)
            if not isinstance(c, Cont):
                self.bindvar(s["v"], self.unknown(s["v"]["t"], s["v"]["n"]), st, fr)
                out += self.loop(s, st, fr, None, None, s["b"], maybe=True)
                continue
            hid = (self.newcell(st, Scal(L(0))), ())

            def test(x, hid=hid, p=p):
                i = self.read(x, hid)
                c = self.read(x, p)
                return self.split(x, self.cmp(x, "<", i, Scal(c.len if isinstance(c, Cont) and c.len is not None else self.sym("opaque", "size", "i", 0))))

            def head(x, hid=hid, p=p):
                i = self.read(x, hid)
                ep = self.sub(p, ("e", i.lin))
                if s["v"]["t"].strip().endswith("&"):
                    fr.vars[s["v"]["id"]] = ep
                else:
                    self.bindvar(s["v"], self.read(x, ep), x, fr)

            def inc(x, hid=hid):
                i = self.read(x, hid)
                self.write(x, hid, Scal(i.lin + 1))
            out += self.loop(s, st, fr, test, inc, s["b"], head=head, extra=[hid[0]])
        return self.compact(out)

    def bindvar(self, v, val, S, fr):
        c = self.cellfor(fr, v["id"], S)
        S.store[c] = val

    def testc(self, c, S, fr):
        if c is None:
            return [S], []
        if callable(c):
            return c(S)
        return self.cond(c, S, fr)

    def checking(self, body):
        """A loop that only looks: it may leave early or set a flag, but stores into no container."""
        n = 0
        leaves = False
        todo = [body]
        while todo:
            x = todo.pop()
            if isinstance(x, list):
                todo += x
                continue
            if not isinstance(x, dict):
                continue
            k = x.get("k")
            if k:
                n += 1
            if k in ("OMP", "Lambda", "Try", "New", "Delete"):
                return False
            if k == "Return" or k == "Throw" or k == "Break":
                leaves = True
            if k == "Assign" or (k == "Un" and x.get("op") in ("++", "--")):
                y = x.get("x") or x.get("e") or {}
                if y.get("k") != "Ref" or "vector" in y.get("t", ""):
                    return False
                if "bool" in y.get("t", ""):
                    leaves = True
            todo += [v for v in x.values() if isinstance(v, (dict, list))]
            if n > 150:
                return False
        return leaves

    def loop(self, node, S0, fr, cond, inc, body, head=None, extra=(), maybe=False):
        """Checking loops have their first turn taken apart: what it finds holds of every row, since the rows of an
        input are equally long."""
        if maybe or not self.checking(body):
            return self.loop1(node, S0, fr, cond, inc, body, head, extra, maybe)
        T, F = self.testc(cond, S0.fork(), fr)
        if not T:
            return self.loop1(node, S0, fr, cond, inc, body, head, extra, maybe)
        res = [(x, None) for x in F]
        nxt = []
        for t in T:
            if head:
                head(t)
            for x, ctl in self.exec(body, t, fr):
                if ctl in (None, "continue"):
                    nxt.append(x)
                elif ctl == "break":
                    res.append((x, None))
                else:
                    res.append((x, ctl))
        for x in nxt:
            if inc is None:
                ys = [x]
            elif callable(inc):
                inc(x)
                ys = [x]
            else:
                ys = [y for y, _ in self.ev(inc, x, fr)]
            for y in ys:
                res += self.loop1(node, y, fr, cond, inc, body, head, extra, maybe)
        return self.compact(res)

    def loop1(self, node, S0, fr, cond, inc, body, head=None, extra=(), maybe=False):
        start = len(self.syms)
        self.loopn += 1
        ln = self.loopn
        S0 = S0.fork()
        phis = {}      # key -> dict(sym, ty, mask, lo, hi, entry, n)
        cands = {}     # key -> list of (coef, restLin, [(coef,key2)])
        names = {}
        modcells = set(extra)
        for nd in (cond if isinstance(cond, dict) else None, inc if isinstance(inc, dict) else None, body):
            if nd is None:
                continue
            for vid, t in self.assigned(nd):
                p = self.lookup(fr, vid)
                if p is not None and not p[1] and p[0] in S0.store and isinstance(S0.store[p[0]], (Scal,)):
                    modcells.add(p[0])
                    names[p[0]] = self.varname(nd, vid)
        H = None
        backs = []
        cover = {}
        passes = 0
        self.loopstart = start
        variant = lambda l: any(s >= start for s in l.m)
        self.mute += 1
        stable = False
        while True:
            passes += 1
            # ---- head state
            H = S0.fork()
            cover = {}
            changed = self.headjoin(H, S0, backs, phis, modcells, names, ln, start, passes, cover)
            # assume candidates
            for key, lst in cands.items():
                if key in phis:
                    for cand in lst:
                        self.addfact(H, self.candlin(cand, key, phis), False)
            if stable and not changed:
                self.mute -= 1
            final = stable and not changed
            if final:
                self.markcounters(phis, backs, H, cond, fr, inc)
            T, F = self.testc(cond, H.fork(), fr)
            if maybe:
                F = F + [H.fork()]
            # ---- candidate invariants
            newc = False
            if passes == 1 or any(k not in cands for k in phis):
                new = [k for k in phis if k not in cands and phis[k]["sym"] is not None and phis[k]["ty"] == "i"]
                CT = self.relaxed(new, phis, cond, H, fr) if new else []
                for key, ph in phis.items():
                    if key not in cands:
                        cands[key] = self.mkcands(key, ph, phis, S0, CT, start) if ph["ty"] in ("i", "f") else []
                        newc = True
            if newc and not final:
                H = S0.fork()
                self.headjoin(H, S0, backs, phis, modcells, names, ln, start, passes, {})
                for key, lst in cands.items():
                    for cand in lst:
                        self.addfact(H, self.candlin(cand, key, phis), False)
                T, F = self.testc(cond, H.fork(), fr)
            nb = []
            outs = []
            for t in T:
                if head:
                    head(t)
                for x, ctl in self.exec(body, t, fr):
                    if ctl in (None, "continue"):
                        nb.append(x)
                    elif ctl == "break":
                        outs.append((x, None))
                    else:
                        outs.append((x, ctl))
            nb2 = []
            for x in nb:
                if inc is None:
                    nb2.append(x)
                elif callable(inc):
                    inc(x)
                    nb2.append(x)
                else:
                    nb2 += [y for y, _ in self.ev(inc, x, fr)]
            if final:
                break
            backs = nb2
            # ---- check candidates
            drop = False
            for key in list(cands):
                keep = []
                for cand in cands[key]:
                    ok = True
                    for b in backs:
                        g = self.candback(cand, key, phis, b)
                        if g is None or not self.ent(b, g):
                            ok = False
                            break
                    if ok:
                        keep.append(cand)
                    else:
                        drop = True
                cands[key] = keep
            # would the head change?
            H2 = S0.fork()
            ch = self.headjoin(H2, S0, backs, phis, modcells, names, ln, start, passes, {}, probe=H)
            stable = not drop and not ch
            if passes > 9:
                # give up on what still moves
                self.truncated += 1
                for key in phis:
                    phis[key]["force"] = True
                for c in list(H.store):
                    if c in H2.store and H2.store[c] != H.store[c]:
                        S0.store[c] = self.blur(S0.store[c], H.store[c], H2.store[c])
                stable = True
                if passes > 14:
                    self.mute -= 1
                    break
        # ---- leaving the loop
        res = []
        for f in F:
            self.applycover(f, cover, phis, start, ln, backs, outs)
            res.append((f, None))
        for x, ctl in outs:
            res.append((x, ctl))
        for x, ctl in res:
            self.gc(x, start, ctl[1] if isinstance(ctl, tuple) else None)
        return self.compact(res)

    def blur(self, v, a=None, b=None):
        if isinstance(v, Cont) and isinstance(a, Cont) and isinstance(b, Cont) and v.len is not None and v.len == a.len == b.len:
            el = self.flat(v), self.flat(a), self.flat(b)
            return Cont(v.len, self.blursum(el), v.et, v.kind)
        if isinstance(v, Scal):
            return Scal(self.sym("opaque", "blur", v.ty), v.ty, ANYF if v.ty == "f" else V)
        if isinstance(v, Cont):
            return Cont(self.sym("opaque", "blur.size()", "i", 0), None, v.et, v.kind)
        if isinstance(v, Mat):
            return Mat(self.sym("opaque", "r", "i", 0), self.sym("opaque", "c", "i", 0))
        if isinstance(v, Obj):
            return Obj(v.cls, {}, "")
        return Opq("blur")

    def flat(self, v):
        """Summary of all elements with nothing known about values."""
        S = State()
        return self.fold(S, v).elem

    def blursum(self, els):
        e = els[0]
        if all(isinstance(x, Cont) for x in els):
            if all(x.len == e.len for x in els):
                return Cont(e.len, self.blursum([self.flat(x) for x in els]), e.et, e.kind)
            return None
        if all(isinstance(x, (Sum, Scal)) for x in els):
            m = 0
            for x in els:
                m |= x.mask
            return Sum(e.ty, m)
        return None

    def varname(self, nd, vid):
        for x in walk(nd):
            if x.get("k") == "Ref" and x.get("id") == vid:
                return x["n"]
        return "v%d" % vid

    def candlin(self, cand, key, phis):
        co, rest, others = cand
        l = phis[key]["sym"].scale(co) + rest
        for c2, k2 in others:
            if k2 not in phis:
                return L(0)
            l = l + phis[k2]["sym"].scale(c2)
        return l

    def candback(self, cand, key, phis, B):
        co, rest, others = cand
        v = self.backval(B, key)
        if v is None:
            return None
        l = v.scale(co) + rest
        for c2, k2 in others:
            w = self.backval(B, k2)
            if w is None:
                return None
            l = l + w.scale(c2)
        return l

    def backval(self, B, key):
        """Value that the place named key has in back-edge state B, as a linear expression."""
        v = B.store.get(key[0])
        for st in key[1]:
            if st == "len":
                if not isinstance(v, Cont) or v.len is None:
                    return None
                return v.len
            if st == "off":
                return v.off if isinstance(v, Ptr) else None
            if st[0] == "f":
                if not isinstance(v, Obj) or st[1] not in v.fields:
                    return None
                v = v.fields[st[1]]
            elif st[0] == "e":
                if not isinstance(v, Cont) or st[1] not in v.cells:
                    return None
                v = v.cells[st[1]][0]
        if isinstance(v, Scal):
            return v.lin
        if isinstance(v, Boo) and v.val is not None:
            return L(int(v.val))
        return None

    def relaxed(self, keys, phis, cond, H, fr):
        """States in which the loop condition holds, with the bounds of the loop's own variables forgotten."""
        old = []
        for k in keys:
            s = phis[k]["sym"].single()
            if s is not None:
                sy = self.syms[s]
                old.append((sy, sy.lo, sy.hi))
                sy.lo, sy.hi = -INF, INF
        T, _ = self.testc_quiet(cond, H.fork(), fr)
        for sy, a, b in old:
            sy.lo, sy.hi = a, b
        return T

    def mkcands(self, key, ph, phis, S0, T, start):
        e = ph["entry"]
        if ph["ty"] != "i" or e is None or any(s >= start for s in e.m):
            return []
        out = [(1, -e, []), (-1, e, [])]
        if self.ent(S0, e) and e != L(0):
            out.append((1, L(0), []))
        s = ph["sym"].single()
        # bound from the loop condition
        for t in T:
            for f in t.facts.get(s, ()):
                c = f.m[s]
                if c < 0 and all(k == s or k < start for k in f.m):
                    rest = Lin(f.c, {k: v for k, v in f.m.items() if k != s})
                    for extra in (1, 0):
                        cand = (c, rest + extra * (-c), [])
                        if self.ent(S0, e.scale(c) + cand[1]):
                            if cand not in out:
                                out.append(cand)
        # in step with another counter
        for k2, p2 in phis.items():
            if k2 != key and p2["ty"] == "i" and p2["entry"] is not None and not any(x >= start for x in p2["entry"].m):
                # (k2 - e2) - (k - e) >= 0 : this one never runs ahead of the other
                out.append((-1, e - p2["entry"], [(1, k2)]))
                out.append((1, p2["entry"] - e, [(-1, k2)]))
        return out

    def markcounters(self, phis, backs, H, cond, fr, inc):
        for key, ph in phis.items():
            s = ph["sym"].single()
            if ph["ty"] != "i" or s is None:
                continue
            if ph["entry"] is None or not self.closed(H, ph["entry"]):
                continue
            step = None
            ok = bool(backs)
            for b in backs:
                v = self.backval(b, key)
                d = None if v is None else self.canon(b, v - ph["sym"])
                if d is None or d.m or d.c == 0 or (step is not None and (d.c > 0) != (step > 0)):
                    ok = False
                    break
                step = d.c
            if not ok:
                continue
            T, F = self.testc_quiet(cond, H.fork(), fr)
            bounded = bool(T)
            for t in T:
                if not any(f.m[s] * step < 0 and all(k == s or self.closedsym(t, k) for k in f.m) for f in t.facts.get(s, ())) and s not in t.sub:
                    bounded = False
            if bounded:
                self.syms[s].info = ("counter", ph["entry"], step)

    def closedsym(self, S, k):
        return self.closed(S, Lin(0, {k: 1}))

    def testc_quiet(self, cond, S, fr):
        self.mute += 1
        try:
            return self.testc(cond, S, fr)
        finally:
            self.mute -= 1

    def headjoin(self, H, S0, backs, phis, modcells, names, ln, start, passes, cover, probe=None):
        """Set H's store to the join of entry and back edges. Returns whether something moved (new phi, wider value)."""
        self.moved = False
        for c, v0 in S0.store.items():
            bv = [(b, b.store[c]) for b in backs if c in b.store]
            H.store[c] = self.phival((c, ()), v0, S0, bv, phis, c in modcells, names.get(c, "v%d" % c), start, passes, cover)
        if probe is not None:
            if self.moved:
                return True
            for c, v in H.store.items():
                w = probe.store.get(c)
                if w is not v and w != v:
                    return True
            return False
        return self.moved

    def phival(self, key, v0, S0, bv, phis, force, name, start, passes, cover):
        if isinstance(v0, Boo) and v0.val is not None:
            v0 = Scal(L(int(v0.val)))
        if key in phis or (isinstance(v0, Scal) and force):
            pass
        elif all(v is v0 for _, v in bv):
            return v0
        if isinstance(v0, Scal) or (key in phis and "entry" in phis[key] and not isinstance(v0, Cont)):
            ty = v0.ty
            m = self.mask(S0, v0)
            lins = []
            bsc = []
            for b, v in bv:
                if isinstance(v, Boo):
                    v = Scal(L(int(v.val))) if v.val is not None else Scal(self.sym("opaque", "bool", "i", 0, 1))
                if not isinstance(v, Scal):
                    v = Scal(self.sym("opaque", "mix", ty), ty, ANYF if ty == "f" else V)
                m |= self.mask(b, v)
                lins.append(self.canon(b, v.lin))
                bsc.append((b, v))
            ph = phis.get(key)
            if ph is None:
                if not force and all(l == v0.lin or l == self.canon(S0, v0.lin) for l in lins):
                    return v0 if m == v0.mask else Scal(v0.lin, ty, m)
                self.moved = True
                lo0, hi0 = self.bounds(S0, v0.lin) if (ty == "i" or self.mask(S0, v0) & ~(N | D)) else (INF, -INF)
                ph = dict(ty=ty, mask=m, lo=lo0, hi=hi0, entry=self.canon(S0, v0.lin), n=0, name=name, sym=None)
                phis[key] = ph
            lo, hi = ph["lo"], ph["hi"]
            for (b, v), l in zip(bsc, lins):
                if ty == "f" and not (self.mask(b, v) & ~(N | D)):
                    continue
                if ph["sym"] is not None and l == ph["sym"]:
                    continue
                a, z = self.bounds(b, l)
                lo, hi = min(lo, a), max(hi, z)
            if lo < ph["lo"] or hi > ph["hi"] or m != ph["mask"] or ph["sym"] is None or ph.get("force"):
                if ph["sym"] is not None:
                    ph["n"] += 1
                    self.moved = True
                    if ph["n"] >= 2 or ty == "i" or ph.get("force"):
                        if lo < ph["lo"]:
                            lo = -INF
                        if hi > ph["hi"]:
                            hi = INF
                    if ph["n"] > 6:
                        lo, hi = -INF, INF
                ph["lo"], ph["hi"], ph["mask"] = lo, hi, m | ph["mask"]
                slo, shi = (lo, hi) if lo <= hi else (-INF, INF)
                ph["sym"] = self.sym("phi", ph["name"], ty, slo, shi)
                ph["force"] = False
            return Scal(ph["sym"], ty, ph["mask"])
        if isinstance(v0, Cont):
            bc = [(b, v if isinstance(v, Cont) else Cont(None, None, v0.et)) for b, v in bv]
            # extent
            lk = (key[0], key[1] + ("len",))
            ln_ = self.phival(lk, Scal(v0.len if v0.len is not None else L(0)), S0, [(b, Scal(v.len if v.len is not None else self.sym("opaque", "len", "i", 0))) for b, v in bc], phis, False,
                              name + ".size()", start, passes, cover).lin if v0.len is not None else None
            if lk in phis and self.syms[phis[lk]["sym"].single()].lo == -INF:
                self.syms[phis[lk]["sym"].single()].lo = 0
            # tracked elements whose index does not change with the loop
            inv = []
            for k in list(v0.cells) + [k for b, v in bc for k in v.cells]:
                if k not in inv and not any(s >= start for s in k.m):
                    inv.append(k)
            cells = {}
            z = v0
            drop = []
            for k in inv:
                if k not in z.cells:
                    if not any(v.cells[k][1] for b, v in bc if k in v.cells):
                        continue
                    # first touched inside the loop
                    if lk in phis or ln_ is None or any(v.len != v0.len for b, v in bc):
                        drop.append(k)
                        continue
                    may = [q for q in z.cells if self.alias(S0, q, k) is None]
                    if may:
                        drop.append(k)
                        continue
                    e0 = self.cellinit(key, k, z, S0)
                    z = z.with_(cells=dict(z.cells, **{}))
                    z.cells[k] = (e0, False)
                vals = []
                bad = False
                wr = z.cells[k][1]
                for b, v in bc:
                    if k in v.cells:
                        vals.append((b, v.cells[k][0]))
                        wr = wr or v.cells[k][1]
                    elif any(w for _, w in v.cells.values()):
                        bad = True
                if bad:
                    drop.append(k)
                    continue
                cells[k] = (self.phival((key[0], key[1] + (("e", k),)), z.cells[k][0], S0, vals, phis, False, name + "[%s]" % self.show(k), start, passes, cover), wr)
            # summary
            el = v0.elem
            f0 = self.fold(S0, v0.with_(cells={k: c for k, c in v0.cells.items() if k not in cells}))
            el = f0.elem
            cov = []
            for b, v in bc:
                fb = self.fold(b, v.with_(cells={k: c for k, c in v.cells.items() if k not in cells}))
                cov.append((b, v))
                if fb.elem is not el and fb.elem != el:
                    if v0.len == L(0) and not v0.cells:
                        el = fb.elem if el is None and v0.tag is None or el is f0.elem and f0.elem is None and v0.tag is None else self.jsum(el, fb.elem)
                    else:
                        el = self.jsum(el, fb.elem)
            el = self.widen(key, el, phis, passes)
            cover[key] = cov
            return Cont(ln_, el, v0.et, v0.kind, cells, v0.tag)
        if isinstance(v0, Obj):
            f = {}
            for n, x in v0.fields.items():
                vals = [(b, v.fields[n]) for b, v in bv if isinstance(v, Obj) and n in v.fields]
                if len(vals) != len(bv):
                    continue
                f[n] = self.phival((key[0], key[1] + (("f", n),)), x, S0, vals, phis, False, name + "." + n, start, passes, cover)
            if any(not isinstance(v, Obj) or v.cls != v0.cls for _, v in bv):
                return Opq("obj")
            for n in {n for _, v in bv for n in v.fields} - set(v0.fields):
                # touched first inside the loop: start from the object's own field
                x = self.mkfield(v0, n)
                if x is None or (v0.name == "" and v0.cls not in self.inv):
                    continue
                vals = [(b, v.fields.get(n, x)) for b, v in bv]
                if all(y == x for _, y in vals):
                    f[n] = x
            return Obj(v0.cls, f, v0.name if all(v.name == v0.name for _, v in bv) else "")
        if isinstance(v0, Mat):
            rs = self.phival((key[0], key[1] + ("r",)), Scal(v0.r), S0, [(b, Scal(v.r if isinstance(v, Mat) else self.sym("opaque", "r", "i", 0))) for b, v in bv], phis, False, name + ".n_rows", start, passes, cover)
            cs = self.phival((key[0], key[1] + ("c",)), Scal(v0.c), S0, [(b, Scal(v.c if isinstance(v, Mat) else self.sym("opaque", "c", "i", 0))) for b, v in bv], phis, False, name + ".n_cols", start, passes, cover)
            el = v0.elem
            for b, v in bv:
                el = self.jsum(el, v.elem if isinstance(v, Mat) else Sum())
            return Mat(rs.lin, cs.lin, self.widen(key, el, phis, passes))
        if isinstance(v0, Ptr) and v0.off is not None and all(isinstance(v, Ptr) and v.path == v0.path and v.off is not None for _, v in bv):
            o = self.phival((key[0], key[1] + ("off",)), Scal(v0.off), S0, [(b, Scal(v.off)) for b, v in bv], phis, False, name, start, passes, cover)
            return Ptr(v0.path, o.lin, v0.ct)
        if all(v == v0 for _, v in bv):
            return v0
        if isinstance(v0, StrV):
            return StrV()
        if isinstance(v0, Ptr):
            return Ptr(None)
        return Opq("?")

    def cellinit(self, key, k, z, S0):
        """Element first touched inside a loop: one fixed instance per place."""
        kk = ("cellinit", key, k, id(S0))
        if kk not in self.vn:
            self.vn[kk] = self.inst(S0, z.elem, z.et, z.tag)
        return self.vn[kk]

    def widen(self, key, el, phis, passes):
        if isinstance(el, Sum) and passes >= 4:
            w = phis.setdefault(("w", key), dict(ty="w", entry=None, sym=L(0), lo=el.lo, hi=el.hi))
            lo = el.lo if el.lo >= w["lo"] else -INF
            hi = el.hi if el.hi <= w["hi"] else INF
            if passes >= 7:
                lo, hi = (lo if lo == w["lo"] else -INF), (hi if hi == w["hi"] else INF)
            w["lo"], w["hi"] = min(w["lo"], lo), max(w["hi"], hi)
            ub = el.ub
            if passes >= 5:
                if "ub" in w and w["ub"] != ub:
                    ub = None
                w["ub"] = ub
            return Sum(el.ty, el.mask, w["lo"], w["hi"], ub, el.tag)
        return el

    def applycover(self, F, cover, phis, start, ln, backs, outs):
        """Elements overwritten on every way round a loop that runs over the whole extent are only the new values."""
        counters = []
        for key, ph in phis.items():
            if ph["ty"] != "i" or ph["sym"] is None or ph["entry"] is None:
                continue
            s = ph["sym"].single()
            if s is None or not self.eqzero(F, ph["entry"]):
                continue
            if backs and all((lambda v: v is not None and self.canon(b, v - ph["sym"]) == L(1))(self.backval(b, key)) for b in backs):
                counters.append(ph["sym"])
        if not counters:
            return
        for key, cov in cover.items():
            if not cov:
                continue
            v = self.valat(F, key)
            if not isinstance(v, Cont) or v.len is None:
                continue
            for ph in counters:
                if not self.ent(F, ph - v.len):
                    continue
                vals = []
                ok = True
                for b, bvv in cov:
                    hit = None
                    for k in bvv.cells:
                        if k == ph or self.canon(b, k) == self.canon(b, ph):
                            hit = bvv.cells[k]
                    if hit is None or not hit[1] or bvv.len != v.len and not self.eqzero(b, (bvv.len if bvv.len is not None else L(-1)) - v.len):
                        ok = False
                        break
                    vals.append((b, hit[0]))
                if not ok or not vals:
                    continue
                el = self.summ(vals[0][0], vals[0][1])
                for b, x in vals[1:]:
                    el = self.jsum(el, self.summ(b, x))
                self.setat(F, key, v.with_(elem=el))
                break

    def valat(self, S, key):
        v = S.store.get(key[0])
        for st in key[1]:
            if st[0] == "f":
                v = v.fields.get(st[1]) if isinstance(v, Obj) else None
            elif st[0] == "e":
                v = v.cells[st[1]][0] if isinstance(v, Cont) and st[1] in v.cells else None
            else:
                return None
            if v is None:
                return None
        return v

    def setat(self, S, key, nv):
        def rec(v, steps):
            if not steps:
                return nv
            st = steps[0]
            if st[0] == "f":
                return v.with_(st[1], rec(v.fields[st[1]], steps[1:]))
            cells = dict(v.cells)
            ch, w = cells[st[1]]
            cells[st[1]] = (rec(ch, steps[1:]), w)
            return v.with_(cells=cells)
        S.store[key[0]] = rec(S.store[key[0]], key[1])

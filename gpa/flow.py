"""Which parts of a function's inputs its results may be made from (data and control dependence).

For every function of the program a summary: for the result, for every output argument and for the object, the set of
input atoms whose value can take part in it. Atoms are (source, field): source is the index of a parameter, 'this' or
('g', name); field is '' for the elements of arrays and scalars, '#' for extents, or the name of a data member
('mLats', 'mLats#') of an object. The order of statements is ignored, conditions count for what is decided under them
(a condition that only leads to an exception decides nothing), calls are replaced by their summaries until nothing changes."""
import re
from . import ir
from .ir import kids, walk

EMPTY = frozenset()
SIZE = {"size", "empty", "length", "capacity", "max_size"}
SIZEFIELDS = {"n_rows", "n_cols", "n_elem", "n_slices"}
GROW = {"push_back", "emplace_back", "insert", "emplace", "append", "push"}


class AV(dict):
    """field -> frozenset of atoms"""

    def all(self):
        out = set()
        for v in self.values():
            out |= v
        return frozenset(out)

    def add(self, k, s):
        if s and not s <= self.get(k, EMPTY):
            self[k] = self.get(k, EMPTY) | s
            return True
        return False

    def join(self, o):
        ch = False
        for k, v in o.items():
            ch |= self.add(k, v)
        return ch

    def copy(self):
        return AV(self)


def scalar(s):
    a = AV()
    a.add("", frozenset(s))
    return a


class Summary:
    def __init__(self):
        self.ret = AV()
        self.outs = {}       # param index or 'this' -> AV

    def join(self, o):
        ch = self.ret.join(o.ret)
        for k, v in o.outs.items():
            ch |= self.outs.setdefault(k, AV()).join(v)
        return ch


def isref(t):
    t = t.strip()
    return t.endswith("&") and not t.startswith("const ") and not t.endswith("&&") or t.endswith("*") and not t.startswith("const ")


def base(t):
    return t.replace("const ", "").replace("&", "").replace("gridpp::", "").strip()


class Flow:
    def __init__(self, prog, funcs):
        self.p = prog
        self.funcs = [f for f in funcs if f.body is not None]
        self.sum = {f.m: Summary() for f in self.funcs}
        self.ctors = {}
        for f in self.funcs:
            if f.is_ctor:
                self.ctors.setdefault(f.q.rsplit("::", 1)[0], []).append(f)
        self.state = {}
        work = True
        n = 0
        while work and n < 30:
            work = False
            n += 1
            for f in self.funcs:
                if Body(self, f).run():
                    work = True
        self.rounds = n
        self.calls = {}       # filled by arguments()

    def is_class(self, t):
        t = t.replace("const ", "").replace("&", "").replace("*", "").strip()
        return t in self.p.records

    def holds_class(self, t):
        if "std::vector<" not in t:
            return False
        m = re.search(r"std::vector<((?:(?!std::vector<)[^<>,])*?)(?:,|>)", t)
        return bool(m) and self.is_class(m.group(1))

    def arguments(self, f):
        """[(call node, callee dict, [atoms of each argument], ctl atoms)] of one function"""
        b = Body(self, f)
        b.record = []
        b.run()
        return b.record


class Body:
    def __init__(self, fl, f):
        self.fl, self.f, self.p = fl, f, fl.p
        self.record = None
        st = fl.state.setdefault(f.m, dict(env={}, loops={}, fn=EMPTY))
        self.env = st["env"]
        self.st = st
        self.params = {}
        for i, q in enumerate(f.params):
            self.params[q["id"]] = i
        self.changed = False
        self.ctl = []
        self.loopstack = []
        self.lambdas = st.setdefault("lam", {})

    # ---- environment
    def var(self, vid):
        return self.env.setdefault(vid, AV())

    def initial(self, src, t, field):
        """the input's own value"""
        if self.fl.is_class(t):
            return frozenset([(src, field)]) if field is not None else frozenset([(src, "*")])
        return frozenset([(src, field or "")])

    def get(self, vid, t):
        a = AV(self.env.get(vid, AV()))
        if vid in self.params:
            i = self.params[vid]
            if self.fl.is_class(t):
                a.add("*", frozenset([(i, "*")]))
            elif self.fl.holds_class(t):
                a.add("*", frozenset([(i, "*")]))
                a.add("#", frozenset([(i, "#")]))
            else:
                a.add("", frozenset([(i, "")]))
                a.add("#", frozenset([(i, "#")]))
        return a

    def this(self):
        a = AV(self.env.get("this", AV()))
        if not self.f.is_ctor:
            a.add("*", frozenset([("this", "*")]))
        return a

    def field(self, a, n):
        """member n of an object"""
        out = AV()
        for suf in ("", "#"):
            s = set(a.get(n + suf, EMPTY))
            for src, f in a.get("*", EMPTY):
                s.add((src, n + suf) if f == "*" else (src, f))
            if "" in a:
                s |= a[""]
            out.add(suf, frozenset(s))
        return out

    def control(self):
        s = set(self.st["fn"])
        for c in self.ctl:
            s |= c
        for L in self.loopstack:
            s |= self.st["loops"].get(L, EMPTY)
        return frozenset(s)

    def store(self, target, val, whole=True):
        """target: ('v',id,field|None) list"""
        c = self.control()
        for (vid, fld) in target:
            a = self.var(vid)
            if fld is None:
                ch = a.join(val)
                if c:
                    keys = set(val) or {""}
                    for k in keys:
                        ch |= a.add(k, c)
            else:
                ch = a.add(fld, val.get("", EMPTY) | val.get("*", EMPTY) | c)
                ch |= a.add(fld + "#", val.get("#", EMPTY) | c)
                rest = frozenset(x for k, v in val.items() if k not in ("", "#", "*") for x in v)
                ch |= a.add(fld, rest)
            self.changed |= ch

    def lval(self, e):
        """storage an expression names: [(var id | 'this', field|None)], plus index atoms"""
        k = e.get("k")
        if k in ("Cast", "DefaultArg"):
            return self.lval(e["e"])
        if k == "Ref":
            if e.get("rk") in ("local", "param"):
                r = self.st.setdefault("refs", {}).get(e["id"])
                return ([(e["id"], None)] + list(r)) if r else [(e["id"], None)]
            if e.get("rk") in ("global", "member"):
                return [(("g", e.get("q")), None)]
            return []
        if k == "This":
            return [("this", None)]
        if k == "Member":
            b = self.lval(e["b"]) if e.get("b") else []
            out = []
            for v, f in b:
                t = (e["b"].get("t") or "")
                if f is None and (v == "this" or self.fl.is_class(t)):
                    out.append((v, e["n"]))
                else:
                    out.append((v, f))
            return out
        if k == "OpCall" and e.get("op") in ("[]", "()", "*", "->", "=", "+=", "<<", ">>", "++", "--") and e.get("a"):
            return self.lval(e["a"][0])
        if k == "MCall":
            fn = e.get("fn") or {}
            if fn.get("ret", "").strip().endswith(("&", "*")) or "iterator" in fn.get("ret", "") or not self.targets(e):
                return self.lval(e["o"]) if e.get("o") else []
            return []
        if k == "Index":
            return self.lval(e["b"])
        if k == "Un" and e.get("op") in ("*", "&", "++", "--"):
            return self.lval(e["e"])
        if k == "Assign":
            return self.lval(e["x"])
        if k == "Cond":
            return self.lval(e["x"]) + self.lval(e["y"])
        if k == "Call" and not self.targets(e) and ("iterator" in e.get("t", "") or e.get("t", "").endswith("*") or isref((e.get("fn") or {}).get("ret", ""))):
            return [x for a in e.get("a", []) for x in self.lval(a)]
        if k == "Construct" and len(e.get("a", [])) == 1 and "iterator" in e.get("t", ""):
            return self.lval(e["a"][0])
        if k == "Bin" and ("*" in (e.get("t") or "") or "iterator" in (e.get("t") or "")):
            return self.lval(e["x"])
        return []

    def targets(self, e):
        fn = e.get("fn")
        if not fn:
            return []
        if fn.get("q") in ("std::make_shared", "std::make_unique") and e["k"] == "Call":
            m = re.search(r"(?:shared_ptr|unique_ptr)<(?:class |struct )?(.*?)(?:, .*)?>$", (e.get("t") or "").strip())
            cls = m.group(1).strip() if m else None
            L = [g for g in self.fl.ctors.get(cls, []) if len(g.params) == len(e.get("a", []))] if cls else []
            def score(g):
                return sum(base(q["t"]) == base(a.get("t", "")) for q, a in zip(g.params, e.get("a", [])))
            return sorted(L, key=lambda g: -score(g))[:1]
        return [g for g in self.p.targets(fn) if g.m in self.fl.sum]

    # ---- expressions
    def ev(self, e):
        if not isinstance(e, dict):
            return AV()
        k = e.get("k")
        if k == "Ref":
            if e.get("rk") in ("local", "param"):
                a = self.get(e["id"], e.get("t", ""))
                for v, f in self.st.setdefault("refs", {}).get(e["id"], ()):
                    x = self.env.get(v, AV()) if v != "this" else self.this()
                    if v in self.params:
                        x = self.get(v, self.f.params[self.params[v]]["t"])
                    a.join(self.field(x, f) if f else x)
                return a
            if e.get("rk") == "enum":
                return AV()
            q = e.get("q")
            a = AV(self.env.get(("g", q), AV()))
            return a
        if k == "This":
            return self.this()
        if k == "Member":
            b = self.ev(e["b"]) if e.get("b") else AV()
            if e["n"] in SIZEFIELDS:
                return scalar(b.get("#", EMPTY))
            if e.get("b") and self.fl.is_class(e["b"].get("t", "")) or e.get("b", {}).get("k") == "This":
                return self.field(b, e["n"])
            return b
        if k in ("Cast", "DefaultArg", "StdInit"):
            return self.ev(e["e"])
        if k in ("Int", "Float", "Str", "Bool", "Null", "ZeroInit", "SizeOf"):
            return AV()
        if k == "Lambda":
            self.lambda_(e)
            a = AV()
            for n in walk(e.get("b") or e.get("body") or {}):
                if isinstance(n, dict) and n.get("k") == "Ref" and n.get("rk") in ("local", "param"):
                    a.add("", self.ev(n).all())
            return a
        if k == "Assign":
            v = self.ev(e["y"])
            i = self.index(e["x"])
            if e["op"] != "=":
                v = v.copy()
            if i:
                v = v.copy()
                v.add("", i)
            if "" not in v and "*" not in v and len(v) == 0:
                v = AV()
            self.store(self.lval(e["x"]), v)
            return self.ev(e["x"])
        if k == "Un":
            if e.get("op") in ("++", "--"):
                self.store(self.lval(e["e"]), AV())
            return self.ev(e["e"])
        if k == "Bin" and e["op"] in ("&&", "||"):
            a = self.ev(e["x"])
            self.ctl.append(a.get("", EMPTY))
            b = self.ev(e["y"])
            self.ctl.pop()
            r = a.copy()
            r.join(b)
            return r
        if k == "Cond":
            c = self.ev(e["c"])
            self.ctl.append(c.all())
            r = self.ev(e["x"]).copy()
            r.join(self.ev(e["y"]))
            self.ctl.pop()
            r = r.copy()
            r.add("", c.all())
            return r
        if k == "Index":
            r = self.ev(e["b"]).copy()
            r.add("", self.ev(e["i"]).all())
            return r
        if k in ("Call", "MCall", "OpCall", "Construct"):
            return self.call(e)
        if k == "New":
            a = self.ev(e.get("init")) if e.get("init") else AV()
            if e.get("n"):
                a = a.copy()
                a.add("#", self.ev(e["n"]).all())
            return a
        if k == "Throw":
            return AV()
        a = AV()
        for c in kids(e):
            if c.get("k") in ("Block", "Decl", "Expr", "If", "For"):
                self.stmt(c)
            else:
                a.join(self.ev(c))
        return a

    def index(self, e):
        """atoms deciding which element an lvalue names"""
        out = set()
        while isinstance(e, dict):
            k = e.get("k")
            if k == "OpCall" and e.get("op") in ("[]", "()"):
                for x in e["a"][1:]:
                    out |= self.ev(x).all()
                e = e["a"][0]
            elif k == "Index":
                out |= self.ev(e["i"]).all()
                e = e["b"]
            elif k == "MCall":
                for x in e.get("a", []):
                    out |= self.ev(x).all()
                e = e.get("o")
            elif k in ("Cast", "Un"):
                e = e["e"]
            elif k == "Member":
                e = e.get("b")
            else:
                break
        return frozenset(out)

    def lambda_(self, e):
        b = e.get("b") or e.get("body")
        if b:
            self.stmt(b)

    def call(self, e):
        k = e["k"]
        fn = e.get("fn") or {}
        q = fn.get("q", "")
        name = q.split("::")[-1]
        args = e.get("a", [])
        op = e.get("op") if k == "OpCall" else None
        obj = None
        if k == "MCall":
            obj = e.get("o")
        elif k == "OpCall" and e.get("ismem") and args:
            obj, args = args[0], args[1:]
        ts = self.targets(e)
        if op == "=" and obj is not None and not ts or op == "=" and obj is not None and ts and all(t.implicit for t in ts):
            v = self.ev(args[0])
            i = self.index(obj)
            if i:
                v = v.copy()
                v.add("", i)
            self.store(self.lval(obj), v)
            return v
        avs = [self.ev(a) for a in args]
        oav = self.ev(obj) if obj is not None else AV()
        if self.record is not None:
            self.record.append((e, fn, avs, oav, self.control()))
        if ts:
            return self.own(e, fn, ts, args, avs, obj, oav)
        # ---- library
        if k == "MCall" and name in SIZE or name in SIZEFIELDS:
            r = scalar(oav.get("#", EMPTY))
            if obj is None or "std::vector" not in (obj.get("t") or ""):
                for x in oav.get("*", EMPTY):
                    r.add("", frozenset([x]))
            return r
        if k == "Construct":
            t = e.get("t", "")
            r = AV()
            if len(args) >= 1 and "std::vector" in t or "arma::" in t:
                pt = fn.get("pt", [])
                if pt and re.match(r"^(const )?(unsigned long|size_type|unsigned int|int|const uword|uword|unsigned long long|const unsigned long long)", pt[0].strip()):
                    n = 1 if "std::vector" in t else len([x for x in pt if "long" in x or "int" in x])
                    for a in avs[:n]:
                        r.add("#", a.all())
                    for a in avs[n:]:
                        r.join(a)
                    return r
            for a in avs:
                r.join(a)
            return r
        if op in ("[]", "()") or name in ("at", "row", "col", "front", "back", "rows", "cols", "subvec", "submat"):
            r = oav.copy()
            idx = frozenset(x for a in avs for x in a.all())
            if idx:
                r = r.copy()
                r.add("", idx)
                r.add("#", idx)
            return r
        if name == "resize" or name == "set_size" or name == "zeros":
            v = AV()
            pt = fn.get("pt", [])
            for i, a in enumerate(avs):
                v.add("#" if i == 0 or "arma" in q else "", a.all())
            self.store(self.lval(obj), v)
            return v
        if name == "clear":
            self.store(self.lval(obj), AV())
            return AV()
        allin = AV()
        for a in avs:
            allin.join(a)
        flat = frozenset(x for v in allin.values() for x in v)
        if obj is not None and name in GROW:
            v = allin.copy()
            v.add("", self.index(obj))
            v.add("#", self.control() | self.index(obj))
            self.store(self.lval(obj), v)
            return AV()
        if obj is not None and not fn.get("const") and op not in ("[]", "()", "->", "*"):
            v = AV()
            v.add("", flat | self.index(obj))
            v.add("#", frozenset(x for a in avs for x in a.get("#", EMPTY)))
            self.store(self.lval(obj), v)
        # operators of Armadillo, comparison, streams, free functions
        pt = fn.get("pt", [])
        off = len(args) - len(pt)
        tot = allin.copy()
        tot.join(oav)
        r = AV()
        sizes = frozenset(x for a in avs + [oav] for x in a.get("#", EMPTY))
        cont = frozenset(x for a in avs + [oav] for kk, v in a.items() if kk != "#" for x in v)
        if q.startswith("std::") and name in ("max", "min", "abs", "sqrt", "pow", "exp", "log", "floor", "ceil", "isnan", "isinf", "isfinite"):
            return scalar(cont)
        r.add("", cont)
        r.add("#", sizes)
        if op is not None and op.endswith("=") and op not in ("==", "!=", "<=", ">=") and obj is None and args:
            self.store(self.lval(args[0]), r)
        for i, a in enumerate(args):
            t = pt[i - off] if 0 <= i - off < len(pt) else ""
            at = a.get("t", "")
            if isref(t) or ("iterator" in at and not q.startswith("std::operator")) or "subview" in at:
                lv = self.lval(a)
                if lv and not (op in ("<<",) and "ostream" in at):
                    v = r.copy()
                    v.add("#", cont)
                    self.store(lv, v)
        return r

    def own(self, e, fn, ts, args, avs, obj, oav):
        """call of functions of the program"""
        r = AV()
        nparams = None
        for g in ts:
            s = self.fl.sum[g.m]

            def sub(av, g=g):
                out = AV()
                for k, atoms in av.items():
                    for src, f in atoms:
                        if src == "this":
                            a = oav
                        elif isinstance(src, int):
                            a = avs[src] if src < len(avs) else AV()
                        else:
                            out.add(k, frozenset([(src, f)]))
                            continue
                        if f == "*":
                            if k == "*":
                                out.join(a)
                                for kk, v in a.items():
                                    if kk == "":
                                        out.add("*", v)
                            else:
                                out.add(k, a.all())
                        elif f in ("", "#"):
                            v = a.get(f, EMPTY)
                            if f == "":
                                v = v | frozenset(x for kk, w in a.items() if kk not in ("", "#") for x in w)
                            out.add(k, v)
                        else:
                            base = f[:-1] if f.endswith("#") else f
                            fa = self.field(a, base)
                            out.add(k, fa.get("#" if f.endswith("#") else "", EMPTY))
                return out
            if g.is_ctor:
                made = sub(s.outs.get("this", AV()))
                r.join(made)
                if e["k"] == "Construct" and g.implicit and len(avs) == 1 and not s.outs.get("this"):
                    r.join(avs[0])
            else:
                r.join(sub(s.ret))
                if "this" in s.outs and obj is not None:
                    self.store(self.lval(obj), sub(s.outs["this"]))
            for i, v in s.outs.items():
                if isinstance(i, int) and i < len(args):
                    lv = self.lval(args[i])
                    if lv:
                        self.store(lv, sub(v))
        return r

    # ---- statements
    def cond(self, c):
        a = self.ev(c)
        return a.all()

    def stmt(self, s):
        if not isinstance(s, dict):
            return
        k = s.get("k")
        if k == "Block":
            for x in s["b"]:
                self.stmt(x)
        elif k == "Expr":
            self.ev(s["e"])
        elif k == "Decl":
            for v in s["v"]:
                if v.get("init") is not None:
                    a = self.ev(v["init"])
                    t = v["t"].strip()
                    if t.endswith("&") or t.endswith("*") or "iterator" in t:
                        lv = self.lval(v["init"])
                        r = self.st.setdefault("refs", {}).setdefault(v["id"], set())
                        for x in lv:
                            if x[0] != v["id"] and x not in r:
                                r.add(x)
                                self.changed = True
                    if not t.endswith("&") or not self.lval(v["init"]):
                        self.store([(v["id"], None)], a)
        elif k == "If":
            self.stmt(s.get("init"))
            if s.get("cv"):
                self.stmt(dict(k="Decl", v=[s["cv"]]))
            c = self.cond(s["c"])
            x, y = s.get("x"), s.get("y")
            if throws(x) and y is None or throws(x) and throws(y):
                self.stmt(x)
                self.stmt(y)
                return
            self.ctl.append(EMPTY if throws(x) or throws(y) else c)
            self.stmt(x)
            self.stmt(y)
            self.ctl.pop()
            for b in (x, y):
                if b is not None and not throws(b):
                    self.leave(b, c)
        elif k in ("For", "While", "Do", "RangeFor"):
            if k == "For":
                self.stmt(s.get("init"))
            if k == "While" and s.get("cv"):
                self.stmt(dict(k="Decl", v=[s["cv"]]))
            c = self.cond(s["c"]) if s.get("c") else EMPTY
            if k == "RangeFor":
                a = self.ev(s["r"])
                v = dict(s["v"])
                self.store([(v["id"], None)], a)
                if v["t"].strip().endswith("&"):
                    r = self.st.setdefault("refs", {}).setdefault(v["id"], set())
                    for x in self.lval(s["r"]):
                        if x not in r:
                            r.add(x)
                            self.changed = True
                c = a.get("#", EMPTY)
            self.ctl.append(c)
            self.loopstack.append(loopkey(s))
            self.stmt(s.get("b"))
            if s.get("inc"):
                self.ev(s["inc"])
            self.loopstack.pop()
            self.ctl.pop()
        elif k == "Return":
            if s.get("e"):
                a = self.ev(s["e"])
                if not self.f.is_ctor:
                    c = self.control()
                    sm = self.fl.sum[self.f.m]
                    r = AV(a)
                    for kk in list(a) or [""]:
                        r.add(kk, c)
                    self.changed |= sm.ret.join(r)
        elif k == "Switch":
            c = self.cond(s["c"])
            self.ctl.append(c)
            self.stmt(s.get("b"))
            self.ctl.pop()
            self.leave(s.get("b"), c, inswitch=True)
        elif k in ("Case", "Default", "Label", "OMP"):
            self.stmt(s.get("b"))
        elif k == "Try":
            self.stmt(s["b"])
            for h in s["h"]:
                self.stmt(h["b"])

    def leave(self, b, c, inswitch=False):
        """b is executed under condition c: what it leaves early is decided by c too"""
        if not c:
            return
        ret, brk = exits(b, inswitch)
        if ret and not c <= self.st["fn"]:
            self.st["fn"] |= c
            self.changed = True
        if brk and self.loopstack:
            L = self.loopstack[-1]
            if not c <= self.st["loops"].get(L, EMPTY):
                self.st["loops"][L] = self.st["loops"].get(L, EMPTY) | c
                self.changed = True

    def run(self):
        f = self.f
        if f.is_ctor:
            for i in f.d.get("inits") or []:
                if i.get("n") and i.get("e"):
                    self.store([("this", i["n"])], self.ev(i["e"]))
                elif i.get("e"):
                    a = self.ev(i["e"])
                    self.store([("this", None)], a)
        self.stmt(f.body)
        s = self.fl.sum[f.m]
        for i, q in enumerate(f.params):
            if isref(q["t"]) and q["id"] in self.env:
                self.changed |= s.outs.setdefault(i, AV()).join(self.env[q["id"]])
        if "this" in self.env:
            self.changed |= s.outs.setdefault("this", AV()).join(self.env["this"])
        return self.changed


def loopkey(s):
    return (s["k"], s["l"], id(s))


def throws(b):
    """every path through b ends in an exception (or the process)"""
    if b is None:
        return False
    k = b.get("k")
    if k == "Block":
        return any(throws(x) for x in b["b"])
    if k == "Expr":
        e = b["e"]
        return e.get("k") == "Throw" or e.get("k") in ("Call", "MCall") and bool((e.get("fn") or {}).get("noret"))
    if k == "If":
        return b.get("y") is not None and throws(b["x"]) and throws(b["y"])
    return False


def exits(b, inswitch=False):
    ret = brk = False
    todo = [(b, 0)]
    while todo:
        x, d = todo.pop()
        if isinstance(x, list):
            todo += [(y, d) for y in x]
        elif isinstance(x, dict):
            k = x.get("k")
            if k == "Return":
                ret = True
            elif k == "Break":
                brk |= d == 0 and not inswitch
            elif k == "Continue":
                brk |= d == 0
            if k == "Lambda":
                continue
            if k in ("For", "While", "Do", "RangeFor"):
                d = 1
            elif k == "Switch" and not inswitch:
                todo += [(y, d) for y in x.values() if isinstance(y, (dict, list))]
                continue
            todo += [(y, d) for y in x.values() if isinstance(y, (dict, list))]
    return ret, brk

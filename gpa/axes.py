"""Which elements of the inputs an element of a result may depend on.

For every function a summary: each element of the result (or of an output argument) is described by atoms
(source, field, index) where the index has one entry per axis of the source: an integer k (the same position as on axis k
of the result), '*' (other positions as well) or '?' (not known to this analysis). Loop variables are symbols while their
loop runs; a value that survives into the next iteration, or out of the loop, has them replaced by '*', so state carried
from one iteration to the next shows up as a dependence on other positions. Structured abstract interpretation: joins at
branches, fixpoints at loops, summaries at calls."""
import re
from . import ir
from .ir import kids, walk

EMPTY = frozenset()
SIZE = {"size", "empty", "length", "capacity"}
SIZEFIELDS = {"n_rows", "n_cols", "n_elem"}
GROW = {"push_back", "emplace_back", "insert", "emplace", "append", "push"}
REDUCE = {"sort", "nth_element", "partial_sort", "stable_sort", "accumulate", "max_element", "min_element", "minmax_element", "inner_product", "reduce", "lower_bound", "upper_bound",
          "find", "count", "count_if", "find_if", "unique", "reverse", "rotate", "random_shuffle", "shuffle"}
ELEMENTWISE = {"copy", "transform", "for_each", "fill", "generate", "replace", "replace_if", "copy_if", "swap", "move", "copy_n", "transform_n"}


def depth(t):
    t = t or ""
    n = t.count("std::vector<").bit_length() if "allocator" in t else t.count("std::vector<")     # the allocator repeats the element
    if "arma::" in t:
        n += 2 if re.search(r"arma::(Mat|mat|subview|eGlue|Glue|Op|eOp|Gen)", t) else 1
    if t.strip().endswith("*"):
        n += 1
    return n


def sub1(atoms, s):
    """the atoms of element s of an array"""
    out = set()
    for a in atoms:
        idx = a[2]
        if idx and any(type(x) is int for x in idx):
            out.add((a[0], a[1], tuple((s if x == 0 else x - 1) if type(x) is int else x for x in idx)))
        else:
            out.add(a)
    return frozenset(out)


def shift(atoms, n):
    return frozenset((a[0], a[1], tuple(x + n if type(x) is int else x for x in a[2])) for a in atoms)


def ren(atoms, f):
    return frozenset((a[0], a[1], tuple(f(x) for x in a[2])) for a in atoms)


def spread(atoms, s):
    """formal axes lose their meaning"""
    return frozenset((a[0], a[1], tuple(s if type(x) is int else x for x in a[2])) for a in atoms)


def place(atoms, idx):
    """the callee's atoms read element idx of what the caller's atoms describe"""
    def f(x):
        return (idx[x] if x < len(idx) else "?") if type(x) is int else x
    return ren(atoms, f)


def blur(atoms):
    """stored somewhere in an array: perhaps at the position the symbols stand for"""
    return ren(atoms, lambda x: "?" if type(x) is tuple and x[0] == "V" else x)


def issym(x):
    return type(x) is tuple and x[0] == "V"


def worn(x):
    """what a symbol of a loop means once its iteration is over: other positions (definitely when it is the loop's own
    variable)"""
    return "*" if x[2] == "iter" else "?"


def aswritten(x):
    while isinstance(x, dict):
        if x.get("k") in ("Cast", "DefaultArg", "StdInit"):
            x = x["e"]
        elif x.get("k") == "Construct" and len(x.get("a", [])) == 1:
            x = x["a"][0]
        else:
            break
    return x


class AV(dict):
    def add(self, k, s):
        if s:
            self[k] = self.get(k, EMPTY) | s
        return self

    def join(self, o):
        for k, v in o.items():
            self.add(k, v)
        return self

    def all(self):
        out = set()
        for v in self.values():
            out |= v
        return frozenset(out)

    def map(self, f):
        return AV({k: f(v) for k, v in self.items()})


class State:
    __slots__ = ("m", "sym", "live")

    def __init__(self, m=None, sym=None, live=True):
        self.m, self.sym, self.live = m if m is not None else {}, sym if sym is not None else {}, live

    def copy(self):
        return State(dict(self.m), dict(self.sym), self.live)

    def join(self, o):
        if not o.live:
            return self
        if not self.live:
            return o
        for k, v in o.m.items():
            w = self.m.get(k)
            if w is None:
                self.m[k] = v
            elif w is not v:
                self.m[k] = w | v
        for k in list(self.sym):
            if o.sym.get(k) != self.sym[k]:
                del self.sym[k]
        return self

    def same(self, o):
        return self.live == o.live and self.m == o.m and self.sym == o.sym


class Frame:
    def __init__(self, L, nctl):
        self.L, self.nctl = L, nctl
        self.cont = EMPTY
        self.brk = EMPTY
        self.contst = []
        self.brkst = []
        self.reads = set()
        self.full = set()


class Summary:
    def __init__(self):
        self.ret = AV()
        self.outs = {}
        self.at = {}        # argument -> positions (scalar arguments) it is stored at, None: not known

    def key(self):
        return (tuple(sorted((k, v) for k, v in self.ret.items())), )

    def same(self, o):
        return self.ret == o.ret and self.outs == o.outs and self.at == o.at


class Axes:
    def __init__(self, prog, funcs, maxrounds=4):
        self.p = prog
        self.funcs = [f for f in funcs if f.body is not None]
        self.sum = {f.m: Summary() for f in self.funcs}
        self.failed = {}
        self.ctors = {}
        for f in self.funcs:
            if f.is_ctor:
                self.ctors.setdefault(f.q.rsplit("::", 1)[0], []).append(f)
        order = self.order()
        self.rounds = 0
        pending = {f.m for f in self.funcs}
        callers = self.callers()
        while pending and self.rounds < maxrounds:
            self.rounds += 1
            nxt = set()
            for f in order:
                if f.m not in pending:
                    continue
                try:
                    s = Body(self, f).run()
                except (KeyError, TypeError, IndexError, AttributeError, RecursionError) as e:
                    self.failed[f.m] = repr(e)      # says nothing about this function: never a reason for an alarm
                    pending.discard(f.m)
                    continue
                if not s.same(self.sum[f.m]):
                    self.sum[f.m] = s
                    nxt |= callers.get(f.m, set())
                pending.discard(f.m)
            pending = nxt
        self.unstable = len(pending)

    def callees(self, f):
        for n in walk(f.body):
            if n.get("k") in ("Call", "MCall", "OpCall", "Construct") and n.get("fn"):
                for g in self.p.targets(n["fn"]):
                    if g.m in self.sum:
                        yield g.m

    def callers(self):
        out = {}
        for f in self.funcs:
            for m in self.callees(f):
                out.setdefault(m, set()).add(f.m)
        return out

    def order(self):
        byname = {f.m: f for f in self.funcs}
        seen, out = set(), []
        import sys
        sys.setrecursionlimit(10000)

        def go(m):
            if m in seen:
                return
            seen.add(m)
            for c in self.callees(byname[m]):
                go(c)
            out.append(byname[m])
        for f in self.funcs:
            go(f.m)
        return out

    def is_class(self, t):
        t = (t or "").replace("const ", "").replace("&", "").replace("*", "").strip()
        return t in self.p.records

    def holds_class(self, t):
        if "std::vector<" not in (t or ""):
            return False
        m = re.search(r"std::vector<((?:(?!std::vector<)[^<>,])*?)(?:,|>)", t)
        return bool(m) and self.is_class(m.group(1))


def isref(t):
    t = t.strip()
    return (t.endswith("&") and not t.startswith("const ") and not t.endswith("&&")) or (t.endswith("*") and not t.startswith("const "))


class Body:
    def __init__(self, ax, f):
        self.ax, self.f, self.p = ax, f, ax.p
        self.params = {q["id"]: i for i, q in enumerate(f.params)}
        self.ctl = []
        self.frames = []
        self.retc = EMPTY
        self.ret = AV()
        self.exits = []
        self.lams = {}
        self.refs = {}
        self.lamret = []

    # ------------------------------------------------ state
    def initial(self, vid):
        i = self.params[vid]
        t = self.f.params[i]["t"]
        n = depth(t)
        if self.ax.is_class(t):
            return AV({"*": frozenset([(i, "*", ())])})
        if self.ax.holds_class(t):
            return AV({"*": frozenset([(i, "*", tuple(range(n)))])})
        return AV({"": frozenset([(i, "", tuple(range(n)))])})

    def get(self, vid):
        S = self.S
        r = AV()
        pre = vid in self.params and (vid, "=") not in S.m
        if pre:
            r.join(self.initial(vid))
        elif vid == "this" and not self.f.is_ctor:
            r.add("*", frozenset([("this", "*", ())]))
        for (v, fld), a in self.byvar(vid):
            if fld != "=" and a:
                r.add(fld, a)
        for fr in self.frames:
            fr.reads.add(vid)
        return r

    def byvar(self, vid):
        S = self.S
        names = self.fields.get(vid, ())
        return [((vid, n), S.m[(vid, n)]) for n in names if (vid, n) in S.m]

    def put(self, vid, fld, atoms, strong):
        self.fields.setdefault(vid, set()).add(fld)
        k = (vid, fld)
        S = self.S
        if strong:
            S.m[k] = atoms
        else:
            S.m[k] = S.m.get(k, EMPTY) | atoms

    def kill(self, vid):
        for (k, a) in self.byvar(vid):
            del self.S.m[k]
        self.fields.setdefault(vid, set()).add("=")
        self.S.m[(vid, "=")] = EMPTY

    def control(self):
        s = set(self.retc)
        for c in self.ctl:
            s |= c
        for fr in self.frames:
            s |= fr.cont | fr.brk
        return frozenset(s)

    def assign(self, lv, val, compound=False):
        """lv: [(var, field, syms, atoms)]"""
        c = self.control()
        strong1 = len(lv) == 1 and not compound
        for vid, fld, syms, at in lv:
            n = len(syms)
            if vid in self.params or vid == "this":
                self.stored.setdefault(vid, set()).add(tuple(x if type(x) is tuple and x[0] == "P" else "V" if issym(x) and x[2] == "iter" else "?" for x in syms))
            if not n:
                if fld is None:
                    if strong1:
                        if vid != "this":
                            self.kill(vid)
                        for k in val:
                            self.put(vid, k, val[k] | c, True)
                        if not val:
                            self.put(vid, "", c, True)
                    else:
                        for k in val:
                            self.put(vid, k, val[k] | c, False)
                        if not val and c:
                            self.put(vid, "", c, False)
                else:
                    a = val.get("", EMPTY) | val.get("*", EMPTY) | frozenset(x for k, v in val.items() if k not in ("", "*", "#") for x in v) | c | at
                    self.put(vid, fld, a, strong1)
                    if val.get("#") or strong1:
                        self.put(vid, fld + "#", val.get("#", EMPTY), strong1)
                continue
            for k, v in list(val.items()) or [("", EMPTY)]:
                a = shift(v | (c if k != "#" else EMPTY), n)
                a = self.generalise(a, syms)
                kk = k if fld is None else (fld if k in ("", "*") else fld + "#" if k == "#" else fld)
                if at:
                    a = a | self.generalise(shift(at, n), syms)
                self.put(vid, kk, a, False)
            if not compound:
                for d, fr in enumerate(self.frames):
                    if len(self.ctl) == fr.nctl and not fr.cont and not fr.brk and any(issym(s) and s[1] == fr.L for s in syms):
                        fr.full.add(vid)

    @staticmethod
    def generalise(atoms, syms):
        m = {}
        vague = False
        for j, s in enumerate(syms):
            if type(s) is tuple:
                m.setdefault(s, j)
                vague = vague or s[0] == "V" and s[2] != "iter" or s[0] == "P"
            else:
                vague = True
        # stored at a position this analysis does not know: it may be the one the other symbols stand for
        return ren(atoms, lambda x: m.get(x, "?" if vague else x) if type(x) is tuple else x)

    # ------------------------------------------------ symbols
    def symof(self, e):
        """index symbol and atoms of an index expression"""
        x = aswritten(e)
        at = self.ev(e).all()
        k = x.get("k")
        if k == "Int":
            return ("C", x.get("v")), at
        if k == "Un" and x.get("op") in ("++", "--"):
            return (self.lastinc.get(id(x)) or "?"), at
        if k == "Ref" and x.get("rk") in ("local", "param"):
            s = self.S.sym.get(x["id"])
            if s is not None:
                return s, at
            if x["id"] in self.params and (x["id"], "=") not in self.S.m and depth(x.get("t", "")) == 0:
                return ("P", self.params[x["id"]]), at
            return "?", at
        if k == "Bin" and x["op"] in ("+", "-"):
            for a, b in ((x["x"], x["y"]), (x["y"], x["x"])):
                b = aswritten(b)
                if b.get("k") == "Int" and (x["op"] == "+" or a is x["x"]):
                    s, _ = self.symof(a)
                    if b.get("v") == 0:
                        return s, at
                    return ("*" if issym(s) and s[2] == "iter" else "?"), at
        return "?", at

    # ------------------------------------------------ lvalues
    def lval(self, e):
        k = e.get("k")
        if k in ("Cast", "DefaultArg"):
            return self.lval(e["e"])
        if k == "Ref":
            if e.get("rk") in ("local", "param"):
                r = self.refs.get(e["id"])
                return list(r) if r else [(e["id"], None, (), EMPTY)]
            if e.get("rk") in ("global", "member"):
                return [(("g", e.get("q")), None, (), EMPTY)]
            return []
        if k == "This":
            return [("this", None, (), EMPTY)]
        if k == "Member":
            b = self.lval(e["b"]) if e.get("b") else []
            out = []
            for v, f, sy, at in b:
                t = e["b"].get("t") or ""
                if f is None and (v == "this" or self.ax.is_class(t)):
                    out.append((v, e["n"], sy, at))
                else:
                    out.append((v, f, sy, at))
            return out
        if k in ("OpCall", "Index", "MCall"):
            if k == "Index":
                ob, ix = e["b"], [e["i"]]
            elif k == "OpCall" and e.get("op") in ("[]", "()") and e.get("a"):
                if e["op"] == "()" and e["a"][0].get("k") == "Ref" and e["a"][0].get("id") in self.lams:
                    return []
                ob, ix = e["a"][0], e["a"][1:]
            elif k == "OpCall" and e.get("op") in ("*", "->", "=", "+=", "<<", ">>", "++", "--") and e.get("a"):
                b = self.lval(e["a"][0])
                return [(v, f, tuple(sy) + ("?",), at) for v, f, sy, at in b] if e["op"] in ("*",) else b
            elif k == "MCall" and e.get("o"):
                n = (e.get("fn") or {}).get("q", "").split("::")[-1]
                if n == "at":
                    ob, ix = e["o"], e["a"]
                elif n in ("front", "back"):
                    b = self.lval(e["o"])
                    return [(v, f, tuple(sy) + ("?",), at) for v, f, sy, at in b]
                elif (e.get("fn") or {}).get("ret", "").strip().endswith(("&", "*")) or "iterator" in (e.get("fn") or {}).get("ret", "") or not self.targets(e):
                    return self.lval(e["o"])
                else:
                    return []
            else:
                return []
            b = self.lval(ob)
            ss = [self.symof(x) for x in ix]
            at = frozenset(a for _, s in ss for a in s)
            return [(v, f, tuple(sy) + tuple(s for s, _ in ss), a0 | at) for v, f, sy, a0 in b]
        if k == "Un" and e.get("op") in ("*", "&", "++", "--"):
            b = self.lval(e["e"])
            if e["op"] == "&" and aswritten(e["e"]).get("k") in ("Index", "OpCall"):
                return [(v, f, tuple(sy[:-1]) + ("?",) if sy else sy, at) for v, f, sy, at in b]
            return b
        if k == "Assign":
            return self.lval(e["x"])
        if k == "Cond":
            return self.lval(e["x"]) + self.lval(e["y"])
        if k == "Call" and not self.targets(e):
            return [x for a in e.get("a", []) for x in self.lval(a)] if "iterator" in e.get("t", "") or isref((e.get("fn") or {}).get("ret", "")) else []
        if k == "Construct" and len(e.get("a", [])) == 1 and "iterator" in e.get("t", ""):
            return self.lval(e["a"][0])
        if k == "Bin" and ("*" in (e.get("t") or "") or "iterator" in (e.get("t") or "")):
            return self.lval(e["x"])
        return []

    def targets(self, e):
        fn = e.get("fn")
        if not fn:
            return []
        if fn.get("q") in ("std::make_shared", "std::make_unique") and e["k"] == "Call":
            m = re.search(r"(?:shared_ptr|unique_ptr)<(?:class |struct )?(.*?)(?:, .*)?>$", (e.get("t") or "").strip())
            cls = m.group(1).strip() if m else None
            return [g for g in self.ax.ctors.get(cls, []) if len(g.params) == len(e.get("a", []))][:1] if cls else []
        return [g for g in self.p.targets(fn) if g.m in self.ax.sum]

    def field(self, a, n, nd):
        out = AV()
        for suf in ("", "#"):
            s = set(a.get(n + suf, EMPTY))
            for src, f, idx in a.get("*", EMPTY):
                if f == "*":
                    if suf == "":
                        k = sum(type(x) is int for x in idx)
                        s.add((src, n, idx + tuple(range(k, k + nd))))
                elif suf == "":
                    s.add((src, f, idx))
            if suf == "" and "" in a:
                s |= a[""]
            out.add(suf, frozenset(s))
        return out

    # ------------------------------------------------ expressions
    def ev(self, e):
        if not isinstance(e, dict):
            return AV()
        k = e.get("k")
        if k == "Ref":
            if e.get("rk") in ("local", "param"):
                r = self.refs.get(e["id"])
                if r:
                    out = AV()
                    for v, f, sy, at in r:
                        x = self.get(v)
                        if f is not None:
                            x = self.field(x, f, depth(e.get("t", "")) + len(sy))
                        for s in sy:
                            x = x.map(lambda q: sub1(q, s))
                        out.join(x).add("", at)
                    return out
                return self.get(e["id"])
            if e.get("rk") == "enum":
                return AV()
            return self.get(("g", e.get("q")))
        if k == "This":
            return self.get("this")
        if k == "Member":
            if e["n"] in SIZEFIELDS:
                return AV({"": self.ev(e["b"]).get("#", EMPTY)})
            b = self.ev(e["b"]) if e.get("b") else AV()
            if e.get("b") and (self.ax.is_class(e["b"].get("t", "")) or e["b"].get("k") == "This"):
                return self.field(b, e["n"], depth(e.get("t", "")))
            return b
        if k in ("Cast", "DefaultArg", "StdInit"):
            return self.ev(e["e"])
        if k in ("Int", "Float", "Str", "Bool", "Null", "ZeroInit", "SizeOf"):
            return AV()
        if k == "Lambda":
            a = AV()
            for c in e.get("caps", []):
                a.add("", spread(self.get(c["id"]).all(), "?"))
            return a
        if k == "Assign":
            v = self.ev(e["y"])
            lv = self.lval(e["x"])
            if e["op"] != "=":
                cur = self.ev(e["x"])
                v = AV().join(v).join(cur)
            self.assign(lv, v)
            self.setsym(e["x"], e["y"] if e["op"] == "=" else None, e)
            return v
        if k == "Un":
            if e.get("op") in ("++", "--"):
                x = e["e"]
                v = self.ev(x)
                if x.get("k") == "Ref" and x.get("rk") in ("local", "param"):
                    old = self.S.sym.get(x["id"])
                    new = self.step(x["id"], id(e))
                    post = e.get("post", None)
                    self.lastinc[id(e)] = old if post else new
                    if self.control():
                        self.assign(self.lval(x), AV().join(v))
                    if new:
                        self.S.sym[x["id"]] = new
                    else:
                        self.S.sym.pop(x["id"], None)
                else:
                    self.assign(self.lval(x), v)
                return v
            if e.get("op") == "*":
                return self.ev(e["e"]).map(lambda q: sub1(q, "?"))
            if e.get("op") == "&" and aswritten(e["e"]).get("k") in ("Index", "OpCall"):
                return self.ev(e["e"]).map(lambda q: frozenset((a[0], a[1], a[2][:-1] + ("?",)) if a[2] else a for a in q))
            return self.ev(e["e"])
        if k == "Bin" and e["op"] in ("&&", "||"):
            a = self.ev(e["x"])
            self.ctl.append(a.all())
            b = self.ev(e["y"])
            self.ctl.pop()
            return AV().join(a).join(b)
        if k == "Cond":
            c = self.ev(e["c"]).all()
            self.ctl.append(c)
            r = AV().join(self.ev(e["x"])).join(self.ev(e["y"]))
            self.ctl.pop()
            return r.add("", spread(c, "?"))
        if k == "Index":
            s, at = self.symof(e["i"])
            return self.ev(e["b"]).map(lambda q: sub1(q, s)).add("", at)
        if k in ("Call", "MCall", "OpCall", "Construct"):
            return self.call(e)
        if k == "New":
            a = self.ev(e.get("init")) if e.get("init") else AV()
            return AV().join(a)
        if k == "Throw":
            return AV()
        a = AV()
        for c in kids(e):
            if c.get("k") in ("Block", "Decl", "Expr", "If", "For"):
                self.stmt(c)
            else:
                a.join(self.ev(c))
        return a

    def step(self, vid, site):
        """symbol of a counter after one of its increments"""
        for fr in reversed(self.frames):
            if vid in fr.counters:
                return ("V", fr.L, (vid, site))
        return None

    def setsym(self, x, y, e):
        while isinstance(x, dict) and x.get("k") == "Cast":
            x = x["e"]
        if x.get("k") != "Ref" or x.get("rk") not in ("local", "param"):
            return
        vid = x["id"]
        if y is None:
            new = self.step(vid, id(e)) if e["op"] in ("+=", "-=") else None
            if new:
                self.S.sym[vid] = new
            else:
                self.S.sym.pop(vid, None)
            return
        self.copysym(vid, y, x.get("t", ""))

    def copysym(self, vid, y, t):
        if depth(t) == 0 and re.match(r"^(const )?(unsigned |long |short )*(int|long|size_t|unsigned|short|std::size_t|unsigned long|unsigned int)\b", t.strip()):
            s, _ = self.symof(y)
            if type(s) is tuple or s == "?":
                self.S.sym[vid] = s
                return
        self.S.sym.pop(vid, None)

    def call(self, e):
        k = e["k"]
        fn = e.get("fn") or {}
        q = fn.get("q", "")
        name = q.split("::")[-1]
        args = e.get("a", [])
        op = e.get("op") if k == "OpCall" else None
        obj = None
        if k == "MCall":
            obj = e.get("o")
        elif k == "OpCall" and e.get("ismem") and args:
            obj, args = args[0], args[1:]
        if op == "()" and obj is not None and obj.get("k") == "Ref" and obj.get("id") in self.lams:
            return self.calllambda(self.lams[obj["id"]], args)
        ts = self.targets(e)
        if op == "=" and obj is not None and (not ts or all(t.implicit for t in ts)):
            v = self.ev(args[0])
            self.assign(self.lval(obj), v)
            return v
        if op in ("[]", "()") and obj is not None and not ts:
            ss = [self.symof(a) for a in args]
            r = self.ev(obj)
            for s, at in ss:
                r = r.map(lambda z: sub1(z, s))
            r = AV(r)
            for s, at in ss:
                r.add("", at)
            return r
        if k == "MCall" and name == "at" and obj is not None and not ts:
            r = self.ev(obj)
            for a in args:
                s, at = self.symof(a)
                r = AV(r.map(lambda z: sub1(z, s))).add("", at)
            return r
        avs = [self.ev(a) for a in args]
        if obj is not None and k == "MCall" and name in GROW | {"clear", "resize", "assign"} and not ts:
            for fr in self.frames:     # not a read
                pass
        oav = self.ev(obj) if obj is not None else AV()
        if ts:
            return self.own(e, fn, ts, args, avs, obj, oav)
        if k == "MCall" and name in SIZE:
            r = AV({"": oav.get("#", EMPTY)}) if oav.get("#") else AV()
            if obj is not None and "std::vector" not in (obj.get("t") or "") and "arma" not in (obj.get("t") or ""):
                r.add("", frozenset(x for x in oav.get("*", EMPTY)))
            return r
        if k == "Construct":
            r = AV()
            t = e.get("t", "")
            if args and ("std::vector" in t or "arma::" in t):
                pt = fn.get("pt", [])
                if pt and re.match(r"^(const )?(unsigned long|size_type|unsigned int|int|const uword|uword|unsigned long long|const unsigned long long)", pt[0].strip()):
                    n = 1 if "std::vector" in t else len([x for x in pt if "long" in x or "int" in x])
                    for a in avs[:n]:
                        r.add("#", a.all())
                    for a in avs[n:]:
                        r.join(a.map(lambda z: shift(z, n)))
                    return r
            if t.count("std::vector") > 0 and args and "iterator" in (args[0].get("t") or ""):
                for a in avs:
                    r.join(a)
                return r
            for a in avs:
                r.join(a)
            return r
        if k == "InitList":
            pass
        if name in ("front", "back") and obj is not None:
            return AV(oav.map(lambda z: sub1(z, "?")))
        if name in ("row", "col", "rows", "cols", "subvec", "submat"):
            return AV(oav.map(lambda z: spread(z, "?"))).add("", frozenset(x for a in avs for x in a.all()))
        if name in ("begin", "end", "cbegin", "cend", "data", "rbegin", "rend", "t", "get") and obj is not None:
            return AV(oav) if name != "t" else AV(oav.map(lambda z: spread(z, "?")))
        if name in ("resize", "set_size", "zeros"):
            lv = self.lval(obj)
            pt = fn.get("pt", [])
            v = AV()
            for i, a in enumerate(avs):
                if i == 0 or "arma" in q:
                    v.add("#", a.all() | self.control())
                else:
                    v.join(a.map(lambda z: shift(z, 1)))
            empty = "arma" in q
            self.assign(lv, v, compound=not empty)
            return AV()
        if name == "clear":
            self.assign(self.lval(obj), AV())
            return AV()
        if name == "reserve" or name == "shrink_to_fit":
            return AV()
        if name == "assign" and obj is not None and len(args) == 2 and "iterator" not in (args[0].get("t") or ""):
            v = AV(avs[1].map(lambda z: shift(z, 1))).add("#", avs[0].all() | self.control())
            self.assign(self.lval(obj), v)
            return AV()
        allin = AV()
        for a in avs:
            allin.join(a)
        if obj is not None and name in GROW:
            c = self.control()
            self.grown |= {v for v, _, sy, _ in self.lval(obj) if not sy and not self.frames}
            for vid, fld, syms, at in self.lval(obj):
                s2 = tuple(syms) + (self.pushsym(vid, syms),)
                self.assign([(vid, fld, s2, at)], allin, compound=True)
                self.assign([(vid, fld, syms, at)], AV({"#": c}), compound=True) if c else None
            return AV()
        red = "*" if name in REDUCE else "?"
        sp = (lambda z: spread(z, red))
        if op == "*" and obj is not None and not args:      # dereferenced iterator
            return AV(oav.map(lambda z: sub1(z, "?")))
        if op == "->" and obj is not None:
            return AV(oav.map(lambda z: sub1(z, "?"))) if "iterator" in (obj.get("t") or "") else oav
        tot = AV().join(allin).join(oav)
        cont = frozenset(x for kk, v in tot.items() if kk != "#" for x in v)
        sizes = tot.get("#", EMPTY)
        if ("iterator" in (e.get("t") or "")) and (op in ("+", "-", "++", "--") or name in ("next", "prev", "advance")):
            return tot
        if obj is not None and not fn.get("const") and op not in ("[]", "()", "->", "*", "<", ">", "==", "!=", "<=", ">=", "+", "-", "++", "--") and not (op == "<<" and "stream" in (obj.get("t") or "")):
            for vid, fld, syms, at in self.lval(obj):
                self.assign([(vid, fld, syms, at)], AV({"": sp(cont)}), compound=True)
        if op in ("<<",) and args and "ostream" in (args[0].get("t") or "") + ((obj or {}).get("t") or ""):
            return AV()
        r = AV()
        r.add("", sp(cont))
        r.add("#", sizes)
        pt = fn.get("pt", [])
        if op is not None and op.endswith("=") and op not in ("==", "!=", "<=", ">=") and obj is None and args:
            self.assign(self.lval(args[0]), AV(r), compound=True)
        if q.startswith("std::") and name in ELEMENTWISE | REDUCE or not q.startswith("std::"):
            off = len(args) - len(pt)
            for i, a in enumerate(args):
                t = pt[i - off] if 0 <= i - off < len(pt) else ""
                at = a.get("t", "")
                if isref(t) or ("iterator" in at and not q.startswith("std::operator")) or "subview" in at:
                    lv = self.lval(a)
                    if lv and not (op == "<<" and "ostream" in at):
                        if name in ELEMENTWISE and name != "fill":
                            self.assign([(v, f, tuple(sy), x) for v, f, sy, x in lv], AV({"": spread(cont, "?")}), compound=True)
                        elif name == "fill" and len(args) == 3 and wholeof(args[0], args[1]):
                            self.assign(lv, AV({"": shift(avs[2].all(), 1)}).add("#", self.get(lv[0][0]).get("#", EMPTY) if lv else EMPTY))
                        else:
                            self.assign(lv, AV({"": sp(cont), "#": sp(cont) if "back_insert" in at else EMPTY}), compound=True)
        return r

    def pushsym(self, vid, syms):
        """appended once per iteration of the innermost loop, unconditionally, to an array that starts empty: its position
        is the iteration"""
        if not self.frames:
            return "?"
        fr = self.frames[-1]
        if len(self.ctl) != fr.nctl or fr.cont or fr.iter is None or fr.pushes.get(vid, 0) != 1 or vid not in fr.empty and not syms:
            return "?"
        for o in self.frames[-2::-1]:
            if vid in o.decls:
                break
            if o.iter is not None and not any(issym(x) and x[1] == o.L for x in syms):
                return "?"
        return fr.iter

    def calllambda(self, lam, args):
        avs = [self.ev(a) for a in args]
        for q, a, x in zip(lam.get("ps", []), avs, args):
            if isref(q["t"]):
                lv = self.lval(x)
                if lv:
                    self.refs[q["id"]] = lv
                    continue
            self.assign([(q["id"], None, (), EMPTY)], a)
            self.copysym(q["id"], x, q["t"])
        self.lamret.append(AV())
        saved = (self.ctl, self.retc)
        self.ctl = list(self.ctl)
        self.exits.append([])
        st = self.stmt(lam.get("body"))
        out = self.exits.pop()
        for s in out:
            self.S = self.S.join(s) if self.S.live else s
        self.S.live = True
        self.ctl, self.retc = saved
        return self.lamret.pop()

    def own(self, e, fn, ts, args, avs, obj, oav):
        r = AV()
        stores = []
        syms = {}

        def psym(i):
            if i not in syms:
                if i < len(args) and depth(args[i].get("t", "")) == 0:
                    syms[i] = self.symof(args[i])[0]
                    if syms[i] == "*" and args[i].get("k") in ("Unknown",):
                        syms[i] = "?"
                else:
                    syms[i] = "?"
            return syms[i]
        for g in ts:
            s = self.ax.sum[g.m]

            def sub(av):
                out = AV()
                for k, atoms in av.items():
                    acc = set()
                    for src, f, idx in atoms:
                        idx = tuple(psym(x[1]) if type(x) is tuple and x[0] == "P" else x for x in idx)
                        if src == "this":
                            a = oav
                        elif isinstance(src, int):
                            a = avs[src] if src < len(avs) else AV()
                        else:
                            acc.add((src, f, idx))
                            continue
                        if f == "*":
                            if k == "*":
                                for kk, v in a.items():
                                    out.add(kk if kk else "*", place(v, idx))
                            else:
                                acc |= place(a.all(), idx)
                        elif f == "":
                            for kk, w in a.items():
                                if kk != "#":
                                    acc |= place(w, idx)
                        else:
                            base = f[:-1] if f.endswith("#") else f
                            fa = a.get(base, EMPTY) | a.get("", EMPTY)
                            acc |= place(fa, idx)
                            for s2, f2, i2 in a.get("*", EMPTY):
                                if f2 == "*":
                                    n = sum(type(x) is int for x in i2)
                                    acc.add((s2, base, tuple(idx[x] if type(x) is int and x < len(idx) else x for x in i2) + idx[n:]))
                                else:
                                    acc |= place(frozenset([(s2, f2, i2)]), idx)
                    out.add(k, frozenset(acc))
                return out
            if g.is_ctor:
                made = sub(s.outs.get("this", AV()))
                r.join(made)
                if g.implicit and len(avs) == 1 and not s.outs.get("this"):
                    r.join(avs[0])
            else:
                r.join(sub(s.ret))
                if "this" in s.outs and obj is not None and not g.const:
                    stores.append((obj, sub(s.outs["this"]) if "this" not in s.at else sub(s.outs["this"]).map(blur), ()))
            for i, v in s.outs.items():
                if isinstance(i, int) and i < len(args):
                    v = sub(AV({k: frozenset(a for a in x if not (a[0] == i and a[1] in ("", "*"))) for k, x in v.items()}))
                    pos = ()
                    if i in s.at and s.at[i] is None:
                        v = v.map(blur)
                    elif i in s.at:
                        pos = tuple(psym(x[1]) for x in s.at[i])
                        for x in pos:
                            v = v.map(lambda z: sub1(z, x))
                    stores.append((args[i], v, pos))
        for x, v, pos in stores:
            lv = self.lval(x)
            if pos:
                self.assign([(a, f, tuple(sy) + pos, at) for a, f, sy, at in lv], v)
            elif lv:
                self.assign(lv, v, compound=len(ts) > 1 or x is obj)
        return r

    # ------------------------------------------------ statements
    def stmt(self, s):
        if not isinstance(s, dict) or not self.S.live:
            return
        k = s.get("k")
        if k == "Block":
            n = len(self.ctl)
            for x in s["b"]:
                self.stmt(x)
            del self.ctl[n:]
        elif k == "Expr":
            e = s["e"]
            if e.get("k") == "Throw" or e.get("k") in ("Call", "MCall") and (e.get("fn") or {}).get("noret"):
                self.S.live = False
                return
            self.ev(e)
        elif k == "Decl":
            for v in s["v"]:
                self.decl(v)
        elif k == "If":
            self.stmt(s.get("init"))
            if s.get("cv"):
                self.decl(s["cv"])
            c = self.ev(s["c"]).all()
            x, y = s.get("x"), s.get("y")
            c0 = self.S
            if throws(x) or throws(y):
                c = EMPTY
            self.ctl.append(c)
            self.S = c0.copy()
            self.stmt(x)
            a = self.S
            self.S = c0
            if y is not None:
                self.stmt(y)
            b = self.S
            self.ctl.pop()
            self.S = a.join(b)
            # what follows is decided by c when one side leaves
            if not a.live or not b.live or leaves(x) or leaves(y):
                kinds = leaves(x) | leaves(y)
                if c:
                    if "return" in kinds:
                        self.retc |= c
                    if self.frames:
                        if "break" in kinds:
                            self.frames[-1].brk |= c
                        if "continue" in kinds:
                            self.frames[-1].cont |= c
        elif k in ("For", "While", "Do", "RangeFor"):
            self.loop(s)
        elif k == "Return":
            a = self.ev(s["e"]) if s.get("e") else AV()
            c = self.control()
            tgt = self.lamret[-1] if self.lamret else self.ret
            if s.get("e"):
                for kk in list(a) or [""]:
                    tgt.add(kk, a.get(kk, EMPTY) | c)
            if self.exits:
                self.exits[-1].append(self.S.copy())
            self.S.live = False
        elif k == "Break":
            if self.frames:
                self.frames[-1].brkst.append(self.S.copy())
            self.S.live = False
        elif k == "Continue":
            if self.frames:
                self.frames[-1].contst.append(self.S.copy())
            self.S.live = False
        elif k == "Switch":
            c = self.ev(s["c"]).all()
            self.ctl.append(c)
            base = self.S.copy()
            fr = Frame(("sw", id(s)), len(self.ctl))
            fr.iter, fr.counters, fr.pushes, fr.empty, fr.decls = None, set(), {}, set(), set()
            self.frames.append(fr)
            body = s.get("b")
            for x in (body["b"] if body and body.get("k") == "Block" else [body]):
                if isinstance(x, dict) and x.get("k") in ("Case", "Default"):
                    self.S = base.copy().join(self.S) if self.S.live else base.copy()
                self.stmt(x)
            self.frames.pop()
            self.ctl.pop()
            S = self.S
            for b in fr.brkst + [base]:
                S = b.copy().join(S) if not S.live else S.join(b)
            self.S = S
            if "return" in leaves(body):
                self.retc |= c
        elif k in ("Case", "Default", "Label", "OMP"):
            self.stmt(s.get("b"))
        elif k == "Try":
            self.stmt(s["b"])
            st = self.S
            for h in s["h"]:
                self.S = st.copy()
                self.S.live = True
                self.stmt(h["b"])
                if self.S.live and not st.live:
                    st = self.S
            self.S = st

    def decl(self, v):
        vid, t = v["id"], v["t"].strip()
        self.S.sym.pop(vid, None)
        self.refs.pop(vid, None) if not v.get("static") else None
        ini = v.get("init")
        if ini is None:
            self.kill(vid)
            return
        x = ini
        while isinstance(x, dict) and x.get("k") in ("Cast", "StdInit") or isinstance(x, dict) and x.get("k") == "Construct" and len(x.get("a", [])) == 1 and x["a"][0].get("k") == "Lambda":
            x = x["e"] if "e" in x else x["a"][0]
        if x.get("k") == "Lambda":
            self.lams[vid] = x
            return
        if t.endswith("&") or (t.endswith("*") or "iterator" in t):
            lv = self.lval(ini)
            if lv and all(l[0] != vid for l in lv) and (t.endswith("&")):
                self.refs[vid] = lv
                self.ev(ini)
                return
        a = self.ev(ini)
        self.assign([(vid, None, (), EMPTY)], a)
        self.copysym(vid, ini, t)

    def counters(self, s):
        """integer variables that the loop changes by increments only"""
        inc, other = set(), set()
        for part in ("c", "inc", "b"):
            for n in walk(s.get(part) or {}):
                k = n.get("k")
                if k == "Un" and n.get("op") in ("++", "--"):
                    x = n["e"]
                    while x.get("k") == "Cast":
                        x = x["e"]
                    if x.get("k") == "Ref" and x.get("rk") in ("local", "param"):
                        inc.add(x["id"])
                elif k == "Assign":
                    x = n["x"]
                    while x.get("k") == "Cast":
                        x = x["e"]
                    if x.get("k") == "Ref" and x.get("rk") in ("local", "param"):
                        (inc if n["op"] in ("+=", "-=") and n["y"].get("k") in ("Int",) or n["op"] == "=" and simplestep(n["y"], x["id"]) else other).add(x["id"])
        return inc - other

    def loop(self, s):
        k = s["k"]
        if k == "For":
            self.stmt(s.get("init"))
        L = id(s)
        cnt = self.counters(s)
        rv = rlv = None
        if k == "RangeFor":
            ra = self.ev(s["r"])
            rlv = self.lval(s["r"])
        entry = self.S.copy()
        fr = Frame(L, len(self.ctl))
        fr.counters = cnt
        fr.iter = ("V", L, "iter")
        fr.pushes, fr.decls = {}, set()
        for n in walk(s.get("b") or {}):
            if n.get("k") == "Decl":
                fr.decls |= {v["id"] for v in n["v"]}
            elif n.get("k") == "MCall" and n.get("o"):
                nm = (n.get("fn") or {}).get("q", "").split("::")[-1]
                x = n["o"]
                while isinstance(x, dict) and x.get("k") in ("Index", "OpCall", "Cast"):
                    x = x.get("b") or (x.get("a") or [None])[0] or x.get("e")
                if isinstance(x, dict) and x.get("k") == "Ref":
                    if nm in GROW:
                        fr.pushes[x["id"]] = fr.pushes.get(x["id"], 0) + 1
                    elif nm == "clear":
                        fr.decls.add(x["id"])
        fr.empty = {v for v in fr.pushes if (v, "=") in self.S.m and not any(x for kk, x in self.byvar(v) if kk[1] not in ("=", "#"))} - self.grown
        head = entry.copy()
        dropped = set()
        for n in range(12):
            fr.contst, fr.brkst = [], []
            fr.cont = EMPTY
            fr.reads, fr.full = set(), set()
            self.S = head.copy()
            for v in cnt:
                self.S.sym[v] = ("V", L, (v, 0)) if k != "For" or not forvar(s, v) else ("V", L, "iter")
            self.frames.append(fr)
            if k == "While" and s.get("cv"):
                self.decl(s["cv"])
            c = self.ev(s["c"]).all() if s.get("c") and k != "Do" else EMPTY
            after = self.S.copy()
            if k == "RangeFor":
                v = s["v"]
                if v["t"].strip().endswith("&") and rlv:
                    self.refs[v["id"]] = [(a, f, tuple(sy) + (("V", L, "iter"),), at) for a, f, sy, at in rlv]
                else:
                    self.assign([(v["id"], None, (), EMPTY)], ra.map(lambda z: sub1(z, ("V", L, "iter"))))
                c = frozenset()
            if c:
                self.ctl.append(c)
            fr.nctl = len(self.ctl)
            self.stmt(s.get("b"))
            if c:
                self.ctl.pop()
            S = self.S
            for x in fr.contst:
                S = S.join(x) if S.live else x
            self.S = S
            fr.nctl = len(self.ctl)
            fr.cont = EMPTY
            if self.S.live and s.get("inc"):
                self.ev(s["inc"])
            if k == "Do" and self.S.live:
                self.ev(s["c"])
                after = self.S.copy()
            self.frames.pop()
            wide = lambda st: self.widen(st, L)
            fr.brk = ren(fr.brk | c, lambda x: worn(x) if issym(x) and x[1] == L else x)
            back = wide(self.S) if self.S.live else self.S
            outs = [wide(after)] + [wide(b) for b in fr.brkst]
            self.retc = ren(self.retc, lambda x: worn(x) if issym(x) and x[1] == L else x)
            full = {v for v in fr.full if v not in fr.reads and v not in dropped}
            if full and n < 8:
                # every element is stored anew: what the array held before does not stay
                dropped |= full
                e2 = entry.copy()
                for key in list(e2.m):
                    if key[0] in dropped and key[1] not in ("=",):
                        del e2.m[key]
                for v in dropped:
                    e2.m[(v, "=")] = EMPTY
                    self.fields.setdefault(v, set()).add("=")
                head = e2
                continue
            new = head.copy().join(back) if back.live else head.copy()
            if new.same(head) and n > 0:
                break
            head = new
        out = None
        for o in outs:
            if out is None:
                out = o
            else:
                out = out.join(o) if out.live else o
        self.S = out
        self.S.live = True
        for v in cnt:
            self.S.sym.pop(v, None)

    def widen(self, st, L):
        def f(x):
            return worn(x) if type(x) is tuple and x[0] == "V" and x[1] == L else x
        m = {}
        for k, v in st.m.items():
            if any(type(x) is tuple and x[0] == "V" and x[1] == L for a in v for x in a[2]):
                v = ren(v, f)
            m[k] = v
        sym = {k: v for k, v in st.sym.items() if not (issym(v) and v[1] == L)}
        return State(m, sym, st.live)

    def run(self):
        f = self.f
        self.S = State()
        self.fields = {}
        self.lastinc = {}
        self.stored = {}
        self.grown = set()
        self.exits = [[]]
        if f.is_ctor:
            for i in f.d.get("inits") or []:
                if i.get("n") and i.get("e"):
                    self.assign([("this", i["n"], (), EMPTY)], self.ev(i["e"]))
                elif i.get("e"):
                    a = self.ev(i["e"])
                    for k, v in a.items():
                        self.put("this", k, v, False)
        self.stmt(f.body)
        end = self.S
        for x in self.exits[0]:
            end = end.join(x) if end.live else x
        self.S = end
        s = Summary()
        w = lambda z: ren(z, lambda x: (worn(x) if x[0] == "V" else "*" if x[0] == "C" else x) if type(x) is tuple else x)
        s.ret = AV({k: w(v) for k, v in self.ret.items() if v})
        for i, q in enumerate(f.params):
            if isref(q["t"]) and any(v for k, v in self.byvar(q["id"]) if k[1] != "="):
                s.outs[i] = AV({k[1]: w(v) for k, v in self.byvar(q["id"]) if k[1] != "=" and v})
        for vid, pos in self.stored.items():
            i = "this" if vid == "this" else self.params[vid]
            if any(x == "?" or type(x) is tuple for t in pos for x in t):
                one = next(iter(pos)) if len(pos) == 1 and i != "this" else ()
                s.at[i] = one if one and all(type(x) is tuple for x in one) else None
        if self.byvar("this"):
            s.outs["this"] = AV({k[1]: w(v) for k, v in self.byvar("this") if k[1] != "=" and v})
        return s


def wholeof(a, b):
    """begin and end of the same variable"""
    a, b = aswritten(a), aswritten(b)
    def of(x, n):
        if x.get("k") == "MCall" and (x.get("fn") or {}).get("q", "").split("::")[-1] in (n, "c" + n) and x.get("o"):
            o = aswritten(x["o"])
            return o.get("id") if o.get("k") == "Ref" else None
    return of(a, "begin") is not None and of(a, "begin") == of(b, "end")


def forvar(s, v):
    inc = s.get("inc")
    while isinstance(inc, dict) and inc.get("k") == "Cast":
        inc = inc["e"]
    x = None
    if isinstance(inc, dict):
        x = inc.get("e") if inc.get("k") == "Un" else inc.get("x") if inc.get("k") == "Assign" else None
        while isinstance(x, dict) and x.get("k") == "Cast":
            x = x["e"]
    return isinstance(x, dict) and x.get("k") == "Ref" and x.get("id") == v


def simplestep(y, vid):
    while isinstance(y, dict) and y.get("k") == "Cast":
        y = y["e"]
    return y.get("k") == "Bin" and y["op"] in ("+", "-") and any(n.get("k") == "Ref" and n.get("id") == vid for n in (y["x"], y["y"])) and any(n.get("k") == "Int" for n in (y["x"], y["y"]))


def throws(b):
    if b is None:
        return False
    k = b.get("k")
    if k == "Block":
        return any(throws(x) for x in b["b"])
    if k == "Expr":
        e = b["e"]
        return e.get("k") == "Throw" or e.get("k") in ("Call", "MCall") and bool((e.get("fn") or {}).get("noret"))
    if k == "If":
        return b.get("y") is not None and throws(b["x"]) and throws(b["y"])
    return False


def leaves(b):
    out = set()
    todo = [(b, 0, 0)]
    while todo:
        x, d, w = todo.pop()
        if isinstance(x, list):
            todo += [(y, d, w) for y in x]
        elif isinstance(x, dict):
            k = x.get("k")
            if k == "Return":
                out.add("return")
            elif k == "Break" and d == 0 and w == 0:
                out.add("break")
            elif k == "Continue" and d == 0:
                out.add("continue")
            if k == "Lambda":
                continue
            if k in ("For", "While", "Do", "RangeFor"):
                d = 1
            if k == "Switch":
                w = 1
            todo += [(y, d, w) for y in x.values() if isinstance(y, (dict, list))]
    return out

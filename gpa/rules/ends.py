"""C19: every calculation and every run comes to an end.

For each loop the paths once around are enumerated with what they change and what decided them. A path that changes nothing that
the loop's condition or the conditions on the path depend on is taken for ever once it is taken. Counters that move away from
their limit, limits that move along, comparisons that always hold, and recursion that does not make progress are reported too."""
from collections import Counter
from .. import ir
from ..ir import walk, kids, noalloc
from .pure import print_only

LIMIT = 400
UNSTABLE = {"rand", "random", "clock", "time", "gettimeofday", "omp_get_wtime", "read", "recv", "getenv", "access", "stat", "getc", "fgets", "fread", "usleep"}
GROW = {"push_back", "emplace_back", "push", "push_front"}
SHRINK = {"erase", "pop_back", "pop", "clear", "resize", "pop_front", "remove", "swap", "assign"}
UNSIGNED = ("unsigned", "size_t", "size_type", "uint")


def strip(e):
    while isinstance(e, dict) and e.get("k") in ("Cast", "DefaultArg", "StdInit") and isinstance(e.get("e"), dict):
        e = e["e"]
    return e


def uncast(e):
    """Casts between integers stripped."""
    return strip(e)


def tname(e):
    return noalloc((e or {}).get("t", "")).replace("const ", "").replace("&", "").strip()


def is_float(t):
    return t in ("float", "double", "long double")


def is_unsigned(t):
    return t.startswith("unsigned") or "size_type" in t or t in ("size_t", "std::size_t", "uint", "unsigned long", "uint32_t", "uint64_t")


def is_int(t):
    return is_unsigned(t) or t in ("int", "long", "short", "long long", "char", "signed char", "ptrdiff_t")


def const(e):
    e = strip(e)
    if not isinstance(e, dict):
        return None
    k = e.get("k")
    if k in ("Int", "Float"):
        try:
            return float(e["v"])
        except (ValueError, TypeError):
            return None
    if k == "Bool":
        return 1.0 if e.get("v") else 0.0
    if k == "Un" and e.get("op") == "-":
        v = const(e["e"])
        return None if v is None else -v
    if k == "Bin" and e.get("op") in ("+", "-", "*"):
        a, b = const(e["x"]), const(e["y"])
        if a is None or b is None:
            return None
        return a + b if e["op"] == "+" else a - b if e["op"] == "-" else a * b
    return None


def value(e):
    e = strip(e)
    if isinstance(e, dict) and e.get("k") == "Ref" and e.get("rk") == "enum":
        return float(e["v"]) if e.get("v") is not None else None
    return const(e)


def text(e):
    e = strip(e)
    if not isinstance(e, dict):
        return ""
    k = e.get("k")
    if k == "Ref":
        return str(e.get("id", e.get("q")))
    if k in ("Int", "Float", "Bool", "Str"):
        return repr(e.get("v"))
    if k == "Member":
        return text(e.get("b")) + "." + str(e.get("n"))
    return k + str(e.get("op", "")) + str((e.get("fn") or {}).get("q", "") if k != "OpCall" else "") + "(" + ",".join(text(x) for x in kids(e)) + ")"


class Fn:
    """Facts about one function."""

    def __init__(self, f):
        self.alias = {}
        self.escaped = set()
        self.captured = set()
        for n in walk(f.body):
            k = n.get("k")
            if k == "Decl":
                for v in n.get("v", []):
                    t = noalloc(v.get("t", "")).rstrip()
                    if t.endswith("&") and v.get("init"):
                        r = self.root(v["init"])
                        if r is not None:
                            self.alias[v["id"]] = r
                        elif not t.startswith("const "):
                            self.escaped.add(("v", v["id"]))
            elif k == "Un" and n.get("op") == "&":
                r = self.root(n["e"])
                if r:
                    self.escaped.add(r)
            elif k == "Lambda":
                for c in n.get("caps", []):
                    if c.get("byref"):
                        self.captured.add(("v", c["id"]))
            elif k == "RangeFor":
                v = n.get("v")
                if isinstance(v, dict) and noalloc(v.get("t", "")).rstrip().endswith("&"):
                    r = self.root(n.get("r"))
                    if r:
                        self.alias[v["id"]] = r

    def root(self, e):
        e = strip(e)
        n = 0
        while isinstance(e, dict) and n < 50:
            n += 1
            k = e.get("k")
            if k == "Ref":
                if e.get("rk") == "global":
                    return ("g", e.get("q") or e.get("n"))
                i = e.get("id")
                return self.alias.get(i, ("v", i)) if i is not None else ("g", e.get("q"))
            if k == "This":
                return ("m", "*")
            if k == "Member":
                b = strip(e.get("b"))
                if isinstance(b, dict) and (b.get("k") == "This" or b.get("k") == "Un" and b.get("op") == "*" and strip(b["e"]).get("k") == "This"):
                    return ("m", e["n"])
                e = b
            elif k == "OpCall":
                e = strip(e["a"][0]) if e.get("a") else None
            elif k == "Index":
                e = strip(e["b"])
            elif k == "Un":
                e = strip(e["e"])
            elif k == "MCall":
                e = strip(e.get("o"))
            elif k == "Construct" and len(e.get("a", [])) == 1:
                e = strip(e["a"][0])
            else:
                return None
        return None


class Path:
    """What a way through statements changes, the conditions it takes (condition, outcome, places, evaluated after a change of
    them, changed later), how it ends, and the constants it leaves in variables."""
    __slots__ = ("ch", "conds", "exit", "fuzzy", "val")

    def __init__(self, ch=None, conds=(), exit="fall", fuzzy=False, val=None):
        self.ch = ch or {}
        self.conds = conds
        self.exit = exit
        self.fuzzy = fuzzy
        self.val = val or {}

    def then(self, o):
        ch = dict(self.ch)
        for p, d in o.ch.items():
            if p in ch and (ch[p] is None or d is None):
                ch[p] = None
            elif p in ch:
                ch[p] = ch[p] + d
            else:
                ch[p] = d
        conds = self.conds
        if o.ch:
            conds = tuple(c if c[4] or not any(o.hits(r) for r in c[2]) else c[:4] + (True,) for c in conds)
        for c in o.conds:
            # the condition is about the values at this point
            late = frozenset(r for r in c[2] if self.hits(r))
            if late - c[3]:
                conds = conds + ((c[0], c[1], c[2], c[3] | late, c[4]),)
            else:
                conds = conds + (c,)
        val = self.val
        if val or o.val:
            val = {r: v for r, v in val.items() if not o.hits(r)}
            val.update(o.val)
        return Path(ch, conds, o.exit, self.fuzzy or o.fuzzy, val)

    def hits(self, r):
        if r in self.ch:
            return True
        if r[0] == "m" and (("m", "*") in self.ch or r[1] == "*" and any(p[0] == "m" for p in self.ch)):
            return True
        if r[0] == "g" and ("g", "*") in self.ch:
            return True
        return False

    def moved(self, r):
        """The place may be different after the path."""
        if r[0] == "m" and (self.ch.get(("m", "*"), 0) is None or r[1] == "*" and any(p[0] == "m" and d != 0 for p, d in self.ch.items())):
            return True
        if r[0] == "g" and ("g", "*") in self.ch:
            return True
        return self.ch.get(r, 0) != 0


class Loops:
    def __init__(self, p, f, noret):
        self.p, self.f, self.noret = p, f, noret
        self.fn = Fn(f)
        self.over = False
        self.rel = None
        self.memo = {}

    # ---- effects of expressions
    def changes(self, e, ch=None):
        ch = {} if ch is None else ch

        def put(r, d=None):
            if r is None:
                return
            if r in ch and (d is None or ch[r] is None):
                ch[r] = None
            elif r in ch:
                ch[r] += d
            else:
                ch[r] = d
        todo = [e]
        while todo:
            n = todo.pop()
            if not isinstance(n, dict):
                continue
            k = n.get("k")
            if k == "Lambda":
                continue
            todo += list(kids(n))
            if k == "Assign":
                x = strip(n["x"])
                r = self.fn.root(x)
                d = None
                if x.get("k") == "Ref" and is_int(tname(x)):
                    if n["op"] in ("+=", "-="):
                        c = const(n["y"])
                        d = None if c is None else c if n["op"] == "+=" else -c
                    elif n["op"] == "=":
                        y = strip(n["y"])
                        if y.get("k") == "Bin" and y.get("op") in ("+", "-"):
                            if text(y["x"]) == text(x):
                                c = const(y["y"])
                                d = None if c is None else c if y["op"] == "+" else -c
                            elif text(y["y"]) == text(x) and y["op"] == "+":
                                d = const(y["x"])
                        elif text(y) == text(x):
                            d = 0.0
                put(r, d)
                if r is None:
                    put(("*", "*"))
                if x.get("k") in ("Un", "Index") or x.get("k") == "Member" and x.get("arrow"):
                    put(("*", "store"))
            elif k == "Un" and n.get("op") in ("++", "--"):
                x = strip(n["e"])
                put(self.fn.root(x), (1.0 if n["op"] == "++" else -1.0) if x.get("k") == "Ref" else None)
            elif k == "OpCall":
                op = n.get("op")
                a = n.get("a", [])
                if op in ("++", "--") and a:
                    x = strip(a[0])
                    put(self.fn.root(x), (1.0 if op == "++" else -1.0) if x.get("k") == "Ref" else None)
                elif op in ("=", "+=", "-=", "*=", "/=", "<<", "%=") and a:
                    put(self.fn.root(a[0]))
                elif op == ">>":
                    for x in a:
                        put(self.fn.root(x))
                elif op == "()":
                    if not (n.get("fn") or {}).get("const"):
                        put(self.fn.root(a[0]))
                    for c in self.fn.captured:
                        put(c)
                    self.call(n, put)
                elif op not in ("[]", "*", "->", "==", "!=", "<", ">", "<=", ">=", "+", "-", "/", "!"):
                    for x in a:
                        put(self.fn.root(x))
            elif k == "MCall":
                fn = n.get("fn") or {}
                o = strip(n.get("o"))
                r = self.fn.root(o)
                name = fn.get("q", "").split("::")[-1]
                if not fn.get("const") and not fn.get("static"):
                    if not (fn.get("q", "").startswith("std::") and name in ("begin", "end", "at", "front", "back", "rbegin", "rend", "find", "data", "lower_bound", "upper_bound", "get", "operator[]", "top")) and not name.startswith("operator"):
                        put(r)
                        if isinstance(o, dict) and o.get("k") == "This":
                            put(("m", "*"))
                self.call(n, put)
            elif k in ("Call", "Construct", "New"):
                self.call(n, put)
        return ch

    def call(self, n, put):
        fn = n.get("fn") or {}
        pt = fn.get("pt", [])
        for i, a in enumerate(n.get("a", [])):
            t = noalloc(pt[i]).rstrip() if i < len(pt) else ""
            if (t.endswith("&") or t.endswith("*")) and not t.startswith("const ") and not t.endswith("&&") or "shared_ptr" in t or i >= len(pt):
                put(self.fn.root(a))
                x = strip(a)
                if isinstance(x, dict) and x.get("k") == "Un" and x.get("op") == "&":
                    put(self.fn.root(x["e"]))
            x = strip(a)
            if isinstance(x, dict) and (x.get("k") == "Lambda" or "function<" in tname(x) or "(lambda" in tname(x)):
                for c in self.fn.captured:
                    put(c)
        q = fn.get("q", "")
        own = bool(self.p.targets(fn)) if q else False
        if not q:
            put(("g", "*"))
            for c in self.fn.captured:
                put(c)
        elif own and n.get("k") == "Call" or own and n.get("k") == "MCall" and not fn.get("const"):
            put(("g", "*"))

    def reads(self, e):
        """Places an expression depends on; None when it may be different each time without any change of a place."""
        out = set()
        for n in walk(e):
            k = n.get("k")
            if k == "Ref":
                if n.get("rk") in ("enum", "func"):
                    continue
                r = self.fn.root(n)
                if r:
                    out.add(r)
            elif k == "Member":
                r = self.fn.root(n)
                if r:
                    out.add(r)
            elif k == "This":
                pass
            elif k in ("MCall", "Call", "OpCall", "Construct"):
                fn = n.get("fn") or {}
                q = fn.get("q", "")
                name = q.split("::")[-1]
                if name in UNSTABLE:
                    return None
                if k == "MCall":
                    o = strip(n.get("o"))
                    if isinstance(o, dict) and o.get("k") == "This":
                        out.add(("m", "*"))
                    if self.p.targets(fn) and not fn.get("const"):
                        return None
                elif k == "Call" and self.p.targets(fn):
                    if not (q.startswith(("gridpp::", "Util::", "(anonymous")) or fn.get("const") or self.pure(fn)):
                        return None
                    if not q.startswith("gridpp::"):
                        out.add(("g", "*"))
                elif k == "Call" and not q:
                    return None
                elif k == "OpCall" and n.get("op") == "()" and not fn.get("const"):
                    return None
            elif k == "Lambda":
                return None
        return frozenset(out)

    def pure(self, fn):
        """A function that only calculates: no statics, no input."""
        for t in self.p.targets(fn):
            if t.body is None or t.cls:
                return False
            for n in walk(t.body):
                if n.get("k") == "Ref" and n.get("rk") == "global" or n.get("k") == "Decl" and any(v.get("static") for v in n.get("v", [])):
                    return False
                if n.get("k") == "Call" and not (n.get("fn") or {}).get("q", "").startswith("std::") and (n.get("fn") or {}).get("m") != t.m:
                    return False
        return True

    # ---- paths
    def cond(self, c, pol):
        """Paths of evaluating a condition with an outcome."""
        v = const(c)
        if v is not None:
            return [Path()] if bool(v) == pol else []
        x = strip(c)
        if x.get("k") == "Un" and x.get("op") == "!":
            return self.cond(x["e"], not pol)
        if x.get("k") == "Bin" and x.get("op") in ("&&", "||"):
            if pol == (x["op"] == "&&"):
                return self.seq(self.cond(x["x"], pol), self.cond(x["y"], pol))
            a = self.cond(x["x"], pol)
            b = self.cond(x["y"], pol)
            if self.changes(x["x"]) or self.changes(x["y"]):
                b = self.seq(self.cond(x["x"], not pol), b)
            return self.dedup(a + b)
        r = self.reads(c)
        ch = self.changes(c)
        r = r if r is not None else frozenset([("?", "?")])
        return [Path(ch, ((c, pol, r, frozenset(q for q in r if q in ch), False),))]

    def seq(self, ps, more):
        out = []
        for a in ps:
            if a.exit != "fall":
                out.append(a)
            elif len(out) < LIMIT:
                for b in more:
                    out.append(a.then(b))
            else:
                self.over = True
        out = self.dedup(out)
        if len(out) > LIMIT:
            self.over = True
            out = out[:LIMIT]
        return out

    def dedup(self, ps):
        seen = {}
        for x in ps:
            k = (tuple(sorted(x.ch.items(), key=str)), tuple((id(c[0]), c[1], c[3], c[4]) for c in x.conds), x.exit, x.fuzzy, tuple(sorted(x.val.items(), key=str)))
            seen.setdefault(k, x)
        return list(seen.values())

    def stmt(self, n):
        """Paths through a statement."""
        if n is None:
            return [Path()]
        k = n.get("k")
        if k == "Block":
            ps = [Path()]
            for x in n["b"]:
                ps = self.seq(ps, self.stmt(x))
                if not any(q.exit == "fall" for q in ps):
                    break
            return ps
        if k == "Expr":
            e = strip(n["e"])
            if isinstance(e, dict) and e.get("k") == "Throw":
                return [Path(exit="leave")]
            if self.stops(e):
                return [Path(exit="leave")]
            val = {}
            if e.get("k") == "Assign" and e.get("op") == "=" and strip(e["x"]).get("k") == "Ref":
                v = value(e["y"])
                r = self.fn.root(e["x"])
                if v is not None and r is not None:
                    val[r] = v
            return [Path(self.changes(n["e"]), val=val)]
        if k == "Decl":
            ch = {}
            for v in n.get("v", []):
                if v.get("init"):
                    self.changes(v["init"], ch)
                if ("v", v["id"]) not in self.fn.alias.values() and v["id"] not in self.fn.alias:
                    ch[("v", v["id"])] = None
            # what is declared in the loop starts anew each time: it depends on what it is given only
            return [Path(ch)]
        if k == "If" and self.rel is not None and not self.matters(n):
            ch = {}
            self.changes(n, ch)
            return [Path({a: None for a in ch})]
        if k == "If":
            ps = [Path()]
            if n.get("init"):
                ps = self.stmt(n["init"])
            out = []
            a = self.cond(n["c"], True)
            b = self.cond(n["c"], False)
            out += self.seq(a, self.stmt(n["x"]))
            out += self.seq(b, self.stmt(n.get("y")))
            return self.seq(ps, out)
        if k in ("For", "While", "Do", "RangeFor"):
            ch = {}
            self.changes(n, ch)
            for x in walk(n):
                if x.get("k") == "Decl":
                    for v in x.get("v", []):
                        ch[("v", v["id"])] = None
            ch = {a: None for a in ch}
            fuzzy = any(x.get("k") in ("Return", "Throw") or x.get("k") == "Expr" and self.stops(strip(x["e"])) for x in walk(n))
            return [Path(ch, fuzzy=fuzzy)]
        if k == "OMP":
            return self.stmt(n.get("b"))
        if k in ("Return", "Throw"):
            return [Path(exit="leave")]
        if k == "Break":
            return [Path(exit="break")]
        if k == "Continue":
            return [Path(exit="continue")]
        if k == "Try":
            out = list(self.stmt(n.get("b")))
            ch = {a: None for a in self.changes(n.get("b") or {})}
            for h in n.get("h", []):
                out += self.seq([Path(ch, fuzzy=True)], self.stmt(h if "k" in h else h.get("b")))
            return out
        if k in ("Switch", "Case", "Default"):
            ch = {a: None for a in self.changes(n)}
            exits = any(x.get("k") in ("Return", "Throw", "Continue") for x in walk(n))
            out = [Path(ch, fuzzy=True)]
            if exits:
                out.append(Path(ch, exit="leave", fuzzy=True))
            return out
        if k == "Nop":
            return [Path()]
        return [Path({a: None for a in self.changes(n)}, fuzzy=True)]

    def stops(self, e):
        if not isinstance(e, dict):
            return False
        fn = e.get("fn") or {}
        return e.get("k") in ("Call", "MCall") and (fn.get("noret") or fn.get("m") in self.noret or fn.get("q") in ("exit", "abort", "std::exit", "std::abort", "std::terminate"))

    def exits(self, n):
        return any(x.get("k") in ("Return", "Throw", "Break", "Continue") or x.get("k") == "Expr" and self.stops(strip(x["e"])) for x in walk(n))

    def overlap(self, ch):
        for r in self.rel:
            if r in ch or r[0] == "m" and (("m", "*") in ch or r[1] == "*" and any(q[0] == "m" for q in ch)) or r[0] == "g" and ("g", "*") in ch:
                return True
        return False

    def facts(self, n):
        m = self.memo.get(id(n))
        if m is None:
            m = self.memo[id(n)] = (self.exits(n), self.changes({"k": "x", "b": [y for y in (n["x"], n.get("y")) if isinstance(y, dict)]}), self.reads(n["c"]), self.changes(n["c"]))
        return m

    def matters(self, n):
        ex, ch, r, cc = self.facts(n)
        return ex or self.overlap(ch) or self.overlap(cc) or ("*", "*") in ch

    def relevant(self, n, dep):
        """Places that decide whether and how the loop goes on."""
        c = n.get("c")
        r = self.reads(c) if isinstance(c, dict) else frozenset()
        self.rel = set(r or ())
        ifs = []
        todo = [n.get("b")]
        while todo:
            x = todo.pop()
            if not isinstance(x, dict) or x.get("k") in ("For", "While", "Do", "RangeFor", "Lambda"):
                continue
            if x.get("k") == "If":
                ifs.append(x)
            todo += list(kids(x))
        while True:
            n0 = len(self.rel)
            for x in ifs:
                if self.matters(x):
                    self.rel |= set(self.facts(x)[2] or ())
            for q in list(self.rel):
                self.rel |= set(dep.get(q) or ())
            if len(self.rel) == n0:
                return

    def around(self, n):
        """Paths once around a loop, from its condition back to its condition."""
        k = n["k"]
        c = n.get("c")
        if c is not None and (const(c) is None or not const(c)):
            ps = self.cond(c, True)
        else:
            ps = [Path()]
        if k == "Do":
            ps = self.seq([Path()], self.stmt(n.get("b")))
            back = []
            for x in ps:
                if x.exit in ("fall", "continue"):
                    y = Path(x.ch, x.conds, "fall", x.fuzzy, x.val)
                    for s in self.cond(c, True) if c is not None else [Path()]:
                        back.append(y.then(s))
                else:
                    back.append(x)
            return back
        ps = self.seq(ps, self.stmt(n.get("b")))
        out = []
        inc = Path(self.changes(n["inc"])) if isinstance(n.get("inc"), dict) else Path()
        for x in ps:
            if x.exit in ("fall", "continue"):
                out.append(Path(x.ch, x.conds, "fall", x.fuzzy, x.val).then(inc))
            else:
                out.append(x)
        return out


# ---- truth values
def literals(c, pol, out):
    c = strip(c)
    if not isinstance(c, dict):
        return
    if c.get("k") == "Un" and c.get("op") == "!":
        return literals(c["e"], not pol, out)
    if c.get("k") == "Bin" and c.get("op") in ("&&", "||"):
        if pol == (c["op"] == "&&"):
            literals(c["x"], pol, out)
            literals(c["y"], pol, out)
            return
        out.append((c, pol))
        return
    out.append((c, pol))


NEGOP = {"!=": "==", ">=": "<", "<=": ">"}


def norm(c):
    """(text, polarity) of a literal"""
    c = strip(c)
    pol = True
    while isinstance(c, dict) and c.get("k") == "Un" and c.get("op") == "!":
        pol = not pol
        c = strip(c["e"])
    if isinstance(c, dict) and c.get("k") in ("Bin", "OpCall"):
        op = c.get("op")
        x, y = (c["x"], c["y"]) if c["k"] == "Bin" else (c["a"] + [None, None])[:2]
        a, b = text(x), text(y)
        if op in NEGOP:
            pol, op = not pol, NEGOP[op]
        if op == "==" and a > b:
            a, b = b, a
        if op == ">":
            op, a, b = "<", b, a
        if op in ("==", "<"):
            return (op, a, b), pol
    return text(c), pol


def evaluate(c, lits):
    c = strip(c)
    if not isinstance(c, dict):
        return None
    v = const(c)
    if v is not None:
        return bool(v)
    if c.get("k") == "Un" and c.get("op") == "!":
        r = evaluate(c["e"], lits)
        return None if r is None else not r
    if c.get("k") == "Bin" and c.get("op") in ("&&", "||"):
        a, b = evaluate(c["x"], lits), evaluate(c["y"], lits)
        if c["op"] == "&&":
            return False if a is False or b is False else True if a and b else None
        return True if a or b else False if a is False and b is False else None
    t, pol = norm(c)
    if t in lits:
        return lits[t] == pol
    # x == A excludes x == B for different constants
    if isinstance(t, tuple) and t[0] == "==":
        for s, v in lits.items():
            if v and isinstance(s, tuple) and s[0] == "==" and s != t:
                common = set(s[1:]) & set(t[1:])
                if common:
                    return (not pol)
    return None


def feasible(conds, late=None):
    """The conditions do not contradict each other (only those about the values at the start of the path are compared)."""
    lits = {}
    rest = []
    for c, pol, r, after, stale in conds:
        if after:
            continue
        out = []
        literals(c, pol, out)
        for x, p in out:
            x = strip(x)
            if x.get("k") == "Bin" and x.get("op") in ("&&", "||"):
                rest.append((x, p))
                continue
            t, q = norm(x)
            v = q == p
            if t in lits and lits[t] != v:
                return False
            if v and isinstance(t, tuple) and t[0] == "==":
                for s, w in lits.items():
                    if w and isinstance(s, tuple) and s[0] == "==" and s != t and (set(s[1:]) & set(t[1:])):
                        return False
            lits[t] = v
    for x, p in rest:
        r = evaluate(x, lits)
        if r is not None and r != p:
            return False
    return True


def conjuncts(c):
    c = strip(c)
    if isinstance(c, dict) and c.get("k") == "Bin" and c.get("op") == "&&":
        return conjuncts(c["x"]) + conjuncts(c["y"])
    return [c] if isinstance(c, dict) else []


def comparison(c):
    """(place expression, op, bound)"""
    c = strip(c)
    if not isinstance(c, dict) or c.get("k") not in ("Bin",) or c.get("op") not in ("<", "<=", ">", ">="):
        return []
    F = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}
    return [(strip(c["x"]), c["op"], strip(c["y"])), (strip(c["y"]), F[c["op"]], strip(c["x"]))]


class Rule:
    def __init__(self, p, noret, report, stats):
        self.p, self.noret, self.report, self.stats = p, noret, report, stats

    def function(self, f):
        self.f = f
        self.L = Loops(self.p, f, self.noret)
        self.plains = {}
        self.visit(f.body, [])

    def visit(self, n, outer):
        if not isinstance(n, dict):
            return
        k = n.get("k")
        if k in ("For", "While", "Do"):
            self.loop(n, outer)
            self.stats["loops"] += 1
            inner = outer + [n]
            for x in kids(n):
                self.visit(x, inner)
            return
        if k == "RangeFor":
            self.stats["range loops"] += 1
            self.rangefor(n)
        if k == "Lambda":
            self.visit(n.get("body"), [])
            return
        for x in kids(n):
            self.visit(x, outer)

    def bad(self, rule, n, textx):
        line = n.get("l")
        if line is None:
            ls = [x.get("l") for x in walk(n) if x.get("l")]
            line = min(ls) if ls else self.f.line
        self.report(self.f, line, rule, textx)

    def equals(self, c):
        c = strip(c)
        return isinstance(c, dict) and c.get("k") == "Bin" and (c.get("op") in ("==", "!=") or c.get("op") in ("<", "<=", ">", ">=") and (const(c["x"]) is not None or const(c["y"]) is not None)) or isinstance(c, dict) and c.get("k") in ("Ref", "Un")

    def rangefor(self, n):
        r = self.L.fn.root(n.get("r"))
        if r is None or r[0] != "v":
            return
        for x in walk(n.get("b") or {}):
            if x.get("k") == "MCall" and (x.get("fn") or {}).get("q", "").split("::")[-1] in GROW and self.L.fn.root(x.get("o")) == r and strip(x.get("o")).get("k") == "Ref":
                self.bad("grows", x, "the array that is gone through grows with each element")

    def loop(self, n, outer):
        L = self.L
        L.over = False
        c = n.get("c")
        dep = self.given(n)
        L.relevant(n, dep)
        ps = L.around(n)
        if L.over:
            self.stats["undecided"] += 1
        local = {("v", v["id"]) for x in walk(n.get("b") or {}) if x.get("k") == "Decl" for v in x.get("v", [])}
        rc = L.reads(c) if isinstance(c, dict) and const(c) is None else frozenset()
        back = [x for x in ps if x.exit == "fall"]
        leave = [x for x in ps if x.exit in ("break", "leave")]
        self.stats["paths"] += len(ps)
        # (1) nothing moves
        if rc is not None and not any(r in L.fn.escaped for r in rc) and not (isinstance(c, dict) and const(c) is not None and not const(c)):
            self.stuck(n, back, rc, local, dep)
        if not isinstance(c, dict):
            return
        cs = conjuncts(c)
        single = len(cs) == 1
        for cc in cs:
            for x, op, bound in comparison(cc):
                t = tname(x)
                # (2) a comparison that always holds
                full = (cc.get("x") if cc.get("x") is not None else {})
                if single and op == ">=" and const(bound) == 0 and is_unsigned(t) and not any(L.fn.root(x) in q[2] for y in leave for q in y.conds if self.equals(q[0])):
                    self.bad("always", n, "an unsigned number is never negative")
                if x.get("k") != "Ref" or not single or L.fn.root(x) is None:
                    continue
                r = L.fn.root(x)
                if r in L.fn.escaped or not is_int(t):
                    continue
                # (3) the counter moves away from its limit
                rb = L.reads(bound)
                if rb is None or not back or any(y.fuzzy or ("*", "*") in y.ch for y in back) or L.over:
                    continue
                d = [y.ch.get(r, 0.0) for y in back]
                if any(v is None for v in d):
                    continue
                if any(y.moved(q) for y in back for q in rb):
                    # (4) the limit moves along
                    if op in ("<", "<=") and self.sizeof(bound) is not None and all(self.grown(y, self.sizeof(bound), n) for y in back) and all(0 <= v <= 1 for v in d) and not leave:
                        self.bad("grows", n, "the array grows with each step, so that its end is never reached")
                    continue
                if op in ("<", "<=") and all(v <= 0 for v in d) and any(v < 0 for v in d) and not leave:
                    self.bad("away", n, "the counter moves away from its limit")
                if op in (">", ">=") and all(v >= 0 for v in d) and any(v > 0 for v in d) and not leave:
                    self.bad("away", n, "the counter moves away from its limit")
        # (5) real numbers that are brought into a range step by step
        for cc in cs if single else []:
            for x, op, bound in comparison(cc):
                if is_float(tname(x)) and L.fn.root(x) is not None and x.get("k") in ("Ref", "Member", "OpCall", "Index"):
                    steps = [m for m in walk({"k": "x", "b": [y for y in (n.get("b"), n.get("inc")) if isinstance(y, dict)]}) if m.get("k") == "Assign" and text(m["x"]) == text(x)]
                    if steps and all(self.additive(m, x) for m in steps) and not self.bounded(n, x, outer):
                        self.bad("steps", n, "a real number is brought into a range in steps: a large or infinite one never gets there")
        # (6) end of file that is never reached
        if single and self.eof(cs[0]) and self.unread(n, cs[0], leave):
            self.bad("eof", n, "a stream that fails never gets to its end")
        # (7) an inner loop restarts the counter
        mine = {r for cc in cs for x, op, b in comparison(cc) if x.get("k") == "Ref" for r in [L.fn.root(x)] if r and r[0] == "v"} & self.counters(n)
        for m in walk(n.get("b") or {}):
            if m.get("k") == "For" and m is not n and isinstance(m.get("init"), dict) and mine:
                for a in walk(m["init"]):
                    if a.get("k") == "Assign" and a.get("op") == "=" and strip(a["x"]).get("k") == "Ref" and L.fn.root(a["x"]) in mine and const(a["y"]) is not None:
                        self.bad("restart", m, "an inner loop starts the counter of the outer one anew")
        # (8) one less than nothing
        for cc in cs:
            for b in walk(cc):
                if b.get("k") == "Bin" and b.get("op") == "-" and is_unsigned(tname(b)) and const(b["y"]) and const(b["y"]) > 0:
                    s = self.sizeof(b["x"])
                    if s is not None and not self.nonempty(n, s):
                        self.bad("wraps", n, "the size of an array that may be empty, less one, is a huge number")

    def stuck(self, n, back, rc, local, dep):
        L = self.L
        # conditions on what is declared inside the loop stand for others, which are not known here
        able = [x for x in back if feasible(x.conds) and not self.none_left(x.conds) and not any(r in local for c in x.conds for r in c[2])]
        step = []
        for x in able:
            if x.fuzzy or ("*", "*") in x.ch:
                continue
            R = set()
            early = set()
            for cc, pol, r, late, stale in x.conds:
                R |= set(r)
                early |= set(r) - set(late)
            # what is given its value anew before it is examined counts as what it is given
            fresh = {r for r in R - early if r[0] == "v" and r not in L.fn.escaped and r not in L.fn.captured and self.plain(n, r)}
            if ("?", "?") in R or any(r in L.fn.escaped for r in R):
                continue
            R2 = self.sources(n, R, local | fresh, dep)
            if R2 is None:
                continue
            moved = {r for r in R2 if x.moved(r)}
            if not moved:
                if self.entered(n, x, able):
                    self.bad("stuck", n, "a way through the loop changes nothing that decides whether it goes on")
                    return
            elif all(x.val.get(r) is not None and r[0] == "v" for r in moved):
                step.append((x, R2))
        # ways that only set variables to constants and lead to one another
        for s in {r for x, R in step for r in x.val}:
            mine = [x for x, R in step if s in x.val and self.start(x, s) is not None]
            nxt = {id(a): [b for b in mine if a.val[s] == self.start(b, s) and self.agree(a, b, s)] for a in mine}
            for a in mine:
                if len(mine) > 200:
                    break
                seen, todo = set(), list(nxt[id(a)])
                while todo:
                    b = todo.pop()
                    if b is a:
                        self.bad("stuck", n, "the loop goes round without anything that decides whether it goes on changing for good")
                        return
                    if id(b) in seen:
                        continue
                    seen.add(id(b))
                    todo += nxt[id(b)]

    def plain(self, n, r):
        """Only ever assigned to, in whole, and not from itself."""
        k = (id(n), r)
        if k not in self.plains:
            self.plains[k] = self.is_plain(n, r)
        return self.plains[k]

    def is_plain(self, n, r):
        for y in ("c", "inc"):
            if isinstance(n.get(y), dict) and r in self.L.changes(n[y]):
                return False
        for x in walk(n.get("b") or {}):
            k = x.get("k")
            if k == "Assign" and self.L.fn.root(x["x"]) == r:
                q = self.L.reads(x["y"])
                if x.get("op") != "=" or strip(x["x"]).get("k") != "Ref" or q is None or r in q:
                    return False
            elif k in ("Un", "OpCall", "MCall", "Call", "Construct"):
                if k == "Un" and x.get("op") not in ("++", "--", "&"):
                    continue
                ch = {}
                if k == "Un":
                    ch[self.L.fn.root(x["e"])] = None
                else:
                    self.L.changes(x, ch)
                if r in ch and not any(y.get("k") == "Assign" for y in walk(x)):
                    return False
        return True

    def start(self, x, s):
        """The constant a variable has at the start of a path."""
        for c, pol, r, late, stale in x.conds:
            ls = []
            if not late:
                literals(c, pol, ls)
            for y, p in ls:
                y = strip(y)
                if y.get("k") == "Bin" and y.get("op") in ("==", "!=") and (y["op"] == "==") == p:
                    for a, b in ((y["x"], y["y"]), (y["y"], y["x"])):
                        if self.L.fn.root(a) == s and strip(a).get("k") == "Ref" and value(b) is not None:
                            return value(b)
        return None

    def agree(self, a, b, s=None):
        """What holds at the end of one path does not contradict what the other starts with."""
        end = tuple(c[:3] + (False, False) for c in a.conds if not c[4] and s not in c[2])
        begin = tuple(c for c in b.conds if not c[3] and s not in c[2])
        return feasible(end + begin)

    def entered(self, n, x, able):
        """The loop can get to the start of this path: there is a path that leads to it."""
        for c, pol, r, late, stale in x.conds:
            for s in r:
                v = self.start(x, s)
                if v is None or s[0] != "v" or self.values(s[1]) is None:
                    continue
                first = self.first(n, s)
                if first is None or first == v:
                    continue
                if not self.reached(x, s, first, able):
                    return False
        return True

    def reached(self, x, s, first, able):
        """Going back from the path, one that the loop can start with is found."""
        seen, todo = {id(x)}, [x]
        while todo:
            y = todo.pop()
            v = self.begins(y, s)
            if v is None or v == first:
                return True
            for z in able:
                if id(z) in seen:
                    continue
                if z.val.get(s) == v or not z.moved(s) and self.begins(z, s) in (v, None) or z.moved(s) and z.val.get(s) is None:
                    if self.agree(z, y, s):
                        seen.add(id(z))
                        todo.append(z)
        return False

    def begins(self, x, s):
        k = (id(x), s)
        if k not in self.plains:
            self.plains[k] = (x, self.start(x, s))
        return self.plains[k][1]

    def first(self, n, s):
        """The constant a variable has before the loop."""
        v = None
        for x in walk(self.f.body):
            if x is n:
                break
            if x.get("k") == "Decl":
                for d in x.get("v", []):
                    if ("v", d["id"]) == s:
                        v = value(d["init"]) if d.get("init") else None
            elif x.get("k") == "Assign" and self.L.fn.root(x["x"]) == s:
                v = None
        return v

    def none_left(self, conds):
        """A variable differs from every value it is ever given."""
        out = {}
        for c, pol, r, late, stale in conds:
            ls = []
            if not late:
                literals(c, pol, ls)
            for x, p in ls:
                x = strip(x)
                if x.get("k") == "Bin" and x.get("op") in ("==", "!=") and (x["op"] == "==") != p:
                    for a, b in ((x["x"], x["y"]), (x["y"], x["x"])):
                        a, b = strip(a), strip(b)
                        v = value(b)
                        if a.get("k") == "Ref" and a.get("rk") in ("local", "param") and v is not None:
                            out.setdefault(a.get("id"), set()).add(v)
        for i, vs in out.items():
            given = self.values(i)
            if given and given <= vs:
                return True
        return False

    def values(self, i, busy=()):
        """All values a local variable is given, None when they are not constants."""
        if i in busy:
            return set()
        if ("v", i) in self.L.fn.escaped | self.L.fn.captured:
            return None
        out = set()
        for n in walk(self.f.body):
            k = n.get("k")
            es = []
            if k == "Decl":
                es = [v["init"] for v in n.get("v", []) if v["id"] == i and v.get("init")]
            elif k == "Assign" and strip(n["x"]).get("k") == "Ref" and strip(n["x"]).get("id") == i:
                if n.get("op") != "=":
                    return None
                es = [n["y"]]
            elif k == "Un" and n.get("op") in ("++", "--") and strip(n["e"]).get("k") == "Ref" and strip(n["e"]).get("id") == i:
                return None
            elif k in ("Call", "MCall", "Construct"):
                ch = {}
                self.L.call(n, lambda r, d=None: ch.__setitem__(r, None))
                if ("v", i) in ch:
                    return None
            for e in es:
                todo = [strip(e)]
                while todo:
                    x = strip(todo.pop())
                    if x.get("k") == "Cond":
                        todo += [x["x"], x["y"]]
                        continue
                    if x.get("k") == "Ref" and x.get("id") is not None and x.get("rk") != "enum":
                        if x.get("id") == i:
                            continue
                        w = self.values(x["id"], busy + (i,)) if x.get("rk") == "local" else None
                        if w is None:
                            return None
                        out |= w
                        continue
                    v = value(x)
                    if v is None:
                        return None
                    out.add(v)
        return out

    def counters(self, n):
        """Variables that the loop itself steps."""
        out = set()
        if isinstance(n.get("inc"), dict):
            for r, d in self.L.changes(n["inc"]).items():
                out.add(r)
        return out

    def given(self, n):
        """What the places that are changed in a loop are computed from: place -> places; None when it comes from outside."""
        L = self.L
        dep = {}

        def add(r, e):
            if r is None or dep.get(r, ()) is None:
                return
            q = L.reads(e)
            if q is None:
                dep[r] = None
            else:
                dep.setdefault(r, set()).update(q)
        for x in walk(n.get("b") or {}):
            k = x.get("k")
            if k == "Decl":
                for v in x.get("v", []):
                    r = ("v", v["id"])
                    if v.get("static"):
                        dep[r] = None
                    elif v.get("init"):
                        add(r, v["init"])
            elif k == "Assign":
                add(L.fn.root(x["x"]), x["y"])
                add(L.fn.root(x["x"]), x["x"])
            elif k == "OpCall" and x.get("op") in ("=", "+=", "-=", "*=", "/=", "<<", ">>"):
                for a in x["a"]:
                    for b in x["a"]:
                        add(L.fn.root(a), b)
            elif k == "RangeFor" and isinstance(x.get("v"), dict):
                add(("v", x["v"].get("id")), x["r"])
            elif k in ("Call", "MCall", "Construct"):
                ch = {}
                L.call(x, lambda r, d=None: ch.__setitem__(r, None) if r is not None else None)
                if k == "MCall" and not (x.get("fn") or {}).get("const"):
                    r = L.fn.root(x.get("o"))
                    if r is not None:
                        ch[r] = None
                for r in ch:
                    add(r, x)
            if k in ("If", "While", "For", "Do", "Switch", "Cond") and isinstance(x.get("c"), dict):
                for r in L.changes({"k": "x", "b": [y for y in kids(x) if y is not x.get("c")]}):
                    add(r, x["c"])
        return dep

    def sources(self, n, R, local, dep):
        """Places of the enclosing scope that the places in R are computed from in the loop."""
        out, todo, seen = set(), list(R), set()
        while todo:
            r = todo.pop()
            if r in seen:
                continue
            seen.add(r)
            if r not in local:
                out.add(r)
                continue
            d = dep.get(r, set())
            if d is None:
                return None
            todo += list(d)
        return out

    def sizeof(self, e):
        e = strip(e)
        if isinstance(e, dict) and e.get("k") == "MCall" and (e.get("fn") or {}).get("q", "").split("::")[-1] in ("size", "length"):
            return text(e.get("o"))
        return None

    def grown(self, path, s, n):
        """The array gets an element on this path: it is only ever appended to, unconditionally."""
        b = n.get("b") or {}
        stmts = b["b"] if b.get("k") == "Block" else [b]
        app = False
        for x in walk(b):
            if x.get("k") == "MCall" and text(x.get("o")) == s:
                m = (x.get("fn") or {}).get("q", "").split("::")[-1]
                if m in SHRINK:
                    return False
        for x in stmts:
            if x.get("k") == "Expr" and strip(x["e"]).get("k") == "MCall" and text(strip(x["e"]).get("o")) == s and (strip(x["e"]).get("fn") or {}).get("q", "").split("::")[-1] in GROW:
                app = True
            if any(y.get("k") in ("Continue",) for y in walk(x)) and not app:
                return False
        return app

    def additive(self, m, x):
        if m.get("op") in ("+=", "-="):
            return True
        y = strip(m["y"])
        return m.get("op") == "=" and isinstance(y, dict) and y.get("k") == "Bin" and y.get("op") in ("+", "-") and (text(y["x"]) == text(x) or y["op"] == "+" and text(y["y"]) == text(x))

    def bounded(self, n, x, outer):
        """The number starts from a constant and goes to a constant or a count of steps."""
        r = self.L.fn.root(x)
        starts = []
        for m in walk(self.f.body):
            if m.get("k") == "Decl":
                starts += [v["init"] for v in m.get("v", []) if ("v", v["id"]) == r and v.get("init")]
            elif m.get("k") == "Assign" and m.get("op") == "=" and self.L.fn.root(m["x"]) == r and not self.additive(m, x):
                starts.append(m["y"])
        return bool(starts) and all(const(s) is not None for s in starts) and x.get("k") == "Ref"

    def eof(self, c):
        c = strip(c)
        neg = False
        while isinstance(c, dict) and c.get("k") == "Un" and c.get("op") == "!":
            neg = not neg
            c = strip(c["e"])
        return neg and isinstance(c, dict) and c.get("k") == "MCall" and (c.get("fn") or {}).get("q", "").split("::")[-1] == "eof"

    def unread(self, n, c, leave):
        """Reading may fail before the end, and nothing in the loop notices."""
        c = strip(c)
        while c.get("k") == "Un":
            c = strip(c["e"])
        r = self.L.fn.root(c.get("o"))
        if r is None or any(r in cc[2] for x in leave for cc in x.conds):
            return False
        for x in walk(n.get("b") or {}):
            if x.get("k") == "OpCall" and x.get("op") == ">>" and self.L.fn.root(x) == r and len(x["a"]) > 1 and (is_int(tname(x["a"][1])) or is_float(tname(x["a"][1]))):
                return True
        for x in walk(self.f.body):
            if x is n:
                return True
            if x.get("k") in ("If", "While") and x is not n and not any(y is n for y in walk(x)) and isinstance(x.get("c"), dict) and r in (self.L.reads(x["c"]) or ()):
                return False
        return True

    def nonempty(self, n, s):
        """The size of the array is examined somewhere before or around the loop."""
        def mentions(e):
            for x in walk(e):
                if x.get("k") == "MCall" and (x.get("fn") or {}).get("q", "").split("::")[-1] in ("size", "length", "empty") and text(x.get("o")) == s:
                    return True
            return False
        for x in walk(self.f.body):
            if x is n:
                break
            if x.get("k") in ("If", "Cond", "While") and mentions(x["c"]):
                return True
            if x.get("k") == "Decl":
                for v in x.get("v", []):
                    if str(v["id"]) == s and v.get("init") and [a for a in walk(v["init"]) if a.get("k") == "Construct" and len(a.get("a", [])) >= 1]:
                        return True
            if x.get("k") == "MCall" and text(x.get("o")) == s and (x.get("fn") or {}).get("q", "").split("::")[-1] in ("push_back", "resize"):
                return True
        return False


# ---- recursion
def must_calls(L, n):
    """Own functions that are called on every way through a statement that goes on or leaves normally: (set, ends)."""
    if n is None:
        return frozenset(), False
    k = n.get("k")

    def inexpr(e):
        out = set()
        todo = [e]
        while todo:
            x = todo.pop()
            if not isinstance(x, dict):
                continue
            kk = x.get("k")
            if kk == "Lambda":
                continue
            if kk == "Bin" and x.get("op") in ("&&", "||"):
                todo.append(x["x"])
                continue
            if kk == "Cond":
                todo.append(x["c"])
                continue
            if kk in ("Call", "MCall"):
                ts = L.p.targets(x.get("fn"))
                if len(ts) == 1 and not (x.get("fn") or {}).get("virt"):
                    out.add(ts[0].m)
            todo += list(kids(x))
        return frozenset(out)
    if k == "Block":
        acc = frozenset()
        for x in n["b"]:
            s, ends = must_calls(L, x)
            acc |= s
            if ends:
                return acc, True
        return acc, False
    if k == "If":
        c, _ = inexpr(n["c"]), None
        a, ea = must_calls(L, n["x"])
        b, eb = must_calls(L, n.get("y"))
        if ea and eb:
            return c | (a & b), True
        if ea or eb:
            # one branch returns: what follows is not always reached
            return c | (a & b), "maybe" if not (a & b) else False
        return c | (a & b), False
    if k in ("For", "While", "RangeFor"):
        return (inexpr(n["c"]) if isinstance(n.get("c"), dict) and k != "RangeFor" else frozenset()), ("maybe" if any(x.get("k") in ("Return", "Throw") for x in walk(n)) else False)
    if k == "Do":
        return must_calls(L, n.get("b"))
    if k == "Return":
        return (inexpr(n["e"]) if n.get("e") else frozenset()), True
    if k in ("Throw",):
        return (inexpr(n["e"]) if n.get("e") else frozenset()), True
    if k == "Decl":
        acc = frozenset()
        for v in n.get("v", []):
            if v.get("init"):
                acc |= inexpr(v["init"])
        return acc, False
    if k == "Expr":
        if L.stops(strip(n["e"])):
            return frozenset(), True
        return inexpr(n["e"]), strip(n["e"]).get("k") == "Throw"
    if k == "OMP":
        return must_calls(L, n.get("b"))
    if k in ("Try", "Switch"):
        return frozenset(), ("maybe" if any(x.get("k") in ("Return", "Throw") for x in walk(n)) else False)
    return frozenset(), False


def recursion(p, funcs, noret, report, stats):
    must = {}
    for f in funcs:
        L = Loops(p, f, noret)
        s, ends = must_calls(L, f.body)
        must[f.m] = s
    for f in funcs:
        seen, todo = set(), list(must[f.m])
        while todo:
            m = todo.pop()
            if m in seen:
                continue
            seen.add(m)
            todo += list(must.get(m, ()))
        if f.m in seen:
            report(f, f.line, "recursion", "the function always calls itself again")
            continue
        # a call with the same arguments
        ids = [x.get("id") for x in f.params]
        if not ids:
            continue
        changed = None
        for n in walk(f.body):
            if n.get("k") not in ("Call", "MCall"):
                continue
            ts = p.targets(n.get("fn"))
            if len(ts) != 1 or ts[0].m != f.m:
                continue
            stats["recursive calls"] += 1
            if n.get("k") == "MCall" and not ((n.get("fn") or {}).get("const") and isinstance(strip(n.get("o")), dict) and strip(n["o"]).get("k") == "This"):
                continue
            if len(n.get("a", [])) != len(ids):
                continue
            if changed is None:
                L = Loops(p, f, noret)
                changed = L.changes(f.body)
            if all(strip(a).get("k") == "Ref" and strip(a).get("id") == i and ("v", i) not in changed for a, i in zip(n["a"], ids)):
                report(f, n.get("l"), "recursion", "the function calls itself with the arguments it was given")


def noreturns(p, funcs):
    out = set()
    for _ in range(3):
        n0 = len(out)
        for f in funcs:
            if f.m in out or f.body is None:
                continue
            b = f.body["b"] if f.body.get("k") == "Block" else [f.body]
            L = Loops.__new__(Loops)
            L.p, L.noret = p, out
            if b and b[-1].get("k") == "Expr" and (strip(b[-1]["e"]).get("k") == "Throw" or L.stops(strip(b[-1]["e"]))) and not any(x.get("k") == "Return" for x in walk(f.body)):
                out.add(f.m)
        if len(out) == n0:
            break
    return out


def library(p):
    return [f for f in p.functions() if ir.rel(f.file).startswith(("src/api", "include/")) or f.file.startswith(ir.build.VERIF)]


def client(p):
    return [f for f in p.functions() if ir.rel(f.file).startswith("src/client") and "/Testing/" not in f.file and "/devel/" not in f.file]


def analyse(p, funcs, report, stats):
    funcs = [f for f in funcs if f.body is not None]
    noret = noreturns(p, funcs)
    R = Rule(p, noret, report, stats)
    for f in funcs:
        stats["functions"] += 1
        R.function(f)
    recursion(p, funcs, noret, report, stats)


def selftest():
    p = ir.samples("ends")
    got = set()
    fs = [f for f in p.functions() if f.file.startswith(ir.build.VERIF)]
    analyse(p, fs, lambda f, line, rule, textx: got.add(f.name), Counter())
    want = {f.name for f in fs if f.name.startswith("bad_")}
    if got != want:
        raise ir.AnalysisBroken("self-test of the rules on loops: missed %s, wrongly reported %s" % (sorted(want - got), sorted(got - want)))
    return len(want), len([f for f in fs if f.name.startswith("ok_")])


def check(pid, res, tier):
    nbad, nok = selftest()
    p = ir.load()
    stats = Counter()
    seen = Counter()

    def report(f, line, rule, textx):
        k = "%s|%s" % (rule, f.sig)
        seen[k] += 1
        res.add(rule, f.file, line, f.q, textx, k + ("" if seen[k] == 1 else "#%d" % seen[k]))
    analyse(p, library(p) + client(p), report, stats)
    res.coverage.update(dict(stats, selftest_bad=nbad, selftest_ok=nok))
    res.floor("functions", stats["functions"], 500)
    res.floor("loops", stats["loops"], 500)
    res.explanation = ("Every loop of the library and the client: the paths once around it with what they change and what decided them. A feasible path, or cycle of paths that only set states, that changes nothing its "
                       "conditions depend on is a violation; so are counters that move away from their limit or always satisfy it, limits that grow along, real numbers brought into a range in steps, "
                       "sizes that wrap around, counters restarted by an inner loop, and recursion on every way or with unchanged arguments.")
    res.assumptions = ["a path that changes something its conditions depend on makes progress (no measure is proved to decrease)", "conditions on variables declared inside the loop are not followed",
                       "functions of other libraries return"]

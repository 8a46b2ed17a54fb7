"""C17: missing values never enter a calculation.

A forward analysis of the command-line program follows values that may be missing (-999): elements of fields, altitudes and
land fractions of a file, results of functions that may return a missing value. A test with Util::isValid clears a value on
the paths where it holds. A value that may be missing must not be an operand of arithmetic, of an ordered comparison or of a
mathematical function. Functions get summaries: which parameters they calculate with unguarded, and what they return."""
from collections import Counter
from .. import ir
from ..ir import walk
from .state import program

M = "M"
P = "P"         # a parameter of a parameter file
U = "U"         # an option that was not given
L = "L"         # missing because the program wrote the missing value there itself
MISSING = {M, L, P, U}
MATH = {"exp", "log", "log10", "sqrt", "pow", "fabs", "abs", "sin", "cos", "tan", "asin", "acos", "atan", "atan2", "floor", "ceil", "round", "fmin", "fmax", "fmod", "tanh", "cosh", "sinh", "hypot",
        "expf", "logf", "sqrtf", "powf", "fabsf", "trunc", "cbrt", "expm1", "log1p"}
SOURCES = {"getElevs", "getLandFractions", "elev"}
# the members of the ensemble that have a missing value are left out before the fields are used
TRUSTED = {"CalibratorOi"}
EMPTY = frozenset()


def strip(e):
    while isinstance(e, dict) and e.get("k") in ("Cast", "DefaultArg") and isinstance(e.get("e"), dict):
        e = e["e"]
    return e


def base(t):
    return ir.noalloc(t or "").replace("const ", "").replace("&", "").strip()


FLT = {"float", "double"}
INT = {"int", "unsigned int", "long", "unsigned long", "size_t", "short", "long long", "unsigned long long", "bool", "char"}


def last(q):
    return (q or "").split("::")[-1]


def isisvalid(fn):
    return last(fn.get("q")) in ("isValid", "is_valid") and len(fn.get("pt", [])) == 1


def key(e):
    """the place an expression designates, as text, with the variables it depends on; None if it is not a place"""
    e = strip(e)
    if not isinstance(e, dict):
        return None
    k = e.get("k")
    if k == "Ref":
        if e.get("rk") in ("local", "param"):
            return "v%s" % e["id"], frozenset([e["id"]])
        return "g" + str(e.get("n")), EMPTY
    if k == "This":
        return "this", EMPTY
    if k in ("Int", "Float", "Bool", "Str"):
        return str(e.get("v")), EMPTY
    if k == "Member":
        b = key(e.get("b"))
        return b and (b[0] + "." + e["n"], b[1])
    if k == "Index":
        return join("[", key(e["b"]), key(e["i"]))
    if k == "Un" and e.get("op") in ("*", "&", "-"):
        b = key(e["e"])
        return b and (b[0] if e["op"] != "-" else "-" + b[0], b[1])
    if k == "Bin" and e.get("op") in ("+", "-", "*", "/", "%"):
        return join(e["op"], key(e["x"]), key(e["y"]))
    if k == "OpCall" and e.get("op") in ("()", "[]", "*", "->"):
        if e["op"] in ("*", "->") and len(e["a"]) == 1:
            return key(e["a"][0])
        return join(e["op"], *[key(x) for x in e["a"]])
    if k == "MCall":
        fn = e.get("fn") or {}
        if fn.get("const") or last(fn.get("q")) in ("size", "at", "begin", "front", "back"):
            k = join(",", key(e.get("o")), *[key(x) for x in e.get("a", [])])
            return k and (last(fn.get("q")) + k[0], k[1])
    if k == "Construct" and len(e.get("a", [])) == 1:
        return key(e["a"][0])
    return None


def join(op, *ks):
    if any(k is None for k in ks):
        return None
    return "(" + op.join(k[0] for k in ks) + ")", frozenset().union(*[k[1] for k in ks])


class Summary:
    def __init__(self):
        self.needs = {}         # parameter index -> line where it is calculated with
        self.ret = EMPTY
        self.into = {}          # parameter index -> what it puts into that array


class State:
    """t: what places may be; alias: the condition a truth value stands for; eq: the place a variable is a copy of;
    cause: parameters of which at least one is missing here"""
    __slots__ = ("t", "alias", "eq", "cause", "facts", "full")

    def __init__(self, t=None, alias=None, eq=None, cause=EMPTY, facts=None, full=None):
        self.facts = facts if facts is not None else {}      # clauses over conditions that hold here
        self.full = full if full is not None else set()      # arrays all of whose elements are valid
        self.t = t if t is not None else {}
        self.alias = alias if alias is not None else {}
        self.eq = eq if eq is not None else {}
        self.cause = cause

    def copy(self):
        return State(dict(self.t), dict(self.alias), dict(self.eq), self.cause, dict(self.facts), set(self.full))

    def assume(self, clause, vs):
        """the state in which one of the literals holds as well; None if none can"""
        known = {next(iter(c)) for c in self.facts if len(c) == 1}
        c = frozenset(l for l in clause if (l[0], not l[1]) not in known)
        if not c:
            return None
        s = self.copy()
        s.facts[c] = vs
        if len(c) == 1:
            l = next(iter(c))
            for d in list(s.facts):
                if (l[0], not l[1]) in d:
                    w = s.facts.pop(d)
                    s = s.assume(d - {(l[0], not l[1])}, w)
                    if s is None:
                        return None
        return s


def merge(a, b):
    if a is None:
        return b
    if b is None:
        return a
    t = {}
    for k in set(a.t) & set(b.t):
        t[k] = (a.t[k][0] | b.t[k][0], a.t[k][1])
    al = {k: v for k, v in a.alias.items() if k in b.alias and b.alias[k][0] is v[0]}
    eq = {k: v for k, v in a.eq.items() if b.eq.get(k) == v}
    return State(t, al, eq, a.cause | b.cause if a.cause and b.cause else EMPTY, {c: v for c, v in a.facts.items() if c in b.facts}, a.full & b.full)


def undefined(funcs):
    """members of calibrators and downscalers that are missing unless an option is given"""
    out = set()
    for f in funcs:
        if not f.is_ctor or not f.cls:
            continue
        for i in f.d.get("inits") or []:
            e = strip(i.get("e"))
            if isinstance(e, dict) and e.get("n") == "MV":
                out.add((f.cls, i.get("n")))
    return out


class Engine:
    def __init__(self, p, funcs):
        self.p = p
        self.funcs = {f.m: f for f in funcs}
        self.sums = {}
        self.busy = set()
        self.undef = undefined(funcs)
        self.out = []
        self.n = Counter()

    def summary(self, f):
        if f.m in self.sums:
            return self.sums[f.m]
        if f.m in self.busy:
            return Summary()
        self.busy.add(f.m)
        r = Run(self, f)
        r.go()
        self.busy.discard(f.m)
        self.sums[f.m] = r.sum
        return r.sum


def valid_in(c):
    """variables that are valid where c is true"""
    c = strip(c)
    if not isinstance(c, dict):
        return set()
    if c.get("k") == "Bin" and c["op"] == "&&":
        return valid_in(c["x"]) | valid_in(c["y"])
    if c.get("k") in ("Call", "MCall") and isisvalid(c.get("fn") or {}) and c.get("a"):
        x = strip(c["a"][0])
        if x.get("k") == "Ref":
            return {x["id"]}
    return set()


def companions(body):
    """variables that are given the missing value, and other values, only together, in the same lists of statements; a variable
    that is known to be valid stays valid with another value"""
    seen, direct, all_ = {}, Counter(), Counter()

    def note(i, where, e, known):
        e = strip(e)
        mv = isinstance(e, dict) and (e.get("n") == "MV")
        seen.setdefault(i, {})[(where, mv)] = known

    def go(n, where, known):
        if isinstance(n, list):
            for x in n:
                go(x, where, known)
            return
        if not isinstance(n, dict):
            return
        k = n.get("k")
        if k == "Assign" and strip(n["x"]).get("k") == "Ref":
            all_[strip(n["x"]).get("id")] += 1
        if k == "Block":
            for x in n.get("b", []):
                go(x, id(n), known)
            return
        if k == "If":
            go(n.get("init"), where, known)
            go(n["c"], where, known)
            go(n["x"], id(n), known | valid_in(n["c"]))
            go(n.get("y"), id(n) + 1, known)
            return
        if k == "Decl":
            for v in n["v"]:
                if v.get("init") is not None and base(v["t"]) in FLT | INT:
                    note(v["id"], where, v["init"], known)
        elif k == "Expr":
            e = strip(n["e"])
            if e.get("k") == "Assign" and strip(e["x"]).get("k") == "Ref":
                direct[strip(e["x"])["id"]] += 1
                note(strip(e["x"])["id"], where, e["y"] if e["op"] == "=" else None, known)
        for x in n.values():
            if isinstance(x, (dict, list)):
                go(x, where, known)

    go(body, 0, frozenset())
    out = {}
    ok = [i for i, g in seen.items() if direct[i] == all_[i] and any(mv for w, mv in g)]
    for i in ok:
        for j in ok:
            a, b = seen[i], seen[j]
            if i != j and all(not w[1] and (i in k or j in k) for x, y in ((a, b), (b, a)) for w, k in x.items() if w not in y):
                out.setdefault(i, []).append(j)
    return out


def element(e):
    """the array of which e, the argument of a test of validity, is an element picked by a variable"""
    e = strip(e)
    if isinstance(e, dict) and e.get("k") == "OpCall" and e.get("op") == "[]" and strip(e["a"][1]).get("k") == "Ref":
        b = key(e["a"][0])
        return b and b[0]
    return None


def flags(body):
    """truth values that are true only if every element of some arrays is valid: they start as true, and become false where an
    element is not valid"""
    out, start, wrong = {}, set(), set()

    def tested(c):
        c = strip(c)
        if isinstance(c, dict) and c.get("k") == "Un" and c.get("op") == "!":
            c = strip(c["e"])
            if isinstance(c, dict) and c.get("k") in ("Call", "MCall") and isisvalid(c.get("fn") or {}):
                return element(c["a"][0])
        return None

    for n in walk({"b": [body]}):
        if n.get("k") == "Decl":
            for v in n["v"]:
                e = strip(v.get("init"))
                if base(v["t"]) == "bool" and isinstance(e, dict) and e.get("k") == "Bool" and e.get("v"):
                    start.add(v["id"])
        if n.get("k") == "If" and tested(n["c"]):
            for m in walk({"b": [n["x"]]}):
                if m.get("k") == "Assign" and strip(m["x"]).get("k") == "Ref" and strip(m["y"]).get("k") == "Bool" and not strip(m["y"]).get("v"):
                    out.setdefault(strip(m["x"])["id"], set()).add(tested(n["c"]))
        if n.get("k") == "Assign" and strip(n["x"]).get("k") == "Ref" and base(n["x"].get("t")) == "bool":
            i, y = strip(n["x"])["id"], strip(n["y"])
            if y.get("k") == "Bool" and not y.get("v"):
                continue
            if y.get("k") == "Bin" and y["op"] == "&&":
                l, c = strip(y["x"]), strip(y["y"])
                if c.get("k") == "Ref" and c.get("id") == i:
                    l, c = c, l
                if l.get("k") == "Ref" and l.get("id") == i:
                    if c.get("k") in ("Call", "MCall") and isisvalid(c.get("fn") or {}) and element(c["a"][0]):
                        out.setdefault(i, set()).add(element(c["a"][0]))
                    continue
            wrong.add(i)
    return {i: a for i, a in out.items() if i in start and i not in wrong}


class Run:
    def __init__(self, g, f):
        self.g, self.f = g, f
        self.sum = Summary()
        self.arr = {}           # local arrays: what their elements may be
        self.found = {}
        self.put = {}
        self.loops = []
        # sets of parameters that were made from values here
        self.made = {v["id"] for n in walk({"b": [f.body]} if f.body is not None else {}) if n.get("k") == "Decl" for v in n["v"] if base(v["t"]) == "Parameters"
                     and any(m.get("k") == "Construct" and base(m.get("t")) == "Parameters" and m.get("a") and base(m["a"][0].get("t")) not in ("Parameters",) for m in walk({"b": [v.get("init") or {}]}))}
        self.flags = flags(f.body) if f.body is not None else {}
        self.together = companions(f.body) if f.body is not None else {}
        self.pid = {prm.get("id"): i for i, prm in enumerate(f.params)}
        self.ptype = {i: prm["t"] for i, prm in enumerate(f.params)}

    def go(self):
        if self.f.body is None:
            return
        for i in range(3):
            self.found = {}
            before = {k: v for k, v in self.arr.items()}
            self.stmt(self.f.body, State())
            if before == self.arr and i:
                break
        for i, k in self.pid.items():
            if self.arr.get(i) and "&" in self.ptype[k] and not self.ptype[k].startswith("const "):
                self.sum.into[k] = self.arr[i] - {L}      # what it is filled with at first is a placeholder
        for (line, what), text in self.found.items():
            self.g.out.append((self.f, line, what, text))

    # ---- reporting
    def use(self, e, t, line, how):
        """the value of e takes part in a calculation"""
        self.g.n["operands"] += 1
        for o in t:
            if o in MISSING and not (o == P and how == "comparison") and not (o == U and how not in ("arithmetic", "a mathematical function")):
                self.found.setdefault((line, self.name(e)), how)
            elif isinstance(o, int) and not (how == "comparison" and base(self.ptype.get(o)) == "Parameters"):
                self.sum.needs.setdefault(o, line)

    def name(self, e):
        e = strip(e)
        k = e.get("k")
        if k in ("Ref", "Member"):
            return e.get("n") or "?"
        if k == "OpCall":
            return self.name(e["a"][0])
        if k == "Index":
            return self.name(e["b"])
        if k in ("MCall", "Call"):
            return last((e.get("fn") or {}).get("q")) + "()"
        if k == "Un":
            return self.name(e["e"])
        return "value"

    # ---- expressions
    def isf(self, e):
        return base((e or {}).get("t")) in FLT

    def ev(self, e, st):
        """what the value of e may be; calculations in it are checked"""
        if not isinstance(e, dict):
            return EMPTY
        k = e.get("k")
        if k in ("Cast", "DefaultArg", "StdInit"):
            x = e.get("e")
            return self.ev(x, st) if isinstance(x, dict) else EMPTY
        if k == "Ref":
            if e.get("rk") in ("local", "param"):
                i = "v%s" % e["id"]
                if i in st.t:
                    return st.t[i][0]
                if e["id"] in self.pid and base(e.get("t")) in FLT:
                    return frozenset([self.pid[e["id"]]])
                return EMPTY
            if e.get("n") == "MV" or last(e.get("q")) == "MV":
                return frozenset([L])
            return EMPTY
        if k in ("Index",) or k == "OpCall" and e.get("op") in ("[]", "()") or k == "MCall":
            return self.place(e, st)
        if k == "Member":
            if isinstance(e.get("b"), dict):
                self.ev(e["b"], st)
            kk = key(e)
            if kk and kk[0] in st.t:
                return st.t[kk[0]][0]
            if e.get("n") in ("first", "second") and base((e.get("b") or {}).get("t")).startswith("std::pair<float, std::vector<float"):
                return frozenset([M])
            if isinstance(e.get("b"), dict) and strip(e["b"]).get("k") == "This" and self.isf(e) and (self.f.cls, e.get("n")) in self.g.undef:
                return frozenset([U])
            if e.get("n") == "MV":
                return frozenset([L])
            return EMPTY
        if k == "Un":
            x = e["e"]
            if e["op"] == "!":
                self.ev(x, st)
                return EMPTY
            t = self.ev(x, st)
            if e["op"] in ("-", "++", "--") and self.isf(x):
                self.use(x, t, e.get("l", 0), "arithmetic")
                return EMPTY
            return t if e["op"] in ("*", "+", "&") else EMPTY
        if k == "Bin":
            return self.binary(e, st)
        if k == "Assign":
            return self.assign(e, st)
        if k == "Cond":
            self.ev(e["c"], st)
            a, b = self.refine(e["c"], st, True), self.refine(e["c"], st, False)
            x = self.ev(e["x"], a) if a is not None else EMPTY
            y = self.ev(e["y"], b) if b is not None else EMPTY
            return x | y
        if k == "OpCall":
            op, a = e.get("op"), e.get("a", [])
            if op == "=" and len(a) == 2:
                return self.assign({"k": "Assign", "op": "=", "x": a[0], "y": a[1], "l": e.get("l", 0), "t": e.get("t")}, st)
            ts = [self.ev(x, st) for x in a]
            if op in ("*", "->") and len(a) == 1:
                return ts[0]
            return EMPTY
        if k == "Call":
            return self.call(e, st, None, e.get("a", []))
        if k == "Construct":
            fn = e.get("fn") or {}
            t = base(e.get("t"))
            ts = [self.ev(x, st) for x in e.get("a", [])]
            if t.startswith("std::vector<") and len(ts) >= 2:
                return ts[1]
            if t.startswith("std::vector<") and len(ts) == 1 or len(ts) == 1 and t == "Field":
                return ts[0] | self.contents(e["a"][0], st) if base((e["a"][0]).get("t")) == t else EMPTY
            return EMPTY
        if k == "Lambda":
            return EMPTY
        for x in ir.kids(e):
            self.ev(x, st)
        return EMPTY

    def place(self, e, st):
        kk = key(e)
        k = e["k"]
        line = e.get("l", 0)
        if k == "Index":
            b = self.contents(e["b"], st)
            self.ev(e["i"], st)
        elif k == "OpCall":
            a = e["a"]
            for x in a[1:]:
                self.ev(x, st)
            if e["op"] == "()":
                o = base(a[0].get("t"))
                b = frozenset([M]) if o == "Field" and self.f.cls not in TRUSTED else EMPTY
                if o == "Field":
                    self.g.n["loads"] += 1
            else:
                b = self.contents(a[0], st)
                if base(a[0].get("t")) == "Parameters":
                    pk = key(a[0])
                    b = EMPTY if pk and pk[0] in st.full else self.param(a[0])
        else:
            fn = e.get("fn") or {}
            nm = last(fn.get("q"))
            cls = fn.get("cls") or ""
            if isisvalid(fn):
                for x in e.get("a", []):
                    self.ev(x, st)
                return EMPTY
            if cls.startswith("std::"):
                ts = [self.ev(x, st) for x in e.get("a", [])]
                if nm in ("push_back", "emplace_back") and ts:
                    r, v = self.root(e.get("o")), key(e["a"][0])
                    if r is not None and v is not None and "Field" in base(e["a"][0].get("t")):
                        self.put.setdefault(r.get("id"), []).append(v)
                if nm in ("push_back", "resize", "assign") and ts:
                    self.store(e.get("o"), ts[-1] if len(ts) > 1 or nm == "push_back" else EMPTY, st)
                    return EMPTY
                if nm in ("at", "front", "back"):
                    b = self.contents(e.get("o"), st)
                else:
                    self.contents(e.get("o"), st)
                    return EMPTY
            else:
                b = self.call(e, st, e.get("o"), e.get("a", []))
                if nm in SOURCES:
                    b = frozenset([M])
        if kk and kk[0] in st.t:
            return st.t[kk[0]][0]
        if k == "OpCall" and e["op"] == "()" and b:
            for a in self.aliases(e):
                if a and a[0] in st.t and not st.t[a[0]][0]:
                    return EMPTY
        return b

    def aliases(self, e):
        """the place of an element of a field in an array of fields, when the field was put into the array under its own name"""
        o = strip(e["a"][0])
        if o.get("k") == "OpCall" and o.get("op") == "*":
            o = strip(o["a"][0])
        if o.get("k") == "OpCall" and o.get("op") == "[]" and strip(o["a"][1]).get("k") == "Int":
            r = strip(o["a"][0])
            for f in self.put.get(r.get("id"), ()):
                yield join("()", f, *[key(x) for x in e["a"][1:]])

    def param(self, e):
        """the parameters of a parameter file; those of an argument are the caller's"""
        r = self.root(e)
        if r is not None and r.get("id") in self.pid:
            return frozenset([self.pid[r["id"]]])
        return EMPTY if r is not None and r.get("id") in self.made else frozenset([P])

    def contents(self, e, st):
        """what an element of the array e may be"""
        e = strip(e)
        if st.full:
            kk = key(e)
            if kk and kk[0] in st.full:
                return EMPTY
        k = e.get("k") if isinstance(e, dict) else None
        if k == "Ref":
            if e.get("rk") == "local" and e["id"] in self.arr:
                return self.arr[e["id"]]
            if e.get("rk") == "param" and e["id"] in self.pid:
                i = self.pid[e["id"]]
                r = self.arr.get(e["id"], EMPTY)
                return r | frozenset([i]) if base(self.ptype[i]).startswith("std::vector") and "int" not in base(self.ptype[i]) else r
            return self.arr.get(e.get("id"), EMPTY)
        if k in ("Index", "OpCall", "MCall", "Call", "Un", "Cond", "Construct"):
            return self.ev(e, st)
        if k == "Member":
            return self.ev(e, st) if e.get("n") == "second" else EMPTY
        return EMPTY

    def root(self, e):
        e = strip(e)
        while isinstance(e, dict):
            k = e.get("k")
            if k == "Ref":
                return e
            if k == "Index":
                e = strip(e["b"])
            elif k == "OpCall" and e.get("op") in ("[]", "()", "*", "->"):
                e = strip(e["a"][0])
            elif k == "Member":
                e = strip(e.get("b"))
            elif k == "Un":
                e = strip(e["e"])
            elif k == "MCall":
                e = strip(e.get("o"))
            else:
                return None
        return None

    def store(self, e, t, st):
        """something is put into the array e"""
        r = self.root(e)
        if r is not None and r.get("rk") in ("local", "param"):
            if t - self.arr.get(r["id"], EMPTY):
                self.arr[r["id"]] = self.arr.get(r["id"], EMPTY) | t
            self.kill(r["id"], st, keep=None)

    def kill(self, i, st, keep):
        st.full = {k for k in st.full if k != "v%s" % i and not k.startswith("(v%s[" % i)}
        for k in [k for k, v in st.t.items() if i in v[1] and k != keep]:
            del st.t[k]
        for k in [k for k, v in st.facts.items() if i in v]:
            del st.facts[k]
        for k in [k for k, v in st.alias.items() if i in v[1] or k == i]:
            del st.alias[k]
        for k in [k for k, v in st.eq.items() if k == i or i in v[1]]:
            del st.eq[k]

    def binary(self, e, st):
        op = e["op"]
        if op in ("&&", "||"):
            self.ev(e["x"], st)
            s = self.refine(e["x"], st, op == "&&")
            if s is not None:
                self.ev(e["y"], s)
            return EMPTY
        x, y = self.ev(e["x"], st), self.ev(e["y"], st)
        if op in ("+", "-", "*", "/", "<", "<=", ">", ">=", "%") and (self.isf(e["x"]) or self.isf(e["y"])):
            if self.harmless(e) is not None:
                return EMPTY
            if op in ("<", "<=", ">", ">=") and (self.ismv(e["x"]) or self.ismv(e["y"])):
                return EMPTY
            how = "arithmetic" if op in "+-*/%" else "comparison"
            for z, t in ((e["x"], x), (e["y"], y)):
                if self.isf(strip(z)) or self.isf(z):
                    self.use(z, t, e.get("l", 0), how)
        return EMPTY

    def ismv(self, e):
        e = strip(e)
        return isinstance(e, dict) and (e.get("n") == "MV" or e.get("k") == "Un" and e.get("op") == "-" and str(strip(e["e"]).get("v")).startswith("999"))

    def harmless(self, e):
        """the operand x of x > c with c >= 0: a missing value, which is negative, never satisfies it"""
        op, x, y = e["op"], e["x"], e["y"]
        if op in ("<", "<="):
            op, x, y = {"<": ">", "<=": ">="}[op], y, x
        y = strip(y)
        if op in (">", ">=") and isinstance(y, dict) and y.get("k") in ("Int", "Float"):
            try:
                v = float(y["v"])
            except (TypeError, ValueError):
                return None
            if v > 0 or v == 0 and op == ">":
                return x
        return None

    def assign(self, e, st):
        y = self.ev(e["y"], st)
        x = strip(e["x"])
        op = e.get("op", "=")
        line = e.get("l", 0)
        if op != "=" and (self.isf(x)):
            if op in ("+=", "-=", "*=", "/="):
                self.use(x, self.ev(x, st), line, "arithmetic")
                if self.isf(e["y"]) or self.isf(strip(e["y"])):
                    self.use(e["y"], y, line, "arithmetic")
            y = EMPTY
        kk = key(x)
        r = self.root(x)
        if x.get("k") == "Ref" and x.get("rk") in ("local", "param"):
            i = x["id"]
            self.kill(i, st, None)
            if self.isf(x):
                st.t["v%s" % i] = (y, frozenset([i]))
                self.copied(i, e["y"], st, op)
            elif base(x.get("t")).startswith("std::vector"):
                y = y | self.contents(e["y"], st)
                self.arr[i] = self.arr.get(i, EMPTY) | y
            elif base(x.get("t")) == "bool":
                self.remember(i, e["y"], st)
            return y
        if x.get("k") not in ("Ref", "Member"):
            # sub-expressions of the place
            for z in ir.kids(x):
                if z.get("k") not in ("Ref",):
                    self.ev(z, st)
        if r is not None and r.get("rk") in ("local", "param") and (self.isf(x) or base(x.get("t")).startswith("std::vector")):
            if base(r.get("t")).startswith("std::vector"):
                self.arr[r["id"]] = self.arr.get(r["id"], EMPTY) | y
            for k in [k for k, v in st.t.items() if r["id"] in v[1] and k != "v%s" % r["id"]]:
                if kk is None or k != kk[0]:
                    # another element of the same array: only if it may be the same one
                    if not (kk and st.t[k][0] <= y):
                        del st.t[k]
        if kk is not None and self.isf(x):
            st.t[kk[0]] = (y, kk[1])
        return y

    def copied(self, i, e, st, op="="):
        k = key(e) if op == "=" and strip(e).get("k") not in ("Int", "Float") else None
        if k is not None and i not in k[1] and k[1]:
            st.eq[i] = k

    def remember(self, i, e, st):
        vs = frozenset(m["id"] for m in walk({"b": [e]}) if m.get("k") == "Ref" and m.get("rk") in ("local", "param"))
        if i not in vs:
            st.alias[i] = (e, vs)

    def call(self, e, st, o, a):
        fn = e.get("fn") or {}
        q = fn.get("q", "")
        nm = last(q)
        line = e.get("l", 0)
        if o is not None:
            self.ev(o, st)
        ts = [self.ev(x, st) for x in a]
        if isisvalid(fn):
            return EMPTY
        if nm in MATH and q in (nm, "std::" + nm):
            for x, t in zip(a, ts):
                self.use(x, t, line, "a mathematical function")
            return EMPTY
        if nm in ("min", "max") and q.startswith("std::"):
            for x, t in zip(a, ts):
                if self.isf(strip(x)):
                    self.use(x, t, line, "comparison")
            return EMPTY
        ret = EMPTY
        for g in self.g.p.targets(fn, True):
            if g.m not in self.g.funcs or g.body is None:
                continue
            s = self.g.summary(g)
            self.g.n["calls"] += 1
            for i, l in s.needs.items():
                if i < len(ts) and not self.ismv(a[i]):
                    t = ts[i] | (self.contents(a[i], st) if base(a[i].get("t")).startswith("std::vector") else EMPTY)
                    if base(a[i].get("t")) == "Parameters":
                        pk = key(a[i])
                        t = EMPTY if pk and pk[0] in st.full else self.param(a[i])
                    self.use(a[i], t, line, "what %s calculates" % g.name)
            for i, tok in s.into.items():
                r = self.root(a[i]) if i < len(a) else None
                if r is not None and r.get("rk") in ("local", "param"):
                    y = frozenset().union(*[{M} if x in MISSING else ts[x] | self.contents(a[x], st) if isinstance(x, int) and x < len(ts) and x != i else EMPTY for x in tok])
                    self.arr[r["id"]] = self.arr.get(r["id"], EMPTY) | y
            for x in s.ret:
                if x in MISSING:
                    ret |= {M}
                elif isinstance(x, int) and x < len(ts):
                    ret |= ts[x] | (self.contents(a[x], st) if base(a[x].get("t")).startswith("std::vector") else EMPTY)
        # what is passed by reference may change
        for x, pt in zip(a, fn.get("pt", [])):
            if "&" in pt and "const" not in pt:
                r = self.root(x)
                if r is not None and r.get("rk") in ("local", "param"):
                    self.kill(r["id"], st, None)
                    if strip(x).get("k") == "Ref" and self.isf(strip(x)):
                        st.t["v%s" % r["id"]] = (EMPTY, frozenset([r["id"]]))
        return ret

    # ---- conditions
    def refine(self, c, st, truth, depth=0):
        """the state in which c is known to be true (or false); None if it cannot be"""
        e = strip(c)
        if not isinstance(e, dict) or st is None or depth > 8:
            return st
        k = e.get("k")
        if k == "Un" and e.get("op") == "!":
            return self.refine(e["e"], st, not truth, depth + 1)
        if k == "Bin" and e["op"] in ("&&", "||"):
            if (e["op"] == "&&") == truth:
                return self.refine(e["y"], self.refine(e["x"], st, truth, depth + 1), truth, depth + 1)
            a = self.refine(e["x"], st, truth, depth + 1)
            b = self.refine(e["y"], self.refine(e["x"], st, not truth, depth + 1), truth, depth + 1)
            m = merge(a, b)
            x, y = self.literal(e["x"]), self.literal(e["y"])
            if m is not None and x and y:
                m = m.assume(frozenset([(x[0], x[1] == truth), (y[0], y[1] == truth)]), x[2] | y[2])
            return m
        if k == "MCall" and last((e.get("fn") or {}).get("q")) == "isValid" and not e.get("a") and truth:
            kk = key(e.get("o"))
            if kk:
                st = st.copy()
                st.full.add(kk[0])
                return st
        w = self.literal(e)
        if w:
            st = st.assume(frozenset([(w[0], w[1] == truth)]), w[2])
            if st is None:
                return None
        if k in ("Call", "MCall") and isisvalid(e.get("fn") or {}) and e.get("a"):
            return self.clear(e["a"][0], st) if truth else self.missing(e["a"][0], st)
        if k == "Bin" and e["op"] in ("==", "!="):
            x, y = e["x"], e["y"]
            if self.ismv(x):
                x, y = y, x
            if self.ismv(y):
                return self.clear(x, st) if (e["op"] == "!=") == truth else st
            # equal to a number
            if strip(y).get("k") in ("Float", "Int") and (e["op"] == "==") == truth:
                return self.clear(x, st)
            if strip(y).get("k") in ("Bool",):
                return self.refine(x, st, (strip(y).get("v") in (True, 1, "true")) == ((e["op"] == "==") == truth), depth + 1)
        if k == "Bin" and e["op"] in ("<", "<=", ">", ">="):
            x = self.harmless(e)
            if x is not None and truth:
                return self.clear(x, st)
        if k == "Call" or k == "MCall" and base(e.get("t")) == "bool":
            x = self.inline(e)
            if x is not None:
                return self.refine(x, st, truth, depth + 1)
        if k == "Ref" and truth and e.get("id") in self.flags:
            st = st.copy()
            st.full |= self.flags[e["id"]]
            return st
        if k == "Ref" and e.get("id") in st.alias:
            return self.refine(st.alias[e["id"]][0], st, truth, depth + 1)
        if k == "Bool":
            return st if bool(e.get("v")) == truth else None
        # a predicate of the program that tells that its argument is valid
        return st

    def inline(self, e):
        """the condition a call of a function of the program that only returns a condition stands for"""
        fn = e.get("fn") or {}
        for g in self.g.p.targets(fn, True):
            if g.m not in self.g.funcs or g.body is None or base(g.ret) != "bool":
                return None
            b = [x for x in g.body.get("b", []) if x.get("k") != "Nop"]
            if len(b) != 1 or b[0].get("k") != "Return" or len(g.params) > len(e.get("a", [])):
                return None
            sub = {prm.get("id"): a for prm, a in zip(g.params, e["a"])}

            def put(n):
                if isinstance(n, list):
                    return [put(x) for x in n]
                if not isinstance(n, dict):
                    return n
                if n.get("k") == "Ref" and n.get("id") in sub and n.get("rk") == "param":
                    return sub[n["id"]]
                return {k: put(v) if k != "fn" else v for k, v in n.items()}
            return put(b[0].get("e"))
        return None

    def literal(self, e):
        """a condition as (text, whether it says the text holds, variables)"""
        e = strip(e)
        if isinstance(e, dict) and e.get("k") == "Bin" and e["op"] in ("==", "!="):
            x, y = key(e["x"]), key(e["y"])
            if x and y:
                return x[0] + "==" + y[0], e["op"] == "==", x[1] | y[1]
        if isinstance(e, dict) and e.get("k") in ("Call", "MCall") and isisvalid(e.get("fn") or {}) and e.get("a"):
            x = key(e["a"][0])
            if x:
                return "valid " + x[0], True, x[1]
        if isinstance(e, dict) and e.get("k") == "Un" and e.get("op") == "!":
            w = self.literal(e["e"])
            return w and (w[0], not w[1], w[2])
        return None

    def clear(self, e, st):
        kk = key(e)
        if kk is None:
            return st
        s = st.copy()
        s.t[kk[0]] = (EMPTY, kk[1])
        # copies of it, and what it is a copy of
        x = strip(e)
        if x.get("k") == "Ref":
            for i in self.together.get(x.get("id"), ()):
                v = s.t.get("v%s" % i)
                if v is not None:
                    s.t["v%s" % i] = (v[0] - {L}, v[1])
        if x.get("k") == "Ref" and x.get("id") in s.eq:
            k = s.eq[x["id"]]
            s.t[k[0]] = (EMPTY, k[1])
        for i, k in s.eq.items():
            if k[0] == kk[0]:
                s.t["v%s" % i] = (EMPTY, frozenset([i]))
        return s

    def missing(self, e, st):
        """e is missing here"""
        x = strip(e)
        if x.get("k") == "Ref" and x.get("id") in self.pid and not st.cause:
            st = st.copy()
            st.cause = frozenset([self.pid[x["id"]]])
        return st

    # ---- statements
    def stmt(self, n, st):
        if st is None or not isinstance(n, dict):
            return st
        k = n.get("k")
        if k == "Block" or k == "OMP":
            for x in (n["b"] if isinstance(n.get("b"), list) else [n.get("b")]):
                st = self.stmt(x, st)
            return st
        if k == "Decl":
            for v in n["v"]:
                i = v["id"]
                self.kill(i, st, None)
                init = v.get("init")
                t = base(v["t"])
                y = self.ev(init, st) if init is not None else EMPTY
                if t in FLT:
                    st.t["v%s" % i] = (y, frozenset([i]))
                    if init is not None:
                        self.copied(i, init, st)
                elif t.startswith("std::vector") or t in ("Ens", "Parameters"):
                    if init is not None:
                        y = y | self.contents(init, st)
                    self.arr[i] = self.arr.get(i, EMPTY) | y
                elif (t == "bool" or t in INT and base(strip(init).get("t") if isinstance(init, dict) else "") == "bool") and init is not None:
                    self.remember(i, init, st)
            return st
        if k == "Expr":
            e = strip(n["e"])
            if e.get("k") == "Cond" and any(m.get("k") == "Call" and "assert_fail" in (m.get("fn") or {}).get("q", "") for m in walk({"b": [e["y"]]})):
                self.ev(e["c"], st)
                return self.refine(e["c"], st, True)
            self.ev(n["e"], st)
            if e.get("k") == "Throw" or e.get("k") in ("Call",) and (e.get("fn") or {}).get("q") in ("Util::error", "abort", "exit"):
                return None
            return st
        if k == "Return":
            if n.get("e") is not None:
                t = self.ev(n["e"], st)
                if base(self.f.ret).startswith("std::vector"):
                    t = t | self.contents(n["e"], st)
                if t & MISSING and st.cause:
                    t = (t - MISSING) | st.cause        # missing because an argument is
                self.sum.ret = self.sum.ret | t
            return None
        if k == "If":
            if n.get("init"):
                st = self.stmt(n["init"], st)
            self.ev(n["c"], st)
            a = self.refine(n["c"], st, True)
            b = self.refine(n["c"], st, False)
            a = self.stmt(n["x"], a.copy() if a is not None else None)
            if n.get("y"):
                b = self.stmt(n["y"], b.copy() if b is not None else None)
            return merge(a, b)
        if k in ("For", "While", "Do", "RangeFor"):
            return self.loop(n, st)
        if k == "Break":
            if self.loops:
                self.loops[-1][0].append(st)
            return None
        if k == "Continue":
            for l in reversed(self.loops):
                if l[2] == "loop":
                    l[1].append(st)
                    break
            return None
        if k == "Switch":
            self.ev(n.get("c"), st)
            self.loops.append(([], [], "switch"))
            out = None
            b = n.get("b")
            cur = None
            for x in (b.get("b", []) if isinstance(b, dict) and b.get("k") == "Block" else [b]):
                if isinstance(x, dict) and x.get("k") in ("Case", "Default"):
                    cur = merge(cur, st.copy())
                    y = x.get("b") or x.get("s")
                    cur = self.stmt(y, cur)
                else:
                    cur = self.stmt(x, cur)
            brk = self.loops.pop()[0]
            out = merge(cur, st)
            for s in brk:
                out = merge(out, s)
            return out
        if k == "Try":
            a = self.stmt(n["b"], st.copy())
            for h in n.get("h", []):
                a = merge(a, self.stmt(h.get("b") if h.get("k") not in ("Block",) else h, State()))
            return a
        if k in ("Case", "Default"):
            return self.stmt(n.get("b"), st)
        if k == "Nop":
            return st
        for x in ir.kids(n):
            self.ev(x, st)
        return st

    def loop(self, n, st):
        k = n["k"]
        if k == "For" and n.get("init"):
            st = self.stmt(n["init"], st)
        if k == "RangeFor":
            self.ev(n.get("r"), st)
        # what the loop assigns is not known at its head
        head = st
        for i in range(3):
            s = head.copy()
            if k == "RangeFor":
                v = n.get("v")
                v = v["v"][0] if isinstance(v, dict) and v.get("k") == "Decl" else v
                if isinstance(v, dict) and "id" in v:
                    self.kill(v["id"], s, None)
                    t = self.contents(n.get("r"), s)
                    if base(v.get("t")) in FLT:
                        s.t["v%s" % v["id"]] = (t, frozenset([v["id"]]))
                    else:
                        self.arr[v["id"]] = self.arr.get(v["id"], EMPTY) | t
            c = n.get("c") if k != "RangeFor" else None
            if c is not None and k != "Do":
                self.ev(c, s)
            body = self.refine(c, s, True) if c is not None and k != "Do" else s
            self.loops.append(([], [], "loop"))
            e = self.stmt(n["b"], body.copy() if body is not None else None)
            brk, cont, _ = self.loops.pop()
            for x in cont:
                e = merge(e, x)
            atend = dict(e.t) if e is not None else {}
            if e is not None and k == "For" and n.get("inc"):
                self.ev(n["inc"], e)
                for m in walk({"b": [n["inc"]]}):
                    x = strip(m.get("e") or m.get("x")) if m.get("k") in ("Un", "Assign") else None
                    if isinstance(x, dict) and x.get("k") == "Ref":
                        self.kill(x["id"], e, "v%s" % x["id"])
            if e is not None and k == "Do":
                self.ev(c, e)
            new = merge(head, e) if k != "Do" or i == 0 else merge(head, e)
            same = new.t == head.t and new.alias.keys() == head.alias.keys()
            head = new
            if same:
                break
        out = head
        if c is not None:
            out = self.refine(c, head, False)
        if out is not None and e is not None and k == "For" and not brk:
            arrays = set()
            for m in walk({"b": [n["b"]]}):
                if m.get("k") in ("Call", "MCall") and isisvalid(m.get("fn") or {}) and m.get("a") and element(m["a"][0]):
                    kk = key(m["a"][0])
                    if kk and kk[0] in atend and not atend[kk[0]][0]:
                        arrays.add(element(m["a"][0]))
            if arrays:
                out = out.copy()
                out.full |= arrays
        for x in brk:
            out = merge(out, x)
        return out


def stores(f):
    """a function that reads or writes the values of a file unpacks and packs them, missing or not"""
    return any(m.get("k") == "Call" and last((m.get("fn") or {}).get("q")).startswith(("nc_put_", "nc_get_")) for m in walk({"b": [f.body]}))


def findings(p, funcs, st):
    g = Engine(p, funcs)
    for f in funcs:
        if f.body is not None:
            g.summary(f)
    out = []
    for f, line, what, how in g.out:
        if stores(f):
            continue
        out.append((f, line, "missing", "'%s' may be missing and takes part in %s" % (what, how), "missing|%s|%s|%s" % (f.q, what, how)))
    st["functions"] += len(g.sums)
    for k, n in g.n.items():
        st[k] += n
    return out


def selftest():
    p = ir.samples("missing")
    fs = [f for f in p.functions() if f.file.startswith(ir.build.VERIF)]
    bad = {x[0].name for x in findings(p, fs, Counter())}
    want = {f.name for f in fs if f.name.startswith("bad_")}
    if bad != want:
        raise ir.AnalysisBroken("self-test of the rules on missing values: missed %s, wrongly reported %s" % (sorted(want - bad), sorted(bad - want)))
    return len(want), len(fs) - len(want)


def check(pid, res, tier):
    nbad, nok = selftest()
    p = ir.load()
    st = Counter()
    for f, line, rule, text, k in findings(p, program(p), st):
        res.add(rule, f.file, line, f.q, text, k)
    res.coverage = dict(st, selftest_bad=nbad, selftest_ok=nok)
    res.floor("functions", st["functions"], 300)
    res.floor("reads of fields", st["loads"], 100)
    res.floor("operands of calculations", st["operands"], 500)
    res.explanation = ("Values that may be missing (elements of fields, altitudes, land fractions, results of functions that may return a missing value) followed through every function of the command-line program; "
                       "none is an operand of arithmetic, an ordered comparison or a mathematical function on a path where its validity was not tested.")
    res.assumptions = ["latitudes, longitudes and the parameters of a parameter file are not missing where they are used"]

"""C18: every selectable method is its own calculation or refused.

Each public function that takes a choice (a statistic, metric, comparison, ...) is specialised for every choice: conditions
on the choice are decided by constant propagation, through the functions it is handed on to, and what remains is compared."""
from collections import Counter
from .. import ir
from ..ir import walk, kids, noalloc
from .pure import print_only

NOTHING = -987654321           # a value that names no choice
CHOICES = ("Statistic", "Metric", "ComparisonOperator", "Extrapolation", "GradientType", "Downscaler", "CorrectionType")
MAXDEPTH = 12


def strip(e):
    while isinstance(e, dict) and e.get("k") == "Cast":
        e = e.get("e")
    if isinstance(e, dict) and e.get("k") == "DefaultArg":
        return strip(e.get("e"))
    if isinstance(e, dict) and e.get("k") == "Construct" and len(e.get("a", [])) == 1 and ("basic_string" in e.get("t", "") or e.get("move")):
        return strip(e["a"][0])
    return e


def is_float(t):
    t = (t or "").replace("const ", "").strip()
    return t in ("float", "double", "long double", "float &", "double &")


def refs(e):
    return {n["id"] for n in walk(e) if n.get("k") == "Ref" and "id" in n} if isinstance(e, dict) else set()


class Spec:
    """What remains of one function for one choice."""

    def __init__(self):
        self.text = []            # canonical text of what remains
        self.refused = []         # throws that the choice alone decides on
        self.feat = Counter()
        self.specific = []        # (kind, node, function, extra) of direct statements
        self.ret = "none"         # constant result, or None when it is not constant
        self.opaque = False
        self.calls = set()
        self.compares = []        # (op, line) oriented: value OP threshold, when it is known
        self.hash = None
        self.fixed = []           # fixed choices handed on
        self.always = []          # functions called whatever was chosen
        self.bind = ()


class Engine:
    def __init__(self, p):
        self.p = p
        self.memo = {}
        self.active = set()
        self.trackable = {}
        self.slices = {}
        self.fields = {}          # members that the choice was kept in, while one function is specialised

    # ---- facts about a function, independent of the choice
    def tracked(self, f):
        """Variables whose value is followed: never changed other than by plain assignment, never bound to a reference."""
        if f.m in self.trackable:
            return self.trackable[f.m]
        bad = set()
        for n in walk(f.body):
            k = n.get("k")
            if k == "Assign" and n.get("op") != "=":
                x = strip(n["x"])
                if x.get("k") == "Ref":
                    bad.add(x.get("id"))
            elif k == "Un" and n.get("op") in ("++", "--", "&"):
                x = strip(n["e"])
                if isinstance(x, dict) and x.get("k") == "Ref":
                    bad.add(x.get("id"))
            elif k in ("Call", "MCall", "Construct"):
                pt = (n.get("fn") or {}).get("pt", [])
                for i, a in enumerate(n.get("a", [])):
                    t = noalloc(pt[i]) if i < len(pt) else ""
                    x = strip(a)
                    if isinstance(x, dict) and x.get("k") == "Ref" and t.rstrip().endswith("&") and not t.startswith("const ") and "&&" not in t:
                        bad.add(x.get("id"))
            elif k == "Decl":
                for v in n.get("v", []):
                    if noalloc(v.get("t", "")).rstrip().endswith("&") and not noalloc(v.get("t", "")).startswith("const ") and v.get("init"):
                        x = strip(v["init"])
                        if isinstance(x, dict) and x.get("k") == "Ref":
                            bad.add(x.get("id"))
            elif k == "Lambda":
                for m in walk(n.get("body") or {}):
                    if m.get("k") == "Assign":
                        x = strip(m["x"])
                        if isinstance(x, dict) and x.get("k") == "Ref":
                            bad.add(x.get("id"))
        self.trackable[f.m] = bad
        return bad

    def data_slice(self, f, e, reach=None):
        """Parameters the value of an expression is computed from (data only, positions of elements left out)."""
        key = f.m
        m = self.slices.get(key)
        if m is None:
            m = {}

            def add(v, x):
                if v is not None:
                    m.setdefault(v, set()).update(self.value_refs(x))
            for n in walk(f.body):
                k = n.get("k")
                if k == "Assign":
                    add(self.root(n["x"]), n["y"])
                elif k == "Decl":
                    for v in n.get("v", []):
                        if v.get("init"):
                            add(v["id"], v["init"])
                elif k == "RangeFor" and n.get("v"):
                    v = n["v"]
                    add(v.get("id") if isinstance(v, dict) else None, n["r"])
                elif k == "OpCall" and n.get("op") in ("=", "+=", "-=", "*=", "/=") and len(n["a"]) == 2:
                    add(self.root(n["a"][0]), n["a"][1])
                elif k == "MCall" and n.get("fn", {}).get("q", "").split("::")[-1] in ("push_back", "emplace_back", "resize", "assign", "insert"):
                    for a in n.get("a", [])[-1:]:
                        add(self.root(n.get("o")), a)
                elif k == "Call":
                    # arrays filled by reference
                    pt = (n.get("fn") or {}).get("pt", [])
                    for i, a in enumerate(n.get("a", [])):
                        t = noalloc(pt[i]) if i < len(pt) else ""
                        if t.rstrip().endswith("&") and not t.startswith("const "):
                            for b in n.get("a", []):
                                if b is not a:
                                    add(self.root(a), b)
            self.slices[key] = m
        out = set()
        todo = list(self.value_refs(e))
        while todo:
            v = todo.pop()
            if v in out:
                continue
            out.add(v)
            todo += m.get(v, ())
        return out

    def root(self, e):
        e = strip(e)
        while isinstance(e, dict):
            k = e.get("k")
            if k == "Ref":
                return e.get("id")
            if k == "OpCall" and e.get("op") in ("[]", "()"):
                e = strip(e["a"][0])
            elif k == "Index":
                e = strip(e["b"])
            elif k == "Un":
                e = strip(e["e"])
            elif k == "Member":
                e = strip(e["b"])
            elif k == "MCall":
                e = strip(e.get("o"))
            else:
                return None
        return None

    def value_refs(self, e):
        """Variables an expression takes values of: not those inside positions or sizes."""
        out = set()
        todo = [e]
        while todo:
            x = todo.pop()
            if not isinstance(x, dict):
                continue
            k = x.get("k")
            if k == "Ref":
                if "id" in x:
                    out.add(x["id"])
            elif k == "OpCall" and x.get("op") in ("[]", "()"):
                todo.append(x["a"][0])
            elif k == "Index":
                todo.append(x["b"])
            elif k == "MCall" and x.get("fn", {}).get("q", "").split("::")[-1] in ("size", "empty", "length"):
                pass
            elif k == "Cond":
                todo += [x["x"], x["y"]]
            else:
                todo += list(kids(x))
        return out

    # ---- specialisation
    def spec(self, f, bind, labels=(), pol=None, dec=False, depth=0):
        """bind: constants of the parameters (None when unknown); labels: 'T'/'V' for parameters of comparisons."""
        if depth == 0:
            self.fields = {}
        key = (f.m, bind, labels, pol, dec, tuple(sorted(self.fields.items(), key=str)))
        if key in self.memo:
            return self.memo[key]
        s = Spec()
        if (f.m, bind) in self.active or depth > MAXDEPTH or not f.body:
            s.ret = None
            s.hash = "rec:" + f.q
            return s
        self.active.add((f.m, bind))
        try:
            env = {}
            bad = self.tracked(f)
            for pa, v in zip(f.params, bind):
                if v is not None and pa.get("id") not in bad:
                    env[pa["id"]] = v
            w = Walk(self, f, s, env, labels, pol, depth)
            for i in f.d.get("inits") or []:
                if i.get("n") and isinstance(i.get("e"), dict):
                    w.member(f.cls, i["n"], i["e"])
            w.stmt(f.body, dec)
            if s.ret == "none":
                s.ret = None
            s.hash = f.q + "{" + "".join(s.text) + "}"
        finally:
            self.active.discard((f.m, bind))
        self.memo[key] = s
        return s


def leaves(n):
    while isinstance(n, dict) and n.get("k") == "Block" and n["b"]:
        n = n["b"][-1]
    return isinstance(n, dict) and (n.get("k") in ("Return", "Throw") or n.get("k") == "Expr" and strip(n["e"]).get("k") == "Throw")


FLIP = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}
NEG = {"<": ">=", ">": "<=", "<=": ">", ">=": "<"}


class Walk:
    def __init__(self, eng, f, s, env, labels, pol, depth):
        self.eng, self.f, self.s, self.env, self.labels, self.pol, self.depth = eng, f, s, env, labels, pol, depth
        self.bad = eng.tracked(f)
        self.label_of = {}
        for pa, l in zip(f.params, labels):
            if l:
                self.label_of[pa["id"]] = l
        self.branch = []
        self.choosing = 0         # inside a branch that the choice decided on

    def put(self, *t):
        self.s.text.extend(str(x) + " " for x in t)

    # ---- constants
    def const(self, e):
        e = strip(e)
        if not isinstance(e, dict):
            return None
        k = e.get("k")
        if k == "Ref":
            if e.get("rk") == "enum":
                return e.get("v")
            return self.env.get(e.get("id"))
        if k == "Member":
            return self.eng.fields.get((e.get("cls"), e.get("n")))
        if k == "Int":
            try:
                return int(e["v"])
            except (ValueError, TypeError):
                return None
        if k == "Float":
            try:
                return float(e["v"])
            except (ValueError, TypeError):
                return None
        if k == "Bool":
            return bool(e.get("v"))
        if k == "Str":
            return e.get("v")
        if k == "Un" and e.get("op") == "!":
            v = self.const(e["e"])
            return None if v is None else not v
        if k == "Un" and e.get("op") == "-":
            v = self.const(e["e"])
            return None if v is None or isinstance(v, (str, bool)) else -v
        if k == "Bin":
            op = e.get("op")
            if op in ("&&", "||"):
                a, b = self.const(e["x"]), self.const(e["y"])
                if op == "&&":
                    if a is False or b is False or a == 0 and a is not None or b == 0 and b is not None:
                        return False
                    return True if a is not None and b is not None else None
                if a or b:
                    return True
                return False if a is not None and b is not None else None
            a, b = self.const(e["x"]), self.const(e["y"])
            if a is None or b is None or isinstance(a, str) != isinstance(b, str):
                return None
            return {"==": a == b, "!=": a != b, "<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}.get(op)
        if k == "OpCall" and e.get("op") in ("==", "!=") and len(e["a"]) == 2:
            a, b = self.const(e["a"][0]), self.const(e["a"][1])
            if isinstance(a, str) and isinstance(b, str):
                return (a == b) == (e["op"] == "==")
            return None
        if k == "Cond":
            c = self.const(e["c"])
            if c is None:
                a, b = self.const(e["x"]), self.const(e["y"])
                return a if a is not None and a == b and type(a) == type(b) else None
            return self.const(e["x"] if c else e["y"])
        if k == "Call":
            for s in self.callee(e):
                return s.ret
            return None
        return None

    def callee(self, e, pol=None, dec=False, quiet=True):
        """Specialisations of the functions of /repo a call may run."""
        fn = e.get("fn")
        out = []
        for t in self.eng.p.targets(fn):
            if t.body is None:
                continue
            args = e.get("a", [])
            bind = []
            labels = []
            for i, pa in enumerate(t.params):
                a = args[i] if i < len(args) else pa.get("def")
                v = self.const(a) if isinstance(a, dict) else None
                bind.append(v)
                labels.append(self.label(a) if self.label_of and isinstance(a, dict) else "")
            if not any(labels):
                labels, p2 = (), None
            else:
                p2 = pol
            out.append(self.eng.spec(t, tuple(bind), tuple(labels), p2, dec, self.depth + 1))
        return out

    def label(self, e):
        """'T' for the threshold of a comparison, 'V' for the values compared with it."""
        if not self.label_of:
            return ""
        ids = self.eng.data_slice(self.f, e)
        ls = {self.label_of[i] for i in ids if i in self.label_of}
        if len(ls) > 1:
            ls -= {"Y", "N"}
        return ls.pop() if len(ls) == 1 else ""

    def member(self, cls, n, e):
        """A member that is given the choice keeps it."""
        v = self.const(e)
        x = strip(e)
        if v is None or not (isinstance(x, dict) and any(c in noalloc(x.get("t", "")) for c in CHOICES)):
            return
        old = self.eng.fields.get((cls, n), v)
        if old != v:
            self.s.opaque = True
        self.eng.fields[(cls, n)] = v

    # ---- statements
    def assigned(self, n):
        out = set()
        for x in walk(n):
            if x.get("k") == "Assign":
                r = strip(x["x"])
                if r.get("k") == "Ref":
                    out.add(r.get("id"))
            elif x.get("k") == "Decl":
                out |= {v["id"] for v in x.get("v", [])}
        return out

    def stmt(self, n, dec):
        """dec: the choice alone decided that this is reached (since the last condition on data). False: does not go on."""
        if n is None:
            return True
        k = n.get("k")
        if k == "Block":
            more = 0
            r = True
            for x in n["b"]:
                left = None
                if x.get("k") == "If" and self.const(x["c"]) is not None and self.chosen(x["c"]):
                    left = x.get("y") if self.const(x["c"]) else x["x"]
                if not self.stmt(x, dec):
                    r = False
                    break
                if left is not None and leaves(left):
                    # what follows is for the choices that did not leave
                    dec = True
                    more += 1
                    self.choosing += 1
            self.choosing -= more
            return r
        if k == "Expr":
            if print_only(n):
                return True
            self.expr(n["e"], dec)
            self.put(";")
            return not self.noreturn(n["e"], dec)
        if k == "Decl":
            for v in n.get("v", []):
                if v.get("init"):
                    t = noalloc(v.get("t", ""))
                    c = self.const(v["init"]) if v["id"] not in self.bad else None
                    simple = "vector" not in t and "string" not in t
                    if c is not None and simple:
                        self.env[v["id"]] = c
                        self.consume(v["init"], dec)
                        continue
                    self.env.pop(v["id"], None)
                    self.put("decl", v["n"])
                    self.expr(v["init"], dec, pol=self.varpol(v["id"]))
                    if is_float(t):
                        self.note_assign(v["init"], n, v["id"])
                else:
                    self.env.pop(v["id"], None)
            return True
        if k == "If":
            if n.get("init"):
                self.stmt(n["init"], dec)
            if n.get("cv"):
                self.put("cv")
            c = self.const(n["c"])
            if c is not None:
                self.consume(n["c"], dec)
                ch = self.chosen(n["c"])
                self.choosing += ch
                r = self.stmt(n["x"] if c else n.get("y"), True if ch else dec)
                self.choosing -= ch
                return r
            if not self.has_stmt(n["x"]) and not self.has_stmt(n.get("y")):
                return True
            self.put("if(")
            self.expr(n["c"], dec, pol=self.ifpol(n))
            self.put("){")
            e0 = dict(self.env)
            self.branch.append(n)
            a = self.stmt(n["x"], False)
            e1 = self.env
            self.env = dict(e0)
            self.put("}else{")
            # the second branch belongs to the choice when the condition fails for it whatever the data
            b = self.stmt(n.get("y"), dec and n.get("y") is not None and False or self.partly(n["c"]))
            self.branch.pop()
            self.put("}")
            self.minmax(n)
            e2 = self.env
            if a and b:
                self.env = {i: v for i, v in e1.items() if i in e2 and e2[i] == v and type(e2[i]) == type(v)}
            else:
                self.env = e1 if a else e2
            return a or b
        if k in ("For", "While", "Do", "RangeFor"):
            if n.get("init"):
                self.loopinit(n["init"], dec)
            for i in self.assigned({"k": "x", "b": [x for x in (n.get("b"), n.get("inc")) if isinstance(x, dict)]}):
                self.env.pop(i, None)
            self.put(k, "(")
            for x in ("c", "r", "inc"):
                if isinstance(n.get(x), dict):
                    self.expr(n[x], dec)
            if k != "For":
                self.s.feat["loop"] += 0
            self.put("){")
            e0 = dict(self.env)
            self.stmt(n.get("b"), dec)
            self.put("}")
            self.env = {i: v for i, v in e0.items() if self.env.get(i) == v}
            return True
        if k == "OMP":
            return self.stmt(n.get("b"), dec)
        if k == "Return":
            if n.get("e") is not None:
                c = self.const(n["e"])
                if c is not None:
                    self.consume(n["e"], dec)
                    self.put("return", c)
                    if is_float(noalloc(self.f.ret)):
                        self.note_const(c, n)
                else:
                    self.put("return")
                    self.expr(n["e"], dec, pol=self.pol)
                    if not self.refuses(n["e"]):
                        self.note_assign(n["e"], n, None)
                if self.s.ret == "none":
                    self.s.ret = c
                elif self.s.ret != c or type(self.s.ret) != type(c):
                    self.s.ret = None
            else:
                self.put("return")
            return False
        if k == "Throw" or k == "Expr" and False:
            if dec:
                self.s.refused.append((self.f, n.get("l")))
            self.put("throw")
            return False
        if k in ("Break", "Continue"):
            self.put(k)
            return False
        if k == "Try":
            r = self.stmt(n.get("b"), dec)
            for h in n.get("h", []):
                e0 = dict(self.env)
                self.stmt(h if "k" in h else h.get("b"), False)
                self.env = e0
            return True
        if k == "Switch":
            return self.switch(n, dec)
        if k in ("Case", "Default"):
            return self.stmt(n.get("b"), dec)
        for x in kids(n):
            self.stmt(x, dec)
        return True

    def loopinit(self, n, dec):
        if isinstance(n, dict) and n.get("k") in ("Decl", "Block", "Expr"):
            self.stmt(n, dec)
            if n.get("k") == "Decl":
                for v in n.get("v", []):
                    self.env.pop(v["id"], None)
        elif isinstance(n, dict):
            self.expr(n, dec)

    def partly(self, c):
        """The condition is false for this choice as far as the choice is concerned."""
        c = strip(c)
        if isinstance(c, dict) and c.get("k") == "Bin" and c.get("op") == "||":
            return any(self.chosen(x) and self.const(x) is False for x in (c["x"], c["y"])) or self.partly(c["x"]) or self.partly(c["y"])
        return False

    def chosen(self, c):
        return any(n.get("k") == "Ref" and n.get("id") in self.env for n in walk(c) if isinstance(n, dict)) if isinstance(c, dict) else False

    def has_stmt(self, n):
        if n is None:
            return False
        if print_only(n):
            return False
        if n.get("k") == "Expr" and strip(n["e"]).get("k") in ("Int", "Cast", "Ref", "Bool") and n["e"].get("k") != "Assign":
            return False
        return True

    def switch(self, n, dec):
        c = self.const(n["c"])
        items = n["b"]["b"] if n.get("b", {}).get("k") == "Block" else [n["b"]]
        flat = []
        for x in items:
            labs = []
            while isinstance(x, dict) and x.get("k") in ("Case", "Default"):
                labs.append(x)
                x = x.get("b")
            flat.append((labs, x))
        if c is None:
            self.put("switch(")
            self.expr(n["c"], dec)
            self.put(")")
            e0 = dict(self.env)
            for i in self.assigned(n["b"]):
                e0.pop(i, None)
            self.env = dict(e0)
            for labs, x in flat:
                self.env = dict(e0)
                self.put("case", len(labs))
                if x is not None:
                    self.stmt(x, False)
            self.env = e0
            return True
        self.consume(n["c"], dec)
        self.choosing += 1
        try:
            return self.cases(flat, c)
        finally:
            self.choosing -= 1

    def cases(self, flat, c):
        start = None
        for i, (labs, x) in enumerate(flat):
            for l in labs:
                if l["k"] == "Case":
                    v = self.const(l.get("v") or l.get("c") or l.get("e") or {})
                    if v is not None and v == c:
                        start = i
            if start is not None:
                break
        if start is None:
            for i, (labs, x) in enumerate(flat):
                if any(l["k"] == "Default" for l in labs):
                    start = i
        if start is None:
            return True
        for labs, x in flat[start:]:
            if x is None:
                continue
            if x.get("k") == "Break":
                return True
            r = self.stmt_break(x, True)
            if r == "break":
                return True
            if not r:
                return False
        return True

    def stmt_break(self, x, dec):
        if x.get("k") == "Block":
            for y in x["b"]:
                if y.get("k") == "Break":
                    return "break"
                r = self.stmt_break(y, dec)
                if r != True:
                    return r
            return True
        if x.get("k") == "Break":
            return "break"
        return self.stmt(x, dec)

    def noreturn(self, e, dec):
        e = strip(e)
        if isinstance(e, dict) and e.get("k") == "Throw":
            if dec:
                self.s.refused.append((self.f, e.get("l")))
            return True
        return isinstance(e, dict) and e.get("k") == "Call" and (e.get("fn") or {}).get("noret", False)

    def refuses(self, e):
        return False

    # ---- expressions
    def consume(self, e, dec):
        """An expression with a known value: only the calls in it matter."""
        for n in walk(e):
            if n.get("k") == "Call":
                for s in self.callee(n, dec=dec):
                    self.s.refused += s.refused if dec else []

    def expr(self, e, dec, pol=None):
        if not isinstance(e, dict):
            return
        if e.get("k") in ("Cast", "DefaultArg"):
            return self.expr(e.get("e"), dec, pol)
        k = e.get("k")
        c = self.const(e)
        if c is not None and k not in ("Int", "Float", "Str", "Bool"):
            self.put(repr(c))
            self.consume(e, dec)
            return
        if k == "Ref":
            self.put(e.get("n"))
            return
        if k == "Assign":
            x = strip(e["x"])
            op = e.get("op")
            if op == "=" and x.get("k") == "Member":
                self.member(x.get("cls"), x.get("n"), e["y"])
            if op == "=" and x.get("k") == "Ref" and x.get("rk") != "global":
                c = self.const(e["y"]) if x.get("id") not in self.bad else None
                if c is not None and "vector" not in noalloc(x.get("t", "")):
                    self.env[x["id"]] = c
                    self.consume(e["y"], dec)
                    if not choice_of(x.get("t", "")):
                        self.put(x.get("n"), "=", repr(c))
                    if is_float(noalloc(x.get("t", ""))):
                        self.note_const(c, e)
                    return
                self.env.pop(x["id"], None)
            self.put("set")
            self.expr(e["x"], dec)
            self.put(op)
            self.expr(e["y"], dec, pol="+" if op != "=" or x.get("k") != "Ref" else self.varpol(x.get("id")))
            if op == "/=" and is_float(noalloc(x.get("t", ""))):
                self.s.feat["/"] += 1
            if op == "*=" and is_float(noalloc(x.get("t", ""))):
                self.s.feat["*"] += 1
            if is_float(noalloc(x.get("t", ""))):
                cy = self.const(e["y"])
                if cy is not None and op == "=":
                    self.note_const(cy, e)
                else:
                    self.note_assign(e["y"], e, x.get("id") if x.get("k") == "Ref" else None)
            return
        if k == "Cond":
            cc = self.const(e["c"])
            if cc is not None:
                self.consume(e["c"], dec)
                b = e["x"] if cc else e["y"]
                if b.get("k") == "Throw":
                    self.s.refused.append((self.f, e.get("l")))
                    self.put("throw")
                    return
                return self.expr(b, True if self.chosen(e["c"]) else dec, pol)
            self.put("cond(")
            self.expr(e["c"], dec, pol=self.condpol(e))
            self.put("?")
            self.expr(e["x"], False, pol)
            self.put(":")
            self.expr(e["y"], False, pol)
            self.put(")")
            return
        if k == "Throw":
            if dec:
                self.s.refused.append((self.f, e.get("l")))
            self.put("throw")
            return
        if k == "Bin":
            op = e["op"]
            if op == "&&" or op == "||":
                a = self.const(e["x"])
                b = self.const(e["y"])
                if a is not None and (bool(a) == (op == "&&")):
                    return self.expr(e["y"], dec, pol)
                if b is not None and (bool(b) == (op == "&&")):
                    return self.expr(e["x"], dec, pol)
            if op in ("<", ">", "<=", ">="):
                self.compare(e, pol)
            t = noalloc(e.get("t", ""))
            if op in ("/", "*") and is_float(t):
                self.s.feat[op] += 1
                if op == "*":
                    x, y = strip(e["x"]), strip(e["y"])
                    if x.get("k") == "Ref" and y.get("k") == "Ref":
                        self.s.feat[("prod",) + tuple(sorted((str(x.get("n")), str(y.get("n")))))] += 1
                    for q in (self.const(e["x"]), self.const(e["y"])):
                        if q == 2:
                            self.s.feat["lit2"] += 1
            self.put("(", op)
            self.expr(e["x"], dec, pol if op in ("&&", "||") else None)
            self.expr(e["y"], dec, pol if op in ("&&", "||") else None)
            self.put(")")
            return
        if k == "Un":
            self.put(e.get("op"))
            p2 = {"+": "-", "-": "+"}.get(pol) if e.get("op") == "!" else pol
            return self.expr(e["e"], dec, p2)
        if k in ("Int", "Float", "Str", "Bool"):
            self.put(repr(e.get("v")))
            return
        if k == "Lambda":
            self.put("lambda{")
            e0 = dict(self.env)
            b = e.get("body")
            r0 = self.s.ret
            if isinstance(b, dict):
                pol0, self.pol = self.pol, pol or "+"
                self.stmt(b, dec)
                self.pol = pol0
            self.s.ret = r0
            self.env = e0
            self.put("}")
            return
        if k in ("Call", "MCall", "Construct", "OpCall", "New"):
            return self.call(e, dec, pol)
        for x in kids(e):
            self.expr(x, dec)

    def call(self, e, dec, pol):
        k = e.get("k")
        fn = e.get("fn") or {}
        q = fn.get("q", "")
        name = q.split("::")[-1]
        if k == "OpCall" and e.get("op") == "[]":
            self.put("[]")
            for x in e["a"]:
                self.expr(x, dec)
            i = self.const(e["a"][1]) if len(e["a"]) > 1 else None
            j = strip(e["a"][1]) if len(e["a"]) > 1 else {}
            if i == 1 or isinstance(j, dict) and j.get("k") == "Bin" and j.get("op") == "-" and self.const(j["y"]) == 2:
                self.s.feat["second"] += 1
            for x in e["a"][1:]:
                self.escape(x)
            return
        self.put(name or e.get("op", ""), "(")
        if k == "MCall":
            self.expr(e.get("o"), dec)
        targets = [t for t in self.eng.p.targets(fn) if t.body is not None] if q and (k != "OpCall" or e.get("op") == "()") else []
        if k == "OpCall" and targets:
            e = dict(e, a=e["a"][1:])
        library = [t for t in targets if in_library(t)]
        given = []
        for i, a in enumerate(e.get("a", [])):
            if library and choice_of(strip(a).get("t", "")) and self.const(a) is not None:
                given.append(repr(self.const(a)))
                self.fixed(e, strip(a), name)
            else:
                self.expr(a, dec)
            self.put(",")
            if not library:
                self.escape(a)
        self.put(")")
        if name in ("sqrt", "sqrtf") or name in ("pow", "powf") and len(e.get("a", [])) == 2 and self.const(e["a"][1]) == 0.5:
            self.s.feat["sqrt"] += 1
        if name in ("rand", "random", "shuffle", "random_shuffle", "sample", "uniform_int_distribution") or "random" in q or "mersenne" in q:
            self.s.feat["rand"] += 1
        if name in ("min", "fmin", "fminf", "min_element") and k == "Call" and (is_float(noalloc(e.get("t", "")).replace("&", "").strip()) or name == "min_element"):
            self.s.feat["less"] += 1
        if name in ("max", "fmax", "fmaxf", "max_element") and k == "Call" and (is_float(noalloc(e.get("t", "")).replace("&", "").strip()) or name == "max_element"):
            self.s.feat["greater"] += 1
        if "calc_quantile" in name and len(e.get("a", [])) >= 2:
            c = self.const(e["a"][1])
            if c is not None and not isinstance(c, (str, bool)):
                self.s.feat[("quantile", float(c))] += 1
        for t in library:
            self.s.calls.add(t.q)
            if not self.choosing:
                self.s.always.append((self.f, e.get("l"), t.q))
            for s in self.callee_of(e, t, pol, dec):
                self.s.feat.update(s.feat)
                self.s.calls |= s.calls
                if dec is not None:
                    self.s.refused += s.refused
                self.s.opaque |= s.opaque
                self.s.specific += s.specific
                self.s.compares += s.compares
                self.s.fixed += s.fixed
                if any(b is not None for b in s.bind):
                    if s.hash.startswith("rec:"):
                        self.put(*given)
                    self.put("<", s.hash, ">")

    def callee_of(self, e, t, pol, dec):
        args = e.get("a", [])
        bind, labels = [], []
        for i, pa in enumerate(t.params):
            a = args[i] if i < len(args) else pa.get("def")
            bind.append(self.const(a) if isinstance(a, dict) else None)
            labels.append(self.label(a) if self.label_of and isinstance(a, dict) else "")
        if not any(labels):
            labels, pol = (), None
        s = self.eng.spec(t, tuple(bind), tuple(labels), pol, bool(dec), self.depth + 1)
        s.bind = bind
        return [s]

    def fixed(self, e, a, name):
        """A function that lets its caller choose hands a fixed choice on, whatever was chosen."""
        c = choice_of(a.get("t", ""))
        mine = [x for x in self.f.params if choice_of(x["t"]) == c]
        if mine and a.get("rk") == "enum" and not self.choosing:
            self.s.fixed.append((self.f, e.get("l"), name, a.get("n")))

    def escape(self, a):
        """The choice itself used in a way that is not followed."""
        a = strip(a)
        if isinstance(a, dict):
            todo = [a]
            while todo:
                n = todo.pop()
                if n.get("k") in ("Call", "MCall", "Construct", "OpCall", "Lambda"):
                    continue
                todo += list(kids(n))
                if n.get("k") == "Ref" and n.get("id") in self.env and any(c in noalloc(n.get("t", "")) for c in CHOICES):
                    self.s.opaque = True

    # ---- features
    def note_const(self, c, n):
        if not isinstance(c, (str, bool)):
            self.s.specific.append(("const", float(c), self.f, n.get("l"), None))

    def note_assign(self, e, n, var):
        self.s.specific.append(("assign", e, self.f, n.get("l"), var))

    def minmax(self, n):
        """if(a < b) b = a keeps the smaller one, if(a < b) a = b the larger one."""
        c = strip(n["c"])
        if not (isinstance(c, dict) and c.get("k") == "Bin" and c.get("op") in FLIP):
            if isinstance(c, dict) and c.get("k") == "Bin" and c.get("op") in ("||", "&&"):
                for x in (c["x"], c["y"]):
                    self.minmax(dict(n, c=x))
            return
        if not is_float(noalloc(strip(c["x"]).get("t", ""))):
            return
        x, y = text(c["x"]), text(c["y"])
        for a in walk(n.get("x") or {}):
            if a.get("k") == "Assign" and a.get("op") == "=":
                t, s = text(a["x"]), text(a["y"])
                op = c["op"]
                if (s, t) == (x, y):
                    self.s.feat["less" if op[0] == "<" else "greater"] += 1
                elif (s, t) == (y, x):
                    self.s.feat["greater" if op[0] == "<" else "less"] += 1

    # ---- comparisons of values with a threshold
    def compare(self, e, pol):
        if not self.label_of:
            return
        a, b = self.label(e["x"]), self.label(e["y"])
        if {a, b} != {"T", "V"}:
            return
        op = e["op"] if b == "T" else FLIP[e["op"]]
        if pol == "-":
            op = NEG[op]
        self.s.compares.append((op if pol in ("+", "-") else None, e.get("l"), self.f))

    def side(self, n):
        """'Y'/'N': what a branch hands out; '+' when it does anything, '' when it does nothing."""
        if n is None:
            return ""
        if n.get("k") == "Block" and not n["b"] or n.get("k") in ("Nop", "Continue"):
            return ""
        if n.get("k") == "Block" and len(n["b"]) == 1 and n["b"][0].get("k") in ("Continue", "Nop"):
            return ""
        if n.get("k") == "Return":
            v = self.const(n["e"]) if n.get("e") else None
            if isinstance(v, bool):
                return "+" if v else "0"
        if n.get("k") == "Block" and len(n["b"]) == 1:
            return self.side(n["b"][0])
        ls = {self.label_of[i] for i in refs(n) if self.label_of.get(i) in ("Y", "N")}
        if len(ls) == 1:
            return ls.pop()
        if ls:
            return "?"
        if n.get("k") == "Bool":
            return "+" if n.get("v") else "0"
        if n.get("k") in ("Int", "Float") and self.const(n) is not None:
            return "+" if self.const(n) else "0"
        if n.get("k") == "Expr" and n["e"].get("k") == "Assign" and n["e"].get("op") == "=":
            v = self.const(n["e"]["y"])
            if isinstance(v, bool):
                return "+" if v else "0"
        return "+"

    def polof(self, x, y):
        a, b = self.side(x), self.side(y)
        if a == "Y" or b == "N":
            return "+" if b != "Y" and a != "N" else None
        if a == "N" or b == "Y":
            return "-"
        if a == "+" and b in ("", "0"):
            return "+"
        if a in ("", "0") and b == "+":
            return "-"
        if a == "0" and b == "":
            return "-"
        return None

    def ifpol(self, n):
        x, y = n["x"], n.get("y")
        p = self.polof(x, y)
        if p is None and y is None:
            pass
        return p

    def condpol(self, e):
        return self.polof(e["x"], e["y"])

    def varpol(self, vid):
        """How a truth value kept in a variable is used."""
        ps = set()
        for n in walk(self.f.body):
            if n.get("k") in ("If", "Cond") and isinstance(n.get("c"), dict):
                c = strip(n["c"])
                neg = False
                while isinstance(c, dict) and c.get("k") == "Un" and c.get("op") == "!":
                    neg = not neg
                    c = strip(c["e"])
                if isinstance(c, dict) and c.get("k") == "Ref" and c.get("id") == vid:
                    p = self.polof(n["x"], n.get("y"))
                    ps.add({"+": "-", "-": "+"}.get(p) if neg else p)
        if not ps:
            return "+"
        return ps.pop() if len(ps) == 1 else None


def text(e):
    e = strip(e)
    if not isinstance(e, dict):
        return ""
    k = e.get("k")
    if k == "Ref":
        return str(e.get("id", e.get("q")))
    if k in ("Int", "Float", "Bool", "Str"):
        return repr(e.get("v"))
    return k + str(e.get("op", "")) + str((e.get("fn") or {}).get("q", "") if k != "OpCall" else "") + "(" + ",".join(text(x) for x in kids(e)) + ")"


def in_library(f):
    return ir.rel(f.file).startswith(("src/api", "include/")) or f.file.startswith(ir.build.VERIF)


def choice_of(t):
    t = noalloc(t).replace("const ", "").replace("&", "").strip()
    t = t.split("::")[-1]
    return t if t in CHOICES else None


def public(p):
    """Functions anybody can call that take a choice."""
    out = []
    for f in p.functions():
        if not in_library(f) or f.body is None or f.cls or "(anonymous" in f.q or noalloc(f.ret) == "bool":
            continue
        if not f.q.startswith("gridpp::") and not f.file.startswith(ir.build.VERIF):
            continue
        es = {choice_of(x["t"]) for x in f.params} - {None}
        for c in sorted(es):
            out.append((f, c))
    return out


def bind_all(f, c, v, b=None):
    return tuple(v if choice_of(x["t"]) == c else None for x in f.params)


def labels_for(f, c):
    if c != "ComparisonOperator":
        return ()
    ls = []
    for x in f.params:
        n = x["n"].lower()
        t = noalloc(x["t"])
        if "vector" not in t and not is_float(t.replace("&", "").strip()):
            ls.append("")
        elif n in ("threshold", "thresholds"):
            ls.append("T")
        elif "true" in n:
            ls.append("Y")
        elif "false" in n:
            ls.append("N")
        elif n == "quantile":
            ls.append("")
        else:
            ls.append("V")
    return tuple(ls)


EXPECT_OP = {"Lt": "<", "Leq": "<=", "Gt": ">", "Geq": ">="}
METRIC_ARGS = {"Ets": "abcd", "Ts": "abc", "Kss": "abcd", "Pc": "abcd", "Hss": "abcd"}
METRIC_NOT = {"Ts": "d"}
QUANTILE = {"Min": 0.0, "Median": 0.5, "Max": 1.0}


def analyse(p, res, stats):
    eng = Engine(p)
    names = {}
    for q, e in p.enums.items():
        if q.split("::")[-1] in CHOICES:
            names[q.split("::")[-1]] = {x["n"]: x["v"] for x in e["e"]}
    reported = set()

    def report(rule, f, line, textx, key):
        k = (rule, key)
        if k in reported:
            return
        reported.add(k)
        res.add(rule, f.file, line or f.line, f.q, textx, "%s|%s" % (rule, key))

    # what downscaling methods are carried out by: functions that one choice calls and another does not
    impl = set()
    for f, c in public(p):
        if c == "Downscaler" and names.get(c):
            S = [eng.spec(f, bind_all(f, c, v)) for v in names[c].values()]
            S = [x for x in S if not x.refused]
            if len(S) > 1 and not any(x.opaque for x in S):
                one = set.union(*[x.calls for x in S]) - set.intersection(*[x.calls for x in S])
                impl |= {q for q in one if not q.split("::")[-1].startswith(("get_", "is_", "calc_", "init_"))}
    stats["implementations"] = len(impl)
    for f, c in public(p):
        vals = names.get(c)
        if not vals:
            continue
        lab = labels_for(f, c)
        S = {n: eng.spec(f, bind_all(f, c, v), lab) for n, v in vals.items()}
        none = eng.spec(f, bind_all(f, c, NOTHING), lab)
        stats["functions"] += 1
        stats["specialisations"] += len(S) + 1
        if any(s.opaque for s in S.values()) or none.opaque:
            stats["undecided"] += 1
            continue
        # a value that names nothing
        stats["obligations"] += 1
        if not none.refused:
            report("accepted", f, f.line, "a value that names no %s is not refused" % c, "%s|%s" % (f.sig, c))
        ok = {n: s for n, s in S.items() if not s.refused}
        stats["refused"] += len(S) - len(ok)
        for g, line, name, e in {(x[0], x[1], x[2], x[3]) for s in ok.values() for x in s.fixed}:
            report("fixed", g, line, "%s is always called with %s, whatever was chosen" % (name, e), "%s|%s|%s" % (g.sig, name, e))
        # a calculation of one choice, called whatever was chosen
        for g, line, q in {x for s in ok.values() for x in s.always if x[0].m == f.m}:
            stats["obligations"] += 1
            if c == "Downscaler" and q in impl:
                report("fixed", g, line, "%s is always called, whatever was chosen" % q.split("::")[-1], "%s|%s" % (g.sig, q))
        # two choices, one calculation
        groups = {}
        for n, s in ok.items():
            groups.setdefault(s.hash, []).append(n)
        for h, ns in groups.items():
            stats["obligations"] += len(ns)
            if len(ns) > 1:
                report("same", f, f.line, "%s and %s are the same calculation" % (", ".join(sorted(ns)[:-1]), sorted(ns)[-1]), "%s|%s" % (f.sig, ",".join(sorted(ns))))
        if not none.refused and none.hash:
            for n, s in ok.items():
                if s.hash == none.hash:
                    report("ignored", f, f.line, "%s is treated like a value that names nothing" % n, "%s|%s" % (f.sig, n))
        if c == "Unknown":
            continue
        mapping(eng, f, c, S, ok, report, stats)
    for f in p.functions():
        if in_library(f) and f.body is not None and not f.cls and choice_of(f.ret) and len(f.params) == 1 and "basic_string" in f.params[0]["t"]:
            c = choice_of(f.ret)
            bynames(eng, f, c, names.get(c, {}), report, stats)


def minus(a, b):
    """Features one choice has more of than the other."""
    return {k for k in a.feat if a.feat[k] > b.feat[k]}


def own(s, others):
    """Statements that only this choice reaches."""
    rest = {(x[0], id(x[1]) if x[0] == "assign" else x[1], x[2].m, x[3]) for o in others for x in o.specific}
    return [x for x in s.specific if (x[0], id(x[1]) if x[0] == "assign" else x[1], x[2].m, x[3]) not in rest]


def mapping(eng, f, c, S, ok, report, stats):
    def bad(n, textx, line=None):
        report("mapping", f, line or f.line, textx, "%s|%s" % (f.sig, n))
    if c == "Statistic":
        for n, s in ok.items():
            if n == "Unknown":
                report("mapping", f, f.line, "an unknown statistic is calculated", "%s|Unknown" % f.sig)
                continue
            stats["obligations"] += 1
            levels = lambda x: {k[1] for k in x.feat if isinstance(k, tuple) and k[0] == "quantile" and x.feat[k]}
            qs = levels(s)
            qs -= set.intersection(*[levels(x) for x in ok.values()])
            if n in QUANTILE and qs and qs != {QUANTILE[n]}:
                bad(n, "%s is calculated as the quantile %s" % (n, sorted(qs)))
            if n == "Quantile" and qs:
                bad(n, "the quantile is calculated for the fixed level %s" % sorted(qs))
            if (n == "RandomChoice") != (s.feat["rand"] > 0):
                bad(n, "%s %s" % (n, "draws no random number" if n == "RandomChoice" else "draws random numbers"))
        if "Mean" in ok and "Sum" in ok:
            if "/" not in minus(ok["Mean"], ok["Sum"]):
                bad("Mean/Sum", "the mean is not divided where the sum is not")
        if "Std" in ok and "Variance" in ok:
            if "sqrt" not in minus(ok["Std"], ok["Variance"]):
                bad("Std/Variance", "the standard deviation is not the square root of the variance")
        if "Min" in ok and "Max" in ok:
            rest = [x for m, x in ok.items() if m not in ("Min", "Max")]
            dirs = lambda x: {d for d in ("less", "greater") if x.feat[d] > min([y.feat[d] for y in rest] or [0])}
            a, b = dirs(ok["Min"]), dirs(ok["Max"])
            if "greater" in a and "less" not in a:
                bad("Min", "the minimum keeps the larger value")
            if "less" in b and "greater" not in b:
                bad("Max", "the maximum keeps the smaller value")
        if "Count" in ok:
            others = [ok[n] for n in ("Sum", "Mean") if n in ok]
            if others:
                for kind, e, g, line, var in own(ok["Count"], others):
                    if kind != "assign":
                        continue
                    arrays = {x["id"] for x in g.params if "vector" in x["t"] and "float" in x["t"]}
                    if eng.data_slice(g, e) & arrays:
                        report("mapping", g, line, "the number of values is calculated from the values", "%s|Count" % g.sig)
    elif c == "ComparisonOperator":
        for n, s in ok.items():
            exp = EXPECT_OP.get(n)
            other = [x for m, x in ok.items() if m != n]
            common = set.intersection(*[{(l, g.m) for o, l, g in x.compares} for x in other]) if other else set()
            ops = {(o, l) for o, l, g in s.compares if (l, g.m) not in common or len({x.hash for x in ok.values()}) == 1}
            stats["obligations"] += 1
            if not ops or not exp or any(o is None for o, l in ops):
                stats["comparisons_not_oriented"] += 1
                continue
            if len({o for o, l in ops}) == 1 and {o for o, l in ops} != {exp}:
                bad(n, "%s compares with '%s'" % (n, sorted(ops)[0][0]), sorted(ops)[0][1])
    elif c == "Metric":
        for n, s in ok.items():
            leaves = {g.m: g for kind, e, g, line, var in s.specific if [x["n"] for x in g.params[:4]] == ["a", "b", "c", "d"]}
            for g in leaves.values():
                used = set()
                mine = [(e, var) for kind, e, h, line, var in own(s, [x for m, x in ok.items() if m != n]) if kind == "assign" and h.m == g.m]
                ret = [e for e, var in mine if var is None]
                given = {strip(n["e"]).get("id") for n in walk(g.body) if n.get("k") == "Return" and n.get("e") and strip(n["e"]).get("k") == "Ref"}
                ret += [e for e, var in mine if var in given]
                if not ret:
                    continue
                for e in ret:
                    used |= eng.data_slice(g, e)
                # conditions on exact values of a metric belong to it as well
                letters = {x["n"] for x in g.params if x["id"] in used}
                stats["obligations"] += 1
                need = set(METRIC_ARGS.get(n, ""))
                if not need <= letters:
                    report("mapping", g, None, "%s does not depend on %s" % (n, ", ".join(sorted(need - letters))), "%s|%s" % (g.sig, n))
                if letters & set(METRIC_NOT.get(n, "")):
                    report("mapping", g, None, "%s depends on %s" % (n, ", ".join(sorted(letters & set(METRIC_NOT[n])))), "%s|%s" % (g.sig, n))
        prod = lambda s: s.feat[("prod", "a", "d")] > 0
        lit2 = lambda s: s.feat["lit2"] > 0
        if "Hss" in ok and "Kss" in ok and lit2(ok["Kss"]) and not lit2(ok["Hss"]):
            bad("Kss/Hss", "the two skill scores are exchanged")
        for n in ("Ets", "Ts", "Pc", "Bias"):
            if n in ok and prod(ok[n]) and any(m in ok and not prod(ok[m]) for m in ("Kss", "Hss")):
                bad(n, "%s is calculated as another score" % n)
        if "Pc" in ok and "Ets" in ok and ok["Pc"].feat["*"] > ok["Ets"].feat["*"]:
            bad("Pc", "the proportion correct is calculated as another score")
    elif c == "Extrapolation":
        want = {"Zero": 0.0, "OneToOne": 1.0}
        for n, s in ok.items():
            mine = own(s, [x for m, x in ok.items() if m != n])
            cs = {x[1] for x in mine if x[0] == "const"}
            stats["obligations"] += 1
            if n in want and cs and want[n] not in cs:
                bad(n, "%s continues with the slope %s" % (n, sorted(cs)), mine[0][3])
            if n not in want and cs & {0.0, 1.0} and not [x for x in mine if x[0] == "assign"]:
                bad(n, "%s continues with the fixed slope %s" % (n, sorted(cs)), mine[0][3])
            for kind, e, g, line, var in mine:
                if kind != "assign":
                    continue
                curves = {x["id"] for x in g.params if x["n"].startswith("curve")}
                used = eng.data_slice(g, e)
                if n == "Unchanged" and used & curves:
                    bad(n, "unchanged values are calculated from the curve", line)
                if n in want and not (used & curves) and curves:
                    bad(n, "%s leaves values unchanged" % n, line)
        if "MeanSlope" in ok and "NearestSlope" in ok:
            if ok["MeanSlope"].feat["second"] > ok["NearestSlope"].feat["second"]:
                bad("MeanSlope/NearestSlope", "the two slopes are exchanged")
    elif c == "GradientType":
        if "MinMax" in ok and "LinearRegression" in ok:
            stats["obligations"] += 1
            if ok["MinMax"].feat["*"] > ok["LinearRegression"].feat["*"]:
                bad("MinMax/LinearRegression", "the two gradients are exchanged")
    elif c == "Downscaler":
        for n, s in ok.items():
            stats["obligations"] += 1
            bil = "gridpp::bilinear" in s.calls
            if n == "Nearest" and bil:
                bad(n, "nearest neighbour is calculated bilinearly")
            if n == "Bilinear" and not bil and any("gridpp::bilinear" in x.calls for x in ok.values()):
                bad(n, "bilinear interpolation is not calculated")


def bynames(eng, f, c, vals, report, stats):
    unknown = eng.spec(f, ("no such method",)).ret
    for n, v in vals.items():
        if n == "Unknown":
            continue
        stats["obligations"] += 1
        s = eng.spec(f, (n.lower(),))
        if s.ret is None:
            stats["names_undecided"] += 1
            continue
        if s.ret == unknown or s.refused:
            report("name", f, f.line, "%s cannot be selected by its name" % n, "%s|%s" % (f.sig, n))
        elif s.ret != v:
            report("name", f, f.line, "the name '%s' selects %s" % (n.lower(), [m for m, w in vals.items() if w == s.ret]), "%s|%s" % (f.sig, n))
    if unknown is not None and "Unknown" in vals and unknown != vals["Unknown"]:
        report("name", f, f.line, "a name of no method selects one", "%s|unknown" % f.sig)


class Collect:
    def __init__(self):
        self.got = set()

    def add(self, rule, file, line, q, text, key):
        self.got.add(q.split("::")[-1])


def selftest():
    p = ir.samples("choice")
    c = Collect()
    analyse(p, c, Counter())
    fs = [f for f in p.functions() if f.file.startswith(ir.build.VERIF)]
    want = {f.name for f in fs if f.name.startswith("bad_")}
    if c.got != want:
        raise ir.AnalysisBroken("self-test of the rules on choices: missed %s, wrongly reported %s" % (sorted(want - c.got), sorted(c.got - want)))
    return len(want), len([f for f in fs if f.name.startswith("ok_")])


def check(pid, res, tier):
    nbad, nok = selftest()
    p = ir.load(("api",))
    stats = Counter()
    analyse(p, res, stats)
    res.coverage.update(dict(stats, selftest_bad=nbad, selftest_ok=nok))
    res.floor("functions that take a choice", stats["functions"], 20)
    res.floor("specialisations", stats["specialisations"], 100)
    res.explanation = ("Every public function of the library that takes a statistic, metric, comparison, extrapolation, gradient type or downscaling method, specialised for every choice and for a value that names "
                       "none by constant propagation through all functions it is handed on to; what remains must be refused or differ from what remains for every other choice, and must have the traits of the choice.")
    res.assumptions = ["the traits of a choice (division, square root, quantile level, direction of a comparison, arguments of a score, slopes) stand for its formula; arithmetic is not verified beyond them"]

"""Definite assignment: no scalar variable or data member is read before something was stored in it."""
from .. import ir
from ..ir import kids

SCALARS = {"bool", "char", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned int", "long", "unsigned long", "long long",
           "unsigned long long", "float", "double", "long double"}
STOP = object()


def is_scalar(t, prog):
    t = t.strip()
    if t.startswith("const "):
        t = t[6:]
    return t in SCALARS or t.endswith("*") or t in prog.enums or t.replace("enum ", "") in prog.enums


def terminates(fn):
    return fn.get("noret") or fn.get("q") in ("abort", "exit", "std::abort", "std::exit", "__assert_fail")


class Flow:
    """Forward definite-assignment over one function body; state = frozenset of assigned variables, None = unreachable.
    Correlated conditions: a variable assigned under 'if(c)' counts as assigned below a later 'if(c)' whose variables did not change."""

    def __init__(self, prog, func, track_members=None, entry=()):
        self.p, self.f = prog, func
        self.bad = []
        self.n = 0
        self.vars = {}
        self.members = track_members      # set of field names tracked as ('m', name)
        self.loops = []
        self.cond = {}
        self.status = {}        # variable that holds whether a call stored something -> what

    def key(self, e):
        """textual form of a condition, and the variables in it"""
        import json
        vs = set()
        ok = [True]

        def go(x):
            if isinstance(x, dict):
                if x.get("k") == "Ref":
                    vs.add(x.get("id"))
                if x.get("k") in ("Assign", "New", "Lambda") or x.get("k") == "Un" and x.get("op") in ("++", "--"):
                    ok[0] = False
                return {a: go(b) for a, b in x.items() if a != "l"}
            if isinstance(x, list):
                return [go(y) for y in x]
            return x
        s = json.dumps(go(e), sort_keys=True, default=str)
        return (s, frozenset(v for v in vs if v is not None)) if ok[0] else None

    # state: (assigned set, conditional facts {(condkey, polarity): set})
    def read(self, v, line, st):
        if v in self.vars and v not in st[0]:
            self.bad.append((v, line))
            return self.set(v, st)
        return st

    def set(self, v, st):
        return (st[0] | {v}, st[1])

    def invalidate(self, v, st):
        """v changed: conditions on it are forgotten"""
        if any(v in k[0][1] for k in st[1]):
            return (st[0], {k: s for k, s in st[1].items() if v not in k[0][1]})
        return st

    def join(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        c = {}
        for k in set(a[1]) | set(b[1]):
            x = a[1].get(k, frozenset()) | a[0]
            y = b[1].get(k, frozenset()) | b[0]
            z = x & y
            if z - (a[0] & b[0]):
                c[k] = z
        return (a[0] & b[0], c)

    def assume(self, e, pol, st):
        """state after condition e is known to be pol"""
        if st is None:
            return None
        k = e.get("k")
        if k == "Un" and e.get("op") == "!":
            return self.assume(e["e"], not pol, st)
        if k == "Cast":
            return self.assume(e["e"], pol, st)
        if k == "Bin" and e["op"] == "&&" and pol or k == "Bin" and e["op"] == "||" and not pol:
            return self.assume(e["y"], pol, self.assume(e["x"], pol, st))
        if k == "Bool" and bool(e.get("v")) != pol:
            return None
        if k == "Int" and bool(int(e.get("v", 1))) != pol:
            return None
        if k in ("Call", "MCall") and pol:
            for t in self.given(e):
                st = self.set(t, st)
        if k == "Ref" and pol and e.get("id") in self.status:
            for t in self.status[e["id"]]:
                st = self.set(t, st)
        ck = self.key(e)
        if ck is None:
            return st
        add = st[1].get((ck, pol))
        if add:
            st = (st[0] | add, st[1])
        return st

    def given(self, e):
        """variables that a call stores to when it returns true"""
        while isinstance(e, dict) and e.get("k") == "Cast":
            e = e["e"]
        if not isinstance(e, dict) or e.get("k") not in ("Call", "MCall"):
            return []
        fn, a = e.get("fn") or {}, e.get("a", [])
        pt = fn.get("pt", [])
        off = len(a) - len(pt)
        out = []
        for i, x in enumerate(a):
            ty = pt[i - off].strip() if 0 <= i - off < len(pt) else ""
            if ty.endswith("&") and not ty.startswith("const ") and not ty.endswith("&&"):
                t = self.target(x)
                if t is not None and how_set(self.p, fn, i - off) == "true":
                    out.append(t)
        return out

    def target(self, e):
        while e.get("k") == "Cast":
            e = e["e"]
        if e.get("k") == "Ref" and e.get("id") in self.vars:
            return e["id"]
        if self.members is not None and e.get("k") == "Member":
            o = e.get("b") or {}
            while o.get("k") == "Cast":
                o = o["e"]
            if o.get("k") == "This" and ("m", e.get("n")) in self.vars:
                return ("m", e.get("n"))
        return None

    def ev(self, e, st):
        if not isinstance(e, dict) or st is None:
            return st
        k = e.get("k")
        t = self.target(e)
        if t is not None and k != "Cast":
            return self.read(t, e.get("l"), st)
        if k == "Cast":
            return self.ev(e["e"], st)
        if k == "Assign":
            t = self.target(e["x"])
            st = self.ev(e["y"], st)
            if t is not None:
                if e["op"] != "=":
                    st = self.read(t, e.get("l"), st)
                st = self.set(t, st) if st else st
            else:
                st = self.ev(e["x"], st)
            b = e["x"]
            if b.get("k") == "Ref":
                self.status[b.get("id")] = self.given(e["y"]) if e["op"] == "=" else []
            if st is not None and b.get("k") == "Ref":
                st = self.invalidate(b.get("id"), st)
            return st
        if k == "Un" and e.get("op") in ("++", "--"):
            st = self.ev(e["e"], st)
            if st is not None and e["e"].get("k") == "Ref":
                st = self.invalidate(e["e"].get("id"), st)
            return st
        if k == "Un" and e.get("op") == "&":
            t = self.target(e["e"])
            if t is not None:
                return self.set(t, st)       # its address goes to somebody who stores into it
            return self.ev(e["e"], st)
        if k == "Bin" and e["op"] in ("&&", "||"):
            st = self.ev(e["x"], st)
            r = self.ev(e["y"], self.assume(e["x"], e["op"] == "&&", st))
            s = self.assume(e["x"], e["op"] != "&&", st)
            return self.join(r, s)
        if k == "Cond":
            st = self.ev(e["c"], st)
            return self.join(self.ev(e["x"], self.assume(e["c"], True, st)), self.ev(e["y"], self.assume(e["c"], False, st)))
        if k in ("Call", "MCall", "OpCall", "Construct"):
            fn = e.get("fn") or {}
            a = e.get("a", [])
            pt = fn.get("pt", [])
            off = len(a) - len(pt)
            if e.get("o"):
                st = self.ev(e["o"], st)
            outs = []
            for i, x in enumerate(a):
                ty = pt[i - off].strip() if 0 <= i - off < len(pt) else ""
                t = self.target(x)
                isout = ty.endswith("&") and not ty.startswith("const ") and not ty.endswith("&&")
                if t is not None and (isout or k == "OpCall" and e.get("op") == ">>"):
                    outs.append((i, t))
                else:
                    st = self.ev(x, st)
                    if st is None:
                        return None
                if isout and x.get("k") == "Ref":
                    st = self.invalidate(x.get("id"), st)
            for i, t in outs:
                if how_set(self.p, fn, i - off) != "true":
                    st = self.set(t, st)
            if self.members is not None and k == "MCall" and not fn.get("static") and (e.get("o") or {}).get("k") == "This":
                for g in self.p.targets(fn):
                    for m in assigns(self.p, g):
                        if ("m", m) in self.vars:
                            st = self.set(("m", m), st)
            if terminates(fn) or noreturn(self.p, fn):
                return None
            return st
        if k == "Throw":
            if e.get("e"):
                self.ev(e["e"], st)
            return None
        if k == "Lambda":
            return st
        for c in kids(e):
            st = self.ev(c, st)
        return st

    def stmts(self, L, st):
        for s in L:
            st = self.stmt(s, st)
        return st

    def stmt(self, s, st):
        if not isinstance(s, dict) or st is None:
            return st
        k = s["k"]
        if k == "Block":
            return self.stmts(s["b"], st)
        if k == "Decl":
            for v in s["v"]:
                if v.get("init"):
                    st = self.ev(v["init"], st)
                    self.status[v["id"]] = self.given(v["init"])
                    if st is None:
                        return None
                elif is_scalar(v["t"], self.p) and not v.get("static"):
                    self.vars[v["id"]] = v["n"]
                    st = (st[0] - {v["id"]}, st[1])
                    self.n += 1
            return st
        if k == "Expr":
            return self.ev(s["e"], st)
        if k == "If":
            st = self.stmt(s.get("init"), st)
            if s.get("cv"):
                st = self.stmt(s["cv"], st) if isinstance(s["cv"], dict) else st
            st = self.ev(s["c"], st)
            if st is None:
                return None
            x = self.stmt(s["x"], self.assume(s["c"], True, st))
            y = self.assume(s["c"], False, st)
            if s.get("y"):
                y = self.stmt(s["y"], y)
            if x is None or y is None:
                return self.join(x, y)
            r = self.join(x, y)
            ck = self.key(s["c"])
            if ck:
                c = dict(r[1])
                if x[0] - r[0]:
                    c[(ck, True)] = x[0]
                if y[0] - r[0]:
                    c[(ck, False)] = y[0]
                r = (r[0], c)
                # the condition itself must still mean the same
                for v in changed(s["x"]) | changed(s.get("y")):
                    r = self.invalidate(v, r)
            return r
        if k in ("For", "While", "Do", "RangeFor"):
            if k == "For":
                st = self.stmt(s.get("init"), st)
            if k == "RangeFor":
                st = self.ev(s["r"], st)
            if st is None:
                return None
            for v in changed(s):
                st = self.invalidate(v, st)
            self.loops.append([[], []])
            if k == "Do":
                b = self.stmt(s["b"], st)
                brk, cont = self.loops.pop()
                for c in cont:
                    b = self.join(b, c)
                out = self.ev(s["c"], b) if b is not None else None
                out = self.assume(s["c"], False, out)
            else:
                c = self.ev(s["c"], st) if s.get("c") and k != "RangeFor" else st
                b = self.stmt(s["b"], self.assume(s["c"], True, c) if s.get("c") and k != "RangeFor" else c)
                brk, cont = self.loops.pop()
                for x in cont:
                    b = self.join(b, x)
                if s.get("inc") and b is not None:
                    self.ev(s["inc"], b)
                out = (self.assume(s["c"], False, c) if s.get("c") else None) if k != "RangeFor" else c
            for x in brk:
                out = self.join(out, x)
            return out
        if k == "Return":
            if s.get("e"):
                st = self.ev(s["e"], st)
            if st is not None and hasattr(self, "exits"):
                self.exits.append(st)
            if st is not None and hasattr(self, "returned"):
                self.returned.append((st, s.get("e")))
            return None
        if k == "Break":
            if self.loops:
                self.loops[-1][0].append(st)
            return None
        if k == "Continue":
            for L in reversed(self.loops):
                if L[1] is not None:
                    L[1].append(st)
                    break
            return None
        if k == "Switch":
            st = self.ev(s["c"], st)
            if st is None:
                return None
            self.loops.append([[], None])
            self.sw = getattr(self, "sw", [])
            self.sw.append([st, False])
            out = self.stmt(s["b"], None) if False else self.switch(s["b"], st)
            brk, _ = self.loops.pop()
            entry, hasdef = self.sw.pop()
            if not hasdef:
                out = self.join(out, entry)
            for x in brk:
                out = self.join(out, x)
            return out
        if k == "Try":
            b = self.stmt(s["b"], st)
            for h in s["h"]:
                b = self.join(b, self.stmt(h["b"], st))
            return b
        if k == "OMP":
            return self.stmt(s.get("b"), st)
        return st

    def switch(self, body, entry):
        st = None
        todo = body["b"] if body.get("k") == "Block" else [body]
        for s in todo:
            while isinstance(s, dict) and s.get("k") in ("Case", "Default"):
                if s["k"] == "Default":
                    self.sw[-1][1] = True
                st = self.join(st, entry)
                s = s.get("b")
            st = self.stmt(s, st)
        return st


def changed(n):
    """ids of variables assigned anywhere below n"""
    out = set()
    todo = [n]
    while todo:
        x = todo.pop()
        if isinstance(x, list):
            todo += x
        elif isinstance(x, dict):
            if x.get("k") == "Assign" and x["x"].get("k") == "Ref":
                out.add(x["x"].get("id"))
            if x.get("k") == "Un" and x.get("op") in ("++", "--") and x["e"].get("k") == "Ref":
                out.add(x["e"].get("id"))
            todo += [v for v in x.values() if isinstance(v, (dict, list))]
    return out


_how = {}


def how_set(prog, fn, i):
    """how a function stores to its i-th parameter: "true" if it does on every path that returns true and on none that returns false; else "always" (assumed)"""
    ts = [g for g in prog.targets(fn) if g.body is not None]
    if not ts:
        return "always"
    return "true" if all(sets_when_true(prog, g, i) for g in ts) else "always"


def sets_when_true(prog, g, i):
    key = (g.m, i)
    if key in _how:
        return _how[key]
    _how[key] = False
    if not 0 <= i < len(g.params) or g.d.get("ret", "bool") not in ("bool", "_Bool"):
        return False
    fl = Flow(prog, g)
    fl.vars[g.params[i]["id"]] = g.params[i]["n"]
    fl.exits = []
    fl.returned = []
    fl.stmt(g.body, (frozenset(), {}))
    yes = no = 0
    for st, e in fl.returned:
        while isinstance(e, dict) and e.get("k") == "Cast":
            e = e["e"]
        if not isinstance(e, dict) or e.get("k") not in ("Bool", "Int"):
            return False
        v = bool(int(e.get("v", 0))) if e["k"] == "Int" else bool(e.get("v"))
        has = g.params[i]["id"] in st[0]
        if v and not has:
            return False
        yes += v
        no += (not v) and not has
    _how[key] = bool(yes and no)
    return _how[key]


_noret = {}


def noreturn(prog, fn):
    """No path of the called function returns."""
    ts = prog.targets(fn)
    if not ts:
        return False
    return all(never(prog, g) for g in ts)


def never(prog, g):
    if g.m in _noret:
        return _noret[g.m]
    _noret[g.m] = False
    if g.body is None or g.is_ctor or g.is_dtor:
        return False
    fl = Flow(prog, g)
    fl.exits = []
    st = fl.stmt(g.body, (frozenset(), {}))
    _noret[g.m] = st is None and not fl.exits
    return _noret[g.m]


def members_unset(prog, f):
    """Scalar data members a constructor may leave without a value: [name]."""
    fields = scalar_fields(prog, f.cls)
    if not fields or f.implicit and f.params:      # implicit copies copy every member
        return []
    inits = f.d.get("inits") or []
    if any(i.get("deleg") for i in inits):
        return []
    fl = Flow(prog, f, fields)
    for n in fields:
        fl.vars[("m", n)] = n
    fl.exits = []
    st = (frozenset(("m", i["n"]) for i in inits if i.get("n") and i.get("e")), {})
    st = fl.stmt(f.body, st) if f.body else st
    ex = fl.exits + ([st] if st is not None else [])
    return sorted(n for n in fields if any(("m", n) not in e[0] for e in ex))


_assigns = {}


def assigns(prog, g, depth=0):
    """fields of *this that member function g assigns on every normal path"""
    if g.m in _assigns:
        return _assigns[g.m]
    _assigns[g.m] = frozenset()
    if depth > 5 or not g.cls:
        return frozenset()
    fields = scalar_fields(prog, g.cls)
    if not fields:
        return frozenset()
    fl = Flow(prog, g, fields)
    for n in fields:
        fl.vars[("m", n)] = n
    fl.exits = []
    st = fl.stmt(g.body, (frozenset(), {})) if g.body else None
    ex = fl.exits + ([st] if st is not None else [])
    out = frozenset(n for n in fields if ex and all(("m", n) in e[0] for e in ex))
    _assigns[g.m] = out
    return out


def scalar_fields(prog, cls):
    r = prog.records.get(cls)
    return {x["n"] for x in r["fields"] if is_scalar(x["t"], prog) and not x.get("hasinit")} if r else set()


def locals_of(prog, f):
    fl = Flow(prog, f)
    if f.body:
        fl.stmt(f.body, (frozenset(), {}))
    return fl

"""C08: every element of a result is computed or marked missing; none keeps the zero an array starts with."""
import json
from collections import Counter
from .. import ir
from ..effects import is_const_ref, is_ref
from ..ir import walk, kids
from .init import changed
from .pure import library

# zero is what the element means there
ZERO = {("staticcorr_points", "output"): "points further away than the localization distance are uncorrelated"}

STMT = {"Block", "Decl", "Expr", "If", "For", "While", "Do", "RangeFor", "Switch", "Case", "Default", "Return", "Break", "Continue", "Nop", "Try", "OMP"}


def uncast(e):
    while isinstance(e, dict) and (e.get("k") in ("Cast", "DefaultArg") or e.get("k") == "Construct" and len(e.get("a", [])) == 1 and (e.get("move") or e.get("copy"))):
        e = e["e"] if "e" in e else e["a"][0]
    return e


def depth(t):
    t = ir.noalloc(t).replace("const ", "").replace("&", "").strip()
    return t.count("std::vector<")


def elem(t):
    return ir.noalloc(t).replace("const ", "").replace("&", "").strip().rsplit("std::vector<", 1)[-1].split(",")[0].split(">")[0].strip()


def indexed(e):
    """A[i][j]... -> (variable id, [index expressions]) or None"""
    idx = []
    e = uncast(e)
    while isinstance(e, dict):
        if e.get("k") == "OpCall" and e.get("op") == "[]" and len(e["a"]) == 2:
            idx.append(uncast(e["a"][1]))
            e = uncast(e["a"][0])
        elif e.get("k") == "MCall" and (e.get("fn") or {}).get("q", "").split("::")[-1] == "at" and len(e.get("a", [])) == 1:
            idx.append(uncast(e["a"][0]))
            e = uncast(e["o"])
        elif e.get("k") == "Index":
            idx.append(uncast(e.get("i") or e.get("y")))
            e = uncast(e.get("b") or e.get("x"))
        else:
            break
    if isinstance(e, dict) and e.get("k") == "Ref" and e.get("rk") in ("local", "param"):
        return e["id"], idx[::-1]
    if isinstance(e, dict) and e.get("k") == "Member" and (e.get("b") or {}).get("k") == "This":
        return "this." + e["n"], idx[::-1]
    return None


def is_missing(e, inits):
    e = uncast(e)
    if isinstance(e, dict):
        if e.get("k") == "Ref" and e.get("q") == "gridpp::MV":
            return True
        if e.get("k") == "Ref" and e.get("rk") == "local" and e["id"] in inits:
            return is_missing(inits[e["id"]], {})
        if e.get("k") in ("Call", "MCall") and (e.get("fn") or {}).get("q", "").split("::")[-1] in ("nanf", "nan", "quiet_NaN"):
            return True
    return False


def literal(e):
    """A number written in the source (an arbitrary filler)."""
    e = uncast(e)
    if isinstance(e, dict):
        if e.get("k") in ("Int", "Float", "Bool", "ZeroInit"):
            return True
        if e.get("k") == "Un" and e.get("op") in ("-", "+"):
            return literal(e["e"])
    return False


class Array:
    def __init__(self, vid, name, t, line):
        self.vid, self.name, self.t, self.line = vid, name, t, line
        self.fill = []        # (kind, line): 'missing' 'value' 'literal' 'implicit' 'copy'
        self.grown = False    # push_back
        self.accum = False    # += on elements
        self.opaque = False   # handed to code this rule does not follow
        self.stores = []


class Function:
    def __init__(self, p, f):
        self.p, self.f = p, f
        self.arrays = {}
        self.inits = {}
        ch = changed(f.body)
        for n in walk(f.body):
            if isinstance(n, dict) and n.get("k") == "Decl":
                for v in n["v"]:
                    if v.get("init") is not None and v["id"] not in ch and not depth(v["t"]):
                        self.inits[v["id"]] = v["init"]
        self.collect()

    # ---- which arrays make up the result
    def collect(self):
        f = self.f
        res = set()
        for n in walk(f.body):
            if not isinstance(n, dict):
                continue
            if n.get("k") == "Return" and n.get("e"):
                e = uncast(n["e"])
                if e.get("k") == "Ref" and e.get("rk") in ("local", "param"):
                    res.add(e["id"])
        outs = {p["id"] for p in f.params if is_ref(p["t"]) and not is_const_ref(p["t"])}
        res |= outs
        # arrays copied whole (or by rows) into a result are part of it
        again = True
        while again:
            again = False
            for n in walk(f.body):
                if not isinstance(n, dict):
                    continue
                pair = None
                if n.get("k") == "OpCall" and n.get("op") == "=" and len(n["a"]) == 2:
                    pair = (n["a"][0], n["a"][1])
                elif n.get("k") == "MCall" and (n.get("fn") or {}).get("q", "").split("::")[-1] == "push_back" and n.get("a"):
                    pair = (n["o"], n["a"][0])
                if pair:
                    x, y = indexed(pair[0]), uncast(pair[1])
                    if x and x[0] in res and isinstance(y, dict) and y.get("k") == "Ref" and y.get("rk") == "local" and depth(y.get("t", "")) and y["id"] not in res:
                        res.add(y["id"])
                        again = True
        self.results = res
        for n in walk(f.body):
            if isinstance(n, dict) and n.get("k") == "Decl":
                for v in n["v"]:
                    if v["id"] in res and depth(v["t"]) and not is_ref(v["t"]) and elem(v["t"]) in ("float", "double", "int", "bool"):
                        a = self.arrays[v["id"]] = Array(v["id"], v["n"], v["t"], v["l"])
                        self.alloc(a, v.get("init"), depth(v["t"]), v["l"])
        for q in f.params:
            if q["id"] in outs and depth(q["t"]) and elem(q["t"]) in ("float", "double", "int", "bool"):
                self.arrays[q["id"]] = Array(q["id"], q["n"], q["t"], f.line)
        if f.cls and not f.const:
            for x in (self.p.records.get(f.cls) or {}).get("fields", []):
                if depth(x["t"]) and elem(x["t"]) in ("float", "double", "int", "bool"):
                    vid = "this." + x["n"]
                    self.arrays[vid] = Array(vid, x["n"], x["t"], f.line)
        for n in walk(f.body):
            if isinstance(n, dict):
                self.use(n)

    def alloc(self, a, e, d, line, args=None):
        """What the elements hold after 'array of d levels = e' """
        if e is None:
            return
        e = uncast(e)
        if e.get("k") == "Construct" and args is None:
            args = e.get("a", [])
            pt = (e.get("fn") or {}).get("pt", [])
            if not args:
                return
            if args and not (pt and ("unsigned long" in pt[0] or "size_type" in pt[0] or pt[0] in ("int", "unsigned int"))):
                a.fill.append(("copy", line))
                return
        elif e.get("k") == "Call" and (e.get("fn") or {}).get("q", "").split("::")[-1].startswith("init_") and args is None:
            x = e["a"][-1]
            self.kind(a, x, line)
            return
        elif args is None:
            a.fill.append(("copy", line))
            return
        args = [x for x in args if "std::allocator" not in x.get("t", "")]
        if len(args) == 1:
            if d == 1:
                a.fill.append(("implicit", line))
            return
        x = uncast(args[1])
        if d > 1:
            if x.get("k") == "Construct" and depth(x.get("t", "")):
                self.alloc(a, x, d - 1, line)
                return
            a.fill.append(("copy", line))
            return
        self.kind(a, x, line)

    def kind(self, a, x, line):
        y = uncast(x)
        if isinstance(y, dict) and y.get("k") == "Ref" and y.get("id") in self.inits:
            y = uncast(self.inits[y["id"]])
        if isinstance(y, dict) and y.get("k") == "Cond":
            self.kind(a, y["x"], line)
            self.kind(a, y["y"], line)
        elif is_missing(x, self.inits):
            a.fill.append(("missing", line))
        elif literal(x) or uncast(x).get("k") == "Ref" and uncast(x).get("id") in self.inits and literal(self.inits[uncast(x)["id"]]):
            a.fill.append(("literal", line))
        else:
            a.fill.append(("value", line))

    def use(self, n):
        k = n.get("k")
        if k == "MCall":
            x = indexed(n.get("o") or {})
            name = (n.get("fn") or {}).get("q", "").split("::")[-1]
            if x and x[0] in self.arrays:
                a = self.arrays[x[0]]
                if name in ("push_back", "emplace_back", "insert"):
                    a.grown = True
                elif name in ("resize", "assign"):
                    self.alloc(a, n["o"], depth(a.t) - len(x[1]), n["l"], args=n.get("a", []))
                elif name in ("begin", "end", "data", "swap", "rbegin", "front", "back", "emplace"):
                    a.opaque = True
        if k in ("Call", "MCall", "Construct"):
            pt = (n.get("fn") or {}).get("pt", [])
            for t, e in zip(pt, n.get("a", [])):
                if is_ref(t) and not is_const_ref(t) and not t.strip().endswith("&&") or t.strip().endswith("*"):
                    x = indexed(e)
                    if x and x[0] in self.arrays:
                        self.arrays[x[0]].opaque = True
        if k == "Un" and n.get("op") in ("&",):
            x = indexed(n["e"])
            if x and x[0] in self.arrays:
                self.arrays[x[0]].opaque = True
        if k == "Un" and n.get("op") in ("++", "--"):
            x = indexed(n["e"])
            if x and x[0] in self.arrays and x[1]:
                self.arrays[x[0]].accum = True
        if k == "Decl":
            for v in n["v"]:
                if is_ref(v["t"]) and not is_const_ref(v["t"]) and v.get("init"):
                    x = indexed(v["init"])
                    if x and x[0] in self.arrays:
                        self.arrays[x[0]].opaque = True
        if k == "RangeFor" and is_ref(n["v"]["t"]) and not is_const_ref(n["v"]["t"]):
            x = indexed(n["r"])
            if x and x[0] in self.arrays:
                self.arrays[x[0]].opaque = True
        if k == "Lambda":
            for m in walk(n):
                if isinstance(m, dict) and m.get("k") == "Ref" and m.get("id") in self.arrays:
                    self.arrays[m["id"]].opaque = True
        st = self.store(n)
        if st and st[0] in self.arrays and st[1]:
            if n.get("op") != "=":
                self.arrays[st[0]].accum = True
            self.arrays[st[0]].stores.append((st[1], n["l"]))

    def store(self, n):
        if n.get("k") == "Assign" or n.get("k") == "OpCall" and n.get("op") == "=" and n.get("a"):
            return indexed(n["x"] if n["k"] == "Assign" else n["a"][0])
        return None

    # ---- is an element stored on every path of the loops around it?
    def covered(self, a):
        self.a = a
        self.gaps = []
        self.final = []
        self.alive = False
        self.early = []
        self.conds = []
        self.extents = set()
        for n in walk(self.f.body):
            if isinstance(n, dict) and n.get("k") == "Decl":
                for v in n["v"]:
                    if v["id"] == a.vid and v.get("init"):
                        for x in walk(v["init"]):
                            if isinstance(x, dict) and "k" in x:
                                self.extents.add(self.canon(x))
            elif isinstance(n, dict) and n.get("k") == "MCall" and (n.get("fn") or {}).get("q", "").split("::")[-1] in ("resize", "assign"):
                x = indexed(n.get("o") or {})
                if x and x[0] == a.vid and n.get("a"):
                    self.extents.add(self.canon(n["a"][0]))
        st = self.flow(self.f.body, False, {})
        if st is not None:
            self.final.append(st)
        # at the end of the function; an early return hands back an array without elements, or one that is filled
        return all(self.final[-1:]) and not self.early

    def emptied(self, c):
        """Does the condition say that one of the array's own extents is zero?"""
        c = uncast(c)
        if c.get("k") == "Bin" and c["op"] in ("||", "&&"):
            r = self.emptied(c["x"]), self.emptied(c["y"])
            return all(r) if c["op"] == "||" else any(r)
        if c.get("k") == "Bin" and c["op"] in ("==", "<=", "<"):
            z = uncast(c["y"])
            return z.get("k") == "Int" and z.get("v") == (1 if c["op"] == "<" else 0) and self.canon(c["x"]) in self.extents
        if c.get("k") == "MCall" and (c.get("fn") or {}).get("q", "").endswith("::empty"):
            return any('"%s"' % c["o"].get("id") in x for x in self.extents)
        return False

    def canon(self, e, d=0):
        e = uncast(e)
        if isinstance(e, dict) and e.get("k") == "Ref" and e.get("id") in self.inits and d < 8:
            return self.canon(self.inits[e["id"]], d + 1)

        def go(x):
            if isinstance(x, dict):
                x = uncast(x)
                if x.get("k") == "Ref" and x.get("id") in self.inits and d < 8:
                    return self.canon(x, d + 1)
                return {k: go(v) for k, v in x.items() if k not in ("l", "t", "cap", "isconst", "fi")}
            if isinstance(x, list):
                return [go(y) for y in x]
            return x
        return json.dumps(go(e), sort_keys=True, default=str)

    def loop(self, s):
        """(variable, starts at zero, bound expression) of a counting loop"""
        i = s.get("init") or {}
        v = None
        start = None
        if i.get("k") == "Decl" and i["v"]:
            v, start = i["v"][0]["id"], i["v"][0].get("init")
        elif i.get("k") == "Expr" and i["e"].get("k") == "Assign" and i["e"]["x"].get("k") == "Ref":
            v, start = i["e"]["x"]["id"], i["e"]["y"]
        if v is None:
            return None
        c = uncast(s.get("c") or {})
        bound = None
        if c.get("k") == "Bin" and c["op"] in ("<", "!=") and uncast(c["x"]).get("id") == v:
            bound = uncast(c["y"])
        z = uncast(start) if start else {}
        return v, z.get("k") == "Int" and z.get("v") == 0, z, bound

    def flow(self, s, st, env):
        """state after s: True when every element (for the loop variables in env) was stored; None when s does not complete"""
        if not isinstance(s, dict) or st is None:
            return st
        k = s["k"]
        if k == "Block":
            for x in s["b"]:
                st = self.flow(x, st, env)
            return st
        if k == "Expr":
            return self.ev(s["e"], st, env)
        if k == "Decl":
            for v in s["v"]:
                if v.get("id") == self.a.vid and v.get("init") is not None:
                    if ("copy", v["l"]) in self.a.fill:
                        st = True
                    elif any(k in ("literal", "implicit") and l == v["l"] for k, l in self.a.fill):
                        self.alive = True
            return st
        if k == "If":
            st = self.ev(s["c"], st, env)
            self.conds.append(s["c"])
            x = self.flow(s["x"], st, env)
            self.conds.pop()
            y = self.flow(s["y"], st, env) if s.get("y") else st
            return y if x is None else x if y is None else x and y
        if k == "For" or k == "RangeFor" or k == "While" or k == "Do":
            self.ends.append([])
            e2 = dict(env)
            lp = self.loop(s) if k == "For" else None
            if lp:
                e2[lp[0]] = lp
            b = self.flow(s["b"], st, e2)
            ends = [x for x in self.ends.pop() if x is not None]
            if b is not None:
                ends.append(b)
            if lp and ends and all(ends):
                return True
            if k == "Do" and ends and all(ends):
                return True
            return st
        if k == "Return":
            self.final.append(st)
            e = uncast(s["e"]) if s.get("e") else {}
            if st is False and self.alive and e.get("k") == "Ref" and e.get("id") == self.a.vid and self.conds and not any(self.emptied(c) for c in self.conds):
                self.early.append(s["l"])
            return None
        if k in ("Break", "Continue"):
            if self.ends:
                self.ends[-1].append(st)
            return None
        if k == "Switch":
            # every case stores, and there is a default (or the cases are all there are)
            self.ends.append([])
            outs, cur, hasdef = [], None, False
            body = s["b"]["b"] if s["b"].get("k") == "Block" else [s["b"]]
            for x in body:
                while isinstance(x, dict) and x.get("k") in ("Case", "Default"):
                    hasdef |= x["k"] == "Default"
                    cur = st if cur is None else cur and st
                    x = x.get("b")
                cur = self.flow(x, cur, env)
            outs = [x for x in self.ends.pop() if x is not None]
            if cur is not None:
                outs.append(cur)
            if not hasdef:
                outs.append(st)
            return all(outs) if outs else None
        if k == "Try":
            b = self.flow(s["b"], st, env)
            for h in s["h"]:
                if any(isinstance(x, dict) and ((x.get("fn") or {}).get("q") == "std::current_exception" or x.get("k") == "Throw") for x in walk(h["b"])):
                    continue      # the call ends in that exception
                x = self.flow(h["b"], st, env)
                b = x if b is None else b if x is None else b and x
            return b
        if k == "OMP":
            return self.flow(s.get("b"), st, env)
        return st

    def ev(self, e, st, env):
        if not isinstance(e, dict):
            return st
        if e.get("k") == "Throw":
            return None
        x = self.store(e)
        if x and x[0] == self.a.vid:
            return True if self.full(x[1], env) else st
        if e.get("k") in ("Call", "MCall") and (e.get("fn") or {}).get("noret"):
            return None
        return st

    def full(self, idx, env):
        for i in idx:
            if i.get("k") == "Ref" and i.get("id") in env:
                v, zero, start, bound = env[i["id"]]
                if start.get("k") == "Int" and not zero:
                    return False          # starts after the first element
                if bound is not None and bound.get("k") == "Bin" and bound["op"] == "-" and uncast(bound["y"]).get("k") == "Int":
                    return False          # ends before the last
                continue
            if i.get("k") == "Ref" and i.get("id") not in self.inits:
                continue                  # a counter of its own, a variable computed in the loop
            if i.get("k") in ("Int",):
                return False
        return True

    ends = None


def invalid_when(c, pol):
    """The condition having this outcome means that some value is missing."""
    c = uncast(c)
    k = c.get("k")
    if k == "Un" and c.get("op") == "!":
        return invalid_when(c["e"], not pol)
    if k == "Bin" and (c["op"] == "||" and pol or c["op"] == "&&" and not pol):
        return invalid_when(c["x"], pol) and invalid_when(c["y"], pol)
    if k == "Bin" and (c["op"] == "&&" and pol or c["op"] == "||" and not pol):
        return invalid_when(c["x"], pol) or invalid_when(c["y"], pol)
    q = (c.get("fn") or {}).get("q", "") if k == "Call" else ""
    if q == "gridpp::is_valid":
        return not pol
    if q in ("std::isnan", "isnan"):
        return pol
    return False


def countvars(f):
    """Local integers that count something: initialised from size(), or incremented elsewhere than in the head of a loop; not used as indices."""
    c, ix, heads = set(), set(), set()
    for n in walk(f.body):
        if not isinstance(n, dict):
            continue
        if n.get("k") == "For" and n.get("inc"):
            heads |= {m["id"] for m in walk(n["inc"]) if isinstance(m, dict) and m.get("k") == "Ref" and "id" in m}
        if n.get("k") == "Un" and n.get("op") == "++" or n.get("k") == "Assign" and n.get("op") == "+=":
            e = uncast(n["e"] if n["k"] == "Un" else n["x"])
            if e.get("k") == "Ref" and e.get("rk") == "local" and (e.get("t") or "").replace("const ", "") in ("int", "unsigned int", "unsigned long", "long"):
                c.add(e["id"])
        if n.get("k") == "Decl":
            for v in n["v"]:
                i = uncast(v.get("init")) if v.get("init") else {}
                if i.get("k") == "MCall" and (i.get("fn") or {}).get("q", "").endswith("::size") and "std::vector" in i["fn"]["q"]:
                    c.add(v["id"])
        if n.get("k") == "OpCall" and n.get("op") == "[]" or n.get("k") == "Index":
            i = n["a"][1] if n["k"] == "OpCall" else n.get("i") or n.get("y")
            ix |= {m["id"] for m in walk(i) if isinstance(m, dict) and m.get("k") == "Ref" and "id" in m} if isinstance(i, dict) else set()
    return c - ix - heads


counters = set()


def nothing_when(c, pol):
    """The condition having this outcome means that a value is missing or that there is nothing to compute from (an empty list, a count of zero)."""
    if invalid_when(c, pol):
        return True
    c = uncast(c)
    k = c.get("k")
    if k == "Un" and c.get("op") == "!":
        return nothing_when(c["e"], not pol)
    if k == "Bin" and (c["op"] == "||" and pol or c["op"] == "&&" and not pol):
        return nothing_when(c["x"], pol) and nothing_when(c["y"], pol)
    if k == "Bin" and (c["op"] == "&&" and pol or c["op"] == "||" and not pol):
        return nothing_when(c["x"], pol) or nothing_when(c["y"], pol)
    if k == "Bin" and c["op"] in ("==", "!=", ">", "<=", "<", ">="):
        x, y = uncast(c["x"]), uncast(c["y"])
        t = (x.get("t") or "").replace("const ", "").replace("&", "").strip()
        sized = x.get("k") == "MCall" and (x.get("fn") or {}).get("q", "").endswith("::size") and "std::vector" in (x["fn"]["q"])
        counter = x.get("k") == "Ref" and x.get("id") in counters
        if (sized or counter) and y.get("k") == "Int":
            z = {"==": (True, 0), "!=": (False, 0), ">": (False, 0), "<=": (True, 0), "<": (True, 1), ">=": (False, 1)}[c["op"]]
            return z == (pol, y.get("v"))
    if k == "MCall" and (c.get("fn") or {}).get("q", "").endswith("::empty"):
        return pol
    return False


class Fallback:
    """A local variable that starts as a number of the source and still is that number where a value is missing: does it become a result?"""

    def __init__(self, fn, isf, vid, name):
        self.fn, self.isf, self.vid, self.name, self.out = fn, isf, vid, name, []

    # states: None (path ended), 'c' computed, 'l' literal, 'm' literal where something is missing
    @staticmethod
    def join(a, b):
        if a is None or b is None:
            return a or b
        return "m" if "m" in (a, b) else "l" if "l" in (a, b) else "c"

    def expr(self, e, st):
        for n in walk(e):
            if isinstance(n, dict) and n.get("k") in ("Assign", "OpCall") and n.get("op") == "=":
                y = uncast(n.get("y") if n["k"] == "Assign" else n["a"][-1])
                x = n.get("x") if n["k"] == "Assign" else n["a"][0]
                if uncast(x).get("id") == self.vid and uncast(x).get("k") == "Ref":
                    st = (st if st == "m" else "l") if literal(y) else "c"
                    if st == "l" and self.under:
                        st = "m"
                    continue
                p = self.fn.store(n)
                if p and p[1] and p[0] in self.fn.arrays and elem(self.fn.arrays[p[0]].t) in ("float", "double") and y.get("k") == "Ref" and y.get("id") == self.vid and st == "m":
                    self.out.append((n["l"], "'%s' (through '%s')" % (self.fn.arrays[p[0]].name, self.name)))
        return st

    under = 0

    def go(self, s, st):
        if st is None or not isinstance(s, dict):
            return st
        k = s["k"]
        if k == "Block":
            for x in s["b"]:
                st = self.go(x, st)
            return st
        if k == "Decl":
            for v in s["v"]:
                if v["id"] == self.vid:
                    st = "l" if v.get("init") is not None and literal(v["init"]) else "c"
                elif v.get("init"):
                    st = self.expr(v["init"], st)
            return st
        if k == "If":
            st = self.expr(s["c"], st)
            r = []
            for br, pol in ((s.get("x"), True), (s.get("y"), False)):
                w = nothing_when(s["c"], pol)
                self.under += w
                b = "m" if st == "l" and w else st
                r.append(self.go(br, b) if br else b)
                self.under -= w
            return self.join(*r)
        if k in ("For", "RangeFor", "While", "Do"):
            if s.get("init"):
                st = self.go(s["init"], st)
            b = self.go(s.get("b"), st)
            return "c" if b == "c" else b if b is not None else st
        if k == "Return":
            e = uncast(s["e"]) if s.get("e") else {}
            if self.isf and st == "m" and e.get("k") == "Ref" and e.get("id") == self.vid:
                self.out.append((s["l"], "the value returned (through '%s')" % self.name))
            return None
        if k in ("Break", "Continue"):
            return None
        if k in ("Try", "OMP"):
            return self.go(s.get("b"), st)
        if k == "Expr":
            if uncast(s["e"]).get("k") == "Throw":
                return None
            return self.expr(s["e"], st)
        return st


def fallbacks(f, fn, isf):
    cand = {}
    for n in walk(f.body):
        if isinstance(n, dict) and n.get("k") == "Decl":
            for v in n["v"]:
                if v["t"].replace("const ", "").strip() in ("float", "double") and v.get("init") is not None and not v.get("static"):
                    cand[v["id"]] = v["n"]
    for n in walk(f.body):
        if not isinstance(n, dict):
            continue
        bad = None
        if n.get("k") == "Assign" and n.get("op") != "=":
            bad = n["x"]
        elif n.get("k") == "Un" and n.get("op") in ("++", "--", "&"):
            bad = n["e"]
        elif n.get("k") in ("Call", "MCall", "Construct"):
            for t, e in zip((n.get("fn") or {}).get("pt", []), n.get("a", [])):
                if is_ref(t) and not is_const_ref(t):
                    cand.pop(uncast(e).get("id"), None)
        elif n.get("k") == "Lambda":
            for m in walk(n):
                if isinstance(m, dict) and m.get("k") == "Ref":
                    cand.pop(m.get("id"), None)
        elif n.get("k") == "Decl":
            for v in n["v"]:
                if is_ref(v["t"]) and not is_const_ref(v["t"]) and v.get("init"):
                    cand.pop(uncast(v["init"]).get("id"), None)
        elif n.get("k") == "Bin" and n.get("op") in ("+", "-"):
            # a term of a sum, for which zero means no change
            cand.pop(uncast(n["x"]).get("id"), None)
            cand.pop(uncast(n["y"]).get("id"), None)
        if bad is not None:
            cand.pop(uncast(bad).get("id"), None)
    out = []
    for vid, name in cand.items():
        b = Fallback(fn, isf, vid, name)
        b.go(f.body, "c")
        out += b.out
    return out


def numbers_for_missing(f, fn, st):
    """Places where an element of the result becomes a literal because an input is missing."""
    out = []
    counters.clear()
    counters.update(countvars(f))
    isf = elem(f.ret) == "float" and not depth(f.ret) or f.ret in ("float", "double")

    def here(s, local=()):
        for n in walk(s):
            if not isinstance(n, dict):
                continue
            if n.get("k") in ("Assign", "OpCall"):
                x = fn.store(n)
                y = n.get("y") if n["k"] == "Assign" else n["a"][-1]
                if x and x[1] and n.get("op") == "=" and x[0] in fn.arrays and elem(fn.arrays[x[0]].t) in ("float", "double") and literal(y):
                    out.append((n["l"], "'%s'" % fn.arrays[x[0]].name))
            if n.get("k") == "Return" and isf and n.get("e") and literal(n["e"]):
                out.append((n["l"], "the value returned"))
    for n in walk(f.body):
        if isinstance(n, dict) and n.get("k") == "If":
            for br, pol in ((n.get("x"), True), (n.get("y"), False)):
                if nothing_when(n["c"], pol):
                    st["branches_for_missing_values"] += 1
                    if br:
                        here(br)
        elif isinstance(n, dict) and n.get("k") == "Cond":
            for br, pol in ((n["x"], True), (n["y"], False)):
                if nothing_when(n["c"], pol):
                    st["branches_for_missing_values"] += 1
                    if literal(br) and (invalid_when(n["c"], pol) or uncast(n).get("t") in ("float", "double")):
                        out.append((n["l"], "the value"))
    return out + fallbacks(f, fn, isf)


def only_called_from(p, funcs, start):
    """start and the functions all of whose callers are in the set"""
    callers = {}
    for f in funcs:
        if f.body is not None:
            for n in walk(f.body):
                if isinstance(n, dict) and n.get("k") in ("Call", "MCall") and (n.get("fn") or {}).get("m"):
                    callers.setdefault(n["fn"]["m"], set()).add(f.m)
    out = set(start)
    again = True
    while again:
        again = False
        for f in funcs:
            if f.m not in out and callers.get(f.m) and callers[f.m] <= out:
                out.add(f.m)
                again = True
    return out


def findings(p, funcs, st):
    out = []
    # a length scale that is missing switches that part of a structure function off (correlation 1)
    undefined_means_off = only_called_from(p, funcs, {f.m for f in funcs if f.cls and (f.cls == "gridpp::StructureFunction" or "gridpp::StructureFunction" in p.bases_closure(f.cls))})
    for f in funcs:
        if f.body is not None and not f.implicit and not f.name.startswith("test_"):
            fn = Function(p, f)
            if f.m in undefined_means_off:
                continue
            for line, what in numbers_for_missing(f, fn, st):
                out.append((f, "number-for-missing", line, "%s becomes a literal number where an input is missing" % what, "number-for-missing|%s|%s" % (f.sig, what)))
    for f in funcs:
        if f.body is None or f.implicit or f.name.startswith("test_"):
            continue
        if not (f.cls and not f.const or depth(f.ret) or any(is_ref(q["t"]) and not is_const_ref(q["t"]) and depth(q["t"]) for q in f.params)):
            continue
        fn = Function(p, f)
        fn.ends = []
        st["functions"] += 1
        for a in fn.arrays.values():
            st["result_arrays"] += 1
            kinds = {k for k, l in a.fill}
            bad = [l for k, l in a.fill if k in ("implicit", "literal")]
            if not bad:
                st["start_missing_or_copied"] += bool(kinds)
                continue
            if a.grown or a.accum or a.opaque or any(i.get("k") == "Int" for idx, l in a.stores for i in idx):
                st["accumulated_grown_or_filled_elsewhere"] += 1
                continue
            if not a.stores and not str(a.vid).startswith("this."):
                st["constant_results"] += 1
                continue
            if (f.q.split("::")[-1], a.name) in ZERO:
                st["zero_by_definition"] += 1
                continue
            if fn.covered(a):
                st["stored_on_every_path"] += 1
                continue
            out.append((f, "unset-element", bad[0], "elements of '%s' start as %s here and are not stored on every path (stores at line %s): some keep that number instead of being missing" % (
                a.name, "zero" if any(k == "implicit" for k, l in a.fill) else "a literal", ", ".join(str(l) for i, l in a.stores[:4])), "unset-element|%s|%s" % (f.sig, a.name)))
    return out


def selftest():
    p = ir.samples("cover")
    fs = [f for f in p.functions() if f.file.startswith(ir.build.VERIF)]
    bad = {x[0].name for x in findings(p, fs, Counter())}
    want = {f.name for f in fs if f.name.startswith("bad_")}
    if bad != want:
        raise ir.AnalysisBroken("self-test of the coverage rules: missed %s, wrongly reported %s" % (sorted(want - bad), sorted(bad - want)))
    return len(want), len([f for f in fs if f.name.startswith("ok_")])


def check(pid, res, tier):
    nbad, nok = selftest()
    p = ir.load()
    st = Counter()
    for f, rule, line, text, key in findings(p, library(p), st):
        res.add(rule, f.file, line, f.q, text, key)
    res.coverage = dict(st, selftest_bad=nbad, selftest_ok=nok)
    res.floor("functions returning arrays", st["functions"], 60)
    res.floor("result arrays", st["result_arrays"], 60)
    res.explanation = ("For every array a library function returns (or fills by reference): either all its elements start as the missing value, as a copy or as an argument, or each element is stored on every path through the loops "
                       "that fill it, from the first element to the last; counters and sums start at an explicit number.")
    res.assumptions = ["arrays handed to other functions by reference, through iterators or pointers are filled there", "a loop whose bound is not written as 'extent - constant' runs over the whole extent (extents are C04's and C05's)"]

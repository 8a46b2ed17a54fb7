"""C15: a failed read or write is reported, never passed over.

Every operation that can fail (a NetCDF call, a number read from text, a write to an output stream) is an obligation on
the paths that follow it: its status must be examined before it is replaced or the function ends, what it should have
delivered must not be read where it is known to have failed, and a failure that has been noticed must stop the program,
be passed to the caller or be replaced by a default. Functions that examine or deliver a status are summarised, so that
helpers count as much as the library's own calls."""
from collections import Counter
from .. import ir
from ..ir import walk
from .state import program

LOOKUP = ("nc_inq_varid", "nc_inq_dimid", "nc_inq_attid", "nc_inq_att", "nc_inq_attlen", "nc_inq_atttype", "nc_get_att", "nc_open")
WRITE = ("nc_put", "nc_def_", "nc_create", "nc_sync", "nc_close", "nc_redef", "nc_enddef", "nc_set_fill", "nc_copy", "nc_rename", "nc_del", "ncredef", "ncendef", "ncclose")
STOP = {"abort", "exit", "std::abort", "std::exit", "_exit", "quick_exit", "std::terminate", "std::quick_exit", "__assert_fail"}
FLIP = {"ok": "fail", "fail": "ok", "code": "ok"}


def opclass(q):
    if q.startswith(WRITE):
        return "write"
    if q.startswith(LOOKUP):
        return "lookup"
    return "read"


def strip(e):
    while isinstance(e, dict) and e.get("k") in ("Cast", "DefaultArg", "StmtExpr") and isinstance(e.get("e"), dict):
        e = e["e"]
    return e


def key(e):
    """variable or member an expression designates (a part of)"""
    while isinstance(e, dict):
        e = strip(e)
        k = e.get("k")
        if k == "Ref" and e.get("rk") in ("local", "param"):
            return ("v", e["id"])
        if k == "Member":
            b = strip(e.get("b"))
            if isinstance(b, dict) and b.get("k") == "This":
                return ("m", e["n"])
            e = b
        elif k == "Index":
            e = e["b"]
        elif k == "OpCall" and e.get("op") in ("[]", "*", "->") and e.get("a"):
            e = e["a"][0]
        elif k == "Un" and e.get("op") in ("*", "&"):
            e = e["e"]
        elif k == "MCall":
            e = e.get("o")
        elif k == "Construct" and len(e.get("a", [])) == 1:
            e = e["a"][0]
        else:
            return None
    return None


def ofstream(t):
    return bool(t) and ("basic_ofstream" in t or "basic_fstream" in t) and "(" not in t


def stream_of(e):
    """the file stream that is written to at the left end of a chain of <<"""
    while isinstance(e, dict):
        e = strip(e)
        if e.get("k") == "OpCall" and e.get("op") == "<<" and e.get("a"):
            e = e["a"][0]
        elif ofstream(e.get("t")) and e.get("k") in ("Ref", "Member"):
            return key(e)
        elif e.get("k") == "MCall" and e.get("o") is not None and "ostream" in ((e.get("fn") or {}).get("ret") or ""):
            e = e["o"]
        else:
            return None
    return None


def in_of(e):
    """the stream that is read from at the left end of a chain of >>"""
    while isinstance(e, dict):
        e = strip(e)
        if e.get("k") == "OpCall" and e.get("op") == ">>" and e.get("a"):
            e = e["a"][0]
        else:
            return key(e) if e.get("k") in ("Ref", "Member") else None
    return None


def last(fn):
    return (fn or {}).get("q", "").split("::")[-1]


class S:
    def __init__(self, o=None):
        self.st = dict(o.st) if o else {}
        self.val = dict(o.val) if o else {}
        self.inv = dict(o.inv) if o else {}

    def same(self, o):
        return self.st == o.st and self.val == o.val and self.inv == o.inv

    @staticmethod
    def join(a, b):
        if a is None:
            return b
        if b is None:
            return a
        r = S()
        for op in set(a.st) | set(b.st):
            x, y = a.st.get(op), b.st.get(op)
            r.st[op] = "P" if "P" in (x, y) else "N"
        for v in set(a.val) | set(b.val):
            x, y = a.val.get(v), b.val.get(v)
            if x is None or y is None:
                r.val[v] = x or y
            elif x[0] == y[0]:
                r.val[v] = (x[0], x[1] | y[1])
        for v in set(a.inv) | set(b.inv):
            r.inv[v] = a.inv.get(v, frozenset()) | b.inv.get(v, frozenset())
        return r


class Summary:
    def __init__(self):
        self.returns = True         # comes back at all
        self.checks = set()         # parameters whose failure it does not survive / whose stream it has tested
        self.gives = {}             # parameter -> kind of its result as a statement about the parameter's status
        self.own = None             # (kind, class, name): its result tells whether its own operations worked


class Program:
    def __init__(self, p, funcs):
        self.p = p
        self.funcs = funcs
        self.sum = {}
        self.busy = set()
        self.n = Counter()

    def summary(self, f):
        if f.m in self.sum:
            return self.sum[f.m]
        if f.m in self.busy or f.body is None:
            return Summary()
        self.busy.add(f.m)
        r = Summary()
        w = Walk(self, f)
        w.run()
        r.returns = bool(w.exits)
        if w.tells and not w.untold:
            kinds = {k for k, c, q in w.tells}
            r.own = (kinds.pop() if len(kinds) == 1 else "code" if "int" in f.ret else "ok", sorted(c for k, c, q in w.tells)[-1], sorted(q for k, c, q in w.tells)[0])
        for i, prm in enumerate(f.params):
            t = prm["t"]
            plain = t.replace("const ", "").replace("&", "").strip() in ("int", "bool", "long")
            stream = "ostream" in t or "ofstream" in t or "basic_fstream" in t or "basic_ios" in t
            if not plain and not (stream and "&" in t):
                continue
            w = Walk(self, f, seed=(i, "code" if plain else "stream"))
            w.run()
            op = ("param", i)
            if w.exits and all(op not in s.st for s in w.exits):
                r.checks.add(i)
            gk = {k for k, ops in w.given if op in ops}
            if len(gk) == 1 and w.given and all(op in ops for k, ops in w.given):
                r.gives[i] = gk.pop()
                if not plain:
                    r.checks.discard(i)
            elif plain and "code" == "code" and w.given and any(op in ops for k, ops in w.given):
                r.checks.discard(i)
        self.busy.discard(f.m)
        self.sum[f.m] = r
        return r


class Walk:
    def __init__(self, prog, f, seed=None, report=None):
        self.g, self.f, self.seed, self.report = prog, f, seed, report
        self.exits = []
        self.given = []         # (kind, ops) of each returned value (kind None when it says nothing)
        self.tells = []         # operations whose outcome the result tells: (kind, class, name)
        self.untold = False
        self.ops = {}           # op -> (class, name, line)
        self.outs = {}          # op -> keys
        self.loops = []
        self.seen = set()
        self.readonly = set()
        self.params = {("v", prm.get("id")): i for i, prm in enumerate(f.params)}
        self.streams = set()
        self.types = {}
        self.guards = []        # conditions that hold where we are: (canonical text, truth)
        self.opguards = {}
        self.changed = None
        for prm in f.params:
            self.types[("v", prm.get("id"))] = prm["t"]
        for n in walk(f.body) if f.body else ():
            if n.get("k") == "Decl":
                for v in n.get("v", []):
                    self.types[("v", v["id"])] = v["t"]
                    if ofstream(v["t"]) and "&" not in v["t"]:
                        self.streams.add(("v", v["id"]))
            if n.get("k") == "Call" and (n.get("fn") or {}).get("q") == "nc_open" and len(n["a"]) == 3:
                m = strip(n["a"][1])
                if isinstance(m, dict) and m.get("k") == "Int" and m["v"] == 0:
                    kk = key(n["a"][2])
                    if kk and kk[0] == "v":
                        self.readonly.add(kk)

    # ---- obligations
    def bad(self, line, rule, text, k):
        if self.report and (rule, line, k) not in self.seen:
            self.seen.add((rule, line, k))
            self.report(self.f, line, rule, text, "%s|%s|%s" % (rule, self.f.q, k))

    def op(self, s, op, cls, name, line, outs):
        if s.st.get(op) == "P" and cls != "stream":
            self.bad(line, "unexamined", "the status of %s is replaced before it was looked at: a failure is passed over" % name, name)
        self.ops[op] = (cls, name, line)
        g = frozenset(self.guards)
        self.opguards[op] = self.opguards[op] & g if op in self.opguards else g
        s.st[op] = "P"
        self.outs.setdefault(op, set()).update(outs)
        for k in outs:
            s.inv.pop(k, None)
        if self.report:
            self.g.n["operations"] += 1 if (op, line) not in self.seen else 0
            self.seen.add((op, line))

    def split(self, v, s):
        """(state where v is true, state where v is false)"""
        a, b = S(s), S(s)
        if v is None:
            return a, b
        kind, ops = v
        good, fail = (a, b) if kind == "ok" else (b, a)
        for op in ops:
            if op not in s.st and not any(op in x for x in s.inv.values()):
                continue
            good.st.pop(op, None)
            for k in list(good.inv):
                good.inv[k] = good.inv[k] - {op}
                if not good.inv[k]:
                    del good.inv[k]
            if op in s.st:
                cls = self.ops.get(op, ("read",))[0]
                if cls in ("lookup", "extract"):
                    fail.st.pop(op, None)
                else:
                    fail.st[op] = "F"
            for k in self.outs.get(op, ()):
                fail.inv[k] = fail.inv.get(k, frozenset()) | {op}
        return a, b

    def examined(self, v, s):
        """a statement about the operations was used in a way that is not followed further"""
        if v:
            for op in v[1]:
                if op in s.st:
                    s.st[op] = "N" if s.st[op] != "F" else "F"
                    if self.ops.get(op, ("read",))[0] in ("lookup", "extract"):
                        s.st.pop(op, None)

    def handled(self, s):
        for op in [o for o, x in s.st.items() if x == "F"]:
            if op != ("param", self.seed and self.seed[0]):
                del s.st[op]

    def leave(self, s, line, e=None, v=None):
        """the function ends here"""
        if s is None:
            return
        scalar = self.f.ret.replace("const ", "").strip() in ("bool", "int", "long", "short", "char", "unsigned int", "size_t", "unsigned long", "float", "double") or "*" in self.f.ret or "basic_string" in self.f.ret
        if v is not None:
            for op in v[1]:
                if op in s.st and op in self.ops:
                    c, q, l = self.ops[op]
                    if c not in ("lookup", "extract"):
                        self.tells.append((v[0], c, q))
                    del s.st[op]
        self.given.append(v or (None, frozenset()))
        for op, x in sorted(s.st.items(), key=str):
            if op[0] == "param" or op not in self.ops:
                continue
            c, q, l = self.ops[op]
            if x == "P":
                if c == "stream":
                    self.bad(l, "unwritten", "whether the output was written is never tested: an output file that could not be written in full goes unnoticed", q)
                else:
                    self.bad(l, "unexamined", "the status of %s is never looked at: a failure is passed over" % q, q)
            elif x == "F" and scalar and e is not None:
                k = "ok"
                self.tells.append((k, c, q))
            else:
                self.bad(l, "unreported", "%s can fail, which is noticed, and the function carries on as if nothing had happened" % (q if c != "stream" else "writing the output"), q)
        for k, ops in s.inv.items():
            if k[0] == "m":
                for op in ops:
                    if op in self.ops:
                        self.bad(self.ops[op][2], "undelivered", "member '%s' keeps what %s did not deliver when it failed" % (k[1], self.ops[op][1]), "%s|%s" % (k[1], self.ops[op][1]))
        self.exits.append(s)

    # ---- expressions
    def eval(self, e, s):
        e = strip(e) if isinstance(e, dict) and e.get("k") != "StmtExpr" else e
        if not isinstance(e, dict):
            return None
        k = e.get("k")
        if k in ("Ref", "Member"):
            kk = key(e)
            if k == "Member":
                self.eval(e.get("b"), s)
            self.read(kk, e, s)
            return s.val.get(kk)
        if k == "Un":
            if e["op"] == "!":
                v = self.eval(e["e"], s)
                return (FLIP[v[0]], v[1]) if v else None
            if e["op"] == "&":
                return None
            if e["op"] in ("++", "--"):
                self.handled(s)
            self.eval(e["e"], s)
            return None
        if k == "Assign":
            return self.assign(e["x"], e["y"], e.get("op", "="), s)
        if k == "Bin":
            return self.binary(e, s)
        if k == "Cond":
            a, b = self.cond(e["c"], s)
            x = self.eval(e["x"], a) if a is not None else None
            y = self.eval(e["y"], b) if b is not None else None
            for z in (a, b):
                if z is not None:
                    self.handled(z)
            self.take(s, S.join(a, b))
            cx, cy = const(e["x"]), const(e["y"])
            if x == y:
                return x
            return None
        if k == "OpCall":
            return self.opcall(e, s)
        if k == "MCall":
            return self.mcall(e, s)
        if k == "Call":
            return self.call(e, e["a"], s)
        if k == "Construct":
            vs = [self.eval(a, s) for a in e["a"]]
            self.call_effects(e, e["a"], vs, s)
            return vs[0] if len(vs) == 1 else None
        if k == "Throw":
            for x in ir.kids(e):
                self.eval(x, s)
            s.st.clear()
            return None
        if k == "Lambda":
            return None
        if k in ("Delete", "SizeOf"):
            return None
        v = None
        for x in ir.kids(e):
            self.eval(x, s)
        return v

    def take(self, s, o):
        if o is None:
            s.st, s.val, s.inv = {}, {}, {}
            s.dead = True
        else:
            s.st, s.val, s.inv = o.st, o.val, o.inv
            if getattr(o, "dead", False):
                s.dead = True

    def read(self, kk, e, s):
        ops = s.inv.get(kk)
        if ops:
            for op in sorted(ops, key=str):
                if op in self.ops:
                    c, q, l = self.ops[op]
                    self.bad(e.get("l", l), "undelivered", "'%s' is used although %s may have failed to deliver it" % (e.get("n"), q), "%s|%s" % (e.get("n"), q))

    def assign(self, x, y, op, s):
        v = self.eval(y, s)
        kk = key(x)
        sx = strip(x)
        if isinstance(sx, dict) and sx.get("k") not in ("Ref", "Member"):
            for c in ir.kids(sx):
                if key(c) != kk:
                    self.eval(c, s)
        if op not in ("=",):
            # status |= f(), ok &= f()
            old = s.val.get(kk)
            if v and kk and isinstance(sx, dict) and sx.get("k") in ("Ref", "Member"):
                if op == "&=" and v[0] == "ok" or op in ("|=", "+=") and v[0] in ("fail", "code"):
                    s.val[kk] = (v[0], v[1] | (old[1] if old else frozenset()))
            self.handled(s)
            return s.val.get(kk)
        if kk is not None:
            s.inv.pop(kk, None)
            if isinstance(sx, dict) and sx.get("k") in ("Ref", "Member"):
                if v:
                    s.val[kk] = v
                else:
                    s.val.pop(kk, None)
        self.handled(s)
        return v

    def binary(self, e, s):
        op = e["op"]
        if op in ("&&", "||"):
            x = self.eval(e["x"], s)
            y = self.eval(e["y"], s)
            if op == "&&":
                vs = [v for v in (x, y) if v and v[0] == "ok"]
                kind = "ok"
            else:
                vs = [v for v in (x, y) if v and v[0] in ("fail", "code")]
                kind = "fail"
            ops = frozenset().union(*[v[1] for v in vs]) if vs else frozenset()
            for v in (x, y):
                if v and v not in vs:
                    self.examined(v, s)
            return (kind, ops) if ops else None
        x = self.eval(e["x"], s)
        y = self.eval(e["y"], s)
        for v, o in ((x, e["y"]), (y, e["x"])):
            c = const(o)
            if v is None or c is None:
                continue
            if op in ("==", "!="):
                if v[0] == "code":
                    if c == 0:
                        return ("ok" if op == "==" else "fail", v[1])
                    self.examined(None, s)
                    return None
                same = (c != 0) == (op == "==")
                return (v[0] if same else FLIP[v[0]], v[1])
        return None

    def opcall(self, e, s):
        op = e.get("op")
        a = e.get("a", [])
        if op == "<<":
            kk = stream_of(e)
            for x in a:
                self.eval(x, s)
            if kk is not None:
                self.written(kk, e, s)
                return ("ok", frozenset([("w", kk)]))
            return None
        if op == ">>" and a and ("istream" in ((e.get("fn") or {}).get("ret") or "") or "istream" in (strip(a[0]).get("t") or "") or "stringstream" in (strip(a[0]).get("t") or "")):
            v = self.eval(a[0], s)
            kk = in_of(e)
            if e.get("l", 0) and len(a) > 1:
                o = key(a[1])
                oo = ("x", self.f.m, e["l"], o)
                self.op(s, oo, "extract", "the text", e["l"], [o] if o else [])
                if o:
                    s.val.pop(o, None)
                ops = frozenset([oo]) | (v[1] if v and v[0] == "ok" else frozenset())
                if kk is not None:
                    s.val[kk] = ("ok", ops)
                return ("ok", ops)
            return None
        if op == "!":
            v = self.eval(a[0], s)
            kk = key(a[0])
            if v is None and kk is not None and (ofstream((strip(a[0]) or {}).get("t")) or self.seeded(kk)):
                v = ("ok", frozenset([("w", kk)] if not self.seeded(kk) else [self.seedop()]))
            return ("fail", v[1]) if v else None
        if op == "=":
            return self.assign(a[0], a[1], "=", s)
        if op and op.endswith("=") and op not in ("==", "!=", "<=", ">="):
            return self.assign(a[0], a[1], op, s)
        vs = [self.eval(x, s) for x in a]
        self.call_effects(e, a, vs, s)
        return None

    def seedop(self):
        return ("param", self.seed[0])

    def seeded(self, kk):
        return self.seed and self.seed[1] == "stream" and self.params.get(kk) == self.seed[0]

    def written(self, kk, e, s):
        if self.seeded(kk):
            s.st[self.seedop()] = "P"
            return
        if kk[0] == "v" and kk not in self.streams:
            return          # somebody else's stream
        self.op(s, ("w", kk), "stream", "stream", e.get("l", 0), [])

    def mcall(self, e, s):
        fn = e.get("fn") or {}
        o = e.get("o")
        nm = last(fn)
        a = e.get("a", [])
        so = strip(o)
        ot = (so or {}).get("t") or ""
        if fn.get("cls", "").startswith("std::basic_") and nm in ("good", "fail", "bad", "operator bool", "operator!", "eof", "is_open", "rdstate"):
            inner = self.eval(o, s)
            kk = key(o)
            ops = set(inner[1]) if inner and inner[0] == "ok" else set()
            if kk is not None and self.seeded(kk):
                ops = {self.seedop()}
            elif kk is not None and ofstream(ot):
                ops |= {("w", kk)}
            if nm in ("eof", "is_open"):
                return None
            kind = "ok" if nm in ("good", "operator bool") else "fail"
            return (kind, frozenset(ops)) if ops else None
        if ofstream(ot) and nm in ("write", "put", "flush", "close"):
            kk = key(o)
            for x in a:
                self.eval(x, s)
            if kk is not None:
                self.written(kk, e, s)
            return None
        if nm == "exceptions" and a and ofstream(ot):
            return None
        if nm == "get" and "istream" in fn.get("ret", ""):
            pass
        self.eval(o, s)
        return self.call(e, a, s)

    def call(self, e, args, s):
        fn = e.get("fn") or {}
        q = fn.get("q", "")
        vs = [self.eval(x, s) for x in args]
        if q.startswith("nc") and not fn.get("own") and fn.get("ret") == "int" and "::" not in q:
            outs = [key(x) for x, t in zip(args, fn.get("pt", [])) if t.endswith("*") and not t.startswith("const")]
            outs = [o for o in outs if o]
            if q == "nc_close" and key(args[0]) in self.readonly:
                return None
            op = ("nc", id(e))
            self.op(s, op, opclass(q), q, e.get("l", 0), outs)
            return ("code", frozenset([op]))
        return self.call_effects(e, args, vs, s)

    def call_effects(self, e, args, vs, s):
        """what a call of one of the program's functions (or any other) does to the obligations"""
        fn = e.get("fn") or {}
        q = fn.get("q", "")
        if q in STOP:
            s.dead = True
            return None
        targets = self.g.p.targets(fn) if fn else []
        targets = [t for t in targets if t.body is not None]
        off = 0
        out = None
        if targets:
            sums = [self.g.summary(t) for t in targets]
            if all(not x.returns for x in sums):
                s.dead = True
                return None
            for i, (x, v) in enumerate(zip(args, vs)):
                if v:
                    if v[0] in ("code", "fail") and all(i in y.checks for y in sums):
                        for op in v[1]:
                            s.st.pop(op, None)
                            for k in list(s.inv):
                                if op in s.inv[k]:
                                    s.inv[k] = s.inv[k] - {op}
                                    if not s.inv[k]:
                                        del s.inv[k]
                        continue
                    gives = {y.gives.get(i) for y in sums}
                    if len(gives) == 1 and None not in gives:
                        kd = gives.pop()
                        if v[0] == "code" or v[0] == "fail":
                            out = (kd, v[1])
                        else:
                            out = (FLIP.get(kd, "fail"), v[1])
                        continue
                kk = key(x)
                if kk in self.streams:
                    gives = {y.gives.get(i) for y in sums}
                    if all(i in y.checks for y in sums):
                        s.st.pop(("w", kk), None)
                    elif len(gives) == 1 and None not in gives:
                        self.written(kk, e, s)
                        out = (gives.pop(), frozenset([("w", kk)]))
                    else:
                        self.written(kk, e, s)
            own = {y.own for y in sums}
            if out is None and len(own) == 1 and None not in own:
                kd, c, name = own.pop()
                op = ("call", id(e))
                self.op(s, op, c, "%s (%s)" % (q, name) if "(" not in name else name, e.get("l", 0), [key(x) for x, t in zip(args, fn.get("pt", [])) if (t.endswith("*") or t.endswith("&")) and not t.startswith("const") and key(x)] if c == "read" else [])
                out = (kd, frozenset([op]))
        elif fn:
            for x in args:
                kk = key(x)
                if kk in self.streams:
                    self.written(kk, e, s)
        for x, t in zip(args, fn.get("pt", [])):
            if (t.endswith("&") or t.endswith("*")) and not t.startswith("const"):
                kk = key(x)
                if kk is not None and out is None:
                    s.inv.pop(kk, None)
        return out

    # ---- statements
    def cond(self, c, s):
        e = strip(c)
        if isinstance(e, dict) and e.get("k") == "Un" and e.get("op") == "!":
            a, b = self.cond(e["e"], s)
            return b, a
        if isinstance(e, dict) and e.get("k") == "Bin" and e.get("op") in ("&&", "||"):
            a, b = self.cond(e["x"], s)
            if e["op"] == "&&":
                c2, d = self.cond(e["y"], a) if a is not None else (None, None)
                return c2, S.join2(b, d) if False else S.join(b, d) if not both(b, d) else keepf(b, d)
            c2, d = self.cond(e["y"], b) if b is not None else (None, None)
            return (S.join(a, c2) if not both(a, c2) else keepf(a, c2)), d
        s = S(s)
        v = self.eval(c, s)
        if getattr(s, "dead", False):
            return None, None
        return self.split(v, s)

    def block(self, ss, s):
        for x in ss:
            if s is None:
                return None
            s = self.stmt(x, s)
        return s

    def ex(self, e, s):
        """evaluates for effect; None when it does not come back"""
        self.eval(e, s)
        return None if getattr(s, "dead", False) else s

    def stmt(self, n, s):
        if n is None or s is None:
            return s
        k = n.get("k")
        if k == "Block":
            return self.block(n["b"], s)
        if k == "Decl":
            for v in n["v"]:
                kk = ("v", v["id"])
                s.inv.pop(kk, None)
                s.val.pop(kk, None)
                if v.get("init") is not None:
                    x = self.eval(v["init"], s)
                    if getattr(s, "dead", False):
                        return None
                    if x:
                        s.val[kk] = x
            return s
        if k == "Expr":
            return self.ex(n["e"], s)
        if k == "If":
            if n.get("init"):
                s = self.stmt(n["init"], s)
                if s is None:
                    return None
            if n.get("cv"):
                s = self.stmt(n["cv"] if isinstance(n["cv"], dict) and n["cv"].get("k") == "Decl" else {"k": "Nop"}, s)
            a, b = self.cond(n["c"], s)
            t = self.canon(n["c"])
            for z, truth in ((a, True), (b, False)):
                if t and z is not None:
                    # what was done only under the opposite condition was not done here
                    for op in [o for o in z.st if (t, not truth) in self.opguards.get(o, ())]:
                        del z.st[op]
            self.guards.append((t, True))
            a = self.stmt(n["x"], a) if a is not None else None
            self.guards[-1] = (t, False)
            b = self.stmt(n["y"], b) if b is not None and n.get("y") else b
            self.guards.pop()
            return S.join(a, b)
        if k in ("For", "While", "Do", "RangeFor"):
            return self.loop(n, k, s)
        if k == "Return":
            v = None
            if n.get("e") is not None:
                v = self.eval(n["e"], s)
                if getattr(s, "dead", False):
                    return None
            self.leave(s, n.get("l", 0), n.get("e"), v)
            return None
        if k == "Break":
            if self.loops:
                self.loops[-1][0].append(s)
            return None
        if k == "Continue":
            for l in reversed(self.loops):
                if l[2]:
                    l[1].append(s)
                    break
            return None
        if k == "Switch":
            s = S(s)
            v = self.eval(n.get("c"), s)
            self.examined(v, s)
            self.loops.append(([], [], False))
            body = n.get("b")
            ss = body["b"] if isinstance(body, dict) and body.get("k") == "Block" else [body]
            cur, default = None, False
            for x in ss:
                y = x
                while isinstance(y, dict) and y.get("k") in ("Case", "Default"):
                    default |= y["k"] == "Default"
                    cur = S.join(cur, S(s))
                    y = y.get("b") or y.get("s") or y.get("x")
                if cur is not None and isinstance(y, dict):
                    cur = self.stmt(y, cur)
            brk = self.loops.pop()[0]
            for b in brk:
                cur = S.join(cur, b)
            return cur if default else S.join(cur, S(s))
        if k == "Try":
            a = self.stmt(n["b"], S(s))
            for h in n.get("h", []):
                x = self.block(h["b"]["b"] if isinstance(h.get("b"), dict) and h["b"].get("k") == "Block" else [h.get("b")], S(s))
                a = S.join(a, x)
            return a
        if k == "OMP":
            return self.stmt(n.get("b"), s)
        if k == "Throw":
            return None
        for x in ir.kids(n):
            if x.get("k") in ("Block", "If", "For", "While", "Do", "Return", "Expr", "Decl"):
                s = self.stmt(x, s)
            else:
                self.eval(x, s)
        return s

    def canon(self, c):
        """text of a condition whose value cannot change during the function"""
        if self.changed is None:
            self.changed = set()
            for n in walk(self.f.body):
                k = n.get("k")
                x = n.get("x") if k == "Assign" else n["a"][0] if k == "OpCall" and n.get("op", "").endswith("=") and n["op"] not in ("==", "!=", "<=", ">=") and n.get("a") else n.get("e") if k == "Un" and n.get("op") in ("++", "--", "&") else n.get("o") if k == "MCall" and not (n.get("fn") or {}).get("const") else None
                if x is not None:
                    self.changed.add(key(x))
                if k in ("Call", "MCall", "Construct"):
                    for a, t in zip(n.get("a", []), (n.get("fn") or {}).get("pt", [])):
                        if (t.endswith("&") or t.endswith("*")) and not t.startswith("const"):
                            self.changed.add(key(a))
                    if k == "MCall" and not (n.get("fn") or {}).get("const") and (strip(n.get("o")) or {}).get("k") == "This":
                        self.changed.add("members")
        for n in walk({"b": [c]}):
            k = n.get("k")
            if k in ("Ref", "Member"):
                kk = key(n)
                if kk in self.changed or kk and kk[0] == "m" and "members" in self.changed:
                    return None
            elif k == "MCall" and not (n.get("fn") or {}).get("const") or k in ("Call", "Assign", "New", "Lambda"):
                return None
        return text(c)

    def loop(self, n, k, s):
        if n.get("init") and k == "For":
            s = self.stmt(n["init"], s)
            if s is None:
                return None
        if k == "RangeFor":
            s = S(s)
            self.eval(n.get("r"), s)
        entry = s
        out = None
        for it in range(3):
            self.loops.append(([], [], True))
            if k == "Do":
                a = self.stmt(n["b"], S(entry))
                for c in self.loops[-1][1]:
                    a = S.join(a, c)
                after, back = None, None
                if a is not None:
                    t, f = self.cond(n["c"], a)
                    back, after = t, f
            else:
                if n.get("c") is not None and k != "RangeFor":
                    t, f = self.cond(n["c"], S(entry))
                    if const(n["c"]) not in (None, 0):
                        f = None
                else:
                    t, f = S(entry), (S(entry) if k == "RangeFor" else None)
                after = f
                back = self.stmt(n["b"], t) if t is not None else None
                for c in self.loops[-1][1]:
                    back = S.join(back, c)
                if back is not None and n.get("inc"):
                    back = self.ex(n["inc"], back)
            for b in self.loops.pop()[0]:
                after = S.join(after, b)
            out = after
            new = S.join(S(entry), back) if back is not None else entry
            if new.same(entry):
                break
            entry = new
        return out

    def run(self):
        if self.f.body is None:
            return
        s = S()
        if self.seed:
            i, kind = self.seed
            op = ("param", i)
            s.st[op] = "P"
            kk = [k for k, j in self.params.items() if j == i]
            if kk and kind == "code":
                s.val[kk[0]] = ("code", frozenset([op]))
        for x in self.f.d.get("inits") or []:
            if isinstance(x, dict) and x.get("e"):
                self.eval(x["e"], s)
        s = self.stmt(self.f.body, s)
        if s is not None:
            self.leave(s, self.f.endline)


def both(a, b):
    return a is not None and b is not None


def keepf(a, b):
    """join of two states in which failures that are certain in one and absent in the other stay failures"""
    r = S.join(a, b)
    for op in r.st:
        x, y = a.st.get(op), b.st.get(op)
        if "P" not in (x, y) and "F" in (x, y):
            r.st[op] = "F"
        # 'x failed or y failed': not even looked at in one of the cases, and the other has failed
        if {x, y} == {"P", None} or x == y == "P":
            r.st[op] = "P"
    return r


def text(e):
    if isinstance(e, dict):
        return "{%s}" % ",".join("%s:%s" % (k, text(v)) for k, v in sorted(e.items()) if k not in ("l", "t", "fn")) + (e["fn"].get("q", "") if isinstance(e.get("fn"), dict) else "")
    if isinstance(e, list):
        return "[%s]" % ",".join(text(x) for x in e)
    return str(e)


def const(e):
    e = strip(e)
    if isinstance(e, dict):
        if e.get("k") in ("Int", "Bool"):
            return int(e["v"])
        if e.get("k") == "Un" and e.get("op") == "-":
            c = const(e["e"])
            return None if c is None else -c
    return None


def findings(p, funcs, st):
    out = []

    def bad(f, line, rule, text, k):
        out.append((f, rule, line, text, k))
    g = Program(p, funcs)
    for f in funcs:
        if f.body is None:
            continue
        st["functions"] += 1
        Walk(g, f, report=bad).run()
    st["operations"] = g.n["operations"]
    st["checking_functions"] = sum(1 for x in g.sum.values() if x.checks)
    st["functions_that_do_not_return"] = sum(1 for x in g.sum.values() if not x.returns)
    st["functions_that_tell_the_outcome"] = sum(1 for x in g.sum.values() if x.own or x.gives)
    return out


def selftest():
    p = ir.samples("status")
    fs = [f for f in p.functions() if f.file.startswith(ir.build.VERIF)]
    bad = {x[0].name for x in findings(p, fs, Counter())}
    want = {f.name for f in fs if f.name.startswith(("bad_", "Bad"))}
    if bad != want:
        raise ir.AnalysisBroken("self-test of the status rules: missed %s, wrongly reported %s" % (sorted(want - bad), sorted(bad - want)))
    return len(want), len(fs) - len(want)


def check(pid, res, tier):
    nbad, nok = selftest()
    p = ir.load()
    st = Counter()
    for f, rule, line, text, k in findings(p, program(p), st):
        res.add(rule, f.file, line, f.q, text, k)
    res.coverage = dict(st, selftest_bad=nbad, selftest_ok=nok)
    res.floor("functions", st["functions"], 300)
    res.floor("operations that can fail", st["operations"], 60)
    res.explanation = ("Every operation of the command-line program that can fail (NetCDF calls, numbers read from text, writes to files): on every path its status is examined before it is replaced or the function ends; what a failed "
                       "operation should have delivered is not read; a failure that is noticed stops the program, is passed to the caller or is replaced by a value. Helpers are summarised.")
    res.assumptions = ["NetCDF functions return zero exactly on success", "streams remember a failed operation until tested"]

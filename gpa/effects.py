"""Interprocedural effect analysis over the resolved program.

For every function: which storage it may read or write, as access paths whose index steps are
polynomials over the function's scalars. A path is (root, steps):
  root  ('v',id) local storage | ('p',i) object behind reference/pointer parameter i | ('this',) |
        ('g',name) static storage | ('h',n) storage created by an expression | ('?',n) unknown
  steps ('f',field) | ('i',(poly,...)) | ('*',) | ('s',)   ('s' is a container's own size)
Calls are replaced by the callee's summary, so the analysis is context-sensitive in its arguments."""
import re
from . import ir
from .ir import walk

MAXSTEPS = 9


# ---------------------------------------------------------------- polynomials
class Poly:
    __slots__ = ("m",)

    def __init__(self, m=None):
        self.m = {k: v for k, v in (m or {}).items() if v != 0}

    @staticmethod
    def const(c):
        return Poly({(): c})

    @staticmethod
    def sym(s):
        return Poly({(s,): 1})

    def __add__(self, o):
        r = dict(self.m)
        for k, v in o.m.items():
            r[k] = r.get(k, 0) + v
        return Poly(r)

    def __neg__(self):
        return Poly({k: -v for k, v in self.m.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        r = {}
        for k, v in self.m.items():
            for k2, v2 in o.m.items():
                kk = tuple(sorted(k + k2, key=repr))
                r[kk] = r.get(kk, 0) + v * v2
        return Poly(r)

    def __eq__(self, o):
        return isinstance(o, Poly) and self.m == o.m

    def __hash__(self):
        return hash(frozenset(self.m.items()))

    def __repr__(self):
        if not self.m:
            return "0"
        out = []
        for k, v in sorted(self.m.items(), key=repr):
            t = "*".join(symname(s) for s in k)
            out.append(t if v == 1 and t else ("%d" % v if not t else "%d*%s" % (v, t)))
        return "+".join(out)

    def syms(self):
        return {s for k in self.m for s in k}

    def deepsyms(self):
        out = set()
        for s in self.syms():
            out.add(s)
            if s[0] in ("div", "mod"):
                out |= s[1].deepsyms() | s[2].deepsyms()
        return out

    def is_const(self):
        return all(k == () for k in self.m)

    def cval(self):
        return self.m.get((), 0)

    def subst(self, f):
        r = Poly()
        for k, v in self.m.items():
            t = Poly.const(v)
            for s in k:
                t = t * f(s)
            r = r + t
        return r


def symname(s):
    return str(s[2]) if s[0] == "v" and len(s) > 2 else "%s" % (s[1] if len(s) > 1 else s[0],)


# ---------------------------------------------------------------- type predicates
def strip_ref(t):
    t = t.strip()
    while t.endswith("&"):
        t = t[:-1].strip()
    return t


def is_ref(t):
    return t.strip().endswith("&")


def is_const_ref(t):
    return is_ref(t) and t.strip().startswith("const ")


def is_rvalue_ref(t):
    return t.strip().endswith("&&")


PTRLIKE = re.compile(r"^(const )?(std::)?(__cxx11::)?(shared_ptr|unique_ptr|weak_ptr|__shared_ptr|__normal_iterator|__gnu_cxx::__normal_iterator|_Rb_tree_(const_)?iterator|_List_iterator|reverse_iterator)\b")


def is_ptrlike(t):
    t = strip_ref(t)
    return t.endswith("*") or t.endswith("* const") or bool(PTRLIKE.match(t)) or "iterator" in t.split("<")[0]


def is_scalar(t):
    t = strip_ref(t).replace("const ", "").strip()
    return t in ("int", "float", "double", "bool", "char", "long", "short", "unsigned int", "unsigned long", "size_t", "long double",
                 "unsigned char", "long long", "unsigned long long", "unsigned short", "signed char") or t.startswith("enum ")


def is_float(t):
    return strip_ref(t).replace("const ", "").strip() in ("float", "double", "long double")


MAPLIKE = re.compile(r"std::(unordered_)?(map|multimap)\b")

IMPURE = {"rand": "rand", "srand": "rand", "random": "rand", "srandom": "rand", "drand48": "rand", "lrand48": "rand", "rand_r": "rand",
          "time": "time", "clock": "time", "gettimeofday": "time", "clock_gettime": "time", "getenv": "env", "setenv": "env",
          "std::rand": "rand", "std::srand": "rand", "std::time": "time", "std::clock": "time", "std::getenv": "env",
          "localtime": "time", "gmtime": "time", "getpid": "env", "std::chrono::_V2::system_clock::now": "time",
          "std::chrono::_V2::steady_clock::now": "time", "arma::arma_rng::set_seed": "rand", "arma::arma_rng::set_seed_random": "rand",
          "arma::randu": "rand", "arma::randn": "rand", "arma::randi": "rand"}
THREADQ = {"omp_get_thread_num", "omp_get_num_threads", "omp_get_max_threads", "omp_get_num_procs", "omp_in_parallel", "omp_get_dynamic",
           "omp_get_thread_limit", "omp_get_wtime", "omp_get_nested", "omp_get_level", "omp_get_team_size", "omp_get_active_level", "omp_get_partition_num_places",
           "omp_get_place_num"}
THREADS = {"omp_set_num_threads", "omp_set_dynamic", "omp_set_nested", "omp_set_schedule"}
STREAMS = ("std::cout", "std::cerr", "std::clog", "std::cin", "stdout", "stderr", "stdin")

# std algorithms that write through iterator arguments given by value (positions; None = all)
ALGO_W = {"sort": None, "stable_sort": None, "partial_sort": None, "nth_element": None, "reverse": None, "fill": None, "fill_n": None, "iota": None,
          "generate": None, "random_shuffle": None, "shuffle": None, "unique": None, "remove": None, "remove_if": None, "replace": None, "replace_if": None,
          "rotate": None, "partition": None, "stable_partition": None, "swap_ranges": None, "iter_swap": None, "make_heap": None, "push_heap": None,
          "pop_heap": None, "sort_heap": None, "inplace_merge": None,
          "copy": (2,), "copy_n": (2,), "copy_if": (2,), "copy_backward": (2,), "move": (2,), "transform": (2, 3), "partial_sum": (2,),
          "adjacent_difference": (2,), "merge": (4,), "reverse_copy": (2,), "rotate_copy": (3,), "unique_copy": (2,), "set_union": (4,),
          "set_intersection": (4,), "set_difference": (4,), "inclusive_scan": (2,), "exclusive_scan": (2,)}


def store_op(y):
    """'=' refined to what is stored, where every thread stores the same: a literal, or the exception being handled."""
    while isinstance(y, dict) and y.get("k") in ("Cast", "DefaultArg", "Construct") and (y["k"] != "Construct" or len(y.get("a", ())) == 1):
        y = y["e"] if "e" in y else y["a"][0]
    if isinstance(y, dict):
        if y.get("k") in ("Int", "Bool", "Float", "Null"):
            return "=lit:%s" % (y.get("v"),)
        if y.get("k") == "Call" and (y.get("fn") or {}).get("q") == "std::current_exception":
            return "=exc"
    return "="


class Effect:
    __slots__ = ("kind", "root", "steps", "line", "file", "via", "region", "sync", "bit", "op", "order")

    def __init__(self, kind, root, steps, line, file, via=(), region=None, sync=None, bit=False, op=None, order=0):
        self.kind, self.root, self.steps, self.line, self.file = kind, root, steps, line, file
        self.via, self.region, self.sync, self.bit, self.op, self.order = via, region, sync, bit, op, order

    def path(self, names=None):
        r = self.root
        if r[0] == "v":
            s = names.get(r[1], "v%s" % r[1]) if names else "v%s" % r[1]
        elif r[0] == "p":
            s = names.get(("p", r[1]), "param%s" % r[1]) if names else "param%s" % r[1]
        elif r[0] == "this":
            s = "this"
        else:
            s = str(r[1]) if len(r) > 1 else r[0]
        for st in self.steps:
            if st[0] == "f":
                s += "." + st[1]
            elif st[0] == "i":
                s += "[" + ",".join("?" if any(x[0] == "o" for x in p.syms()) else repr(p) for p in st[1]) + "]"
            elif st[0] == "*":
                s = "(*" + s + ")"
            elif st[0] == "s":
                s += ".size()"
        return s


class Region:
    def __init__(self, node, func):
        self.node, self.func = node, func
        self.line = node["l"]
        self.declared = set()      # variables declared inside (iteration private)
        self.persistent = {}       # thread-private but living across iterations: id -> name
        self.loopvars = []         # associated loop variables
        self.loopheads = []
        self.reductions = []       # (id, op, type)
        self.hasfor = False
        self.privclause = set()
        self.lastprivate = set()
        self.problems = []
        self.forbody = None
        self.outer = None
        self.block = False


class Summary:
    def __init__(self):
        self.effects = []
        self.ret = []        # places (for reference/pointer results)
        self.regions = []
        self.retpoly = None


class Effects:
    def __init__(self, prog):
        self.p = prog
        self.cache = {}
        self.busy = set()
        self.walkers = {}
        self.unknown_calls = {}

    def summary(self, f):
        if f.m in self.cache:
            return self.cache[f.m]
        if f.m in self.busy:
            return Summary()
        self.busy.add(f.m)
        w = Walker(self, f)
        s = w.run()
        self.busy.discard(f.m)
        self.cache[f.m] = s
        self.walkers[f.m] = w
        return s


class Walker:
    def __init__(self, eff, f):
        self.E, self.p, self.f = eff, eff.p, f
        self.effects = []
        self.names = {}
        self.ptype = {}
        self.pindex = {}
        self.refs = {}
        self.ptrs = {}
        self.types = {}
        self.inits = {}
        self.lambdas = {}
        self.n = 0
        self.region = None
        self.sync = None
        self.regions = []
        self.loops = {}
        self.ret = []
        self.retpolys = []
        self.regionof = {}
        self.order = 0
        self.declnames = set()
        self.lamstack = []

    # -- set-up
    def run(self):
        f = self.f
        for i, q in enumerate(f.params):
            self.names[q["id"]] = q["n"]
            self.names[("p", i)] = q["n"]
            self.types[q["id"]] = q["t"]
            self.pindex[q["id"]] = i
            if is_ref(q["t"]):
                self.refs[q["id"]] = [(("p", i), ())]
            elif is_ptrlike(q["t"]):
                self.ptrs[q["id"]] = [(("p", i), ())]
        self.scan_mods(f.body)
        for ini in f.d.get("inits", []) or []:
            if ini.get("e"):
                if ini.get("n"):
                    self.rval(ini["e"])
                    self.emit("w", (("this",), (("f", ini["n"]),)), f.line)
                else:
                    # base or delegating constructor: its effects on this object
                    e = ini["e"]
                    if e.get("k") == "Construct":
                        self.apply_call(e.get("fn"), [(("this",), ())], e.get("a", []), e, True)
                    else:
                        self.rval(e)
        self.stmt(f.body)
        s = Summary()
        seen = set()
        for e in self.effects:
            if e.root[0] in ("p", "this", "g", "?"):
                if e.root[0] == "p" and not (is_ref(self.f.params[e.root[1]]["t"]) or is_ptrlike(self.f.params[e.root[1]]["t"])):
                    continue
                steps = self.export_steps(e.steps)
                key = (e.kind, e.root, steps, e.bit)
                if key in seen:
                    continue
                seen.add(key)
                s.effects.append(Effect(e.kind, e.root, steps, e.line, e.file, e.via, sync=e.sync, bit=e.bit, op=e.op))
        s.ret = [(r, self.export_steps(st)) for r, st in self.ret]
        s.regions = self.regions
        if len(self.retpolys) == 1 and self.retpolys[0] is not None:
            s.retpoly = self.export_poly(self.retpolys[0])
        return s

    def export_poly(self, p):
        def f(sy):
            if sy[0] == "v" and sy[1] in self.pindex:
                return Poly.sym(("p", self.pindex[sy[1]]))
            if sy[0] in ("div", "mod"):
                return Poly.sym((sy[0], sy[1].subst(f), sy[2].subst(f)))
            return Poly.sym(("o", self.f.m, repr(sy)))
        return p.subst(f)

    def export_steps(self, steps):
        return tuple(("i", tuple(self.export_poly(p) for p in s[1])) if s[0] == "i" else s for s in steps)

    def scan_mods(self, body):
        """Variables assigned after their initialisation, and which have their address or a non-const reference taken."""
        self.mod = set()
        for x in walk(body):
            k = x.get("k")
            if k == "Assign":
                self.mark(x["x"])
            elif k == "Un" and x["op"] in ("++", "--", "&"):
                self.mark(x["e"])
            elif k == "OpCall" and x["op"] in ("=", "+=", "-=", "*=", "/=", "++", "--", ">>"):
                for a in x["a"][:2]:
                    self.mark(a)
            elif k in ("Call", "MCall", "Construct") and x.get("fn"):
                for a, t in zip(x.get("a", []), x["fn"]["pt"]):
                    if (is_ref(t) and not t.strip().startswith("const ")):
                        self.mark(a)
            elif k == "Decl":
                for v in x["v"]:
                    if is_ref(v["t"]) and not v["t"].strip().startswith("const ") and v.get("init"):
                        self.mark(v["init"])

    def mark(self, e):
        while isinstance(e, dict) and e.get("k") in ("Cast",):
            e = e["e"]
        if isinstance(e, dict) and e.get("k") == "Ref" and e.get("rk") in ("local", "param"):
            self.mod.add(e["id"])

    # -- emission
    def emit(self, kind, place, line, via=(), bit=False, op=None, file=None):
        root, steps = place
        if len(steps) > MAXSTEPS:
            steps = steps[:MAXSTEPS]
        self.order += 1
        self.effects.append(Effect(kind, root, tuple(steps), line, file or self.f.file, via, self.region, self.sync, bit, op, self.order))

    def fresh(self, tag="h"):
        self.n += 1
        r = (tag, "%s#%d" % (self.f.m, self.n))
        self.regionof[r] = self.region
        return r

    # -- integer values
    def opaque(self, e=None):
        self.n += 1
        return Poly.sym(("o", self.f.m, self.n))

    def poly(self, e, depth=0):
        k = e.get("k")
        if k == "Int" and isinstance(e["v"], int):
            return Poly.const(e["v"])
        if k == "Bool":
            return Poly.const(1 if e["v"] else 0)
        if k == "Cast" and e["ck"] in ("IntegralCast", "IntegralToFloating", "FloatingToIntegral", "IntegralToBoolean", "FloatingCast"):
            if e["ck"] == "FloatingToIntegral" and not (e["e"].get("k") in ("Ref", "Cast")):
                return self.opaque()
            return self.poly(e["e"], depth)
        if k == "Construct" and len(e.get("a", [])) == 1:
            return self.poly(e["a"][0], depth)
        if k == "Ref":
            if e["rk"] == "enum":
                return Poly.const(e["v"])
            if e["rk"] in ("local", "param"):
                i = e["id"]
                if i in self.refs:
                    # a const scalar reference parameter or a reference to something
                    if i in self.pindex and is_const_ref(self.types[i]) and is_scalar(self.types[i]):
                        return Poly.sym(("v", i, e["n"]))
                    return Poly.sym(("v", i, e["n"]))
                if i not in self.mod and i in self.inits and depth < 12 and self.inits[i] is not None:
                    return self.inits[i]
                return Poly.sym(("v", i, e["n"]))
            return Poly.sym(("g", e.get("q", e["n"])))
        if k == "Bin":
            op = e["op"]
            if op in ("+", "-", "*"):
                a, b = self.poly(e["x"], depth + 1), self.poly(e["y"], depth + 1)
                return a + b if op == "+" else a - b if op == "-" else a * b
            if op in ("/", "%"):
                a, b = self.poly(e["x"], depth + 1), self.poly(e["y"], depth + 1)
                return Poly.sym(("div" if op == "/" else "mod", a, b))
        if k == "Un" and e["op"] == "-":
            return -self.poly(e["e"], depth + 1)
        if k == "MCall" and e.get("fn") and e["fn"]["q"].endswith("::size") and not e.get("a"):
            ps = self.quiet(lambda: self.lval(e["o"]))
            if len(ps) == 1 and not any(s[0] == "i" and any(x[0] == "o" for q in s[1] for x in q.syms()) for s in ps[0][1]):
                return Poly.sym(("sz", repr(ps[0])))
            return self.opaque()
        if k == "Member" and "fn" not in e:
            ps = self.quiet(lambda: self.lval(e))
            if len(ps) == 1:
                return Poly.sym(("m", repr(ps[0])))
        if k in ("Call", "MCall") and e.get("fn") and e["fn"].get("own") and depth < 6:
            ts = self.p.targets(e["fn"], e.get("nonvirt"))
            if len(ts) == 1:
                s = self.E.summary(ts[0])
                if s.retpoly is not None and not any(x[0] not in ("p", "div", "mod") for x in s.retpoly.deepsyms()):
                    args = [self.quiet(lambda a=a: self.poly(a, depth + 1)) for a in e.get("a", [])]

                    def f(sy):
                        if sy[0] == "p":
                            return args[sy[1]] if sy[1] < len(args) else self.opaque()
                        if sy[0] in ("div", "mod"):
                            return Poly.sym((sy[0], sy[1].subst(f), sy[2].subst(f)))
                        return Poly.sym(sy)
                    return s.retpoly.subst(f)
        return self.opaque()

    def quiet(self, fn):
        n = len(self.effects)
        r = fn()
        del self.effects[n:]
        return r

    # -- places
    def step(self, places, st):
        return [(r, s + (st,)) for r, s in places]

    def lval(self, e):
        """Places denoted by a glvalue (or temporary) expression; evaluates subexpressions."""
        k = e.get("k")
        if k == "Ref":
            rk = e["rk"]
            if rk in ("local", "param"):
                i = e["id"]
                if i in self.refs:
                    return self.refs[i]
                return [(("v", i), ())]
            if rk == "global":
                return [(("g", e.get("q") or e["n"]), ())]
            if rk == "func":
                return []
            if rk == "other":
                return [(("v", e.get("id")), ())]
            return []
        if k == "This":
            return [(("this",), ())]
        if k == "Member":
            if "fn" in e:
                return self.pointee(e["b"]) if e["arrow"] else self.lval(e["b"])
            base = self.pointee(e["b"]) if e["arrow"] else self.lval(e["b"])
            return self.step(base, ("f", e["n"]))
        if k == "Index":
            i = self.poly(e["i"])
            self.rval(e["i"])
            return self.step(self.pointee(e["b"]), ("i", (i,)))
        if k == "Un":
            if e["op"] == "*":
                return self.pointee(e["e"])
            if e["op"] in ("++", "--"):
                pl = self.lval(e["e"])
                for x in pl:
                    self.emit("r", x, e["l"], op=e["op"])
                    self.emit("w", x, e["l"], op=e["op"])
                return pl
        if k == "Assign":
            self.rval(e["y"])
            pl = self.lval(e["x"])
            self.assign_ptr(e["x"], e["y"])
            for x in pl:
                if e["op"] != "=":
                    self.emit("r", x, e["l"], op=e["op"])
                self.emit("w", x, e["l"], op=e["op"] if e["op"] != "=" else store_op(e["y"]))
            return pl
        if k == "Cond":
            self.rval(e["c"])
            return self.lval(e["x"]) + self.lval(e["y"])
        if k == "Bin" and e["op"] == ",":
            self.rval(e["x"])
            return self.lval(e["y"])
        if k == "Cast":
            if e.get("ck") == "ArrayToPointerDecay":
                return self.lval(e["e"])
            return self.lval(e["e"])
        if k == "DefaultArg":
            return self.lval(e["e"])
        if k == "OpCall":
            return self.opcall(e)
        if k in ("MCall", "Call"):
            return self.call(e)
        if k == "Construct" or k in ("InitList", "StdInit", "New", "ZeroInit", "Str"):
            self.rval(e)
            return [(self.fresh(), ())]
        self.rval_children(e)
        return [(self.fresh(), ())]

    def pointee(self, e):
        """Places a pointer-like expression points to."""
        k = e.get("k")
        if k == "This":
            return [(("this",), ())]
        if k == "Un" and e["op"] == "&":
            return self.lval(e["e"])
        if k == "Cast":
            if e["ck"] == "ArrayToPointerDecay":
                return self.lval(e["e"])
            return self.pointee(e["e"])
        if k == "DefaultArg":
            return self.pointee(e["e"])
        if k == "New":
            self.rval(e)
            return [(self.fresh(), ())]
        if k == "Ref" and e["rk"] in ("local", "param"):
            if e["id"] in self.ptrs:
                return self.ptrs[e["id"]]
            if e["id"] in self.refs:
                return self.step(self.refs[e["id"]], ("*",))
            return [(("v", e["id"]), (("*",),))]
        if k == "Construct":
            if len(e.get("a", [])) >= 1 and is_ptrlike(e["t"]) and (is_ptrlike(e["a"][0].get("t", "")) or e["a"][0].get("k") == "New"):
                return self.pointee(e["a"][0])
            self.rval(e)
            return [(self.fresh(), ())]
        if k == "Cond":
            self.rval(e["c"])
            return self.pointee(e["x"]) + self.pointee(e["y"])
        if k == "Bin" and e["op"] in ("+", "-"):
            self.rval(e["y"])
            return [(r, s) for r, s in self.pointee(e["x"])]
        if k == "Un" and e["op"] in ("++", "--"):
            self.rval(e)
            return self.pointee(e["e"])
        if k == "Str":
            return [(self.fresh(), ())]
        if k in ("Call", "MCall"):
            return self.call(e, want="pointee")
        if k == "OpCall":
            if e["op"] in ("+", "-", "++", "--", "+=", "-=", "="):
                for a in e["a"][1:]:
                    self.rval(a)
                return self.pointee(e["a"][0])
            if e["op"] == "->":
                return self.pointee(e["a"][0])
            return self.step(self.opcall(e), ("*",))
        if k == "Assign":
            self.rval(e)
            return self.pointee(e["x"])
        if k == "Null":
            return []
        return self.step(self.lval(e), ("*",))

    def assign_ptr(self, x, y):
        while x.get("k") == "Cast":
            x = x["e"]
        if x.get("k") == "Ref" and x["rk"] in ("local", "param") and is_ptrlike(x["t"]):
            pl = self.quiet(lambda: self.pointee(y))
            cur = self.ptrs.setdefault(x["id"], [])
            for q in pl:
                if q not in cur:
                    cur.append(q)

    # -- values
    def rval(self, e):
        if not isinstance(e, dict):
            return
        k = e.get("k")
        if k in ("Int", "Float", "Str", "Bool", "Null", "This", "ZeroInit", "SizeOf"):
            return
        if k == "Ref" and e["rk"] in ("enum", "func"):
            return
        if k in ("Ref", "Member", "Index"):
            for x in self.lval(e):
                self.emit("r", x, e["l"])
            return
        if k == "Un":
            if e["op"] == "*":
                for x in self.lval(e):
                    self.emit("r", x, e["l"])
            elif e["op"] in ("++", "--"):
                self.lval(e)
            elif e["op"] == "&":
                self.lval(e["e"])
            else:
                self.rval(e["e"])
            return
        if k == "Assign":
            self.lval(e)
            return
        if k == "Cast":
            self.rval(e["e"])
            return
        if k == "Cond":
            self.rval(e["c"]); self.rval(e["x"]); self.rval(e["y"])
            return
        if k == "OpCall":
            pl = self.opcall(e)
            if e["op"] in ("[]", "*", "()", "->"):
                for x in pl:
                    self.emit("r", x, e["l"])
            return
        if k in ("Call", "MCall"):
            pl = self.call(e)
            if e.get("fn") and is_ref(e["fn"]["ret"]):
                for x in pl:
                    self.emit("r", x, e["l"])
            return
        if k == "Construct":
            self.construct(e)
            return
        if k == "Lambda":
            self.lambda_body(e)
            return
        if k == "New":
            if e.get("n"):
                self.rval(e["n"])
            if e.get("init"):
                self.rval(e["init"])
            return
        if k == "Delete":
            for x in self.quiet(lambda: self.pointee(e["e"])):
                self.emit("w", x, e["l"], op="delete")
            return
        if k == "StmtExpr":
            self.stmt(e["s"])
            return
        self.rval_children(e)

    def rval_children(self, e):
        for c in ir.kids(e):
            self.rval(c)

    def lambda_body(self, e):
        for q in e["ps"]:
            self.names[q["id"]] = q["n"]
            self.types[q["id"]] = q["t"]
            self.note_decl(q["id"])
        self.lamstack.append(e)
        self.stmt(e["body"])
        self.lamstack.pop()

    def construct(self, e):
        fn = e.get("fn")
        args = e.get("a", [])
        if fn and fn.get("own") and self.p.targets(fn):
            self.apply_call(fn, [(self.fresh(), ())], args, e, True)
            return
        for i, a in enumerate(args):
            t = fn["pt"][i] if fn and i < len(fn["pt"]) else ""
            if e.get("move") and i == 0:
                for x in self.lval(a):
                    self.emit("r", x, e["l"])
                    self.emit("w", x, e["l"], op="move")
            elif is_ref(t) and not is_const_ref(t) and not is_rvalue_ref(t):
                for x in self.lval(a):
                    self.emit("r", x, e["l"])
                    self.emit("w", x, e["l"], op="ref")
            else:
                self.rval(a)

    def opcall(self, e):
        op, a, fn = e["op"], e["a"], e.get("fn")
        own = fn and fn.get("own") and self.p.targets(fn)
        if op == "()" and fn and "lambda" in (fn.get("cls") or fn.get("q") or ""):
            for x in a[1:]:
                self.rval(x)
            self.call_lambda(a[0], a[1:])
            return [(self.fresh(), ())]
        if own and op not in ("()",):
            # user operator
            base = self.lval(a[0]) if e.get("ismem") else None
            return self.apply_call(fn, base, a[1:] if e.get("ismem") else a, e)
        if op == "[]":
            base = self.lval(a[0])
            i = self.poly(a[1]) if is_scalar(a[1].get("t", "int")) else self.opaque()
            self.rval(a[1])
            if MAPLIKE.search(strip_ref(a[0].get("t", "")).replace("const ", "")):
                for x in base:
                    self.emit("w", x, e["l"], op="map[]")
            return self.step(base, ("i", (i,)))
        if op == "()":
            base = self.lval(a[0])
            if own and len(a) > 1 and all(is_scalar(x.get("t", "int")) for x in a[1:]):
                pre = self.accessor_prefix(fn)
                if pre is not None:
                    polys = []
                    for x in a[1:]:
                        polys.append(self.poly(x))
                        self.rval(x)
                    return [(r, s0 + pre + (("i", tuple(polys)),)) for r, s0 in base]
            if fn and is_ref(fn["ret"]) or (fn and "subview" in fn["ret"]):
                polys = []
                for x in a[1:]:
                    polys.append(self.poly(x) if is_scalar(x.get("t", "int")) else self.opaque())
                    self.rval(x)
                return self.step(base, ("i", tuple(polys)))
            if own:
                return self.apply_call(fn, base, a[1:], e)
            for x in a[1:]:
                self.rval(x)
            for x in base:
                self.emit("r", x, e["l"])
            return [(self.fresh(), ())]
        if op in ("*", "->") and len(a) == 1:
            if op == "*" and not is_ptrlike(a[0].get("t", "")):
                return self.step(self.lval(a[0]), ("*",))
            return self.pointee(a[0])
        if op in ("=", "+=", "-=", "*=", "/=", "%=", "|=", "&=", "^="):
            base = self.lval(a[0])
            bit = "_Bit_reference" in (a[0].get("t") or "") or "_Bit_reference" in (fn or {}).get("q", "")
            move = fn and fn["pt"] and is_rvalue_ref(fn["pt"][0])
            if move and a[1].get("k") not in ("Construct", "Call", "MCall", "OpCall", "InitList"):
                for x in self.lval(a[1]):
                    self.emit("r", x, e["l"])
                    self.emit("w", x, e["l"], op="move")
            else:
                self.rval(a[1])
            if op == "=":
                self.assign_ptr(a[0], a[1])
            for x in base:
                if op != "=":
                    self.emit("r", x, e["l"], op=op)
                self.emit("w", x, e["l"], op=op if op != "=" else store_op(a[1]), bit=bit)
            return base
        if op in ("++", "--"):
            base = self.lval(a[0])
            for x in base:
                self.emit("r", x, e["l"], op=op)
                self.emit("w", x, e["l"], op=op)
            return base
        if op in ("<<", ">>"):
            base = self.lval(a[0])
            t = strip_ref(a[0].get("t", ""))
            stream = "stream" in t
            if op == ">>" and stream:
                for x in self.lval(a[1]):
                    self.emit("w", x, e["l"], op=op)
            else:
                self.rval(a[1])
            if stream:
                for x in base:
                    self.emit("w", x, e["l"], op=op)
            else:
                for x in base:
                    self.emit("r", x, e["l"])
            return base
        # other library operators: by the parameter types
        pts = fn["pt"] if fn else []
        off = 1 if e.get("ismem") else 0
        for i, x in enumerate(a):
            t = "" if i < off else (pts[i - off] if i - off < len(pts) else "")
            if is_ref(t) and not is_const_ref(t) and not is_rvalue_ref(t):
                for q in self.lval(x):
                    self.emit("r", q, e["l"])
                    self.emit("w", q, e["l"], op=op)
            else:
                self.rval(x)
        return [(self.fresh(), ())]

    def accessor_prefix(self, fn):
        """Storage field behind a user-defined cell accessor operator()(i, j, ...)."""
        key = ("acc", fn["q"])
        if key in self.E.cache:
            return self.E.cache[key]
        res = None
        for g in self.p.byq.get(fn["q"], []):
            if is_ref(g.ret):
                for r, st in self.E.summary(g).ret:
                    if r == ("this",):
                        pre = []
                        for x in st:
                            if x[0] == "i":
                                break
                            pre.append(x)
                        if len(pre) < len(st):
                            res = tuple(pre)
        self.E.cache[key] = res
        return res

    def call_lambda(self, o, args):
        while o.get("k") == "Cast":
            o = o["e"]
        if o.get("k") == "Ref" and o.get("id") in self.lambdas and len(self.lamstack) < 4:
            self.lambda_body(self.lambdas[o["id"]])

    def call(self, e, want="place"):
        fn = e.get("fn")
        args = e.get("a", [])
        if fn is None:
            # call through a function value
            self.rval(e.get("ce"))
            for a in args:
                self.rval(a)
            ce = e.get("ce") or {}
            while ce.get("k") in ("Cast", "Un"):
                ce = ce["e"]
            if ce.get("k") == "Ref" and ce.get("id") in self.lambdas:
                self.call_lambda(ce, args)
            else:
                self.E.unknown_calls["%s:%d" % (self.f.where, e["l"])] = "call through a value"
            return [(self.fresh(), ())]
        q = fn["q"]
        name = q.split("::")[-1]
        if e["k"] == "MCall":
            o = e.get("o")
            base = None
            if not fn.get("static"):
                base = (self.pointee(o) if o and is_ptrlike(o.get("t", "")) and not self.is_container_method(fn) else self.lval(o) if o else [])
            else:
                if o:
                    self.quiet(lambda: self.lval(o))
            if fn.get("own"):
                return self.apply_call(fn, base, args, e, want=want)
            return self.lib_method(fn, base, o, args, e, want)
        if fn.get("own") or self.p.targets(fn):
            return self.apply_call(fn, None, args, e, want=want)
        return self.lib_call(fn, args, e, want)

    def is_container_method(self, fn):
        c = fn.get("cls") or ""
        return "shared_ptr" in c or "unique_ptr" in c or "iterator" in c

    def lib_method(self, fn, base, o, args, e, want):
        name = fn["q"].split("::")[-1]
        cls = fn.get("cls") or ""
        if "shared_ptr" in cls or "unique_ptr" in cls:
            if name == "get":
                r = self.pointee(o)
                return r if want == "pointee" else [(self.fresh(), ())]
            if name in ("reset", "swap"):
                for x in base:
                    self.emit("w", x, e["l"], op=name)
        pts = fn["pt"]
        for i, a in enumerate(args):
            t = pts[i] if i < len(pts) else ""
            if is_ref(t) and not is_const_ref(t) and not is_rvalue_ref(t):
                for x in self.lval(a):
                    self.emit("r", x, e["l"])
                    self.emit("w", x, e["l"], op=name)
            else:
                self.rval(a)
        base = base or []
        if name in ("size", "empty", "length", "capacity", "max_size", "n_rows", "n_cols"):
            for x in base:
                self.emit("r", (x[0], x[1] + (("s",),)), e["l"])
            return [(self.fresh(), ())]
        if name in ("at", "front", "back") or (is_ref(fn["ret"]) and name in ("operator[]", "operator()", "element", "value", "top")):
            idx = tuple(self.quiet(lambda a=a: self.poly(a)) for a in args) or (Poly.const(0) if name == "front" else self.opaque(),)
            return self.step(base, ("i", idx))
        if name in ("begin", "end", "rbegin", "rend", "cbegin", "cend", "data", "c_str", "find", "lower_bound", "upper_bound", "memptr", "colptr", "equal_range"):
            pl = self.step(base, ("i", (self.opaque(),)))
            if name in ("find", "lower_bound", "upper_bound", "equal_range", "c_str", "data"):
                for x in base:
                    self.emit("r", x, e["l"])
            return pl if want == "pointee" else pl if not is_ptrlike(fn["ret"]) else [(self.fresh(), ())]
        if name in ("row", "col", "submat", "subvec", "diag", "rows", "cols", "head", "tail", "each_col", "each_row", "slice", "tube"):
            for x in base:
                self.emit("r", x, e["l"])
            return self.step(base, ("i", (self.opaque(),)))
        if fn.get("const") or fn.get("static"):
            for x in base:
                self.emit("r", x, e["l"])
        else:
            for x in base:
                self.emit("r", x, e["l"], op=name)
                self.emit("w", x, e["l"], op=name)
        if is_ref(fn["ret"]):
            return base
        return [(self.fresh(), ())]

    def lib_call(self, fn, args, e, want):
        q = fn["q"]
        name = q.split("::")[-1]
        if q in IMPURE:
            self.emit("r", (("g", "@" + IMPURE[q]), ()), e["l"], op=q)
            if IMPURE[q] == "rand":
                self.emit("w", (("g", "@rand"), ()), e["l"], op=q)
        if q in THREADQ:
            self.emit("r", (("g", "@threads"), ()), e["l"], op=q)
        if q in THREADS:
            self.emit("w", (("g", "@threads"), ()), e["l"], op=q)
        if q in ("std::move", "std::forward", "std::ref", "std::cref", "std::addressof", "std::as_const") and len(args) == 1:
            if want == "pointee":
                return self.pointee(args[0])
            return self.lval(args[0])
        if q in ("std::begin", "std::end") and args:
            return self.step(self.lval(args[0]), ("i", (self.opaque(),)))
        if name in ("make_shared", "make_unique", "__make_shared"):
            for a in args:
                self.rval(a)
            return [(self.fresh(), ())]
        if name in ("dynamic_pointer_cast", "static_pointer_cast", "const_pointer_cast"):
            return self.pointee(args[0]) if want == "pointee" else [(self.fresh(), ())]
        if q in ("std::max", "std::min", "std::get") and want != "pointee":
            out = []
            for a in args:
                for x in self.lval(a):
                    self.emit("r", x, e["l"])
                    if q == "std::get":
                        out.append((x[0], x[1] + (("f", "get"),)))
            return out or [(self.fresh(), ())]
        if q.startswith("std::") and name in ALGO_W and not (name == "move" and len(args) == 1):
            w = ALGO_W[name]
            for i, a in enumerate(args):
                if is_ptrlike(a.get("t", "")):
                    pl = self.pointee(a)
                    for x in pl:
                        self.emit("r", x, e["l"])
                        if w is None or i in w:
                            self.emit("w", x, e["l"], op=name)
                else:
                    self.rval(a)
            return [(self.fresh(), ())]
        pts = fn["pt"]
        for i, a in enumerate(args):
            t = pts[i] if i < len(pts) else ""
            if is_ref(t) and not is_const_ref(t) and not is_rvalue_ref(t):
                for x in self.lval(a):
                    self.emit("r", x, e["l"])
                    self.emit("w", x, e["l"], op=name)
            elif t.strip().endswith("*") and not t.strip().startswith("const "):
                for x in self.pointee(a):
                    self.emit("r", x, e["l"])
                    self.emit("w", x, e["l"], op=name)
            elif is_ptrlike(a.get("t", "")) and a.get("k") != "Str":
                for x in self.pointee(a):
                    self.emit("r", x, e["l"])
            else:
                self.rval(a)
        return [(self.fresh(), ())]

    def apply_call(self, fn, base, args, e, ctor=False, want="place"):
        """Effects of a call to a function of the program."""
        ts = self.p.targets(fn, e.get("nonvirt"))
        places, pointees, polys = [], [], []
        pts = fn["pt"]
        for i, a in enumerate(args):
            t = pts[i] if i < len(pts) else ""
            if is_ref(t):
                if a.get("k") in ("Construct", "InitList") or not (a.get("k") in ("Ref", "Member", "Index", "Un", "OpCall", "MCall", "Call", "Cond", "Cast", "DefaultArg", "This")):
                    self.rval(a)
                    places.append([(self.fresh(), ())])
                else:
                    places.append(self.lval(a))
                polys.append(self.quiet(lambda a=a: self.poly(a)) if is_scalar(t) else None)
            elif is_ptrlike(t):
                self.rval(a) if a.get("k") not in ("Un", "This", "Cast", "New") else None
                places.append(self.pointee(a))
                polys.append(None)
            else:
                self.rval(a)
                places.append([])
                polys.append(self.quiet(lambda a=a: self.poly(a)) if is_scalar(t) else None)
        out = []
        if not ts and not fn.get("noret"):
            # declared but not defined in the analysed units: by its signature
            for i, pl in enumerate(places):
                t = pts[i] if i < len(pts) else ""
                for x in pl:
                    self.emit("r", x, e["l"])
                    if not t.strip().startswith("const "):
                        self.emit("w", x, e["l"], op=fn["q"])
            for x in base or []:
                self.emit("r", x, e["l"])
                if not fn.get("const") and not fn.get("virt"):
                    self.emit("w", x, e["l"], op=fn["q"])
        for t in ts:
            s = self.E.summary(t)

            def f(sy, memo={}):
                if sy[0] == "p":
                    p = polys[sy[1]] if sy[1] < len(polys) else None
                    return p if p is not None else self.opaque()
                if sy[0] in ("div", "mod"):
                    return Poly.sym((sy[0], sy[1].subst(f), sy[2].subst(f)))
                return Poly.sym(sy)

            def tr(root, steps):
                st = tuple(("i", tuple(p.subst(f) for p in x[1])) if x[0] == "i" else x for x in steps)
                if root[0] == "p":
                    if root[1] >= len(places):
                        return []
                    return [(r, s0 + st) for r, s0 in places[root[1]]]
                if root == ("this",):
                    return [(r, s0 + st) for r, s0 in (base or [])]
                return [(root, st)]
            for ef in s.effects:
                for pl in tr(ef.root, ef.steps):
                    via = (("%s:%d" % (ir.rel(ef.file), ef.line), t.q),) + ef.via if len(ef.via) < 6 else ef.via
                    sv = self.sync
                    if ef.sync and not self.sync:
                        self.sync = ef.sync
                    self.emit(ef.kind, pl, e["l"], via, ef.bit, ef.op)
                    self.sync = sv
            for r, st in s.ret:
                out += tr(r, st)
        if is_ref(fn["ret"]) or (want == "pointee"):
            seen = []
            for x in out:
                if x not in seen:
                    seen.append(x)
            return seen or [(self.fresh("?"), ())]
        return [(self.fresh(), ())]

    # -- statements
    def note_decl(self, vid):
        r = self.region
        while r is not None:
            r.declared.add(vid)
            r = r.outer
        self.declnames.add(vid)

    def decl(self, v):
        i, t = v["id"], v["t"]
        self.names[i] = v["n"]
        self.types[i] = t
        if v.get("static"):
            # static local: shared storage
            self.refs[i] = [(("g", "static local %s of %s" % (v["n"], self.f.q)), ())]
            if v.get("init"):
                self.rval(v["init"])
            return
        if v.get("tls"):
            self.refs[i] = [(("g", "thread_local %s of %s" % (v["n"], self.f.q)), ())]
        self.note_decl(i)
        ini = v.get("init")
        if ini is None:
            self.inits[i] = None
            return
        if ini.get("k") == "Lambda":
            self.lambdas[i] = ini
            self.rval(ini)
            return
        if is_ref(t):
            if ini.get("k") in ("Construct", "InitList", "Int", "Float"):
                self.rval(ini)
                return
            self.refs[i] = self.lval(ini)
            if not self.refs[i]:
                del self.refs[i]
            return
        if is_ptrlike(t):
            pl = self.pointee(ini)
            cur = self.ptrs.setdefault(i, [])
            for x in pl:
                if x not in cur:
                    cur.append(x)
            return
        self.rval(ini)
        if is_scalar(t):
            self.inits[i] = self.quiet(lambda: self.poly(ini))
        self.emit("w", (("v", i), ()), v.get("l", 0), op="init")

    def stmt(self, s):
        if not isinstance(s, dict):
            return
        k = s["k"]
        if k == "Block":
            for x in s["b"]:
                self.stmt(x)
        elif k == "Expr":
            self.rval(s["e"])
        elif k == "Decl":
            for v in s["v"]:
                self.decl(v)
        elif k == "If":
            self.stmt(s.get("init"))
            if s.get("cv"):
                self.decl(s["cv"])
            self.rval(s["c"])
            self.stmt(s["x"])
            self.stmt(s.get("y"))
        elif k == "For":
            self.stmt(s.get("init"))
            self.loophead(s)
            if s.get("c"):
                self.rval(s["c"])
            self.stmt(s["b"])
            if s.get("inc"):
                self.rval(s["inc"])
        elif k == "RangeFor":
            v = s["v"]
            self.names[v["id"]] = v["n"]
            self.types[v["id"]] = v["t"]
            self.note_decl(v["id"])
            pl = self.lval(s["r"])
            el = self.step(pl, ("i", (self.opaque(),)))
            if is_ref(v["t"]):
                self.refs[v["id"]] = el
            else:
                for x in el:
                    self.emit("r", x, s["l"])
                if is_ptrlike(v["t"]):
                    self.ptrs[v["id"]] = self.step(el, ("*",))
            self.stmt(s["b"])
        elif k == "While":
            if s.get("cv"):
                self.decl(s["cv"])
            self.rval(s["c"])
            self.stmt(s["b"])
        elif k == "Do":
            self.stmt(s["b"])
            self.rval(s["c"])
        elif k == "Return":
            e = s.get("e")
            if self.lamstack:
                if e:
                    self.rval(e)
                return
            if e:
                if is_ref(self.f.ret):
                    self.ret += self.lval(e)
                elif is_ptrlike(self.f.ret):
                    self.ret += self.pointee(e)
                else:
                    self.rval(e)
                    if is_scalar(self.f.ret):
                        self.retpolys.append(self.quiet(lambda: self.poly(e)))
        elif k == "Try":
            self.stmt(s["b"])
            for h in s["h"]:
                if h.get("v"):
                    self.note_decl(h["v"]["id"])
                self.stmt(h["b"])
        elif k == "Switch":
            self.rval(s["c"])
            self.stmt(s["b"])
        elif k in ("Case", "Default", "Label"):
            self.stmt(s["b"])
        elif k == "OMP":
            self.omp(s)

    def loophead(self, s):
        """Record lower bound / upper bound of a counting loop variable."""
        init, c = s.get("init"), s.get("c")
        vid = lo = None
        if init and init["k"] == "Decl" and len(init["v"]) == 1 and init["v"][0].get("init"):
            vid = init["v"][0]["id"]
            lo = self.quiet(lambda: self.poly(init["v"][0]["init"]))
            self.mod.add(vid)
            self.inits.pop(vid, None)
        elif init and init["k"] == "Expr" and init["e"].get("k") == "Assign" and init["e"]["x"].get("k") == "Ref":
            vid = init["e"]["x"].get("id")
            lo = self.quiet(lambda: self.poly(init["e"]["y"]))
        hi = None
        if vid is not None and c and c.get("k") == "Bin" and c["op"] in ("<", "<=", "!="):
            x = c["x"]
            while x.get("k") == "Cast":
                x = x["e"]
            if x.get("k") == "Ref" and x.get("id") == vid:
                hi = self.quiet(lambda: self.poly(c["y"]))
                if c["op"] == "<=":
                    hi = hi + Poly.const(1)
        if vid is not None:
            self.loops[vid] = (lo, hi)
        return vid

    def omp(self, s):
        d = s["d"]
        if d == "atomic" or d == "critical" or d in ("single", "master", "masked", "ordered"):
            sv = self.sync
            self.sync = d
            self.stmt(s.get("b"))
            self.sync = sv
            return
        if "parallel" in d or d in ("for", "for simd", "task", "taskloop", "sections", "section", "teams distribute parallel for"):
            new = None
            if "parallel" in d or self.region is None:
                new = Region(s, self.f)
                new.outer = self.region
                self.regions.append(new)
            r = new or self.region
            sv = self.region
            self.region = r
            isfor = "for" in d.split()
            if "parallel" in d and not isfor:
                # variables declared here live across the iterations of a worksharing loop inside
                r.block = True
            for c in s.get("cl", []):
                if c["c"] in ("private", "firstprivate"):
                    for v in c["v"]:
                        r.privclause.add(v)
                        r.persistent[v] = c["c"]
                elif c["c"] == "lastprivate":
                    for v in c["v"]:
                        r.privclause.add(v)
                        r.lastprivate.add(v)
                elif c["c"] == "reduction":
                    for v, t in zip(c["v"], c.get("ts", [])):
                        r.reductions.append((v, c.get("op", ""), t))
                        r.privclause.add(v)
            if isfor:
                n = 1
                for c in s.get("cl", []):
                    if c["c"] == "collapse":
                        n = c.get("n", 1)
                if r.block and not r.hasfor:
                    # what was declared so far in the parallel block persists across iterations
                    for v in r.declared:
                        r.persistent.setdefault(v, "declared before the loop")
                r.hasfor = True
                before = set(r.declared)
                b = s["b"]
                body = b
                lv = []
                for _ in range(n):
                    while body and body["k"] == "Block" and len([x for x in body["b"] if x["k"] != "Nop"]) == 1:
                        body = body["b"][0]
                    if not body or body["k"] != "For":
                        break
                    init = body.get("init")
                    vid = None
                    if init and init["k"] == "Decl":
                        vid = init["v"][0]["id"]
                    elif init and init["k"] == "Expr" and init["e"].get("k") == "Assign" and init["e"]["x"].get("k") == "Ref":
                        vid = init["e"]["x"]["id"]
                        r.privclause.add(vid)
                    lv.append(vid)
                    body = body["b"]
                r.loopvars += lv
                r.forbody = body
                self.stmt(b)
            else:
                self.stmt(s.get("b"))
            self.region = sv
            if new is not None and sv is not None:
                pass
            return
        # simd, barrier, flush, ...
        self.stmt(s.get("b"))

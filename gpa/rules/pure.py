"""C07: the result of a library call is a function of its arguments."""
from collections import Counter
from .. import ir
from ..effects import Effects, is_const_ref, is_ref
from ..ir import walk, kids
from . import init

STREAMS = {"std::cout", "std::cerr", "std::clog", "stdout", "stderr"}
SETTERS = {"gridpp::debug_level": {"gridpp::set_debug_level"}, "@threads": {"gridpp::set_omp_threads", "gridpp::initialize_omp"}}
GETTERS = {"gridpp::clock", "gridpp::get_debug_level", "gridpp::get_omp_threads"}
SOURCES = {"rand", "std::rand", "random", "drand48", "lrand48", "time", "std::time", "gettimeofday", "clock", "std::clock", "getenv", "std::getenv", "clock_gettime",
           "getpid", "pthread_self", "omp_get_wtime", "omp_get_max_threads", "omp_get_num_threads", "omp_get_thread_num",
           "std::chrono::_V2::system_clock::now", "std::chrono::_V2::steady_clock::now", "std::this_thread::get_id"}
RANDOM = {"rand", "std::rand", "random", "drand48", "lrand48"}


def library(p):
    return [f for f in p.functions() if ir.rel(f.file).startswith(("src/api", "include/")) or f.file.startswith(ir.build.VERIF)]


def parents(f):
    out = {}
    stack = [f.body]
    while stack:
        n = stack.pop()
        if isinstance(n, dict):
            for v in n.values():
                for x in (v if isinstance(v, list) else [v]):
                    if isinstance(x, dict):
                        out[id(x)] = n
                        stack.append(x)
                        if "k" not in x:       # declarators, handlers
                            pass
        elif isinstance(n, list):
            stack += n
    return out


def is_stream(e):
    while isinstance(e, dict):
        k = e.get("k")
        if k == "OpCall" and e.get("op") == "<<":
            e = e["a"][0]
        elif k == "Cast":
            e = e["e"]
        elif k == "MCall":
            e = e.get("o")
        else:
            break
    return isinstance(e, dict) and e.get("k") == "Ref" and (e.get("q") in STREAMS or "ostream" in e.get("t", "") and "stringstream" not in e.get("t", ""))


def print_only(s):
    """A statement whose only effect is output."""
    if s is None:
        return True
    k = s.get("k")
    if k == "Block":
        return all(print_only(x) for x in s["b"])
    if k == "Expr":
        e = s["e"]
        return is_stream(e) or e.get("k") == "Call" and (e.get("fn") or {}).get("q") in ("gridpp::warning", "gridpp::error", "printf", "fprintf", "puts")
    if k in ("Nop", "Decl"):
        return True
    if k == "If":
        return print_only(s["x"]) and print_only(s.get("y"))
    if k in ("For", "While", "RangeFor"):
        return print_only(s.get("b"))
    return False


NAMES = {"gettimeofday": "the clock", "clock_gettime": "the clock", "time": "the clock"}


class Leaks:
    """Where values of the clock, the environment, the thread count or the debugging level go."""

    def __init__(self, p, funcs):
        self.p, self.funcs = p, funcs
        self.sourcefn = {}       # mangled -> kind for functions of the library returning such a value
        self.out = []
        self.n = 0
        self.par = {}

    def parent(self, f):
        if f.m not in self.par:
            self.par[f.m] = parents(f)
        return self.par[f.m]

    def kind(self, e):
        fn = e.get("fn") or {}
        if e.get("k") in ("Call", "MCall") and fn:
            if fn.get("q") in SOURCES:
                return fn["q"]
            if fn.get("m") in self.sourcefn:
                return self.sourcefn[fn["m"]]
        if e.get("k") == "Ref" and e.get("rk") not in ("local", "param") and e.get("q"):
            g = self.p.globals.get(e["q"])
            if g and not g["const"] and not (g.get("t") or "").startswith("const "):
                return e["q"]
        if e.get("k") == "Cast" and "*" in (e["e"].get("t") or "") and (e.get("t") or "").strip() in init.SCALARS - {"bool"}:
            return "an address"
        return None

    def flow(self, f, e, kind, seen):
        """Follows the value of expression e upwards; None when it only reaches output."""
        par = self.parent(f)
        n = e
        while True:
            up = par.get(id(n))
            if up is None:
                return None
            k = up.get("k")
            if k == "Expr":
                return None
            if is_stream(up) and k == "OpCall":
                return None
            if k == "Return":
                return ("return", up["l"])
            if k is None and "id" in up and "n" in up:      # declarator
                return self.var(f, up["id"], up["n"], kind, seen)
            if k == "Assign":
                if n is up["x"]:
                    n = up
                    continue
                x = up["x"]
                if x.get("k") == "Ref" and x.get("rk") == "local":
                    return self.var(f, x["id"], x.get("n"), kind, seen)
                if x.get("k") == "Member" and (x.get("b") or {}).get("k") == "Ref" and x["b"].get("rk") == "local":
                    return self.var(f, x["b"]["id"], x["b"].get("n"), kind, seen)
                return ("stored", up["l"])
            if k == "If":
                if n is up.get("c"):
                    return None if print_only(up["x"]) and print_only(up.get("y")) else ("decides", up["l"])
                return None
            if k in ("For", "While", "Do", "Switch", "RangeFor"):
                return ("decides", up["l"])
            if k == "Cond" and n is up.get("c"):
                return ("decides", up["l"])
            if k == "OMP":
                return None
            if k in ("Call", "MCall", "Construct") and (up.get("fn") or {}).get("q", "").split("::")[-1] in ("set_num_threads", "omp_set_num_threads", "srand"):
                return None
            n = up

    def var(self, f, vid, name, kind, seen):
        if vid in seen:
            return None
        seen.add(vid)
        par = self.parent(f)
        for n in walk(f.body):
            if isinstance(n, dict) and n.get("k") == "Ref" and n.get("id") == vid:
                up = par.get(id(n))
                if up is not None and up.get("k") == "Assign" and n is up["x"]:
                    continue
                if up is not None and up.get("k") == "Un" and up.get("op") == "&":
                    continue
                r = self.flow(f, n, kind, seen)
                if r:
                    return r
        return None

    def run(self):
        changed = True
        while changed:
            changed = False
            for f in self.funcs:
                if f.body is None or f.m in self.sourcefn:
                    continue
                for n in walk(f.body):
                    if not isinstance(n, dict):
                        continue
                    kd = self.kind(n)
                    if not kd or kd in RANDOM:
                        continue
                    if kd == "gettimeofday" or kd == "clock_gettime":
                        r = None
                        for a in n.get("a", []):
                            b = a
                            while isinstance(b, dict) and b.get("k") in ("Un", "Cast"):
                                b = b["e"]
                            if b.get("k") == "Ref" and b.get("rk") == "local":
                                r = r or self.var(f, b["id"], b.get("n"), kd, set())
                    else:
                        par = self.parent(f).get(id(n)) or {}
                        if n.get("k") == "Ref" and par.get("k") == "Assign" and par["x"] is n:
                            continue        # a store: handled as an effect
                        r = self.flow(f, n, kd, set())
                    if r and r[0] == "return" and not self.keeps(f, kd):
                        self.sourcefn[f.m] = NAMES.get(kd, kd)
                        changed = True
                        break
        for f in self.funcs:
            if f.body is None:
                continue
            for n in walk(f.body):
                if not isinstance(n, dict):
                    continue
                kd = self.kind(n)
                if not kd:
                    continue
                self.n += 1
                if kd in RANDOM:
                    if not self.guarded(f, n, set()):
                        self.out.append((f, "random-number", n["l"], "a random number is drawn where the RandomChoice statistic was not asked for", "%s|%s" % ("random-number", f.q)))
                    continue
                if kd in ("gettimeofday", "clock_gettime"):
                    continue
                par = self.parent(f).get(id(n)) or {}
                if n.get("k") == "Ref" and par.get("k") == "Assign" and par["x"] is n:
                    continue
                r = self.flow(f, n, kd, set())
                if kd in ("getenv", "std::getenv") and f.q in SETTERS["@threads"]:
                    continue        # OMP_NUM_THREADS: the number of threads is what that function is for
                if r and not (r[0] == "return" and f.q in GETTERS):
                    what = {"return": "is returned", "stored": "is stored in a result", "decides": "decides what is computed"}[r[0]]
                    self.out.append((f, "hidden-input", r[1], "the value of %s %s here: the result does not depend on the arguments alone" % (kd, what), "hidden-input|%s|%s" % (f.q, kd)))

    def keeps(self, f, kd):
        return False

    def guarded(self, f, n, seen):
        par = self.parent(f)
        x = n
        while True:
            up = par.get(id(x))
            if up is None:
                break
            if up.get("k") == "If" and x is up.get("x") and mentions(up["c"], "RandomChoice"):
                return True
            if up.get("k") == "Case" and mentions(up, "RandomChoice"):
                return True
            if up.get("k") == "Block":
                i = next(j for j, s in enumerate(up["b"]) if s is x)
                for s in up["b"][:i + 1]:      # if(s != RandomChoice) return ...;   case RandomChoice: ...
                    if s.get("k") == "If" and mentions(s["c"], "RandomChoice") and leaves(s["x"]):
                        return True
                    if s.get("k") == "Case" and mentions(s, "RandomChoice"):
                        return True
            x = up
        if f.m in seen:
            return True
        calls = 0
        for g in self.funcs:
            if g.body is None:
                continue
            for c in walk(g.body):
                if isinstance(c, dict) and c.get("k") in ("Call", "MCall", "Construct") and (c.get("fn") or {}).get("m") == f.m:
                    calls += 1
                    if not self.guarded(g, c, seen | {f.m}):
                        return False
        return calls > 0


def leaves(s):
    k = s.get("k")
    if k == "Block":
        return bool(s["b"]) and leaves(s["b"][-1])
    return k in ("Return", "Continue", "Break") or k == "Expr" and s["e"].get("k") == "Throw"


def mentions(n, enumerator):
    for x in walk(n):
        if isinstance(x, dict) and x.get("k") == "Ref" and (x.get("q") or x.get("n") or "").split("::")[-1] == enumerator:
            return True
    return False


def out_params(f):
    return [(i, p) for i, p in enumerate(f.params) if is_ref(p["t"]) and not is_const_ref(p["t"]) and not p["t"].strip().endswith("&&")]


def is_stream_type(t):
    return "ostream" in t or "stringstream" in t or "istream" in t


RESET = {"clear", "assign", "resize", "swap"}
GROW = {"push_back", "emplace_back", "insert", "append"}


def appended_without_reset(f, vid):
    """Line where an output argument is extended although it still holds what the caller passed in."""
    bad = []

    def ref(e):
        while isinstance(e, dict) and e.get("k") == "Cast":
            e = e["e"]
        return isinstance(e, dict) and e.get("k") == "Ref" and e.get("id") == vid

    def ev(e, st):
        if not isinstance(e, dict) or st:
            return st
        k = e.get("k")
        if k == "Assign" and e["op"] == "=" and ref(e["x"]) or k == "OpCall" and e.get("op") == "=" and ref(e["a"][0]):
            return True
        if k == "MCall" and ref(e.get("o") or {}):
            n = (e.get("fn") or {}).get("q", "").split("::")[-1]
            if n in ("clear", "assign", "swap", "resize"):
                return True
            if n in GROW:
                bad.append(e["l"])
        if k in ("Call", "MCall"):
            pt = (e.get("fn") or {}).get("pt", [])
            for t, a in zip(pt, e.get("a", [])):
                if ref(a) and is_ref(t) and not is_const_ref(t):
                    st = True       # that function's own obligation
        for c in kids(e):
            st = ev(c, st) or st
        return st

    def stt(s, st):
        if not isinstance(s, dict) or st is None:
            return st
        k = s["k"]
        if k == "Block":
            for x in s["b"]:
                st = stt(x, st)
            return st
        if k == "If":
            st = ev(s["c"], st)
            a, b = stt(s["x"], st), stt(s["y"], st) if s.get("y") else st
            return b if a is None else a if b is None else a and b
        if k == "Expr":
            st = ev(s["e"], st)
            return None if s["e"].get("k") == "Throw" else st
        if k == "Return":
            ev(s.get("e"), st)
            return None
        if k in ("Break", "Continue"):
            return None
        if k == "Decl":
            for v in s["v"]:
                st = ev(v.get("init"), st)
            return st
        for key in ("init", "c", "b", "inc", "r"):
            x = s.get(key)
            if isinstance(x, dict):
                r = stt(x, st) if x.get("k") in ("Block", "Decl", "Expr", "If", "For", "While", "Return", "Do", "RangeFor", "Switch", "OMP", "Try", "Break", "Continue", "Nop", "Case", "Default") else ev(x, st)
                if k == "OMP" and key == "b":
                    st = r
        return st
    if f.body:
        stt(f.body, False)
    return bad


def findings(p, funcs, st):
    eff = Effects(p)
    out = []
    for f in funcs:
        eff.summary(f)
    for f in funcs:
        st["functions"] += 1
        w = eff.walkers.get(f.m)
        s = eff.summary(f)
        for e in s.effects:
            if e.kind == "w":
                st["writes"] += 1
        # what this function does itself; calls are reported where the store is
        for e in (w.effects if w else []):
            if e.via or e.kind != "w":
                continue
            if e.root[0] == "g":
                g = e.root[1]
                if g in STREAMS or g == "@rand" or g.startswith("@") and g not in SETTERS:
                    continue
                if e.op == "init" or f.q in SETTERS.get(g, ()):
                    continue
                out.append((f, "static-state", e.line, "static storage '%s' is written: later calls can see what this one did" % g, "static-state|%s|%s" % (f.q, g)))
            elif e.root[0] == "this" and f.const:
                out.append((f, "const-object", e.line, "the object is modified by an operation that must leave it alone ('%s')" % e.path(w.names), "const-object|%s|%s" % (f.q, e.path(w.names))))
            elif e.root[0] == "p" and e.root[1] < len(f.params):
                t = f.params[e.root[1]]["t"]
                if is_const_ref(t) or t.strip().startswith("const ") and t.strip().endswith("*"):
                    out.append((f, "const-argument", e.line, "the argument '%s' is modified although it is an input" % f.params[e.root[1]]["n"], "const-argument|%s|%s" % (f.q, f.params[e.root[1]]["n"])))
        if f.body is not None:
            for n in walk(f.body):
                if isinstance(n, dict) and n.get("k") == "Decl":
                    for v in n.get("v", []):
                        if v.get("static") and v.get("init"):
                            dep = [x for x in walk(v["init"]) if isinstance(x, dict) and (x.get("k") == "This" or x.get("k") == "Ref" and x.get("rk") in ("local", "param"))]
                            st["statics"] += 1
                            if dep:
                                out.append((f, "static-state", n["l"], "static variable '%s' keeps a value computed from the arguments of the first call" % v["n"], "static-init|%s|%s" % (f.q, v["n"])))
        for i, q in out_params(f):
            if "std::vector" in q["t"] and f.body is not None:
                st["output_arguments"] += 1
                for line in appended_without_reset(f, q["id"])[:1]:
                    out.append((f, "output-kept", line, "the output argument '%s' is extended without being emptied: what the caller had in it stays" % q["n"], "output-kept|%s|%s" % (f.q, q["n"])))
        fl = init.locals_of(p, f)
        st["locals_without_initialiser"] += fl.n
        for v, line in fl.bad:
            out.append((f, "uninitialised", line, "variable '%s' can be read before anything was stored in it" % fl.vars[v], "uninitialised|%s|%s" % (f.q, fl.vars[v])))
        if f.is_ctor:
            st["constructors"] += 1
            for m in init.members_unset(p, f):
                out.append((f, "uninitialised", f.line, "the constructor can leave data member '%s' without a value" % m, "uninitialised|%s|%s" % (f.q, m)))
    lk = Leaks(p, funcs)
    lk.run()
    st["clock_random_environment_uses"] = lk.n
    out += lk.out
    for q, r in sorted(p.records.items()):
        if ir.rel(r["file"]).startswith(("src/api", "include/")) or r["file"].startswith(ir.build.VERIF):
            st["classes"] += 1
            for x in r["fields"]:
                if x["mutable"]:
                    st["mutable_members"] += 1
    return out


def selftest():
    p = ir.samples("pure")
    fs = [f for f in p.functions()]
    fs = [f for f in fs if f.file.startswith(ir.build.VERIF)]
    bad = {x[0].name for x in findings(p, fs, Counter())}
    want = {f.name for f in fs if f.name.startswith(("bad_", "Bad"))}
    if bad != want:
        raise ir.AnalysisBroken("self-test of the purity rules: missed %s, wrongly reported %s" % (sorted(want - bad), sorted(bad - want)))
    return len(want), len(fs) - len(want)


def check(pid, res, tier):
    nbad, nok = selftest()
    p = ir.load()
    st = Counter()
    fs = library(p)
    for f, rule, line, text, key in findings(p, fs, st):
        res.add(rule, f.file, line, f.q, text, key)
    res.coverage = dict(st, selftest_bad=nbad, selftest_ok=nok)
    res.floor("library functions", st["functions"], 200)
    res.floor("constructors", st["constructors"], 20)
    res.explanation = ("Every function of the library: no store reaches static storage, an input argument or the object of a const operation (through any depth of calls, interprocedural effect analysis); values of the clock, "
                       "the environment, the thread count, the debugging level and addresses only reach output streams; random numbers are drawn only under the RandomChoice statistic; static variables are not initialised "
                       "from arguments; output arguments are reset before they are extended; every scalar variable and data member is assigned before it is read (forward definite-assignment analysis).")
    res.assumptions = ["the containers, Armadillo, Boost and GSL keep no state that changes a later result", "distinct reference arguments of one call do not alias",
                       "a variable passed by non-const reference or by address is stored to by the callee"]

"""C14: the output of the command-line program depends on its files and options alone."""
from collections import Counter
from .. import ir
from ..effects import Effects
from ..ir import walk
from . import init, pure

# state that is kept on purpose: (class or function, what) -> reason
KEPT = {
    ("Options", "mHasBeenAccessed"): "which options were asked for; read by check() only",
    ("File", "mFields"): "fields read so far, by variable and time",
    ("File", "mVariables"): "names of the fields read so far",
    ("File", "mTag"): "identity of the grid, new whenever the coordinates change (rule 'stale')",
    ("FileNetcdf", "mInDataMode"): "mode of the open file",
    ("ParameterFileNetcdf", "mInDefineMode"): "mode of the open file",
    ("ParameterFile", "mLocations"): "look-up built from the parameters; rebuilt from scratch (rule 'grows')",
    ("ParameterFile", "mNearestNeighbourTree"): "look-up built from the parameters",
}
STATIC = {
    "Downscaler::mNeighbourCache": {"Downscaler::addToCache", "Downscaler::getFromCache", "Downscaler::clearCache", "Downscaler::isCached"},
    "File::mNextTag": {"File::createNewTag"},
    "Cache::mCache": {"Cache::ok_put", "Cache::bad_put", "Cache::ok_has", "Cache::bad_has"},
    "Util::mShowError": {"Util::setShowError"}, "Util::mShowWarning": {"Util::setShowWarning"},
    "Util::mShowStatus": {"Util::setShowStatus"}, "Util::mShowInfo": {"Util::setShowInfo"},
}
PRINTING = {"Util::error", "Util::warning", "Util::status", "Util::info"}
GETTERS = {"Util::clock", "Util::getCurrentUnixTime"}
HISTORY = {"FileNetcdf::writeCore", "FileNetcdf::defineGlobalAttributes", "FileNetcdf::prependGlobalAttribute", "FileNetcdf::appendGlobalAttribute"}


def program(p):
    return [f for f in p.functions() if ir.rel(f.file).startswith("src/client") and "/Testing/" not in f.file and "/Driver/" not in f.file and "/devel/" not in f.file or f.file.startswith(ir.build.VERIF)]


def member(e):
    while isinstance(e, dict) and e.get("k") in ("Cast", "DefaultArg"):
        e = e["e"]
    if isinstance(e, dict) and e.get("k") == "Member":
        b = e.get("b")
        while isinstance(b, dict) and (b.get("k") == "Cast" or b.get("k") == "Un" and b.get("op") == "*"):
            b = b["e"]
        if isinstance(b, dict) and b.get("k") == "This":
            return e["n"]
    return None


def root_member(e):
    """data member of *this that an expression designates a part of"""
    while isinstance(e, dict):
        m = member(e)
        if m:
            return m
        k = e.get("k")
        if k in ("Cast", "DefaultArg"):
            e = e["e"]
        elif k == "Member":
            e = e.get("b")
        elif k == "Index":
            e = e["b"]
        elif k == "OpCall" and e.get("op") in ("[]", "*", "->"):
            e = e["a"][0]
        elif k == "Un" and e.get("op") == "*":
            e = e["e"]
        elif k == "MCall":
            e = e.get("o")
        else:
            return None
    return None


def last(fn):
    return (fn or {}).get("q", "").split("::")[-1]


def parts(n, names):
    """order of events in a method: clear(member), append(member), guard"""
    if n is None:
        return
    k = n.get("k")
    if k == "MCall" and root_member(n.get("o")) in names:
        nm = last(n.get("fn"))
        if nm in ("clear", "resize", "assign", "swap"):
            yield "clear", root_member(n["o"]), n["l"]
        elif nm in ("push_back", "emplace_back"):
            if member(n["o"]):
                yield "append", member(n["o"]), n["l"]
    x = n["x"] if k == "Assign" and n.get("op") == "=" else n["a"][0] if k == "OpCall" and n.get("op") == "=" and n.get("a") else None
    if x is not None and member(x) in names:
        yield "clear", member(x), n["l"]


def grows(p, funcs, bad, st):
    """look-ups kept in mutable members are rebuilt, not extended"""
    for f in funcs:
        if f.body is None or not f.const or not f.cls or f.cls not in p.records:
            continue
        mut = {x["n"] for x in p.records[f.cls]["fields"] if x["mutable"]}
        if not mut:
            continue

        def go(ss, done, guard):
            for s in ss:
                if not isinstance(s, dict):
                    continue
                k = s.get("k")
                if k == "Block":
                    go(s["b"], done, guard)
                elif k == "If":
                    c = s.get("c")
                    # "unless it is there already"
                    g = guard | looked_up(p, f, c, mut)
                    a, b = set(done), set(done)
                    go([s["x"]], a, g)
                    if s.get("y"):
                        go([s["y"]], b, g)
                    done |= a & b
                elif k in ("For", "While", "Do", "RangeFor"):
                    go([s["b"]] if isinstance(s["b"], dict) else s["b"], done, guard)
                else:
                    for n in walk({"b": [s]}):
                        for what, m, line in parts(n, mut):
                            if what == "clear":
                                done.add(m)
                            else:
                                st["appends"] += 1
                                if m not in done and m not in guard:
                                    bad(f, line, "grows", "'%s' is extended without being emptied: what an earlier call found is still in it" % m, "grows|%s|%s" % (f.q, m))
        go(f.body["b"], set(), set())


def looked_up(p, f, c, mut, depth=0):
    """members a condition looks at, directly or through an operation of the same class"""
    out = set()
    for x in walk({"b": [c]}):
        if member(x) in mut:
            out.add(member(x))
        if depth < 2 and x.get("k") in ("MCall", "Call") and (x.get("fn") or {}).get("cls"):
            for g in p.targets(x["fn"]):
                if g.body is not None and g.cls and (g.cls == f.cls or g.cls in p.bases_closure(f.cls)):
                    out |= looked_up(p, f, g.body, mut, depth + 1)
    return out


def stale(p, funcs, bad, st):
    """whoever changes the coordinates a tag stands for makes a new tag"""
    makers = {f.q for f in funcs if f.body is not None and f.cls and any(root_member(x.get("x")) == "mTag" for x in walk(f.body) if x.get("k") == "Assign")}
    if not makers:
        return
    coords = {"mLats", "mLons"}
    for f in funcs:
        if f.body is None or f.is_ctor or not f.cls or not ({f.cls} | set(p.bases_closure(f.cls))) & {q.rsplit("::", 1)[0] for q in makers}:
            continue
        stores = [n for n in walk(f.body) if (n.get("k") == "OpCall" and n.get("op") == "=" and root_member(n["a"][0]) in coords) or
                  (n.get("k") == "Assign" and root_member(n["x"]) in coords) or
                  (n.get("k") == "MCall" and last(n.get("fn")) in ("clear", "resize", "assign", "push_back", "swap", "insert") and root_member(n.get("o")) in coords)]
        if not stores:
            continue
        st["coordinates"] += 1
        # the tag must be renewed on each path that stores, except where nothing changes
        calls = set()
        for n in walk(f.body):
            if n.get("k") == "MCall" and (n.get("fn") or {}).get("q") in makers:
                calls.add(id(n))
        ok = renewed(f, f.body["b"], calls, stores, coords)
        if not ok:
            bad(f, stores[0]["l"], "stale", "the coordinates are changed and the grid keeps its identity: neighbours found for the old coordinates are used", "stale|%s" % f.q)


def renewed(f, ss, calls, stores, coords):
    """no path stores new coordinates without a new tag; `if(m != i) newtag()` and `if(m == i) return` count"""
    sid = {id(s) for s in stores}
    found = []

    def same(c):
        """(operator, member) of a comparison of the member with the new value, with what else is required"""
        c = value_of(f, c)
        if not isinstance(c, dict):
            return None
        if c.get("k") == "Un" and c.get("op") == "!":
            return {"==": "!=", "!=": "=="}.get(same(c["e"]))
        if c.get("k") in ("OpCall", "Bin") and c.get("op") in ("!=", "=="):
            a = c["a"] if c["k"] == "OpCall" else [c["x"], c["y"]]
            for x in a:
                if member(x) in coords:
                    return c["op"]
        return None

    def go(ss, state):
        # state: (tag renewed or known to be unchanged, stored without)
        for s in ss:
            if state is None:
                return None
            if not isinstance(s, dict):
                continue
            k = s.get("k")
            if k == "Block":
                state = go(s["b"], state)
            elif k == "If":
                op = same(s.get("c"))
                tag, st0 = state
                a = go([s["x"]], ((tag or op == "=="), st0))
                b = go([s["y"]] if s.get("y") else [], ((tag or op == "!="), st0))
                r = [x for x in (a, b) if x is not None]
                if not r:
                    return None
                state = (all(x[0] for x in r), any(x[1] for x in r))
            elif k in ("For", "While", "Do", "RangeFor"):
                r = go([s["b"]] if isinstance(s["b"], dict) else s["b"], state)
                if r is not None:
                    state = (state[0], state[1] or r[1])
            elif k in ("Return", "Break", "Continue"):
                found.append(state)
                return None
            else:
                tag, st0 = state
                for n in walk({"b": [s]}):
                    if id(n) in calls:
                        tag = True
                    if id(n) in sid:
                        st0 = True
                state = (tag, st0)
        return state
    end = go(ss, (False, False))
    if end is not None:
        found.append(end)
    return not any(st and not tag for tag, st in found)


def cachekey(p, funcs, bad, st):
    """what is remembered for a pair of grids is stored and found under both of them, in the same order"""
    caches = {g for g in STATIC if "Cache" in g} | {"Cache::mCache"}
    cached = set()
    for f in funcs:
        if f.body is None:
            continue
        par = [q["id"] for q in f.params if clsname(q["t"]) == "File"]
        if len(par) < 2:
            continue
        for n in walk(f.body):
            if not (n.get("k") == "OpCall" and n.get("op") == "[]"):
                continue
            keys, e = [], n
            while isinstance(e, dict) and e.get("k") in ("OpCall", "Cast"):
                if e["k"] == "OpCall" and e.get("op") == "[]":
                    keys.insert(0, e["a"][1])
                    e = e["a"][0]
                elif e["k"] == "Cast":
                    e = e["e"]
                else:
                    break
            if not (isinstance(e, dict) and e.get("q") in caches) or len(keys) < 2:
                continue
            st["cache_accesses"] += 1
            cached.add(f.m)
            used = [[x["id"] for x in walk({"b": [value_of(f, k)]}) if x.get("k") == "Ref" and x.get("id") in par] for k in keys]
            if used[0][:1] != par[:1] or used[1][:1] != par[1:2]:
                bad(f, n["l"], "cachekey", "neighbours are remembered under the wrong pair of grids", "cachekey|%s" % f.q)
        finds = [n for n in walk(f.body) if n.get("k") == "MCall" and last(n.get("fn")) in ("find", "count", "at") and any(x.get("id") in par for a in n["a"] for x in walk({"b": [value_of(f, a)]}))]
        if finds and any(x.get("q") in caches for x in walk(f.body)):
            st["cache_accesses"] += 1
            cached.add(f.m)
            used = {x["id"] for n in finds for a in n["a"] for x in walk({"b": [value_of(f, a)]}) if x.get("id") in par}
            first = [n for n in finds if any(x.get("q") in caches for x in walk({"b": [n["o"]]}))]
            if used != set(par[:2]) or first and not any(x.get("id") == par[0] for a in first[0]["a"] for x in walk({"b": [value_of(f, a)]})):
                bad(f, finds[0]["l"], "cachekey", "neighbours are looked up under the wrong pair of grids", "cachekey|%s" % f.q)
    for f in funcs:
        if f.body is None:
            continue
        par = [q["id"] for q in f.params if clsname(q["t"]) == "File"]
        if len(par) < 2:
            continue
        for n in walk(f.body):
            if n.get("k") in ("Call", "MCall") and (n.get("fn") or {}).get("m") in cached:
                a = []
                for x in n["a"]:
                    while isinstance(x, dict) and x.get("k") == "Cast":
                        x = x["e"]
                    if isinstance(x, dict) and x.get("k") == "Ref" and x.get("id") in par:
                        a.append(x["id"])
                st["cache_accesses"] += 1
                if a and a != par[:2]:
                    bad(f, n["l"], "cachekey", "neighbours are remembered for another pair of grids than the one they are asked for", "cachekey|%s|call" % f.q)


def clsname(t):
    return t.replace("const ", "").replace("&", "").replace("*", "").strip()


def handed(f, i):
    """is a variable passed on by reference, or changed by an operation of its own?"""
    for n in walk(f.body):
        if n.get("k") in ("Call", "MCall", "Construct"):
            fn = n.get("fn") or {}
            a, pt = n.get("a", []), fn.get("pt", [])
            off = len(a) - len(pt)
            for j, x in enumerate(a):
                t = pt[j - off].strip() if 0 <= j - off < len(pt) else ""
                if t.endswith("&") and not t.startswith("const ") and isinstance(x, dict) and x.get("k") == "Ref" and x.get("id") == i:
                    return True
            o = n.get("o")
            if n["k"] == "MCall" and isinstance(o, dict) and o.get("k") == "Ref" and o.get("id") == i and not fn.get("const") and last(fn) not in ("find", "begin", "end", "size", "at"):
                return True
    return False


def value_of(f, e, depth=0):
    """an expression with local variables that are set once replaced by what they are set to"""
    while isinstance(e, dict) and e.get("k") in ("Cast", "DefaultArg"):
        e = e["e"]
    if isinstance(e, dict) and e.get("k") == "Construct" and len(e.get("a", [])) == 1:
        return value_of(f, e["a"][0], depth)
    if isinstance(e, dict) and e.get("k") == "Ref" and e.get("rk") == "local" and depth < 4:
        d = [v for n in walk(f.body) if n.get("k") == "Decl" for v in n["v"] if v["id"] == e["id"]]
        if len(d) == 1 and d[0].get("init") and not any(
                n.get("k") == "Assign" and (n["x"] or {}).get("id") == e["id"] or n.get("k") == "OpCall" and n.get("op") == "=" and (n["a"][0] or {}).get("id") == e["id"] for n in walk(f.body)):
            return value_of(f, d[0]["init"], depth + 1)
    return e


def members_read(p, funcs):
    out = {}
    for f in funcs:
        if f.body is None or not f.cls:
            continue
        stores = {id(n["x"]) for n in walk(f.body) if n.get("k") == "Assign" and n.get("op") == "="}
        for n in walk(f.body):
            m = member(n)
            if m and id(n) not in stores:
                out.setdefault(m, set()).add(f.cls)
    return out


def outside(p, funcs):
    """members of other objects that are read, and that are stored to, per class"""
    rd, wr = {}, {}
    for f in funcs:
        if f.body is None:
            continue
        stores = {id(n["x"]) for n in walk(f.body) if n.get("k") == "Assign"} | {id(n["a"][0]) for n in walk(f.body) if n.get("k") == "OpCall" and n.get("op") == "="}
        for n in walk(f.body):
            if n.get("k") == "Member" and (n.get("b") or {}).get("k") != "This":
                c = ((n.get("b") or {}).get("t") or "").replace("const ", "").replace("*", "").replace("&", "").strip()
                (wr if id(n) in stores else rd).setdefault(c, set()).add(n["n"])
    return rd, wr


def copies(g):
    return len(g.params) == 1 and g.params[0]["t"].replace("const ", "").replace("&", "").strip() == g.cls


def stored_by(p, g, depth=0):
    out = set()
    for i in g.d.get("inits") or []:
        if i.get("n"):
            out.add(i["n"])
    for n in walk(g.body):
        if n.get("k") == "Assign" and member(n["x"]):
            out.add(member(n["x"]))
        if n.get("k") == "OpCall" and n.get("op") == "=" and n.get("a") and member(n["a"][0]):
            out.add(member(n["a"][0]))
        if depth < 3 and n.get("k") == "MCall" and (n.get("o") or {}).get("k") == "This":
            for h in p.targets(n["fn"]):
                if h.body is not None and h.m != g.m:
                    out |= stored_by(p, h, depth + 1)
    return out


def findings(p, funcs, st):
    def bad(f, line, rule, text, key):
        out.append((f, rule, line, text, key))
    out = []
    eff = Effects(p)
    for f in funcs:
        eff.summary(f)
    written = set()
    for f in p.functions():
        if "/Testing/" in f.file:
            continue
        for e in (eff.walkers[f.m].effects if f.m in eff.walkers else []):
            if e.kind == "w" and e.root[0] == "g" and e.op != "init":
                written.add(e.root[1])
    for f in funcs:
        st["functions"] += 1
        w = eff.walkers.get(f.m)
        for e in (w.effects if w else []):
            if e.via or e.kind != "w":
                continue
            st["writes"] += 1
            if e.root[0] == "g":
                g = e.root[1]
                if g in pure.STREAMS or g.startswith("@") or e.op == "init" or f.q in STATIC.get(g, ()):
                    continue
                bad(f, e.line, "static-state", "static storage '%s' is written: what follows can see what was done before" % g, "static-state|%s|%s" % (f.q, g))
            elif e.root[0] == "this" and f.const:
                path = e.path(w.names)
                m = path.split(".")[1].split("[")[0] if "." in path else path
                if any((c, m) in KEPT for c in {f.cls} | set(p.bases_closure(f.cls or ""))):
                    st["kept"] += 1
                    continue
                bad(f, e.line, "const-object", "the object is modified by an operation that must leave it alone ('%s')" % path, "const-object|%s|%s" % (f.q, path))
        if f.body is not None:
            for n in walk(f.body):
                if n.get("k") == "Decl":
                    for v in n.get("v", []):
                        if v.get("static") and not v["t"].startswith("const ") and handed(f, v["id"]):
                            bad(f, n["l"], "static-state", "static variable '%s' keeps what earlier calls stored in it" % v["n"], "static-state|%s|%s" % (f.q, v["n"]))
                        if v.get("static") and v.get("init"):
                            st["statics"] += 1
                            if any(x.get("k") == "This" or x.get("k") == "Ref" and x.get("rk") in ("local", "param") for x in walk(v["init"])):
                                bad(f, n["l"], "static-state", "static variable '%s' keeps a value computed by the first call" % v["n"], "static-init|%s|%s" % (f.q, v["n"]))
        fl = init.locals_of(p, f)
        st["locals_without_initialiser"] += fl.n
        for v, line in fl.bad:
            bad(f, line, "uninitialised", "variable '%s' can be read before anything was stored in it" % fl.vars[v], "uninitialised|%s|%s" % (f.q, fl.vars[v]))
    read = members_read(p, funcs)
    filled = outside(p, funcs)[1]
    for f in funcs:
        if not f.is_ctor or not f.cls:
            continue
        st["constructors"] += 1
        for m in init.members_unset(p, f):
            # unused members, and plain records that are filled in where they are made
            kin = {f.cls} | descendants(p, f.cls)
            if not read.get(m, set()) & kin:
                continue
            if m in filled.get(f.cls, ()) and not read.get(m, set()) & kin:
                continue
            sub = [g for g in funcs if g.is_ctor and g.cls in kin - {f.cls} and g.body is not None and not copies(g)]
            if sub and all(m in stored_by(p, g) for g in sub):
                continue        # each kind of it stores a value
            bad(f, f.line, "uninitialised", "the constructor can leave data member '%s' without a value" % m, "uninitialised|%s|%s" % (f.q, m))
    lk = Leaks(p, funcs, written)
    lk.run()
    st["clock_random_environment_uses"] = lk.n
    for f, rule, line, text, key in lk.out:
        if rule == "hidden-input" and (f.q in GETTERS or f.q in PRINTING or f.q in HISTORY):
            continue
        src = key.split("|")[-1]
        if src in STATIC and f.q in STATIC[src]:
            continue
        bad(f, line, rule, text, key)
    grows(p, funcs, bad, st)
    stale(p, funcs, bad, st)
    cachekey(p, funcs, bad, st)
    return out


class Leaks(pure.Leaks):
    def __init__(self, p, funcs, written):
        super().__init__(p, funcs)
        self.written = written

    def keeps(self, f, kd):
        return f.q in STATIC.get(kd, ())

    def kind(self, e):
        k = super().kind(e)
        if k and e.get("k") == "Ref" and e.get("q") == k and k not in self.written:
            return None         # never changes
        return k


def descendants(p, c):
    out, stack = set(), [c]
    while stack:
        for x in p.subclasses.get(stack.pop(), ()):
            if x not in out:
                out.add(x)
                stack.append(x)
    return out


def selftest():
    p = ir.samples("state")
    fs = [f for f in p.functions() if f.file.startswith(ir.build.VERIF)]
    bad = {x[0].name for x in findings(p, fs, Counter())}
    want = {f.name for f in fs if f.name.startswith(("bad_", "Bad"))}
    if bad != want:
        raise ir.AnalysisBroken("self-test of the state rules: missed %s, wrongly reported %s" % (sorted(want - bad), sorted(bad - want)))
    return len(want), len(fs) - len(want)


def check(pid, res, tier):
    nbad, nok = selftest()
    p = ir.load()
    st = Counter()
    for f, rule, line, text, key in findings(p, program(p), st):
        res.add(rule, f.file, line, f.q, text, key)
    res.coverage = dict(st, selftest_bad=nbad, selftest_ok=nok)
    res.floor("functions", st["functions"], 300)
    res.floor("constructors", st["constructors"], 40)
    res.explanation = ("Every function of the command-line program: no store reaches static storage or the object of a const operation except the caches listed in rules/state.py; caches are rebuilt, not extended, and renewed when "
                       "the coordinates change; values of the clock, the environment and the thread count reach messages and the history attribute only; every scalar variable and data member is assigned before it is read.")
    res.assumptions = ["a variable passed by non-const reference or by address is stored to by the callee", "the NetCDF library reports failures (see C15)"]

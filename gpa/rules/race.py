"""C01: the iterations of every parallel region are independent of one another."""
from .. import ir
from ..effects import Effects, Poly, is_float, strip_ref, walk

COMMUTATIVE = {"++", "--", "+=", "-=", "|=", "&=", "^=", "*="}


def injective(steps, pvars, inside, loops):
    """Positions of index steps that together identify the parallel iteration, or None."""
    need = set(pvars)
    pos = []
    divs = {}
    for k, s in enumerate(steps):
        if s[0] != "i":
            continue
        for m, p in enumerate(s[1]):
            got = affine_vars(p, need, inside, loops)
            if got:
                need -= got
                pos.append((k, m))
            # x = v / W , y = v % W
            dm = divmod_part(p)
            if dm:
                kind, v, w = dm
                divs.setdefault((v, repr(w)), {})[kind] = (k, m)
    for (v, w), d in divs.items():
        if v in need and len(d) == 2:
            need.discard(v)
            pos += list(d.values())
    if need:
        return None
    return sorted(set(pos))


def divmod_part(p):
    # pure div / mod of a single variable by an expression
    if len(p.m) == 1:
        (mono, c), = p.m.items()
        if c == 1 and len(mono) == 1 and mono[0][0] in ("div", "mod"):
            v = p_single(mono[0][1])
            if v is not None:
                return mono[0][0], v, mono[0][2]
    # v - W*(v/W)
    if len(p.m) == 2:
        v = w = None
        for mono, c in p.m.items():
            if c == 1 and len(mono) == 1 and mono[0][0] == "v":
                v = mono[0][1]
            elif c == -1:
                dv = [s for s in mono if s[0] == "div"]
                rest = [s for s in mono if s[0] != "div"]
                if len(dv) == 1:
                    w = (dv[0], Poly({tuple(rest): 1}))
        if v is not None and w is not None and p_single(w[0][1]) == v and repr(w[0][2]) == repr(w[1]):
            return "mod", v, w[0][2]
    return None


def p_single(p):
    if len(p.m) == 1:
        (mono, c), = p.m.items()
        if c == 1 and len(mono) == 1 and mono[0][0] == "v":
            return mono[0][1]
    return None


def affine_vars(p, need, inside, loops):
    """Set of parallel variables that the value of p determines uniquely."""
    pv = [s for s in p.deepsyms() if s[0] == "v" and s[1] in need]
    if not pv:
        return set()
    # separate monomials with parallel variables from the rest
    terms = {}
    rest = Poly()
    for mono, c in p.m.items():
        hit = [s for s in mono if s[0] == "v" and s[1] in need]
        if any(s[0] in ("div", "mod") and any(x[0] == "v" and x[1] in need for x in s[1].deepsyms() | s[2].deepsyms()) for s in mono):
            return set()
        if not hit:
            rest = rest + Poly({mono: c})
            continue
        if len(hit) != 1:
            return set()
        co = list(mono)
        co.remove(hit[0])
        t = terms.setdefault(hit[0][1], Poly())
        terms[hit[0][1]] = t + Poly({tuple(co): c})

    def varying(q):
        return any((s[0] == "v" and s[1] in inside) or s[0] == "o" for s in q.deepsyms())
    for t in terms.values():
        if varying(t):
            return set()
    # the rest: invariant, plus at most loop variables of known range
    inner = [(mono, c) for mono, c in rest.m.items() if varying(Poly({mono: c}))]
    if not inner:
        if len(terms) == 1:
            (v, t), = terms.items()
            return {v} if (t.is_const() and t.cval() != 0) or not t.is_const() else set()
        # i*W + j with j in [0, W)
        return flat(terms, {}, loops)
    extra = {}
    for mono, c in inner:
        vs = [s for s in mono if s[0] == "v" and s[1] in inside]
        if len(vs) != 1 or any(s[0] == "o" for s in mono):
            return set()
        co = list(mono)
        co.remove(vs[0])
        extra[vs[0][1]] = extra.get(vs[0][1], Poly()) + Poly({tuple(co): c})
    if set(extra) & set(terms):
        return set()
    return flat(terms, extra, loops)


def flat(terms, extra, loops):
    """Mixed-radix index: sort so that each stride equals the next variable's stride times its range."""
    allv = dict(terms)
    allv.update(extra)
    one = Poly.const(1)
    cur = one
    left = dict(allv)
    while left:
        nxt = [v for v, t in left.items() if t == cur]
        if len(nxt) != 1:
            return set()
        v = nxt[0]
        del left[v]
        if left:
            lo, hi = loops.get(v, (None, None))
            if lo is None or hi is None or not (lo == Poly.const(0)):
                return set()
            cur = cur * hi
    return set(terms)


def disjoint_field(a, b):
    """The two accesses name different parts of the object whatever the indices are."""
    for x, y in zip(a, b):
        if x[0] != y[0]:
            return x[0] == "s" or y[0] == "s"
        if x[0] == "f" and x[1] != y[1]:
            return True
        if x[0] == "i":
            for p, q in zip(x[1], y[1]):
                d = p - q
                if d.is_const() and d.cval() != 0 and not any(s[0] in ("v", "o", "div", "mod") for s in p.deepsyms()):
                    return True
    # a is a prefix of b: a whole-object write touches everything; a size read after an element step does not occur here
    if len(a) != len(b):
        longer = a if len(a) > len(b) else b
        k = min(len(a), len(b))
        if longer[k][0] == "s":
            return False
    return False


def same_index(a, b, pos):
    for k, m in pos:
        if k >= len(a) or k >= len(b) or a[k][0] != "i" or b[k][0] != "i" or m >= len(b[k][1]) or a[k][1][m] != b[k][1][m]:
            return False
    return True


def def_before_use(body, var, refname):
    """True when every read of var in one iteration follows a whole assignment of it in the same iteration."""
    bad = []

    def reads(e, assigned):
        """evaluate e; returns assigned after"""
        if not isinstance(e, dict):
            return assigned
        k = e.get("k")
        if k == "Assign" and e["op"] == "=" and e["x"].get("k") == "Ref" and e["x"].get("id") == var:
            assigned = reads(e["y"], assigned)
            return True
        if k == "OpCall" and e["op"] == "=" and e["a"][0].get("k") == "Ref" and e["a"][0].get("id") == var:
            for a in e["a"][1:]:
                assigned = reads(a, assigned)
            return True
        if k == "MCall" and e.get("fn") and e["fn"]["q"].split("::")[-1] in ("clear", "assign", "reset", "zeros", "fill") and e.get("o", {}).get("k") == "Ref" and e["o"].get("id") == var:
            for a in e.get("a", []):
                assigned = reads(a, assigned)
            return True
        if k == "Ref" and e.get("id") == var and e.get("rk") in ("local", "param"):
            if not assigned:
                bad.append(e["l"])
            return assigned
        if k == "Bin" and e["op"] in ("&&", "||"):
            a1 = reads(e["x"], assigned)
            reads(e["y"], a1)
            return a1
        if k == "Cond":
            a1 = reads(e["c"], assigned)
            return reads(e["x"], a1) & reads(e["y"], a1)
        for c in ir.kids(e):
            assigned = reads(c, assigned)
        return assigned

    def st(s, a):
        if not isinstance(s, dict) or a is None:
            return a
        k = s["k"]
        if k == "Block":
            for x in s["b"]:
                a = st(x, a)
            return a
        if k == "Expr":
            return reads(s["e"], a)
        if k == "Decl":
            for v in s["v"]:
                if v.get("init"):
                    a = reads(v["init"], a)
            return a
        if k == "If":
            a = st(s.get("init"), a)
            a = reads(s["c"], a)
            x = st(s["x"], a)
            y = st(s.get("y"), a)
            if x is None:
                return y
            if y is None:
                return x
            return x and y
        if k in ("For", "While", "RangeFor", "Do"):
            if k == "For":
                a = st(s.get("init"), a)
            if k == "RangeFor":
                a = reads(s["r"], a)
            if k == "Do":
                b = st(s["b"], a)
                return reads(s["c"], b if b is not None else a)
            if s.get("c"):
                a = reads(s["c"], a)
            b = st(s["b"], a)
            if s.get("inc"):
                reads(s["inc"], b if b is not None else a)
            return a
        if k in ("Return",):
            reads(s.get("e"), a)
            return None
        if k in ("Break", "Continue"):
            return None
        if k == "Switch":
            a = reads(s["c"], a)
            st(s["b"], a)
            return a
        if k in ("Case", "Default", "Label"):
            return st(s["b"], a)
        if k == "Try":
            b = st(s["b"], a)
            for h in s["h"]:
                st(h["b"], a)
            return a
        if k == "OMP":
            return st(s.get("b"), a)
        return a
    st(body, False)
    return bad


def norm(steps):
    return tuple(("i",) if s[0] == "i" else s for s in steps)


def in_region(e_region, r):
    x = e_region
    while x is not None:
        if x is r:
            return True
        x = x.outer
    return False


def check_region(r, w, eff, out, stats):
    """out: list of (rule, line, text)"""
    f = w.f
    names = w.names
    E = [e for e in w.effects if in_region(e.region, r)]
    inside = set(r.declared) | set(v for v in r.loopvars if v is not None)
    private = inside | r.privclause
    pv = [v for v in r.loopvars if v is not None]
    # reductions
    for v, op, t in r.reductions:
        if is_float(t) and ("+" in op or "-" in op or "*" in op):
            out.append(("float-reduction", r.line, "floating-point reduction over '%s': the rounding of the result depends on how iterations are split over threads" % names.get(v, v)))
        stats["reductions"] += 1

    def shared(e):
        root = e.root
        if root[0] == "v":
            return root[1] not in private
        if root[0] == "h":
            reg = w.regionof.get(root)
            return not in_region(reg, r)
        return True
    acc = [e for e in E if shared(e)]
    # streams and pseudo-globals are handled apart
    byroot = {}
    for e in acc:
        if e.root[0] == "g" and e.root[1].startswith("@"):
            continue
        if e.root[0] == "g" and e.root[1] in ("std::cout", "std::cerr", "std::clog", "stdout", "stderr"):
            continue
        byroot.setdefault(e.root, []).append(e)
    for root, es in byroot.items():
        ws = [e for e in es if e.kind == "w"]
        if not ws:
            stats["shared_readonly"] += 1
            continue
        stats["shared_written"] += 1
        # whole-value protected updates
        seen = set()
        for x in ws:
            stats["writes"] += 1
            key = (x.steps, x.line)
            if key in seen:
                continue
            seen.add(key)
            if x.sync in ("single", "master", "masked"):
                continue
            ty = w.types.get(root[1]) if root[0] == "v" else None
            if x.sync in ("atomic", "critical"):
                if x.op in COMMUTATIVE and ty is not None and not is_float(ty):
                    continue
                if ty is None and x.op in COMMUTATIVE:
                    continue
                # all iterations store the same literal, or one of the exceptions that end the call is kept
                if x.op and x.op.startswith("=lit:") or x.op == "=exc":
                    if all(y.op == x.op for y in ws if y.steps == x.steps):
                        continue
                out.append(("ordered-update", x.line, "the update of shared '%s' inside '%s' depends on the order in which threads arrive" % (x.path(names), x.sync)))
                continue
            if x.bit:
                out.append(("bit-packed-write", x.line, "concurrent writes to elements of a std::vector<bool> '%s' share storage" % x.path(names)))
                continue
            pos = injective(x.steps, pv, inside, w.loops) if pv else None
            if pos is None:
                why = "no index of the written element identifies the parallel iteration" if pv else "every thread of the region executes it (no worksharing loop)"
                out.append(("shared-write", x.line, "'%s' is shared by the iterations of the parallel region and written here (%s)%s" % (x.path(names), why, via(x))))
                continue
            for y in es:
                if y is x or y.sync in ("single",):
                    continue
                if disjoint_field(x.steps, y.steps):
                    continue
                if len(y.steps) and y.steps[-1][0] == "s" and len(y.steps) - 1 <= max(k for k, m in pos) and len(y.steps) - 1 < len(x.steps):
                    # size of the container whose elements are written
                    continue
                if not same_index(x.steps, y.steps, pos):
                    k2 = (norm(x.steps), norm(y.steps), y.line)
                    if k2 in seen:
                        continue
                    seen.add(k2)
                    out.append(("cross-iteration-access", y.line, "'%s' is %s here while another iteration writes '%s' at line %d%s" % (y.path(names), "read" if y.kind == "r" else "written", x.path(names), x.line, via(y))))
    # carried private variables
    body = r.forbody if r.forbody is not None else None
    if r.hasfor and body is not None:
        for v, how in r.persistent.items():
            if v in r.loopvars:
                continue
            if not any(e.root == ("v", v) and e.kind == "w" for e in E) and how != "private":
                continue
            lines = def_before_use(body, v, names.get(v))
            stats["carried_checked"] += 1
            if lines:
                # only assigned outside of the loop body: constant through the loop
                if how != "private":
                    wr = [x for x in walk(body) if (x.get("k") in ("Assign",) and x["x"].get("id") == v) or (x.get("k") == "Un" and x["op"] in ("++", "--") and x["e"].get("id") == v) or (x.get("k") == "OpCall" and x["op"].endswith("=") and x["op"] not in ("==", "!=", "<=", ">=") and x["a"][0].get("id") == v)]
                    mut = [e for e in E if e.root == ("v", v) and e.kind == "w" and e.op != "init"]
                    if not wr and not mut:
                        continue
                out.append(("carried-private", lines[0], "thread-private '%s' (%s) is read before it is assigned in the iteration: it carries a value from whichever iteration the thread ran before" % (names.get(v, v), how)))
    return E


def via(e):
    if not e.via:
        return ""
    return "; through " + " -> ".join("%s (%s)" % (q, pos) for pos, q in e.via[:4])


THREAD_ALLOWED = {"gridpp::set_omp_threads", "gridpp::get_omp_threads", "gridpp::initialize_omp", "main"}  # main prints it in its banner


def findings_of(prog, eff, funcs, stats):
    out = []
    for f in funcs:
        eff.summary(f)
    for m, w in sorted(eff.walkers.items()):
        for r in w.regions:
            stats["regions"] += 1
            o = []
            check_region(r, w, eff, o, stats)
            for rule, line, text in o:
                out.append((w.f, rule, line, text))
        for e in w.effects:
            if e.root == ("g", "@threads") and not e.via and w.f.q not in THREAD_ALLOWED:
                out.append((w.f, "thread-query", e.line, "calls %s: the result can depend on the number of threads" % e.op))
            if e.root[0] == "g" and e.root[1].startswith("thread_local"):
                out.append((w.f, "thread-query", e.line, "uses %s" % e.root[1]))
    return out


def selftest():
    from collections import Counter
    p = ir.samples("race")
    eff = Effects(p)
    bad = {x[0].name for x in findings_of(p, eff, [f for f in p.funcs.values() if f.name.startswith(("bad_", "ok_"))], Counter())}
    want = {f.name for f in p.funcs.values() if f.name.startswith("bad_")}
    if bad != want:
        raise ir.AnalysisBroken("self-test of the race rules: missed %s, wrongly reported %s" % (sorted(want - bad), sorted(bad - want)))
    return len(want), len([f for f in p.funcs.values() if f.name.startswith("ok_")])


def check(pid, res, tier):
    from collections import Counter
    nbad, nok = selftest()
    p = ir.load()
    eff = Effects(p)
    st = Counter()
    funcs = [f for f in p.functions() if ir.rel(f.file).startswith(("src/", "include/"))]
    for f, rule, line, text in findings_of(p, eff, funcs, st):
        res.add(rule, f.file, line, f.q, text)
    res.coverage = dict(functions=len(funcs), parallel_regions=st["regions"], shared_objects_read_only=st["shared_readonly"], shared_objects_written=st["shared_written"],
                        writes_to_shared_objects=st["writes"], reductions=st["reductions"], carried_variables=st["carried_checked"],
                        calls_through_values=len(eff.unknown_calls), selftest_bad=nbad, selftest_ok=nok)
    res.floor("parallel regions", st["regions"], 80)
    res.floor("writes to shared objects", st["writes"], 150)
    res.explanation = ("For each OpenMP region of the library and the command-line program: every storage location written inside it, through any depth of calls, is private to one iteration "
                       "or is an element of a shared object whose index identifies the iteration; no other iteration reads or writes an overlapping element; no floating-point reduction, order-dependent "
                       "critical update, thread query, thread_local, static, global or mutable member is written. Interprocedural effect analysis over the type-resolved syntax tree.")
    res.assumptions = ["distinct reference parameters of one call do not alias", "library functions touch only what their signature lets them (const references are not written)",
                       "virtual calls reach only overriders defined in the repository"]

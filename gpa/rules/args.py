"""C10: every argument of a call takes part in its result; C11: copies keep everything and attributes keep their role."""
import re
from collections import Counter, defaultdict
from .. import ir
from ..flow import Flow, base
from ..ir import walk
from .pure import library, is_ref, is_const_ref

# functions whose purpose is the extents of their arguments
EXTENTS = {"gridpp::compatible_size"}
# (function, parameter): why the parameter need not matter
NOT_COUNTED = {
    ("gridpp::is_valid_lon", "type"): "every longitude is accepted in both coordinate systems",
}
# (caller, callee, parameter): the caller deliberately asks for something else
DIFFERENT = {("gridpp::neighbourhood", "gridpp::neighbourhood", "statistic"): "variances are made from means of the values and of their squares"}
# attributes of locations (beyond the horizontal position) a function's documentation says it uses
ALL = ("elev", "laf")
SITES = [
    (r"^optimal_interpolation", ALL), (r"^local_distribution_correction$", ALL), (r"^staticcorr_points$", ALL), (r"^smart$", ALL),
    (r"^full_gradient", ALL), (r"^simple_gradient$", ("elev",)), (r"^doping_", ("elev",)),
]
LOCATION = {"gridpp::Grid", "gridpp::Points", "gridpp::Point"}
FIELDS = {"elev": ("mElevs", "elev"), "laf": ("mLafs", "laf"),
          "horizontal": ("mLats", "mLons", "mTree", "lat", "lon", "x", "y", "z")}
COPIES = {"clone", "operator="}
VEC = re.compile(r"\bvec(tor|[23])?\b")
ROLE = re.compile(r"^(?:m_?|[iobpgsd]|curr_?|nearest_?)?(lat|lon|elev|laf)s?\d*(?:_(?:h|v|w))?$", re.I)
XYZ = re.compile(r"^(?:m)?([xyz])$", re.I)


def clsname(t):
    return t.replace("const ", "").replace("&", "").replace("*", "").strip()


def has_result(F, f):
    return f.ret.strip() not in ("void", "") or bool(F.sum[f.m].outs) or f.is_ctor


def atoms(F, f):
    s = F.sum[f.m]
    out = set(s.ret.all())
    for k, v in s.outs.items():
        if k != "this" or f.is_ctor or not f.const:
            out |= v.all()
    return out


def written(F, f, i):
    return i in F.sum[f.m].outs


def named(q):
    return bool(q.get("n"))


def is_stub(p, f):
    """A base version that is overridden: the versions of the subclasses are judged."""
    if not f.d.get("virt"):
        return False
    return bool(p.all_overriders(f.m))


def interesting(p, F, f):
    return not f.file.endswith("swig.cpp") and f.body is not None and not f.implicit and f.m in F.sum and "(anonymous" not in f.q and "lambda" not in f.q


def counted(p, F, funcs, out, st):
    """every parameter is used"""
    for f in funcs:
        if not interesting(p, F, f) or not has_result(F, f) or f.q == "gridpp::set_debug_level":
            continue
        at = atoms(F, f)
        if f.ret.strip() == "void" and not at and not f.is_ctor:
            continue        # messages
        st["functions"] += 1
        for i, q in enumerate(f.params):
            t = q["t"]
            if not named(q):
                continue
            if is_ref(t) and not is_const_ref(t) and written(F, f, i):
                continue    # output argument
            st["parameters"] += 1
            if (f.q, q["n"]) in NOT_COUNTED:
                continue
            mine = {a for a in at if a[0] == i}
            ok = any(not a[1].endswith("#") for a in mine) or mine and (f.q in EXTENTS)
            if ok or is_stub(p, f):
                continue
            if mine and not any("vector" in t or c in t for c in ("Grid", "Points")):
                continue
            out.append((f, "ignored-argument", f.line, "argument '%s' takes no part in the result" % q["n"], "ignored-argument|%s|%s" % (f.q, q["n"])))


def sites(p, F, funcs, out, st):
    """the attributes of the locations that a result is documented to depend on"""
    for f in funcs:
        if not interesting(p, F, f) or f.is_ctor or "::" in f.q[len("gridpp::"):]:
            continue
        want = ["horizontal"]
        if f.name in ("compatible_size",):
            continue
        for rx, w in SITES:
            if re.match(rx, f.name):
                want += w
        at = atoms(F, f)
        for i, q in enumerate(f.params):
            if clsname(q["t"]) not in LOCATION:
                continue
            mine = {a[1] for a in at if a[0] == i}
            for w in want:
                st["location_attributes"] += 1
                if "*" in mine or any(x in mine for x in FIELDS[w]):
                    continue
                if w == "horizontal" and f.name.startswith("doping") and False:
                    continue
                what = {"elev": "elevations", "laf": "land area fractions", "horizontal": "horizontal positions"}[w]
                out.append((f, "ignored-attribute", f.line, "the %s of '%s' take no part in the result" % (what, q["n"]), "ignored-attribute|%s|%s|%s" % (f.q, q["n"], w)))


def method_members(F, f):
    return {a[1] for a in atoms(F, f) if a[0] == "this" and not a[1].endswith("#")}


def members(p, F, funcs, out, st):
    """what constructors store is used; overloads and inverse operations use the same parameters"""
    bycls = defaultdict(list)
    for f in funcs:
        if interesting(p, F, f) and "::" in f.q[len("gridpp::"):] and f.q.startswith("gridpp::"):
            bycls[f.q.rsplit("::", 1)[0]].append(f)
    reads = defaultdict(set)        # public members, read elsewhere
    for f in funcs:
        if interesting(p, F, f) and not (f.is_ctor and len(f.params) == 1):
            for a in atoms(F, f):
                if isinstance(a[0], int) and clsname(f.params[a[0]]["t"]) == "gridpp::Point":
                    reads["gridpp::Point"].add(a[1].rstrip("#"))
                elif isinstance(a[0], int) and F.is_class(f.params[a[0]]["t"]) and f.q.rsplit("::", 1)[0] != clsname(f.params[a[0]]["t"]):
                    reads[clsname(f.params[a[0]]["t"])] |= {a[1].rstrip("#")} & public_members(p, clsname(f.params[a[0]]["t"]))
    for cls, L in sorted(bycls.items()):
        rec = p.records.get(cls)
        if not rec:
            continue
        stored = {}
        for f in L:
            if f.is_ctor:
                for k, v in F.sum[f.m].outs.get("this", {}).items():
                    if not k.endswith("#") and any(isinstance(a[0], int) and not a[1].endswith("#") for a in v):
                        stored.setdefault(k, f)
        used = set(reads.get(cls, ()))
        for c in [cls] + sorted(p.subclasses.get(cls, ())):
            for f in bycls.get(c, ()):
                if not f.is_ctor and f.name not in COPIES:
                    used |= {a[1].rstrip("#") for a in atoms(F, f) if a[0] == "this"}
        own = {x["n"] for x in rec["fields"]}
        for k, f in sorted(stored.items()):
            if k not in own:
                continue
            st["members"] += 1
            if k not in used:
                out.append((f, "ignored-member", f.line, "data member '%s' is set from an argument but takes no part in any result of the class" % k, "ignored-member|%s|%s" % (cls, k)))
        groups = defaultdict(list)
        for f in L:
            if not f.is_ctor and f.const and f.name not in COPIES and f.ret.strip() != "void":
                groups[f.name].append(f)
        for n, G in sorted(groups.items()):
            if n == "backward" and "forward" in groups:
                G = G + groups["forward"]
            G = [g for g in G if not is_stub(p, g) or len(G) > 1 and False]
            if len(G) < 2:
                continue
            st["overload_groups"] += 1
            sets = [(g, method_members(F, g)) for g in G]
            union = set().union(*[s for _, s in sets])
            for g, s in sets:
                miss = union - s
                if miss and "*" not in s and same_kind(G, g):
                    out.append((g, "overloads-differ", g.line, "'%s' takes no part here although it does in the other version(s) of %s" % ("', '".join(sorted(miss)), n),
                                "overloads-differ|%s|%s|%s" % (g.q, "/".join(base(q["t"]) for q in g.params), ",".join(sorted(miss)))))


def element(t):
    t = base(t)
    while True:
        m = re.match(r"^std::vector<(.*?)(?:, std::allocator<.*)?>$", t)
        if not m:
            return t
        t = m.group(1).strip()


def same_kind(G, g):
    """versions that only differ in 'one' against 'many' (or forward against backward) take arguments of the same elements"""
    k = [element(q["t"]) for q in g.params]
    return any(h is not g and [element(q["t"]) for q in h.params] == k for h in G)


def public_members(p, cls):
    return {x["n"] for x in p.records[cls]["fields"] if x.get("acc", "public") == "public"} if cls in p.records else set()


def forwarding(p, F, funcs, out, st):
    """a wrapper hands its argument n on as argument n"""
    for f in funcs:
        if not interesting(p, F, f):
            continue
        mine = {q["n"]: i for i, q in enumerate(f.params) if named(q)}
        if not mine:
            continue
        for e, fn, avs, oav, ctl in F.arguments(f):
            for g in Tgt(F, p, fn):
                if len(g.params) < len(avs):
                    continue
                same = g.name == f.name or f.is_ctor and g.is_ctor and f.name == g.name
                gn = {q.get("n") for q in g.params}
                for j, a in enumerate(avs):
                    n = g.params[j].get("n")
                    if not n or n not in mine or base(g.params[j]["t"]) != base(f.params[mine[n]]["t"]):
                        continue
                    st["forwarded"] += 1
                    src = {x[0] for x in a.all() if isinstance(x[0], int)}
                    if mine[n] in src:
                        continue
                    names = sorted({f.params[x]["n"] for x in src})
                    swap = any(f.params[x]["n"] in gn and base(f.params[x]["t"]) == base(f.params[mine[n]]["t"]) for x in src)
                    dflt = j < len(e.get("a", [])) and e["a"][j].get("k") == "DefaultArg" and not all(x.get("k") == "DefaultArg" for x in e["a"]) and any(i2 != mine[n] for b in avs for i2, _ in b.all() if isinstance(i2, int))
                    if not (same or swap or dflt) or (f.q, g.q, n) in DIFFERENT:
                        continue
                    out.append((f, "forwarding", e["l"], "%s() gets %s for its argument '%s', not this function's '%s'" % (g.name, "'" + "', '".join(names) + "'" if names else "a fixed value", n, n),
                                "forwarding|%s|%s|%s" % (f.q, g.q, n)))


def Tgt(F, p, fn):
    return [g for g in p.targets(fn) if g.m in F.sum] if fn else []


# ---------------------------------------------------------------- roles
def role(e):
    """(group, role) of an expression that is a location attribute as it stands"""
    while isinstance(e, dict):
        k = e.get("k")
        if k in ("Cast", "DefaultArg"):
            e = e["e"]
        elif k == "Construct" and len(e.get("a", [])) == 1 and ("vector" in (e.get("t") or "") or (e.get("t") or "") in ("float", "double")):
            e = e["a"][0]
        elif k == "Index":
            e = e["b"]
        elif k == "OpCall" and e.get("op") == "[]":
            e = e["a"][0]
        elif k == "MCall":
            n = (e.get("fn") or {}).get("q", "").split("::")[-1]
            m = re.match(r"^get_(lats|lons|elevs|lafs|x|y|z)$", n)
            if m:
                return rolename(m.group(1), True)
            if n in ("at", "front", "back") and e.get("o"):
                e = e["o"]
                continue
            return None
        elif k == "Call":
            # moving values from one set of locations to another leaves what they are
            fn = e.get("fn") or {}
            pt = fn.get("pt", [])
            if sum(clsname(t) in ("gridpp::Grid", "gridpp::Points") for t in pt) >= 2 and VEC.search(fn.get("ret") or e.get("t") or ""):
                rs = {role(a) for t, a in zip(pt, e.get("a", [])) if VEC.search(t)} - {None}
                return rs.pop() if len(rs) == 1 else None
            return None
        elif k == "Member":
            return rolename(e["n"], True)
        elif k == "Ref":
            if e.get("rk") in ("local", "param"):
                return rolename(e.get("n") or "", False)
            return None
        else:
            return None
    return None


def rolename(n, member):
    m = ROLE.match(n or "")
    if m:
        return ("site", m.group(1).lower())
    m = XYZ.match(n or "")
    if m and member and n not in ("mX", "mY", "mZ"):
        return ("xyz", m.group(1).lower())
    return None


def clash(a, b):
    return a and b and a[0] == b[0] and a[1] != b[1]


def roles(p, F, funcs, out, st):
    names = {"lat": "latitude", "lon": "longitude", "elev": "elevation", "laf": "land area fraction", "x": "x", "y": "y", "z": "z"}

    def bad(f, line, a, b, how):
        out.append((f, "role", line, "%s %s %s" % ("the " + names[a[1]], how, "the " + names[b[1]]), "role|%s|%s|%s" % (f.q, a[1], b[1])))

    for f in funcs:
        if f.body is None:
            continue
        inits = f.d.get("inits") or [] if f.is_ctor else []
        for i in inits:
            if i.get("n") and i.get("e"):
                a, b = role(i["e"]), rolename(i["n"], True)
                st["roles"] += bool(a and b)
                if clash(a, b):
                    bad(f, f.line, a, b, "is stored as")
        for n in walk({"b": [f.body] + [i.get("e") for i in inits if i.get("e")]}):
            if not isinstance(n, dict):
                continue
            k = n.get("k")
            if k in ("Call", "MCall", "Construct"):
                fn = n.get("fn") or {}
                names2 = param_names(p, fn)
                for j, x in enumerate(n.get("a", [])):
                    if names2 and j < len(names2):
                        a = role(x)
                        if a:
                            b = rolename(names2[j], a[0] == "xyz")
                            st["roles"] += bool(b)
                            if clash(a, b):
                                bad(f, n["l"], a, b, "is handed to %s() as" % fn.get("q", "").split("::")[-1])
                if k == "MCall" and fn.get("q", "").split("::")[-1] in ("push_back", "assign", "insert") and n.get("a"):
                    a, b = role(n["a"][-1]), role(n.get("o"))
                    st["roles"] += bool(a and b)
                    if clash(a, b):
                        bad(f, n["l"], a, b, "is appended to")
            elif k == "Assign" or k == "OpCall" and n.get("op") == "=" and len(n.get("a", [])) == 2:
                x, y = (n["x"], n["y"]) if k == "Assign" else n["a"]
                a, b = role(y), role(x)
                st["roles"] += bool(a and b)
                if clash(a, b):
                    bad(f, n["l"], a, b, "is stored as")
            elif k == "Decl":
                for v in n.get("v", []):
                    if v.get("init"):
                        a, b = role(v["init"]), rolename(v["n"], False)
                        st["roles"] += bool(a and b)
                        if clash(a, b):
                            bad(f, n["l"], a, b, "is stored as")
            elif k == "Bin" and n["op"] in ("-", "+", "<", ">", "<=", ">=", "==", "!="):
                a, b = role(n["x"]), role(n["y"])
                st["roles"] += bool(a and b)
                if clash(a, b):
                    bad(f, n["l"], a, b, "is %s" % ("subtracted from or compared with"))


def param_names(p, fn):
    m = fn.get("m")
    if m in p.funcs:
        return [q.get("n") for q in p.funcs[m].params]
    d = p.decls.get(m)
    if d:
        return [q.get("n") for q in d.get("params", [])]
    return None


# ---------------------------------------------------------------- copies
GETTERS = {     # operation -> which fields of the result must come from which of the source
    "get_point": {"lat": ("mLats", "mTree"), "lon": ("mLons", "mTree"), "elev": ("mElevs",), "laf": ("mLafs",), "type": ("mTree",), "x": ("mTree",), "y": ("mTree",), "z": ("mTree",)},
    "to_points": {"mTree": ("mTree", "mLats"), "mElevs": ("mElevs",), "mLafs": ("mLafs",)},
    "subset": {"mLats": ("mLats",), "mLons": ("mLons",), "mElevs": ("mElevs",), "mLafs": ("mLafs",), "mTree": ("mTree",)},
    "get_in_domain": {"mLats": ("mLats",), "mLons": ("mLons",), "mElevs": ("mElevs",), "mLafs": ("mLafs",), "mTree": ("mTree",)},
    "get_lats": {"": ("mLats",)}, "get_lons": {"": ("mLons",)}, "get_elevs": {"": ("mElevs",)}, "get_lafs": {"": ("mLafs",)},
    "get_x": {"": ("mX",)}, "get_y": {"": ("mY",)}, "get_z": {"": ("mZ",)},
    "get_coordinate_type": {"": ("mType", "mTree")},
}
NEVER = {"mElevs": "mLafs", "mLafs": "mElevs", "elev": "mLafs", "laf": "mElevs"}


def copies(p, F, funcs, out, st):
    used = defaultdict(set)
    for f in funcs:
        if interesting(p, F, f) and not f.is_ctor and f.name not in COPIES and f.q.count("::") >= 2:
            used[f.q.rsplit("::", 1)[0]] |= {a[1].rstrip("#") for a in atoms(F, f) if a[0] == "this"}
    for f in funcs:
        if not interesting(p, F, f) or f.q.count("::") < 2:
            continue
        cls = f.q.rsplit("::", 1)[0]
        rec = p.records.get(cls)
        if not rec:
            continue
        s = F.sum[f.m]
        src = res = None
        if f.name == "clone" and not f.params:
            src, res = "this", s.ret
        elif f.is_ctor and len(f.params) == 1 and clsname(f.params[0]["t"]) == cls:
            src, res = 0, s.outs.get("this", {})
        elif f.name == "operator=" and len(f.params) == 1 and clsname(f.params[0]["t"]) == cls:
            src, res = 0, s.outs.get("this", {})
        if src is not None:
            st["copies"] += 1
            if f.name != "clone":
                for m, l in sorted(sometimes(f).items()):
                    out.append((f, "copy", l, "the copy takes over '%s' only under a condition" % m, "copy-condition|%s|%s" % (f.q, m)))
            fields = [x["n"] for x in rec["fields"]]
            for b in p.bases_closure(cls):
                fields += [x["n"] for x in (p.records.get(b) or {"fields": []})["fields"] if x["n"] in used[cls]]
            for n in fields:
                st["copied_members"] += 1
                got = res.get(n, frozenset()) | res.get("*", frozenset()) | res.get("", frozenset())
                mine = {a[1].rstrip("#") for a in got if a[0] == src}
                if n in mine or "*" in mine or f.name == "operator=" and swapped(f):
                    continue
                if mine and n not in direct_fields(F, p, f, cls):
                    continue        # recomputed from other members, as the constructors compute it
                others = sorted(mine)
                out.append((f, "copy", f.line, "the copy's member '%s' %s" % (n, "is made from '%s'" % "', '".join(others) if others else "is not taken over"), "copy|%s|%s" % (f.q, n)))
            continue
        spec = GETTERS.get(f.name)
        if spec and f.const:
            for n, froms in sorted(spec.items()):
                if not any(x["n"] in froms for x in rec["fields"]):
                    continue
                st["derived_fields"] += 1
                got = s.ret.get(n, frozenset()) | s.ret.get("*", frozenset()) | (s.ret.get("", frozenset()))
                mine = {a[1].rstrip("#") for a in got if a[0] == "this"}
                if not (set(froms) & mine) and "*" not in mine:
                    out.append((f, "copy", f.line, "%s of what is returned is not taken from %s" % ("'%s'" % n if n else "the value", " or ".join("'%s'" % x for x in froms)), "copy|%s|%s" % (f.q, n)))
                elif NEVER.get(n) in {a[1] for a in got if a[0] == "this"}:
                    out.append((f, "copy", f.line, "'%s' of what is returned is made from '%s'" % (n, NEVER[n]), "copy-mixed|%s|%s" % (f.q, n)))


def swapped(f):
    """copy-and-swap assignment"""
    for n in walk(f.body):
        if isinstance(n, dict) and n.get("k") in ("Call", "MCall") and (n.get("fn") or {}).get("q", "").split("::")[-1] == "swap":
            a = list(n.get("a", [])) + ([n["o"]] if n.get("o") else [])
            if any(deref_this(x) for x in a):
                return True
    return False


def memberof(e, src):
    """name when e is a member of *this ('this') or of the parameter src"""
    while isinstance(e, dict) and e.get("k") == "Cast":
        e = e["e"]
    if not isinstance(e, dict) or e.get("k") != "Member":
        return None
    b = e.get("b") or {}
    if src == "this":
        return e["n"] if b.get("k") == "This" or deref_this(b) else None
    return e["n"] if b.get("k") == "Ref" and b.get("id") == src else None


def own_name(e):
    return memberof(e, "this")


def selfcheck(c, src):
    """this != &other and the like"""
    kinds = [n for n in walk(c) if isinstance(n, dict) and n.get("k")]
    return any(n["k"] == "This" for n in kinds) and any(n["k"] == "Ref" and n.get("id") == src for n in kinds) and not any(n["k"] in ("MCall", "Member") for n in kinds)


def sometimes(f):
    """Members that a copy constructor or assignment takes over only under a condition: {member: line}"""
    src = f.params[0]["id"]
    sites = {}

    def taken(e):
        got = set()
        for n in walk(e):
            if not isinstance(n, dict):
                continue
            x = None
            if n.get("k") == "Assign" and n.get("op") == "=":
                x = [n["x"]]
            elif n.get("k") == "OpCall" and n.get("op") == "=" and len(n.get("a", [])) == 2:
                x = [n["a"][0]]
            elif n.get("k") in ("Call", "MCall"):
                x = list(n.get("a", [])) + ([n["o"]] if n.get("o") else [])
            for y in x or []:
                while isinstance(y, dict) and y.get("k") in ("OpCall", "Index") and (y.get("op") == "[]" or y["k"] == "Index"):
                    y = y["a"][0] if y["k"] == "OpCall" else y["b"]
                m = own_name(y)
                if m:
                    got.add(m)
                    sites.setdefault(m, n.get("l") or f.line)
                elif deref_this(y) or isinstance(y, dict) and y.get("k") == "This":
                    got.add("*")
        return got
    ends = []

    def go(s, st):
        if st is None or not isinstance(s, dict):
            return st
        k = s["k"]
        if k == "Block":
            for x in s["b"]:
                st = go(x, st)
            return st
        if k == "If":
            x = go(s.get("x"), st)
            y = go(s.get("y"), st) if s.get("y") else st
            if selfcheck(s["c"], src):
                # copying an object onto itself changes nothing
                same = s["c"].get("op") == "=="
                return (y if same else x) if (y if same else x) is not None else st
            return y if x is None else x if y is None else x & y
        if k in ("For", "While", "Do", "RangeFor"):
            r = go(s.get("b"), st)
            return st | r if r is not None else st
        if k == "Return":
            ends.append((st | taken(s.get("e") or {}), s))
            return None
        if k in ("Break", "Continue"):
            return None
        if k in ("Try", "OMP"):
            return go(s.get("b"), st)
        if k == "Decl":
            for v in s["v"]:
                st = st | taken(v.get("init") or {})
            return st
        if k == "Expr":
            if s["e"].get("k") == "Throw":
                return None
            return st | taken(s["e"])
        return st
    body = f.body
    own = set()
    if f.is_ctor:
        own = {i["n"] for i in f.d.get("inits") or [] if i.get("n") and i.get("w", True)}

    def strip(s):
        # if(this == &other) return *this;
        if s.get("k") != "Block":
            return s
        return dict(s, b=[x for x in s["b"] if not (x.get("k") == "If" and selfcheck(x["c"], src) and not x.get("y") and not taken(x["x"]))])
    end = go(strip(body), frozenset(own))
    outs = [e for e, _ in ends] + ([end] if end is not None else [])
    if not outs:
        return {}
    must = frozenset.intersection(*[frozenset(o) for o in outs])
    if "*" in must:
        return {}
    return {m: l for m, l in sites.items() if m not in must}


def deref_this(x):
    while isinstance(x, dict) and x.get("k") in ("Un", "Cast"):
        x = x["e"]
    return isinstance(x, dict) and x.get("k") == "This"


def direct_fields(F, p, f, cls):
    """members some constructor takes over as they are from one argument"""
    out = set()
    for g in F.ctors.get(cls, []):
        if g.implicit or g.m not in F.sum or len(g.params) == 1 and clsname(g.params[0]["t"]) == cls:
            continue
        for k, v in F.sum[g.m].outs.get("this", {}).items():
            if not k.endswith("#") and any(a[1] in ("", "*") for a in v):
                out.add(k)
    return out


RULES = {"C10": (counted, sites, members, forwarding), "C11": (copies, roles)}


def findings(pid, p, funcs, st):
    F = Flow(p, funcs)
    st["summaries"] = len(F.sum)
    st["rounds"] = F.rounds
    out = []
    for r in RULES[pid]:
        r(p, F, funcs, out, st)
    return out


WANT = {"C10": {"near_b10", "Pair::scale", "b10_ignored", "b10_only_checked", "b10_size_only", "full_gradient", "apply_b10", "b10_swapped", "corr_b10_many"},
        "C11": {"CurveSwapped::clone", "Tag::operator=", "TagCopy::TagCopy", "b11_lons", "b11_elev", "b11_diff", "b11_call", "Points::get_in_domain", "near_b10", "b10_swapped"}}
SHADOW = {"corr_b10_many"}      # tells nothing: kept to show that a method need not use the object


def selftest(pid):
    p = ir.samples("args")
    fs = [f for f in p.functions() if f.file.startswith(ir.build.VERIF)]
    got = {x[0].q[len("gridpp::"):] for x in findings(pid, p, fs, Counter())}
    want = WANT[pid] - SHADOW
    miss = [w for w in want if not any(g == w or g.endswith("::" + w) for g in got)]
    extra = [g for g in got if not any(g == w or g.endswith("::" + w) for w in want)]
    if miss or extra:
        raise ir.AnalysisBroken("self-test of the argument rules: missed %s, wrongly reported %s" % (sorted(miss), sorted(extra)))
    return len(want), len(fs) - len(want)


def check(pid, res, tier):
    nbad, nok = selftest(pid)
    p = ir.load()
    st = Counter()
    for f, rule, line, text, key in findings(pid, p, list(library(p)), st):
        res.add(rule, f.file, line, f.q, text, key)
    res.coverage = dict(st, selftest_bad=nbad, selftest_ok=nok)
    if pid == "C10":
        res.floor("functions", st["functions"], 150)
        res.floor("parameters", st["parameters"], 400)
        res.floor("location attributes", st["location_attributes"], 80)
        res.explanation = ("Interprocedural may-dependence (data and control, per field of an object, order of statements ignored, conditions that only lead to an exception decide nothing): every parameter of every library function is an atom of its result "
                           "or output arguments; so are the documented attributes (horizontal position, elevation, land fraction) of every grid and point set; every data member a constructor sets takes part in some operation, all overloads of an operation and its "
                           "inverse use the same members; a function that hands its work to a namesake hands every argument to the parameter of the same name.")
        res.assumptions = ["a dependence of the result on some path counts: a parameter that is ignored only in particular cases is not reported", "virtual calls may reach every override"]
    else:
        res.floor("copies", st["copies"], 8)
        res.floor("role obligations", st["roles"], 200)
        res.explanation = ("Field-wise may-dependence of every copy (clone, copy constructor, assignment) and of every operation that takes points or attributes out of a grid or point set: each member of the result comes from the same member of the source, "
                           "elevations and land fractions are never mixed; every assignment, initialisation, appended value, call argument, difference and comparison in the library whose two sides carry the role latitude, longitude, elevation, land fraction (or x, y, z) carries the same role.")
        res.assumptions = ["variables, members and parameters named after one of the attributes hold it", "a copy-and-swap assignment copies what its by-value argument holds"]

"""C16: every value is read, written and compared at its own place.

Types are inferred (by unification) for every integer, coordinate and array of the command-line program: an integer counts
along rows or columns of a particular file's grid, along its members or its times; an array has the axes it is indexed with
and holds coordinates of one kind. Functions other than the entry points are polymorphic: their types are inferred from
their bodies and instantiated at each call. A place that needs two different axes, two different grids or two different
kinds of coordinates to be the same is a violation."""
import re
from collections import Counter
from .. import ir
from ..ir import walk
from .state import program

sys_depth = 60


class V:
    n = 0
    __slots__ = ("ref", "id", "level", "origin")

    def __init__(self, origin=None):
        V.n += 1
        self.ref, self.id, self.origin = None, V.n, origin


class C:
    __slots__ = ("k", "a")

    def __init__(self, k, *a):
        self.k, self.a = k, a


def find(t):
    while isinstance(t, V) and t.ref is not None:
        t = t.ref
    return t


def show(t, depth=0):
    t = find(t)
    if isinstance(t, V):
        return "?"
    if t.k in ("Y", "X"):
        s = find(t.a[0])
        name = {"Y": "row", "X": "column"}[t.k]
        return name + (" of " + s.k[1:] if isinstance(s, C) else "")
    return {"E": "member", "T": "time", "Qlat": "latitude", "Qlon": "longitude", "Qelev": "elevation", "Qlaf": "land fraction"}.get(t.k, t.k)


def quantity(t):
    return isinstance(t, V) or t.k[0] == "Q"


AXES = ("Y", "X", "E", "T")


def clashing(a, b):
    """do two constructors contradict each other (and are they ours to judge)?"""
    if a.k == b.k:
        return False
    for grp in (lambda k: k in AXES, lambda k: k[0] == "Q", lambda k: k[0] == "#"):
        if grp(a.k) and grp(b.k):
            return True
    return False


class Clash(Exception):
    pass


def unify(a, b, out=None, depth=0):
    """makes a and b the same; clashes are appended to out"""
    a, b = find(a), find(b)
    if a is b or a is None or b is None or depth > 12:
        return
    if isinstance(a, V):
        if not occurs(a, b):
            a.ref = b
        return
    if isinstance(b, V):
        if not occurs(b, a):
            b.ref = a
        return
    if a.k == "Any" or b.k == "Any":
        return
    if a.k == b.k and len(a.a) == len(b.a):
        for x, y in zip(a.a, b.a):
            unify(x, y, out, depth + 1)
    elif clashing(a, b) and out is not None:
        out.append((a, b))


def occurs(v, t, depth=0):
    t = find(t)
    if t is v:
        return True
    if isinstance(t, C) and depth < 20:
        return any(occurs(v, x, depth + 1) for x in t.a)
    return False


def copy(t, m):
    t = find(t)
    if isinstance(t, V):
        if t.id not in m:
            m[t.id] = V()
        return m[t.id]
    if not t.a:
        return t
    return C(t.k, *[copy(x, m) for x in t.a])


def strip(e):
    while isinstance(e, dict) and e.get("k") in ("Cast", "DefaultArg") and isinstance(e.get("e"), dict):
        e = e["e"]
    return e


INT = {"int", "unsigned int", "long", "unsigned long", "size_t", "short", "long long", "unsigned long long"}
FLT = {"float", "double"}


def base(t):
    t = ir.noalloc(t or "")
    return t.replace("const ", "").replace("&", "").strip()


def fresh(t, top=True):
    """a type of unknowns for a C++ type"""
    t = base(t)
    while t.endswith("const"):
        t = t[:-5].strip()
    if t.startswith("std::vector<") and t.endswith(">"):
        return C("Mat", V(), fresh(t[12:-1], False))
    if t.endswith("]"):
        return C("Any")         # plain arrays describe the layout of a file: their elements have different roles
    if t.endswith("*"):
        u = t[:-1].strip()
        if u in INT or u in FLT:
            return C("Any")
        return fresh(u)
    m = re.match(r"^(?:boost|std)::(?:shared_ptr|scoped_ptr)<(.*)>$", t)
    if m:
        return fresh(m.group(1))
    if t == "Field":
        return C("Field", V())
    if t in ("File",) or t.startswith("File") and re.match(r"^File[A-Z]\w*$", t):
        return C("File", V())
    if t == "Grid":
        return C("File", V())
    if t == "KDTree":
        return C("File", V())
    return V()


def isint(t):
    return base(t) in INT


def isflt(t):
    return base(t) in FLT


GETAXIS = {"getNumY": "Y", "getNumX": "X", "getNumLat": "Y", "getNumLon": "X", "getNumEns": "E", "getNumTime": "T"}
GETMAT = {"getLats": "Qlat", "getLons": "Qlon", "getElevs": "Qelev", "getLandFractions": "Qlaf", "lats": "Qlat", "lons": "Qlon", "elevs": "Qelev", "landFractions": "Qlaf",
          "setLats": "Qlat", "setLons": "Qlon", "setElevs": "Qelev", "setLandFractions": "Qlaf"}
Q = {"lat": "Qlat", "lon": "Qlon", "elev": "Qelev"}
SIGS = {
    # name -> types of the arguments
    "Location::Location": ("Qlat", "Qlon", "Qelev"),
    "Util::getDistance": ("Qlat", "Qlon", "Qlat", "Qlon"),
}


def last(q):
    return (q or "").split("::")[-1]


class Scheme:
    def __init__(self, ps, ret, this):
        self.ps, self.ret, self.this = ps, ret, this

    def inst(self):
        m = {}
        return Scheme([copy(x, m) for x in self.ps], copy(self.ret, m), copy(self.this, m))


class Infer:
    def __init__(self, p, funcs):
        self.p = p
        self.funcs = {f.m: f for f in funcs}
        self.schemes = {}
        self.busy = set()
        self.members = {}
        self.out = []
        self.n = Counter()
        self.done = {}

    def member(self, cls, n, t):
        k = (cls, n)
        if k not in self.members:
            self.members[k] = fresh(t)
        return self.members[k]

    def scheme(self, f):
        if f.m in self.schemes:
            return self.schemes[f.m].inst()
        if f.m in self.busy or len(self.busy) > sys_depth:
            return None
        self.busy.add(f.m)
        w = One(self, f)
        w.run()
        self.busy.discard(f.m)
        self.schemes[f.m] = Scheme(w.ps, w.ret, w.this)
        self.done[f.m] = w
        return self.schemes[f.m].inst()


def filelike(p, cls):
    return cls == "File" or "File" in p.bases_closure(cls)


class One:
    def __init__(self, g, f):
        self.g, self.f = g, f
        self.env = {}
        self.ps = []
        self.this = V()
        self.ret = fresh(f.ret)
        self.clashes = []
        rigid = f.name == "main" or f.name.endswith(("downscaleCore", "calibrateCore", "downscale", "calibrate"))
        for prm in f.params:
            t = fresh(prm["t"])
            if isinstance(t, C) and t.k == "File" and rigid and "ParameterFile" not in prm["t"]:
                unify(t.a[0], C("#" + {"iInput": "the input file", "iOutput": "the output file"}.get(prm.get("n"), prm.get("n") or "file")))
            self.env[prm.get("id")] = t
            self.ps.append(t)
        if f.cls and filelike(g.p, f.cls) or f.cls in ("Grid", "KDTree", "Field"):
            self.this = C("Field" if f.cls == "Field" else "File", V())

    # ----
    def same(self, a, b, line, what):
        out = []
        unify(a, b, out)
        for x, y in out:
            self.clashes.append((line, x, y, what))

    def equal_sizes(self):
        """grids whose sizes the function compares are interchangeable in it"""
        for n in walk(self.f.body):
            if n.get("k") == "Bin" and n.get("op") in ("==", "!="):
                a, b = strip(n["x"]), strip(n["y"])
                if all(isinstance(z, dict) and z.get("k") == "MCall" and last((z.get("fn") or {}).get("q")) in GETAXIS for z in (a, b)):
                    x, y = self.ty(a.get("o")), self.ty(b.get("o"))
                    x, y = find(x), find(y)
                    if isinstance(x, C) and isinstance(y, C) and x.a and y.a:
                        u, v = find(x.a[0]), find(y.a[0])
                        if isinstance(u, C) and isinstance(v, C):
                            self.equal.add(frozenset((u.k, v.k)))
            if n.get("k") == "MCall" and last((n.get("fn") or {}).get("q")) == "hasSameDimensions":
                self.equal.add("all")

    def run(self):
        self.equal = set()
        self.rebound, self.reused = set(), set()
        if self.f.body is None:
            return
        self.quiet = True
        for i in range(2):
            self.clashes = []
            for x in self.f.d.get("inits") or []:
                if isinstance(x, dict) and x.get("e"):
                    self.ty(x["e"])
            if i == 1:
                self.equal_sizes()
            self.stmt(self.f.body)
        for line, a, b, what in self.clashes:
            if a.k[0] == "#" and ("all" in self.equal or frozenset((a.k, b.k)) in self.equal):
                continue
            self.g.out.append((self.f, line, a, b, what))

    def var(self, e):
        i = e["id"]
        if i not in self.env:
            self.env[i] = fresh(e.get("t"))
        return self.env[i]

    def elem(self, m, i, line):
        """m[i]"""
        m = find(m)
        if isinstance(m, V):
            return V()
        if m.k == "Any":
            return m
        if m.k == "Mat":
            self.same(m.a[0], i, line, "index")
            self.g.n["indexed"] += 1
            return m.a[1]
        return V()

    def cells(self, t):
        """(axis, axis) of the grid of a file or field type"""
        t = find(t)
        if isinstance(t, V):
            return None
        if t.k in ("File", "Field"):
            return C("Y", t.a[0]), C("X", t.a[0])
        return None

    def ty(self, e):
        if not isinstance(e, dict):
            return V()
        k = e.get("k")
        if k in ("Cast", "DefaultArg"):
            inner = self.ty(e.get("e"))
            a, b = (e.get("e") or {}).get("t"), e.get("t")
            if isint(a) != isint(b) and (isflt(a) or isflt(b)):
                return V()
            return inner
        if k == "Ref":
            if e.get("rk") in ("local", "param"):
                return self.var(e)
            if e.get("rk") == "global" and not e.get("isconst"):
                return V()
            return V()
        if k == "This":
            return self.this
        if k == "Member":
            b = strip(e.get("b"))
            cls = e.get("cls") or self.f.cls
            bt = self.ty(e.get("b"))
            if isinstance(b, dict) and b.get("k") == "This":
                if cls in ("KDTree", "Grid", "File") or cls and filelike(self.g.p, cls):
                    m = {"mLats": "Qlat", "mLons": "Qlon", "mElevs": "Qelev", "mLandFractions": "Qlaf"}.get(e["n"])
                    ax = self.cells(self.this)
                    if m and ax:
                        return C("Mat", ax[0], C("Mat", ax[1], C(m)))
                    if ax and e["n"] in ("mNEns",):
                        return C("E")
                if cls == "Field":
                    ax = self.cells(self.this)
                    if ax and e["n"] in ("mNY", "mNX"):
                        return ax[0] if e["n"] == "mNY" else ax[1]
                    if e["n"] == "mNEns":
                        return C("E")
            if cls and cls.startswith("KDTree::"):
                # nodes of the tree: positions in the grid the tree was made of
                n = e["n"]
                if n in ("lat", "lon"):
                    return C("Q" + n)
                ax = self.cells(self.this)
                if ax and n in ("ipos", "index1"):
                    return ax[0]
                if ax and n in ("jpos", "index2"):
                    return ax[1]
                return V()
            if cls and not cls.startswith("std::"):
                t = fresh(e.get("t"))
                if isinstance(t, V):
                    # numbers kept in members: one kind for every use
                    if isint(e.get("t")) or isflt(e.get("t")):
                        return self.g.member(cls, e["n"], e.get("t"))
                    return t
                return self.g.member(cls, e["n"], e.get("t"))
            return V()
        if k == "Index":
            return self.elem(self.ty(e["b"]), self.ty(e["i"]), e.get("l", 0))
        if k == "Un":
            t = self.ty(e["e"])
            if e["op"] in ("*", "&", "++", "--", "+", "-"):
                return t
            return V()
        if k == "Assign":
            x, y = self.ty(e["x"]), self.ty(e["y"])
            if e.get("op", "=") == "=":
                self.assign(x, y, e)
            return x
        if k == "Bin":
            return self.binary(e)
        if k == "Cond":
            self.ty(e["c"])
            x, y = self.ty(e["x"]), self.ty(e["y"])
            if strip(e["x"]).get("k") in ("Int", "Float") or strip(e["y"]).get("k") in ("Int", "Float"):
                return x if strip(e["y"]).get("k") in ("Int", "Float") else y
            self.same(x, y, e.get("l", 0), "alternatives")
            return x
        if k == "OpCall":
            return self.opcall(e)
        if k == "MCall":
            return self.mcall(e)
        if k == "Call":
            return self.call(e, None, e["a"])
        if k == "Construct":
            return self.construct(e)
        if k == "Lambda":
            return V()
        if k == "New":
            if isinstance(e.get("init"), dict):
                return self.ty(e["init"])
            return fresh((e.get("nt") or "") + " *")
        for x in ir.kids(e):
            self.ty(x)
        return V()

    def assign(self, x, y, e):
        lhs = strip(e.get("x"))
        if e.get("k") == "Assign" and isinstance(lhs, dict) and lhs.get("k") == "Ref" and lhs.get("rk") == "local" and isint(lhs.get("t")) and "&" not in (lhs.get("t") or ""):
            # a variable that is used for one thing, and then for another
            a, b = find(x), find(y)
            if isinstance(a, C) and isinstance(b, C):
                out = []
                unify(a, b, out)
                if out:
                    self.env[lhs["id"]] = b
                    self.rebound.add(lhs["id"])
                    self.reused.add(lhs["id"])
                return
        self.same(x, y, e.get("l", 0), "assignment")

    def binary(self, e):
        op = e["op"]
        x, y = self.ty(e["x"]), self.ty(e["y"])
        if op in ("+", "-"):
            a, b = find(x), find(y)
            ka = isinstance(a, C) and a.k in AXES
            kb = isinstance(b, C) and b.k in AXES
            if not (isint(e["x"].get("t")) and isint(e["y"].get("t"))):
                # coordinates: a coordinate and a constant
                if strip(e["y"]).get("k") in ("Int", "Float"):
                    return x
                if quantity(a) and quantity(b) and op == "-" and strip(e["x"]).get("k") not in ("Int", "Float"):
                    self.same(x, y, e.get("l", 0), "difference")
                return V()
            if strip(e["y"]).get("k") == "Int":
                return x
            if strip(e["x"]).get("k") == "Int":
                return y if op == "+" else V()
            if ka and kb:
                if op == "-":
                    self.same(x, y, e.get("l", 0), "difference")
                    return V()
                return x
            if ka:
                return x
            if kb and op == "+":
                return y
            return V()
        if op in ("<", "<=", ">", ">=", "==", "!="):
            a, b = find(x), find(y)
            if quantity(a) and quantity(b) and isflt(e["x"].get("t")) and isflt(e["y"].get("t")) and not any(strip(z).get("k") in ("Int", "Float") for z in (e["x"], e["y"])):
                self.same(x, y, e.get("l", 0), "comparison")
        return V()

    def args_of(self, e):
        return e.get("a", [])

    def opcall(self, e):
        op, a = e.get("op"), e.get("a", [])
        line = e.get("l", 0)
        if op == "()":
            o = find(self.ty(a[0]))
            ts = [self.ty(x) for x in a[1:]]
            if isinstance(o, C) and o.k == "Field" and len(ts) >= 2:
                self.g.n["field_accesses"] += 1
                for t, ax, nm in zip(ts, (C("Y", o.a[0]), C("X", o.a[0]), C("E")), ("first", "second", "third")):
                    self.same(ax, t, line, "field")
                if len(ts) == 2:
                    return C("Mat", C("E"), V())
            return V()
        if op == "[]":
            return self.elem(self.ty(a[0]), self.ty(a[1]), line)
        if op in ("*", "->"):
            return self.ty(a[0]) if len(a) == 1 else self.generic(a)
        if op == "=":
            x, y = self.ty(a[0]), self.ty(a[1])
            self.assign(x, y, e)
            return x
        for x in a:
            self.ty(x)
        return V()

    def generic(self, a):
        for x in a:
            self.ty(x)
        return V()

    def mcall(self, e):
        fn = e.get("fn") or {}
        nm = last(fn.get("q"))
        o, a = e.get("o"), e.get("a", [])
        ot = find(self.ty(o))
        line = e.get("l", 0)
        cls = fn.get("cls") or ""
        if isinstance(ot, C) and ot.k == "Mat" and cls.startswith("std::"):
            if nm == "size":
                return ot.a[0]
            if nm in ("resize", "assign") and a:
                if not isinstance(strip(a[0]), dict) or strip(a[0]).get("k") != "Int":
                    t = self.ty(a[0])
                    self.same(ot.a[0], t, line, "size")
                if len(a) > 1:
                    self.same(ot.a[1], self.ty(a[1]), line, "fill")
                return V()
            if nm == "push_back" and a:
                self.same(ot.a[1], self.ty(a[0]), line, "element")
                return V()
            if nm == "at":
                return self.elem(ot, self.ty(a[0]), line)
            if nm in ("front", "back"):
                return ot.a[1]
            for x in a:
                self.ty(x)
            return V()
        if isinstance(ot, C) and ot.k in ("File", "Field") and nm in GETAXIS:
            ax = GETAXIS[nm]
            return C(ax, ot.a[0]) if ax in ("Y", "X") else C(ax)
        if isinstance(ot, C) and ot.k == "File" and (cls in ("File", "Grid") or filelike(self.g.p, cls)):
            sp = ot.a[0]
            if nm in GETMAT:
                m = C("Mat", C("Y", sp), C("Mat", C("X", sp), C(GETMAT[nm])))
                if a:
                    self.same(m, self.ty(a[0]), line, "coordinates")
                return m
            if nm in ("getField", "getFieldCore", "addField") and len(a) > 1:
                ts = [self.ty(x) for x in a]
                i = 2 if nm == "addField" else 1
                if len(ts) > i and isint(fn.get("pt", ["", "", ""])[i]):
                    self.same(C("T"), ts[i], line, "time")
                if nm == "addField":
                    self.same(C("Field", sp), ts[0], line, "field of another file")
                    return V()
                return C("Field", sp)
            if nm == "getEmptyField":
                ts = [self.ty(x) for x in a]
                if len(ts) >= 3:
                    f = C("Field", V())
                    for t, ax in zip(ts, (C("Y", f.a[0]), C("X", f.a[0]), C("E"))):
                        self.same(ax, t, line, "extent")
                    return f
                return C("Field", sp)
            if nm == "getTimes":
                return C("Mat", C("T"), V())
        if cls == "Location" and nm in Q:
            if a:
                self.same(C(Q[nm]), self.ty(a[0]), line, "coordinate")
            return C(Q[nm])
        return self.call(e, ot, a)

    def construct(self, e):
        a = e.get("a", [])
        t = fresh(e.get("t"))
        fn = e.get("fn") or {}
        q = fn.get("q", "")
        if isinstance(t, C) and t.k == "Mat" and a:
            n0 = strip(a[0])
            ts = [self.ty(x) for x in a]
            if isint((n0 or {}).get("t")) or isint(a[0].get("t")):
                if n0.get("k") != "Int":
                    self.same(t.a[0], ts[0], e.get("l", 0), "size")
                if len(ts) > 1 and (a[1].get("k") != "DefaultArg"):
                    if strip(a[1]).get("k") == "Int" and isint(a[1].get("t")):
                        unify(t.a[1], C("Any"))         # a list of counts, not of positions
                    self.same(t.a[1], ts[1], e.get("l", 0), "fill")
                return t
            if any(isinstance(find(z), C) and find(z).k == "Any" for z in ts):
                return C("Mat", V(), C("Any"))
            if len(a) == 1 or isinstance(find(ts[0]), C) and find(ts[0]).k == "Mat":
                return ts[0]
            return t
        if len(a) == 1 and base(a[0].get("t")) == base(e.get("t")):
            return self.ty(a[0])
        if isinstance(t, C) and t.k == "Field" and len(a) >= 3:
            ts = [self.ty(x) for x in a]
            for z, ax in zip(ts, (C("Y", t.a[0]), C("X", t.a[0]), C("E"))):
                self.same(ax, z, e.get("l", 0), "extent")
            return t
        if base(e.get("t")) == "KDTree::Indexed" and len(a) == 4:
            ts = [self.ty(x) for x in a]
            ax = self.cells(self.this)
            for z, w in zip(ts, (C("Qlon"), C("Qlat")) + (ax or (V(), V()))):
                self.same(w, z, e.get("l", 0), "position")
            return V()
        if base(e.get("t")) == "KDTree" and len(a) == 2:
            x, y = self.ty(a[0]), self.ty(a[1])
            self.same(C("Mat", C("Y", t.a[0]), C("Mat", C("X", t.a[0]), C("Qlat"))), x, e.get("l", 0), "coordinates")
            self.same(C("Mat", C("Y", t.a[0]), C("Mat", C("X", t.a[0]), C("Qlon"))), y, e.get("l", 0), "coordinates")
            return t
        if isinstance(t, C) and len(a) == 1:
            x = find(self.ty(a[0]))
            if isinstance(x, C) and x.k == t.k:
                return x
        r = self.call(e, None, a)
        return t if isinstance(t, C) else r

    def call(self, e, ot, a):
        fn = e.get("fn") or {}
        q = fn.get("q", "")
        nm = last(q)
        line = e.get("l", 0)
        ts = [self.ty(x) for x in a]
        if q in SIGS:
            for t, s in zip(ts, SIGS[q]):
                self.same(C(s), t, line, "argument")
            return V()
        if nm in ("min", "max") and q.startswith("std::") and len(ts) >= 2:
            x, y = strip(a[0]), strip(a[1])
            if x.get("k") in ("Int", "Float"):
                return ts[1]
            if y.get("k") in ("Int", "Float"):
                return ts[0]
            fx, fy = find(ts[0]), find(ts[1])
            if isinstance(fx, C) and isinstance(fy, C) or isint(a[0].get("t")) and isint(a[1].get("t")):
                self.same(ts[0], ts[1], line, "smaller or larger of")
            return ts[0] if isinstance(fx, C) else ts[1] if isinstance(fy, C) else V()
        if nm in ("swap",) and len(ts) == 2:
            self.same(ts[0], ts[1], line, "exchange")
        if nm in ("isValid",):
            return V()
        sig = nearest(fn, ts, ot)
        if sig is not None:
            for want, t in zip(sig, ts):
                if want is not None:
                    self.same(want, t, line, "neighbours")
            return V()
        for g in self.g.p.targets(fn, True):
            if g.m not in self.g.funcs or g.body is None or g.d.get("virt") and g.name.endswith("Core"):
                continue
            s = self.g.scheme(g)
            if s is None:
                continue
            self.g.n["calls"] += 1
            for w, t in zip(s.ps, ts):
                self.same(w, t, line, "argument of " + g.name)
            if ot is not None and isinstance(find(s.this), C):
                self.same(s.this, ot, line, "object of " + g.name)
            elif ot is None and isinstance(find(s.this), C) and e.get("k") == "Call" and False:
                pass
            return s.ret
        return fresh(e.get("t") or fn.get("ret"))

    # ---- statements
    def stmt(self, n):
        if not isinstance(n, dict):
            return
        k = n.get("k")
        if k == "Decl":
            for v in n["v"]:
                if v["id"] in self.reused:
                    self.env[v["id"]] = fresh(v["t"])
                t = self.env.setdefault(v["id"], fresh(v["t"]))
                if v.get("init") is not None:
                    i = v["init"]
                    y = self.ty(i)
                    if isint(v["t"]) and isflt(i.get("t")) or isflt(v["t"]) and isint(i.get("t")):
                        continue
                    if strip(i).get("k") in ("Int", "Float"):
                        continue
                    self.same(t, y, n.get("l", v.get("l", 0)), "assignment")
                elif base(v["t"]).endswith("]") and v.get("n"):
                    pass
            return
        if k == "Return":
            if n.get("e") is not None:
                y = self.ty(n["e"])
                if strip(n["e"]).get("k") not in ("Int", "Float"):
                    self.same(self.ret, y, n.get("l", 0), "result")
            return
        if k == "For":
            if n.get("init"):
                self.stmt(n["init"])
            ids = set()
            for m in walk({"b": [n.get("init")]}):
                if m.get("k") == "Decl":
                    ids |= {v["id"] for v in m["v"]}
                if m.get("k") == "Assign" and (strip(m["x"]) or {}).get("k") == "Ref":
                    ids.add(strip(m["x"])["id"])
            self.bounds(n.get("c"), ids)
            if n.get("inc"):
                self.ty(n["inc"])
            self.branch(n["b"])
            return
        if k == "RangeFor":
            r = find(self.ty(n.get("r")))
            v = n.get("v")
            if isinstance(v, dict):
                v = v.get("v", [v])[0] if v.get("k") == "Decl" else v
                if isinstance(v, dict) and "id" in v:
                    t = self.env.setdefault(v["id"], fresh(v.get("t")))
                    if isinstance(r, C) and r.k == "Mat":
                        self.same(t, r.a[1], n.get("l", 0), "element")
            self.stmt(n["b"])
            return
        if k in ("Block", "If", "While", "Do", "Switch", "Case", "Default", "Try", "OMP"):
            for x in ir.kids(n):
                if x.get("k") in ("Block", "If", "For", "RangeFor", "While", "Do", "Return", "Expr", "Decl", "Switch", "Case", "Default", "Try", "OMP", "Break", "Continue", "Nop"):
                    self.stmt(x) if k == "Block" else self.branch(x)
                else:
                    self.ty(x)
            return
        if k == "Expr":
            self.ty(n["e"])
            return
        for x in ir.kids(n):
            self.ty(x)

    def branch(self, n):
        """a statement that may or may not run: what a variable reused in it holds afterwards is not known"""
        before, self.rebound = self.rebound, set()
        self.stmt(n)
        for i in self.rebound:
            self.env[i] = V()
        self.rebound |= before

    def bounds(self, c, ids):
        """i < n in the head of a loop: i counts along what n measures"""
        e = strip(c)
        if not isinstance(e, dict):
            return
        if e.get("k") == "Bin" and e["op"] == "&&":
            self.bounds(e["x"], ids)
            self.bounds(e["y"], ids)
            return
        if e.get("k") == "Bin" and e["op"] in ("<", "<=", ">", ">=", "!="):
            x, y = self.ty(e["x"]), self.ty(e["y"])
            sx, sy = strip(e["x"]), strip(e["y"])
            if isint(sx.get("t")) and isint(sy.get("t")) and sy.get("k") != "Int" and sx.get("k") != "Int":
                if sx.get("k") == "Ref" and sx.get("id") in ids or sy.get("k") == "Ref" and sy.get("id") in ids:
                    self.g.n["loops"] += 1
                    self.same(x, y, e.get("l", 0), "loop")
            return
        self.ty(c)


def nearest(fn, ts, ot):
    """types of the arguments of the look-ups of nearest neighbours"""
    q = fn.get("q", "")
    nm = last(q)
    if nm not in ("getNearestNeighbour", "getNearestNeighbourBruteForce", "addToCache", "getFromCache"):
        return None
    cls = fn.get("cls")
    pt = fn.get("pt", [])

    def sp(t):
        t = find(t)
        return t.a[0] if isinstance(t, C) and t.k == "File" else V()

    def mats(frm, to):
        return [C("Mat", C("Y", to), C("Mat", C("X", to), C(ax, frm))) for ax in ("Y", "X")]
    if cls == "Downscaler" and len(ts) == 4:
        frm, to = sp(ts[0]), sp(ts[1])
        return [None, None] + mats(frm, to)
    if cls == "Downscaler" and len(ts) == 5:
        frm = sp(ts[0])
        return [None, C("Qlon"), C("Qlat"), C("Y", frm), C("X", frm)]
    if cls == "KDTree" and ot is not None:
        frm = sp(ot)
        if len(ts) == 3:
            return [None] + mats(frm, sp(ts[0]))
        if len(ts) == 4:
            return [C("Qlat"), C("Qlon"), C("Y", frm), C("X", frm)]
    return None


def findings(p, funcs, st):
    g = Infer(p, funcs)
    for f in funcs:
        if f.body is not None:
            g.scheme(f)
    out = []
    seen = set()
    for f, line, a, b, what in g.out:
        x, y = sorted((show(a) if a.k[0] != "#" else a.k[1:], show(b) if b.k[0] != "#" else b.k[1:]))
        if a.k[0] == "#":
            text = "a position in the grid of %s is used in the grid of %s (%s)" % (x, y, what)
        else:
            text = "%s and %s are exchanged or mixed (%s)" % (x, y, what)
        k = "%s|%s|%s|%s" % (f.q, x, y, what)
        if (k, line) not in seen:
            seen.add((k, line))
            out.append((f, line, "place", text, "place|" + k))
    st["functions"] += len(g.schemes)
    for k, n in g.n.items():
        st[k] += n
    return out


def selftest():
    p = ir.samples("roles")
    fs = [f for f in p.functions() if f.file.startswith(ir.build.VERIF)]
    bad = {x[0].name for x in findings(p, fs, Counter())}
    want = {f.name for f in fs if f.name.startswith(("bad_", "Bad"))}
    if bad != want:
        raise ir.AnalysisBroken("self-test of the role rules: missed %s, wrongly reported %s" % (sorted(want - bad), sorted(bad - want)))
    return len(want), len(fs) - len(want)


def check(pid, res, tier):
    nbad, nok = selftest()
    p = ir.load()
    st = Counter()
    for f, line, rule, text, k in findings(p, program(p), st):
        res.add(rule, f.file, line, f.q, text, k)
    res.coverage = dict(st, selftest_bad=nbad, selftest_ok=nok)
    res.floor("functions", st["functions"], 300)
    res.floor("accesses to fields", st["field_accesses"], 100)
    res.floor("indexed arrays", st["indexed"], 300)
    res.explanation = ("Types inferred for every integer, coordinate and array of the command-line program by unification: rows and columns of each grid, members, times, and kinds of coordinates; "
                       "every index, loop bound, call, assignment, comparison and extent is a constraint, and no constraint contradicts another.")
    res.assumptions = ["input and output file have the same members and times where both are indexed by the same counter"]

"""The resolved program: functions, records, enums of /repo, merged over its translation units."""
import json, os
from . import build
from .build import AnalysisBroken

TYPEKEYS = ("t", "ret", "nt", "tt", "ct", "base")


def kids(n):
    """Direct child nodes of a statement or expression node."""
    if isinstance(n, dict):
        for k, v in n.items():
            if k == "fn":
                continue
            if isinstance(v, dict):
                yield v
            elif isinstance(v, list):
                for x in v:
                    if isinstance(x, dict):
                        yield x


def walk(n):
    stack = [n]
    while stack:
        x = stack.pop()
        if not isinstance(x, dict):
            continue
        yield x
        stack.extend(reversed(list(kids(x))))


class Func:
    def __init__(self, d, fname):
        self.d = d
        self.q = d["q"]
        self.m = d["m"]
        self.file = fname
        self.line = d["l"]
        self.endline = d["el"]
        self.params = d["ps"]
        self.body = d["body"]
        self.ret = d["ret"]
        self.cls = d.get("cls")
        self.is_ctor = d.get("ctor", False)
        self.is_dtor = d.get("dtor", False)
        self.const = d.get("const", False)
        self.static = d.get("static", False)
        self.implicit = d.get("implicit", False)
        self.name = self.q.split("::")[-1]

    @property
    def sig(self):
        return "%s(%s)" % (self.q, ", ".join(shorttype(p["t"]) for p in self.params))

    @property
    def where(self):
        return "%s:%d" % (rel(self.file), self.line)

    def __repr__(self):
        return "<%s>" % self.sig


def rel(path):
    r = build.REPO.rstrip("/") + "/"
    return path[len(r):] if path.startswith(r) else path


def noalloc(t):
    """Drops defaulted template arguments of the standard containers from a type's spelling."""
    for w in (", std::allocator<", ", std::less<", ", std::default_delete<", ", std::char_traits<"):
        while w in t:
            i = t.index(w)
            j = i + len(w)
            d = 1
            while d:
                d += {"<": 1, ">": -1}.get(t[j], 0)
                j += 1
            t = t[:i] + t[j:]
    return t


def shorttype(t):
    t = noalloc(t)
    t = t.replace("std::vector<std::vector<std::vector<float>>>", "vec3").replace("std::vector<std::vector<float>>", "vec2").replace("std::vector<float>", "vec")
    t = t.replace("std::vector<std::vector<std::vector<int>>>", "ivec3").replace("std::vector<std::vector<int>>", "ivec2").replace("std::vector<int>", "ivec")
    t = t.replace("std::basic_string<char>", "string").replace("gridpp::", "")
    return t


class Program:
    def __init__(self, repo, which=("api", "client"), units=None):
        self.repo = repo
        self.funcs = {}
        self.records = {}
        self.enums = {}
        self.globals = {}
        self.decls = {}
        self.units = []
        dumps = build.dump_all(repo, which) if units is None else build.dump_units(repo, units, [])
        for unit, path in sorted(dumps.items()):
            with open(path) as f:
                d = json.load(f)
            if d["errors"]:
                raise AnalysisBroken("%d parse errors in %s" % (d["errors"], unit))
            self.units.append(unit)
            types = d["types"]
            files = d["files"]

            def fix(n):
                stack = [n]
                while stack:
                    x = stack.pop()
                    if isinstance(x, dict):
                        for k, v in x.items():
                            if k in TYPEKEYS:
                                if isinstance(v, int):
                                    x[k] = types[v] if v >= 0 else ""
                            elif k in ("pt", "ts"):
                                x[k] = [types[i] if isinstance(i, int) else i for i in v]
                            elif k == "bases":
                                x[k] = [types[i] if isinstance(i, int) else i for i in v]
                            elif isinstance(v, (dict, list)):
                                stack.append(v)
                    elif isinstance(x, list):
                        stack.extend(y for y in x if isinstance(y, (dict, list)))
            for fd in d["funcs"]:
                m = fd["m"]
                if m in self.funcs:
                    continue
                fix(fd)
                self.funcs[m] = Func(fd, files[fd["f"]])
            for r in d["records"]:
                if r["q"] not in self.records:
                    fix(r)
                    r["file"] = files[r["f"]]
                    self.records[r["q"]] = r
            for e in d["enums"]:
                if e["q"] not in self.enums:
                    e["file"] = files[e["f"]]
                    self.enums[e["q"]] = e
            for g in d["globals"]:
                if g["q"] not in self.globals or (g["def"] and not self.globals[g["q"]]["def"]):
                    fix(g)
                    g["file"] = files[g["f"]]
                    self.globals[g["q"]] = g
            for x in d["decls"]:
                if x["m"] not in self.decls:
                    fix(x)
                    x["file"] = files[x["f"]]
                    self.decls[x["m"]] = x
        self.byq = {}
        for f in self.funcs.values():
            self.byq.setdefault(f.q, []).append(f)
        # class hierarchy
        self.subclasses = {}
        for q, r in self.records.items():
            for b in r["bases"]:
                self.subclasses.setdefault(b, set()).add(q)
        self.overriders = {}
        for f in self.funcs.values():
            for o in f.d.get("ov", []) or []:
                self.overriders.setdefault(o, set()).add(f.m)

    def all_overriders(self, m):
        out = set()
        stack = [m]
        while stack:
            x = stack.pop()
            for o in self.overriders.get(x, ()):
                if o not in out:
                    out.add(o)
                    stack.append(o)
        return out

    def targets(self, fn, nonvirt=False):
        """Possible definitions (Func) a resolved callee may run."""
        if fn is None:
            return []
        m = fn["m"]
        out = []
        if m in self.funcs:
            out.append(self.funcs[m])
        if fn.get("virt") and not nonvirt:
            for o in sorted(self.all_overriders(m)):
                if o in self.funcs:
                    out.append(self.funcs[o])
        return out

    def bases_closure(self, q):
        out = []
        stack = [q]
        while stack:
            x = stack.pop()
            r = self.records.get(x)
            if not r:
                continue
            for b in r["bases"]:
                if b not in out:
                    out.append(b)
                    stack.append(b)
        return out

    def functions(self, prefix=None):
        for f in sorted(self.funcs.values(), key=lambda f: (f.file, f.line, f.m)):
            if prefix is None or rel(f.file).startswith(prefix):
                yield f


_prog = {}


def samples(name):
    """The small program of /verif/samples/<name>.cpp on which a rule is known to fire and not to fire."""
    root = os.path.join(build.VERIF, "samples")
    return Program(root, units=[os.path.join(root, name + ".cpp")])


def load(which=("api", "client")):
    key = tuple(which)
    if key not in _prog:
        _prog[key] = Program(build.REPO, which)
    return _prog[key]

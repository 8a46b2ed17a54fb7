"""Runs the symbolic abstract interpreter over the public functions of the library, in parallel, and distils what the
rules need: obligations met and failed inside each function, and what is known at its normal exits."""
import gc
import os
import re
import sys
import time
from multiprocessing import Pool
from . import ir
from .sai import Cont, Lin, L, Mat, Obj, Scal, Sum, StopPaths, clean, V, N, I, D
from . import sailib
from . import spec as specmod

sys.setrecursionlimit(20000)
BUDGET = 1500000
LIMIT = 240     # seconds for one function
TOTAL = 600     # seconds for all of them; what is not finished by then counts as undecided


def sig(f):
    return "%s(%s)%s" % (f.q, ",".join(ir.shorttype(p["t"]) for p in f.params), " const" if f.const else "")


def public(p):
    """Functions the library offers: declared in its headers, defined in its sources."""
    out = []
    for f in p.functions("src/api/"):
        if f.body is None or "(anonymous" in f.q or not f.q.startswith("gridpp::") or f.q.startswith("gridpp::swig") or f.implicit:
            continue
        if f.m not in p.decls:
            continue
        if f.q.split("::")[-1].startswith("test_") or "/swig.cpp" in f.where:
            continue
        out.append(f)
    out.sort(key=lambda f: (f.file, f.d["l"]))
    return out


_SPEC = {}


def spec():
    if not _SPEC:
        _SPEC.update(specmod.load())
    return _SPEC


def contracted(p):
    """Mangled name -> entry, for the functions whose callers use the entry."""
    sp = spec()
    key = id(p)
    if key not in _CON:
        _CON[key] = {f.m: sp[s] for f in p.functions("src/api/") for s in [sig(f)] if f.body is not None and s in sp and sp[s].contract}
    return _CON[key]


_CON = {}


def receiver(A, p, f):
    if f.cls and not f.static and not f.d.get("ctor"):
        return Obj(f.cls, {}, "this")
    if f.cls and f.d.get("ctor"):
        return Obj(f.cls, {}, "")
    return None


class Shape:
    """Symbols that stand for the extents and values of the inputs of one entry."""

    def __init__(self, A, f):
        self.A = A
        self.f = f

    def tokens(self, S, fr):
        """token -> Lin, for every extent and scalar among the parameters (values at entry)."""
        out = {}
        A = self.A
        for i, p in enumerate(self.f.params):
            v = fr.entryvals.get(i)
            self.add(out, "$%d" % i, v, S)
        if fr.entrythis is not None:
            self.add(out, "this", fr.entrythis, S)
        return out

    def add(self, out, t, v, S):
        A = self.A
        if isinstance(v, Scal):
            out[t] = v.lin
        elif isinstance(v, Cont):
            k = 0
            while isinstance(v, Cont):
                if v.len is not None:
                    out["%s.%d" % (t, k)] = v.len
                v = v.elem
                k += 1
        elif isinstance(v, Obj) and v.cls in ("gridpp::Grid", "gridpp::Points", "gridpp::KDTree") and v.name:
            d = sailib.gdims(A, v)
            for k, l in enumerate(d):
                out["%s.%d" % (t, k)] = l
            x = sailib.objtype(A, S, v)
            if x is not None:
                out[t + ".t"] = x


def dimsof(A, S, v):
    """Extents of a container value, outermost first; None where unknown."""
    out = []
    while True:
        if isinstance(v, Mat):
            out += [v.r, v.c]
            break
        if not isinstance(v, Cont):
            break
        out.append(A.canon(S, v.len) if v.len is not None else None)
        f = A.fold(S, v)
        v = f.elem
        if isinstance(v, Cont) and v.len is None:
            out.append(None)
            break
    return out


def leaf(A, S, v):
    while isinstance(v, Cont):
        v = A.fold(S, v).elem
    return v


def fmt(A, l, tok):
    """Lin in terms of tokens, or None when it mentions anything else."""
    inv = {}
    for t, x in tok.items():
        s = x.single()
        if s is not None:
            inv.setdefault(s, t)
    parts = []
    for s, c in sorted(l.m.items(), key=lambda q: str(inv.get(q[0]))):
        if s not in inv:
            return None
        parts.append(("" if c == 1 else "%s*" % c) + inv[s])
    if l.c or not parts:
        parts.append(str(l.c))
    return "+".join(parts)


def parse(t, tok):
    l = L(0)
    for part in t.replace("-", "+-").split("+"):
        part = part.strip()
        if not part:
            continue
        k = 1
        if part.startswith("-") and not re.match(r"-\d", part):
            k, part = -1, part[1:].strip()
        if "*" in part:
            a, part = part.split("*")
            k *= int(a)
        if part in tok:
            l = l + tok[part].scale(k)
        elif re.match(r"-?\d+(\.\d+)?$", part):
            x = float(part)
            l = l + k * (int(x) if x == int(x) else x)
        else:
            return None
    return l


def analyse(p, f, work, budget=None, **kw):
    A = sailib.make(p, **kw)
    A.BUDGET = budget or BUDGET
    A.DEADLINE = min(time.time() + LIMIT, _END or time.time() + TOTAL)
    A.contracts = contracted(p)
    this = receiver(A, p, f)
    t = time.time()
    r = dict(sig=sig(f), m=f.m, file=f.file, line=f.d["l"], where=f.where, err=None, events=[], exits=0, names=[q["n"] for q in f.params])
    ents = {}

    def bind(A_, S, f_, i, prm):
        v = A.unknown(prm["t"], prm["n"] or "arg%d" % i, closed=True)
        ents[i] = v
        return v

    goals = []
    ent = spec().get(sig(f))
    ors = [(q, t) for q, t in zip(ent.req, ent.text) if q[0] == "or"] if ent else []

    def goalsof():
        if not goals and len(ents) == len(f.params):
            sh = Shape(A, f)
            tok = {}
            for i, v in ents.items():
                sh.add(tok, "$%d" % i, v, None)
            goals.extend((q, tok) for q, _ in ors)
        return goals

    A.goals = goalsof if ors else None
    A.goaltexts = [t for _, t in ors]
    try:
        outs, fr = A.entry(f, bind=bind, this=this)
        fr.entryvals = ents
        fr.entrythis = this
        r["exits"] = len(outs)
        if work:
            r["res"] = work(A, p, f, outs, fr)
    except StopPaths:
        r["err"] = "budget"
    except RecursionError:
        r["err"] = "recursion"
    seen = {}
    for e in A.events:
        k = (e.kind, e.verdict, e.func.q, e.file, e.line, e.text)
        if k not in seen:
            seen[k] = [e.chain, 0, None if e.kind == "throw" or e.kind == "libthrow" else None]
        seen[k][1] += 1
    r["events"] = [(k, c, n) for k, (c, n, _) in seen.items()]
    r["steps"] = A.steps
    r["time"] = time.time() - t
    r["truncated"] = A.truncated
    r["unmodelled"] = dict(A.unmodelled)
    r["inlined"] = sorted(A.inlined)
    return r


_P = None
_FS = None
_W = None
_KW = {}
_END = None


def _run(i):
    return i, analyse(_P, _FS[i], _W, **_KW)


HEAVY = ("neighbourhood_quantile_fast", "local_distribution_correction", "window", "optimal_interpolation", "calc_gradient", "neighbourhood", "full_gradient")


def runall(p, fs, work=None, jobs=None, **kw):
    global _P, _FS, _W, _KW, _END
    _P, _FS, _W, _KW = p, fs, work, kw
    _END = time.time() + TOTAL
    gc.collect()
    gc.freeze()
    out = [None] * len(fs)
    order = sorted(range(len(fs)), key=lambda i: (next((k for k, h in enumerate(HEAVY) if h in fs[i].q), 99), i))
    with Pool(jobs or os.cpu_count() or 4) as pool:
        for i, r in pool.imap_unordered(_run, order, chunksize=1):
            out[i] = r
    return out


# ------------------------------------------------------------------ what the rules ask of each exit
def related(A, S, toks):
    """Has every way to S passed a condition without meaning to the analysis that has to do with all these inputs?"""
    want = {t.split(".")[0] for t in toks}
    return any(want <= A.guardinfo[g[0]] for g in S.guards)


def inputs_of(sides):
    return [t for side in sides for t in side if t.startswith("$") or t.startswith("this")]


def exitwork(A, p, f, outs, fr):
    from . import contracts
    sh = Shape(A, f)
    e = spec().get(sig(f))
    res = dict(req={}, ext={}, exits=0)
    if e is None:
        return res

    def put(d, k, v, why=""):
        rank = {"ok": 0, "undecided": 1, "fail": 2}
        if k not in d or rank[v] > rank[d[k][0]]:
            d[k] = (v, why)

    for S, v in outs:
        res["exits"] += 1
        tok = sh.tokens(S, fr)
        contracts.tokens(A, S, "ret", v, tok) if v is not None else None
        for req, text in zip(e.req, e.text):
            fs = contracts.holds(A, S, req, tok)
            ins = inputs_of(contracts.sides(req))
            if fs is True or any(A.goaltexts[g] == text for g in S.kept):
                put(res["req"], text, "ok")
            elif fs is None:
                put(res["req"], text, "undecided", "extent not known")
            elif related(A, S, ins):
                put(res["req"], text, "undecided", "a condition on these arguments was passed that the analysis cannot interpret")
            elif not all(A.closed(S, x) for x in fs):
                put(res["req"], text, "undecided", "not in terms of the arguments")
            else:
                put(res["req"], text, "fail", "")
        if A.mute_exits:
            continue
        todo = []
        if e.ret is not None:
            todo.append(("the result", e.ret, v))
        for i, ds in e.out.items():
            pid = f.params[i]["id"]
            path = fr.vars.get(pid)
            todo.append(("'%s'" % f.params[i]["n"], ds, A.read(S, path) if path else None))
        for name, ds, val in todo:
            if not isinstance(val, (Cont, Mat)):
                put(res["ext"], "%s" % name, "undecided", "value not tracked")
                continue
            got = dimsof(A, S, val)
            for k, d in enumerate(ds):
                key = "extent %d of %s is %s" % (k, name, "*".join(d))
                want = contracts.value(A, S, d, tok)
                g = got[k] if k < len(got) else None
                if want is None or g is None:
                    put(res["ext"], key, "undecided", "extent not known")
                elif A.eqzero(S, g - want):
                    put(res["ext"], key, "ok")
                elif not A.closed(S, g) or not A.closed(S, want) or k and A.eqzero(S, got[0] if got[0] is not None else L(1)):
                    put(res["ext"], key, "undecided", "not in terms of the arguments")
                elif related(A, S, inputs_of([d])):
                    put(res["ext"], key, "undecided", "a condition was passed that the analysis cannot interpret")
                else:
                    put(res["ext"], key, "fail", "is %s" % A.show(A.canon(S, g)))
    return res


_SHARED = {}


def shared(tier="quick"):
    """Results of the interpreter for every public function; cached by the content of the sources and of the analysis."""
    from . import build
    import glob
    import hashlib
    import pickle
    if "r" in _SHARED:
        return _SHARED["r"]
    p = ir.load(("api",))
    mine = sorted(glob.glob(os.path.join(build.VERIF, "gpa", "*.py"))) + [os.path.join(build.VERIF, "gpa", "spec", "api.txt")]
    hdrs = build.headers(build.REPO)
    key = hashlib.sha256((build.filehash(build.TOOLSRC, *mine) + build.filehash(*(build.api_units(build.REPO) + hdrs))).encode()).hexdigest()
    path = os.path.join(build.CACHE, "sai-%s.pkl" % key)
    if os.path.exists(path):
        with open(path, "rb") as h:
            r = pickle.load(h)
    else:
        fs = public(p)
        r = runall(p, fs, exitwork)
        for old in sorted(glob.glob(os.path.join(build.CACHE, "sai-*.pkl")), key=os.path.getmtime)[:-40]:
            os.remove(old)
        with open(path + ".tmp%d" % os.getpid(), "wb") as h:
            pickle.dump(r, h)
        os.rename(path + ".tmp%d" % os.getpid(), path)
    _SHARED["r"] = (p, r)
    return _SHARED["r"]

"""Calls of the heavier public functions, analysed with what spec/api.txt says of them instead of with their bodies."""
from fractions import Fraction
from .sai import Boo, Cont, L, Obj, Opq, Scal, Sum, V, I, ANYF, Lin, clean


def tokens(A, S, base, v, out, path=None):
    if isinstance(v, Scal):
        out[base] = v.lin
    elif isinstance(v, Cont):
        k = 0
        while isinstance(v, Cont):
            if v.len is None:
                break
            out["%s.%d" % (base, k)] = v.len
            v = A.fold(S, v).elem
            k += 1
    elif isinstance(v, Obj) and v.cls == "gridpp::Point":
        from . import sailib
        out[base + ".t"] = sailib.objtype(A, S, v)
    elif isinstance(v, Obj) and v.cls in ("gridpp::Grid", "gridpp::Points", "gridpp::KDTree"):
        from . import sailib
        d = None
        if path is not None:
            d = sailib.objdims(A, S, path)
        elif v.name:
            d = sailib.gdims(A, v)
        for k, l in enumerate(d or ()):
            out["%s.%d" % (base, k)] = l
        t = sailib.objtype(A, S, A.read(S, path) if path is not None else v)
        if t is not None:
            out[base + ".t"] = t


def value(A, S, fs, tok):
    """Lin of a term, or None when something in it is not known."""
    l = L(1)
    for f in fs:
        if f in tok:
            x = tok[f]
            if x is None:
                return None
        else:
            try:
                c = float(f)
            except ValueError:
                return None
            x = L(int(c) if c == int(c) else c)
        if not l.m:
            l = x.scale(l.c)
        elif not x.m:
            l = l.scale(x.c)
        else:
            r = A.iarith(S, "*", l, x, None, None)
            if not isinstance(r, Scal):
                return None
            l = r.lin
    return l


def facts(A, S, req, tok):
    """The facts (each >= 0) a requirement stands for, or None."""
    op, a, b = req
    x, y = value(A, S, a, tok), value(A, S, b, tok)
    if x is None or y is None:
        return None
    d = A.canon(S, x - y)
    one = 1 if A.isint(d) else 0
    if op == "=":
        return [d, -d]
    if op == ">=":
        return [d]
    if op == "<=":
        return [-d]
    if op == ">":
        return [d - one]
    return [-d - one]


def holds(A, S, req, tok):
    """True when entailed, None when something in it is not known, otherwise the facts that are missing."""
    if req[0] == "or":
        rs = [holds(A, S, x, tok) for x in req[1]]
        if True in rs:
            return True
        return None if None in rs else []
    if req[0] in ("na", "valid"):
        if req[1][0] not in tok:
            return None
        l = tok[req[1][0]]
        m = S.refine.get(l, ANYF) if l.m else V
        return True if (not m & V if req[0] == "na" else m == V) else []
    fs = facts(A, S, req, tok)
    if fs is None:
        return None
    if not all(A.ent(S, x) for x in fs):
        # order says nothing here about an infinite value
        if any(S.refine.get(tok[t], V) == I for side in (req[1], req[2]) for t in side if t in tok):
            return None
        return fs
    if req[0] in ("<", ">") and not A.isint(fs[0]) and not A.ent(S, fs[0] - Fraction(1, 10**9)):
        # a strict inequality between reals: not equal as well
        if not any(A.canon(S, n) in (fs[0], -fs[0]) for n in S.nes):
            return fs
    return True


def sides(req):
    return [y for x in req[1] for y in sides(x)] if req[0] == "or" else [req[1], req[2]]


def call(A, entry, f, args, S, fr, e, this):
    line = e.get("l") or fr.line
    states = [(S, [])]
    for i, p in enumerate(f.params):
        if i >= len(args):
            break
        nxt = []
        ref = p["t"].strip().endswith("&")
        for s, vs in states:
            if ref:
                for s2, path in A.lv(args[i], s, fr):
                    if path is None:
                        path = (A.newcell(s2, A.unknown(p["t"], p["n"])), ())
                    nxt.append((s2, vs + [(path, None)]))
            else:
                for s2, v in A.ev(args[i], s, fr):
                    v = A.tov(v)
                    if isinstance(v, Cont) and v.kind == "init":
                        v = A.initlist(s2, v, p["t"])
                    nxt.append((s2, vs + [(None, A.coerce(s2, v, p["t"]))]))
        states = nxt
    out = []
    for s, vs in states:
        tok = {}
        for i, (path, v) in enumerate(vs):
            if path is not None:
                v = A.read(s, path)
            tokens(A, s, "$%d" % i, v, tok, path)
        dead = False
        for req, text in zip(entry.req, entry.text):
            fs = holds(A, s, req, tok)
            if fs is None or fs is True:
                continue
            # inner extents of an empty container mean nothing
            if any(t.count(".") and not t.endswith((".0", ".t")) and A.eqzero(s, tok[t[:-1] + "0"]) for side in sides(req) for t in side if t in tok and t[:-1] + "0" in tok):
                continue
            A.throw(s.fork(), fr, line, "invalid_argument")
            for x in fs:
                if not A.addfact(s, x):
                    dead = True
                    break
            if dead:
                break
        if dead:
            continue
        v = A.unknown(f.ret, f.name) if clean(f.ret) != "void" else Opq("void")
        if entry.ret is not None:
            v = build(A, s, f.ret, entry.ret, tok)
        tokens(A, s, "ret", v, tok)
        for i, ds in entry.out.items():
            if i < len(vs) and vs[i][0] is not None:
                A.write(s, vs[i][0], build(A, s, f.params[i]["t"], ds, tok))
        for i, (path, _) in enumerate(vs):
            t = f.params[i]["t"]
            if path is not None and not t.strip().startswith("const ") and i not in entry.out:
                A.write(s, path, A.unknown(t, f.params[i]["n"]))
        out.append((s, v))
    return out


def build(A, S, t, ds, tok):
    """A container of type t with the extents ds."""
    from .sai import targ
    ct = clean(t)
    k = A.tkind(ct)
    if k != "vec":
        return A.unknown(t)
    et = targ(ct)
    l = value(A, S, ds[0], tok)
    if l is None:
        l = A.sym("opaque", "size()", "i", 0)
    if len(ds) > 1:
        return Cont(l, build(A, S, et, ds[1:], tok), et)
    if A.tkind(et) == "f":
        return Cont(l, Sum("f", ANYF), et)
    return Cont(l, Sum("i", V), et) if A.tkind(et) in ("i", "b") else Cont(l, None, et)

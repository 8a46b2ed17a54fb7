"""C12: locations, time steps, ensemble members and elements are computed independently of each other."""
import os, re
from collections import Counter
from .. import ir
from ..axes import Axes
from .pure import library

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "axes.txt")
LINE = re.compile(r"^(?P<sig>.*?) => (?P<res>\S+) : (?P<src>.*)$")
SRC = re.compile(r"^(?P<p>this|\d+:\w+)(?:\.(?P<f>\w+))?(?P<i>(?:\[[0-9.]\])+)$")


def spec(path=SPEC):
    out = {}
    for line in open(path):
        line = line.rstrip("\n")
        if not line or line.startswith("#"):
            continue
        m = LINE.match(line)
        if not m:
            raise ir.AnalysisBroken("spec/axes.txt: cannot read " + line)
        for s in m.group("src").split():
            q = SRC.match(s)
            if not q:
                raise ir.AnalysisBroken("spec/axes.txt: cannot read %s in %s" % (s, line))
            src = "this" if q.group("p") == "this" else int(q.group("p").split(":")[0])
            axes = [None if x == "." else int(x) for x in re.findall(r"\[(.)\]", q.group("i"))]
            out.setdefault(m.group("sig"), []).append((m.group("res"), src, q.group("f") or "", axes, s))
    return out


def result(s, res):
    base, _, fld = res.partition(".")
    if base == "ret":
        return s.ret, fld
    return s.outs.get("this" if base == "this" else int(base.split(":")[0])) or {}, fld


def findings(ax, table, st):
    out = []
    for f in ax.funcs:
        cl = table.get(f.sig)
        if not cl or f.m in ax.failed:
            continue
        st["functions"] += 1
        s = ax.sum[f.m]
        for res, src, fld, axes, text in cl:
            av, k = result(s, res)
            atoms = [a for kk, v in av.items() if kk in (k, "" if k else k) for a in v]
            mine = [a for a in atoms if a[0] == src and (a[1] or "") == fld and len(a[2]) == len(axes)]
            for d, want in enumerate(axes):
                if want is None:
                    continue
                st["obligations"] += 1
                got = {a[2][d] for a in mine}
                if not got:
                    st["no_dependence_seen"] += 1
                    continue
                bad = [a for a in mine if a[2][d] == "*" or type(a[2][d]) is int and a[2][d] != want]
                if bad:
                    name = ("the object" if src == "this" else f.params[src]["n"]) + ("." + fld if fld else "")
                    why = ("an element of the result depends on other positions of axis %d of %s than its own: %s" % (d, name, ", ".join(sorted(show(name, a[2]) for a in bad)[:3])))
                    out.append((f, "independence", f.line, why, "independence|%s|%s|%s|%d" % (f.sig, res, text.split(":")[-1].split("[")[0], d)))
                elif got == {want}:
                    st["proved"] += 1
                else:
                    st["undecided"] += 1
    return out


def show(n, idx):
    return n + "".join("[%s]" % ("any" if x == "*" else "?" if x == "?" else "i%d" % x if type(x) is int else "k") for x in idx)


WANT = {"b12_carried", "b12_transposed", "b12_fixed", "b12_previous", "b12_reduced", "b12_stale", "b12_helper", "b12_flag"}


def selftest():
    p = ir.samples("axes")
    fs = [f for f in p.functions() if f.file.startswith(ir.build.VERIF)]
    ax = Axes(p, fs)
    if ax.failed:
        raise ir.AnalysisBroken("self-test of the alignment analysis: %s" % ax.failed)
    table, ok = {}, set()
    for f in fs:
        n = f.q.split("::")[-1]
        if re.match(r"[bg]12_", n) and "anonymous" not in f.q:
            axes = [0, 1] if "vec2" in f.params[0]["t"] or f.params[0]["t"].count("vector<") > 1 else [0]
            table[f.sig] = [("ret", 0, "", axes, "0:x" + "".join("[%d]" % a for a in axes))]
            ok |= {n} if n.startswith("g") else set()
    st = Counter()
    got = {x[0].q.split("::")[-1] for x in findings(ax, table, st)}
    if got != WANT:
        raise ir.AnalysisBroken("self-test of the alignment analysis: missed %s, wrongly reported %s" % (sorted(WANT - got), sorted(got - WANT)))
    if st["no_dependence_seen"]:
        raise ir.AnalysisBroken("self-test of the alignment analysis: a dependence is not seen")
    return len(WANT), len(ok)


def check(pid, res, tier):
    nbad, nok = selftest()
    table = spec()
    p = ir.load()
    fs = [f for f in library(p) if not f.file.endswith("swig.cpp")]
    ax = Axes(p, fs)
    st = Counter()
    for f, rule, line, text, key in findings(ax, table, st):
        res.add(rule, f.file, line, f.q, text, key)
    res.coverage = dict(st, summaries=len(ax.sum), failed=len(ax.failed), rounds=ax.rounds, unstable=ax.unstable, specified=len(table), selftest_bad=nbad, selftest_ok=nok)
    res.floor("functions", st["functions"], 60)
    res.floor("proved obligations", st["proved"], 150)
    res.explanation = ("Alignment analysis (structured abstract interpretation with summaries): every value is described by the elements of the inputs it may depend on, by data or by control, where a loop variable stands for itself while its iteration "
                       "lasts and for any position afterwards; an element of the result must depend, along every axis listed in gpa/spec/axes.txt, only on its own position of the input. Carried scalars and buffers, exchanged or fixed indices and "
                       "reductions over the wrong axis appear as a dependence on other positions.")
    res.assumptions = ["positions computed by arithmetic the analysis does not follow are not reported", "conditions that only lead to an exception decide nothing"]

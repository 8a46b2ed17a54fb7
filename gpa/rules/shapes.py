"""Rules decided by the symbolic abstract interpreter (gpa/sai*.py) over every public function of the library:
C03 size requirements, C04 element accesses, C05 extents of results, C09 requirements on single values."""
from collections import Counter
from .. import contracts, ir, saidrive as sd, spec as specmod


def of(req):
    """The property a requirement belongs to."""
    ts = [t for side in contracts.sides(req) for t in side if t.startswith(("$", "this", "ret"))]
    if any(t.endswith(".t") for t in ts):
        return "C06"
    return "C03" if any("." in t for t in ts) else "C09"


def overview(res, rs):
    errs = [r["sig"] for r in rs if r["err"]]
    res.coverage["public_functions"] = len(rs)
    res.coverage["functions_not_finished"] = errs
    res.coverage["functions_inlined"] = len({m for r in rs for m in r["inlined"]})
    res.assumptions = ["every array argument has at least one element in each of its dimensions, and nested arrays are rectangular",
                       "distinct reference arguments do not alias", "requirements on arguments are those of gpa/spec/api.txt"]


def requirements(pid, res, tier):
    p, rs = sd.shared(tier)
    sp = sd.spec()
    st = Counter()
    und = []
    for r in rs:
        e = sp.get(r["sig"])
        if e is None or "res" not in r:
            if e is not None:
                st["undecided"] += len(e.req)
            continue
        for req, text in zip(e.req, e.text):
            if of(req) != pid:
                continue
            if text not in r["res"]["req"]:
                continue
            v, why = r["res"]["req"][text]
            st[v] += 1
            if v == "undecided":
                und.append("%s: %s (%s)" % (r["sig"], specmod.words(text, r["names"]), why))
            if v == "fail":
                res.add("requirement", r["file"], r["line"], r["sig"], "returns normally although '%s' need not hold" % specmod.words(text, r["names"]),
                        "%s|%s" % (r["sig"], text))
    overview(res, rs)
    res.coverage.update(requirements_entailed=st["ok"], requirements_undecided=st["undecided"], undecided=und[:60])
    return st


def check_C03(res, tier):
    st = requirements("C03", res, tier)
    res.floor("size requirements entailed", st["ok"], 120)
    res.explanation = ("For every public function with array arguments: at each of its normal exits, the recorded facts of the path (linear constraints over the extents of the arguments) entail every size "
                       "requirement that the specification lists for it; a call whose sizes disagree therefore cannot return normally.")


def check_C09(res, tier):
    st = requirements("C09", res, tier)
    res.floor("value requirements entailed", st["ok"], 30)
    res.explanation = ("For every public function with a restricted scalar argument: at each normal exit the path facts entail the restriction, so that a call with an invalid value cannot return normally.")


def check_C06(res, tier):
    st = requirements("C06", res, tier)
    p, rs = sd.shared(tier)
    seen = set()
    pt = Counter()
    for r in rs:
        for (kind, verdict, func, file, line, text), chain, n in r["events"]:
            if kind == "point":
                pt[verdict] += 1
                if verdict == "alarm" and (file, line, text) not in seen:
                    seen.add((file, line, text))
                    res.add("type-lost", file, line, func, "%s is built from the coordinates of another location set without that set's coordinate type (from %s)" % (text, r["sig"]), "%s|%s" % (func, text))
    # copies and derived objects: the members that hold the type
    from . import args
    from .pure import library
    c = Counter()
    out = []
    lib = list(library(p))
    args.copies(p, args.Flow(p, lib), lib, out, c)
    for f, rule, line, text, key in out:
        if f.cls in ("gridpp::Grid", "gridpp::Points", "gridpp::KDTree", "gridpp::Point") and any(key.endswith("|" + m) for m in ("mType", "mTree", "type", "")):
            res.add("type-lost", f.file, line, f.q, text, key)
    res.coverage.update(copies_that_keep_the_type=c["copies"], derived_fields=c["derived_fields"])
    res.coverage.update(derived_locations_with_type=pt["ok"], derived_locations_undecided=pt["undecided"])
    res.floor("derived locations that keep the type", pt["ok"], 10)
    res.floor("coordinate types compared", st["ok"], 40)
    res.explanation = ("For every public function with two location sets: at each normal exit the path facts entail that the coordinate types of the two are equal. "
                       "Every point, point set, grid or search tree built inside such a function (or inside a method of a location set) from computed coordinates is given the type of one of the location sets involved.")


def check_C02(res, tier):
    p, rs = sd.shared(tier)
    st = Counter()
    seen = set()
    visited = set()
    for r in rs:
        for (kind, verdict, func, file, line, text), chain, n in r["events"]:
            if kind == "region":
                visited.add((file, line))
            elif kind in ("throw", "libthrow"):
                st[verdict] += 1
                if verdict == "region" and (file, line, text) not in seen:
                    seen.add((file, line, text))
                    res.add("escape", file, line, func, "%s can leave a parallel loop, which terminates the process (from %s)" % (text, r["sig"]), "%s|%s" % (func, text))
                elif verdict == "callback" and (file, line, text) not in seen:
                    seen.add((file, line, text))
                    res.add("escape", file, line, func, "%s is thrown by a structure function, which parallel loops call without catching" % text, "%s|%s" % (func, text))
            elif kind == "lookup":
                st["lookup " + verdict] += 1
    overview(res, rs)
    all_ = set()
    for f in p.functions("src/api/"):
        if f.body is not None:
            all_ |= {(f.file, n["l"]) for n in ir.walk(f.body) if n.get("k") == "OMP" and "parallel" in str(n.get("d"))}
    res.coverage.update(parallel_regions=len(all_), parallel_regions_reached=len(visited), throws_outside_regions_or_caught=st["plain"], lookups_with_agreeing_types=st["lookup ok"],
                        lookups_undecided=st["lookup undecided"], regions_not_reached=sorted("%s:%d" % (ir.rel(a), b) for a, b in all_ - visited))
    res.floor("parallel regions reached", len(visited), 40)
    res.explanation = ("Every throw statement, every neighbour search whose tree may have another coordinate type than the coordinates, and every modelled library call that can throw (matrix inversion, "
                       "distribution quantiles), on every path that the interpreter keeps feasible from a public function into a parallel loop: it must be caught inside the loop body.")


def check_C04(res, tier):
    p, rs = sd.shared(tier)
    st = Counter()
    seen = set()
    und = set()
    for r in rs:
        for (kind, verdict, func, file, line, text), chain, n in r["events"]:
            if kind == "access" or kind == "matdim":
                st[verdict] += 1
                if verdict == "undecided":
                    und.add((file, line, text))
                if verdict == "alarm" and (file, line, text) not in seen:
                    seen.add((file, line, text))
                    res.add("bounds", file, line, func, "%s (from %s)" % (text, r["sig"]), "%s|%s" % (func, text))
            elif kind == "div0" and verdict == "alarm":
                if (file, line, text) not in seen:
                    seen.add((file, line, text))
                    res.add("div0", file, line, func, "%s (from %s)" % (text, r["sig"]), "%s|%s" % (func, text))
    overview(res, rs)
    res.coverage.update(accesses_proved=st["ok"], accesses_undecided=st["undecided"], undecided_sites=len(und))
    res.floor("accesses proved", st["ok"], 3000)
    res.explanation = ("Every element access (vector, nested vector, armadillo matrix, C array) reached from a public function, through inlined calls: the index is proved to be at least zero and below the extent "
                       "from the path facts; an access whose index and extent are functions of the arguments' extents and of loop counters only, and which is not proved, is reported. "
                       "Accesses through data-dependent indices (neighbour lookups, sort positions) that cannot be proved count as undecided and are not claimed.")


def check_C05(res, tier):
    p, rs = sd.shared(tier)
    st = Counter()
    und = []
    for r in rs:
        for key, (v, why) in (r.get("res") or {}).get("ext", {}).items():
            st[v] += 1
            t = specmod.words(key, r["names"])
            if v == "undecided":
                und.append("%s: %s (%s)" % (r["sig"], t, why))
            if v == "fail":
                res.add("extent", r["file"], r["line"], r["sig"], "%s: %s" % (t, why), "%s|%s" % (r["sig"], key))
    overview(res, rs)
    res.coverage.update(extents_proved=st["ok"], extents_undecided=st["undecided"], undecided=und[:60])
    res.floor("extents proved", st["ok"], 120)
    res.explanation = ("At every normal exit of every public function that returns or fills an array, each extent of the result equals the extent that the specification demands (that of the output grid, of the output "
                       "points, or of the input field), as a symbolic identity over the extents of the arguments.")


def check(pid, res, tier):
    globals()["check_" + pid](res, tier)

"""What the public functions demand of their arguments and promise about their results (spec/api.txt)."""
import os
import re
from . import ir
from .build import AnalysisBroken

HERE = os.path.dirname(os.path.abspath(__file__))
TOK = re.compile(r"(?:\$\d+|this|ret)(?:\.(?:\d+|t))?")


class Entry:
    def __init__(self, sig):
        self.sig = sig
        self.req = []      # (op, left, right) over terms; a term is a product of tokens or an integer
        self.text = []     # the requirement each of them comes from
        self.ret = None
        self.out = {}
        self.contract = False


def term(t):
    t = t.strip()
    fs = [x.strip() for x in t.split("*")]
    for x in fs:
        if not (TOK.fullmatch(x) or re.fullmatch(r"-?\d+(\.\d+)?", x)):
            raise AnalysisBroken("spec: bad term %r" % t)
    return fs


def atom(x):
    m = re.fullmatch(r"(na|valid)\((\$\d+)\)", x)
    if m:
        return (m.group(1), [m.group(2)], [])
    m = re.match(r"(.+?)(>=|<=|<|>|=)(.+)$", x)
    return (m.group(2), term(m.group(1)), term(m.group(3)))


def load(path=None):
    out = {}
    for n, line in enumerate(open(path or os.path.join(HERE, "spec", "api.txt")), 1):
        line = line.strip()
        if not line or line.startswith("#"):
            continue
        parts = [x.strip() for x in line.split("|")]
        if len(parts) < 3:
            raise AnalysisBroken("spec line %d" % n)
        s = parts[0]
        e = Entry("gridpp::" + s.lstrip("!"))
        e.contract = s.startswith("!")
        for r in [x.strip() for x in parts[1].split(";") if x.strip()]:
            if " or " in r:
                e.req.append(("or", [atom(x.strip()) for x in r.split(" or ")]))
                e.text.append(r)
                continue
            if r.startswith("valid("):
                e.req.append(atom(r))
                e.text.append(r)
                continue
            m = re.match(r"(.+?)(>=|<=|<|>)(.+)$", r)
            if m:
                e.req.append((m.group(2), term(m.group(1)), term(m.group(3))))
                e.text.append(r)
            else:
                ts = [term(x) for x in r.split("=")]
                for a in ts[1:]:
                    e.req.append(("=", ts[0], a))
                    e.text.append("%s=%s" % ("*".join(ts[0]), "*".join(a)))
        for r in [x.strip() for x in parts[2].split(";") if x.strip()]:
            m = re.match(r"\$(\d+):(.*)$", r)
            ds = [term(x) for x in (m.group(2) if m else r).split(",")]
            if m:
                e.out[int(m.group(1))] = ds
            else:
                e.ret = ds
        out[e.sig] = e
    return out


def dims(S):
    pass


def words(text, names):
    """A requirement with the parameters' own names in it."""
    def one(m):
        t = m.group(0)
        i, _, k = t.partition(".")
        n = names[int(i[1:])] if i.startswith("$") and int(i[1:]) < len(names) else {"ret": "the result", "this": "the object"}.get(i, i)
        return n + ("" if k == "" else "[coordinate type]" if k == "t" else "[extent %s]" % k)
    return TOK.sub(one, re.sub(r"na\((.*?)\)", r"\1 is missing", re.sub(r"valid\((.*?)\)", r"\1 is valid", text)))

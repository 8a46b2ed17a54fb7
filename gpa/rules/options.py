"""C13: options and methods of the command-line program: documented = read = in effect; nothing is carried over."""
import re
from collections import Counter, defaultdict
from .. import ir
from ..ir import walk

READ = {"getValue": "opt", "getRequiredValue": "req", "getValues": "opt", "getRequiredValues": "req"}
MISSING = {"Util::MV", "gridpp::MV"}
# options the program itself always sets
GIVEN = {("required", "file")}
FACTORY = re.compile(r"(^|::)getScheme$")


def uncast(e):
    while isinstance(e, dict):
        if e.get("k") in ("Cast", "DefaultArg"):
            e = e["e"]
        elif e.get("k") == "Construct" and len([a for a in e.get("a", []) if a.get("k") != "DefaultArg"]) == 1 and scalar_or_string(e.get("t", "")):
            e = [a for a in e["a"] if a.get("k") != "DefaultArg"][0]
        else:
            break
    return e


def scalar_or_string(t):
    return "basic_string" in t and "vector" not in t or t.replace("const ", "") in ("float", "double", "int", "bool")


def lit(e):
    e = uncast(e)
    return e["v"] if isinstance(e, dict) and e.get("k") == "Str" else None


def isoptions(t):
    return t.replace("const ", "").replace("&", "").strip() == "Options"


def target(e):
    """('m', name) or ('l', id, name) of what an option is read into"""
    e = uncast(e)
    if isinstance(e, dict):
        if e.get("k") == "Member" and (uncast(e["b"]) or {}).get("k") == "This":
            return ("m", e["n"])
        if e.get("k") == "Ref" and e.get("rk") in ("local", "param"):
            return ("l", e["id"], e["n"])
        if e.get("k") == "OpCall" and e.get("op") == "[]" or e.get("k") == "Index":
            return target(e["a"][0] if e["k"] == "OpCall" else e["b"])
    return None


class Read:
    def __init__(self, how, key, tgt, line, f, node):
        self.how, self.key, self.tgt, self.line, self.f, self.node = how, key, tgt, line, f, node


def option_call(n):
    if n.get("k") in ("MCall", "Call"):
        q = (n.get("fn") or {}).get("q", "")
        if q.startswith("Options::") and q.split("::")[1] in READ and len(n.get("a", [])) >= 2:
            return q.split("::")[1]
    return None


def reads_of(p, f, seen=None):
    """(reads, complete): options read in f and in functions it hands options to"""
    seen = set() if seen is None else seen
    if f.m in seen or f.body is None:
        return [], True
    seen.add(f.m)
    out, full = [], True
    for n in walk({"b": [f.body] + [i["e"] for i in (f.d.get("inits") or []) if i.get("e")]}):
        h = option_call(n)
        if h:
            k = lit(n["a"][0])
            if k is None:
                full = False
            else:
                out.append(Read(h, k, target(n["a"][1]), n["l"], f, n))
        elif n.get("k") == "MCall" and (n.get("fn") or {}).get("q") == "Options::hasValue":
            k = lit(n["a"][0])
            if k is None:
                full = False
            else:
                out.append(Read("hasValue", k, None, n["l"], f, n))
        elif n.get("k") in ("Call", "MCall", "Construct"):
            fn = n.get("fn") or {}
            if any(isoptions(t) for t in fn.get("pt", [])):
                for g in p.targets(fn):
                    if not g.q.startswith("Options::") and not FACTORY.search(g.q):
                        o, c = reads_of(p, g, seen)
                        out += o
                        full &= c
    return out, full


def value(e):
    """comparable form of a constant, None when it is not one"""
    e = uncast(e)
    if not isinstance(e, dict):
        return None
    k = e.get("k")
    if k in ("Int", "Float"):
        return float(e["v"])
    if k == "Bool":
        return 1.0 if e["v"] in (True, 1, "true") else 0.0
    if k == "Str":
        return e["v"] if e["v"] else "undef"
    if k == "Un" and e.get("op") == "-":
        v = value(e["e"])
        return -v if isinstance(v, float) else None
    if k == "Bin" and e.get("op") in "+-*/":
        a, b = value(e["x"]), value(e["y"])
        if isinstance(a, float) and isinstance(b, float) and (e["op"] != "/" or b):
            return {"+": a + b, "-": a - b, "*": a * b, "/": a / b if b else 0}[e["op"]]
        return None
    if k == "Ref" and e.get("q") in MISSING:
        return "undef"
    if k == "Ref" and e.get("rk") == "enum":
        return ("enum", e.get("q") or e["n"])
    if k in ("Construct", "InitList", "StdInit", "ZeroInit") and ("basic_string" in e.get("t", "") or "vector" in e.get("t", "")) \
            and not [a for a in e.get("a", []) if a.get("k") != "DefaultArg"]:
        return "undef"
    return None


def documented(s):
    """comparable form of a documented default"""
    if s in ("undef", "", "required"):
        return s or "undef"
    if s.lower() in ("true", "false"):
        return 1.0 if s.lower() == "true" else 0.0
    try:
        return float(s)
    except ValueError:
        return s


def same(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return abs(a - b) <= 1e-6 * max(1, abs(a), abs(b))
    if {a, b} == {-999.0, "undef"}:
        return True
    return a == b


def mentions(e, tgt):
    return any(target(x) == tgt for x in walk({"b": [e]}) if x.get("k") in ("Ref", "Member"))


def stmts(b):
    if b is None:
        return []
    return b["b"] if b.get("k") == "Block" else [b]


def assigned(s, tgt):
    """right-hand side when the statement is an assignment to the target"""
    if s.get("k") == "Expr":
        e = s["e"]
        while e.get("k") in ("Cast", "StmtExpr"):
            e = e["e"]
        if e.get("k") == "Assign" and e.get("op") == "=" and target(e["x"]) == tgt:
            return e["y"]
        if e.get("k") == "OpCall" and e.get("op") == "=" and len(e["a"]) == 2 and target(e["a"][0]) == tgt:
            return e["a"][1]
    return None


def fails(b):
    """does the statement end the program with a message?"""
    return any(x.get("k") == "Throw" or (x.get("fn") or {}).get("q") in ("Util::error", "abort", "exit") for x in walk({"b": [b]}))


def asked(c, rd):
    """(polarity) of a condition that asks whether an option is given: True, False or None"""
    c = uncast(c)
    if c is rd.node:
        return True
    if isinstance(c, dict) and c.get("k") == "Un" and c.get("op") == "!":
        r = asked(c["e"], rd)
        return None if r is None else not r
    return None


class Effect:
    """What happens to an option's target in the function that reads it"""

    def __init__(self, rd):
        self.rd = rd
        self.default = None       # constant before the read
        self.known = False
        self.required = rd.how.startswith("getRequired")
        self.lost = None          # line of an assignment that throws the option away
        f = rd.f
        t = rd.tgt
        if t is None:
            return
        if t[0] == "m":
            for i in f.d.get("inits") or []:
                if i.get("n") == t[1] and i.get("e"):
                    self.default = value(i["e"])
                    self.known = self.default is not None
        self.state = "before"
        self.run(stmts(f.body), True)
        if rd.how == "getValues":
            # clears the values when the option is not given
            if not self.required and self.alt is None:
                self.default, self.known = "undef", True
        if self.alt is not None:
            self.default, self.known = self.alt[0], self.alt[0] is not None

    alt = None

    def has(self, n):
        return any(x is self.rd.node for x in walk({"b": [n]}))

    def run(self, ss, top):
        t = self.rd.tgt
        for s in ss:
            k = s.get("k")
            if self.state == "before":
                if self.has(s):
                    if k == "If":
                        pol = asked(s["c"], self.rd)
                        if pol is None:
                            if self.has(s["c"]):
                                self.state = "after"
                                continue
                            for b in (s.get("x"), s.get("y")):
                                if b is not None and self.has(b):
                                    self.run(stmts(b), False)
                            continue
                        given, absent = (s.get("x"), s.get("y")) if pol else (s.get("y"), s.get("x"))
                        self.state = "after"
                        for q in stmts(given):
                            r = assigned(q, t)
                            if r is not None and not mentions(r, t):
                                self.lost = q["l"]
                        for q in stmts(absent):
                            r = assigned(q, t)
                            if r is not None:
                                self.alt = (value(r),)
                        if absent is not None and self.alt is None:
                            if fails(absent):
                                self.required = True
                            elif any(target(x) == t for x in walk({"b": [absent]}) if x.get("k") in ("Ref", "Member")):
                                self.alt = (None,)
                        continue
                    if k == "Block":
                        self.run(s["b"], top)
                        continue
                    if k in ("For", "While", "Do", "RangeFor", "Switch", "Try"):
                        self.known = False
                        self.state = "after"
                        continue
                    if k == "Decl":
                        self.state = "after"
                        # bool given = getValue(..): what follows is decided by the variable
                        self.known = False
                        continue
                    self.state = "after"
                    continue
                r = assigned(s, t)
                if r is not None:
                    self.default = value(r)
                    self.known = self.default is not None
                elif k == "Decl":
                    for v in s["v"]:
                        if t[0] == "l" and v["id"] == t[1]:
                            self.default = value(v["init"]) if v.get("init") else None
                            self.known = self.default is not None
                elif any(self.stores(x, t) for x in walk(s)):
                    self.known = False
            else:
                r = assigned(s, t)
                if top and r is not None and not mentions(r, t) and not self.used:
                    self.lost = s["l"]
                if mentions(s, t):
                    self.used = True

    used = False

    def stores(self, x, t):
        if x.get("k") == "Assign":
            return target(x["x"]) == t
        if x.get("k") == "OpCall" and x.get("op") == "=":
            return target(x["a"][0]) == t
        return False


def mapping(f, rd, t):
    """literal -> enumerator (or constant) assigned to a member when the string read equals the literal"""
    out = {}
    for n in walk(f.body):
        if n.get("k") == "If":
            s = equals(n["c"], t)
            if s is not None:
                for q in stmts(n.get("x")):
                    e = q.get("e") if q.get("k") == "Expr" else None
                    while isinstance(e, dict) and e.get("k") == "Cast":
                        e = e["e"]
                    if isinstance(e, dict) and e.get("k") == "Assign":
                        m = target(e["x"])
                        v = value(e["y"])
                        if m and v is not None:
                            out[s] = (m, v, q["l"])
    return out


def equals(c, t):
    c = uncast(c)
    if isinstance(c, dict) and c.get("k") == "OpCall" and c.get("op") == "==" and len(c["a"]) == 2:
        a, b = c["a"]
        for x, y in ((a, b), (b, a)):
            if target(x) == t and lit(y) is not None:
                return lit(y)
    return None


def descriptions(p, repo):
    """class -> (title, {key: default})"""
    out = {}
    for f in p.functions(repo):
        if f.body is None or f.name != "description" or not f.cls:
            continue
        title, keys = None, {}
        for n in walk(f.body):
            if n.get("k") == "Call" and (n.get("fn") or {}).get("q") == "Util::formatDescription" and n.get("a"):
                s = lit(n["a"][0])
                if not s:
                    continue
                m = re.match(r"^ +(\w+)=(.*)$", s)
                if m:
                    keys[m.group(1)] = (m.group(2).strip(), n["l"])
                elif title is None or s.strip() and not s.startswith(" "):
                    title = title or s.strip()
        if title or keys:
            out[f.cls] = (f, title, keys)
    return out


def ctors(p, cls):
    return [f for f in p.functions() if f.is_ctor and f.cls == cls and f.body is not None and not f.implicit
            and any(isoptions(q["t"]) for q in f.params)]


def option_members_used(p):
    """members (class-agnostic name -> functions that read it other than as the target of an option or an assignment)"""
    out = defaultdict(set)
    for f in p.functions("src/client") if p.repo == ir.build.REPO else p.functions():
        if f.body is None:
            continue
        skip = set()
        for n in walk({"b": [f.body]}):
            if option_call(n):
                skip |= {id(x) for x in walk({"b": n["a"][1:]})}
            elif n.get("k") == "Assign" and n.get("op") == "=":
                x = uncast(n["x"])
                skip.add(id(x))
            elif n.get("k") == "OpCall" and n.get("op") == "=" and len(n["a"]) == 2:
                skip.add(id(uncast(n["a"][0])))
        if f.is_ctor:
            for s in walk(f.body):
                if s.get("k") == "If" and fails(s):
                    # validation of an option is no effect; what the branches store is
                    skip |= {id(x) for x in walk(s["c"])}
                    for b in (s.get("x"), s.get("y")):
                        if b is not None:
                            for q in walk(b):
                                if (q.get("fn") or {}).get("q") == "Util::error" or q.get("k") == "OpCall" and q.get("op") == "<<":
                                    skip |= {id(x) for x in walk(q)}
        for n in walk({"b": [f.body] + [i["e"] for i in (f.d.get("inits") or []) if i.get("e")]}):
            if n.get("k") == "Member" and id(n) not in skip:
                out[(clsof(n["b"].get("t", "")), n["n"])].add(f.m)
    return out


def clsof(t):
    return t.replace("const ", "").replace("*", "").replace("&", "").strip()


def local_used(f, rd):
    """is a local variable an option is read into looked at apart from messages?"""
    for q in f.params:
        if q.get("id") == rd.tgt[1]:
            return "&" in q["t"]        # handed back to the caller
    skip = {id(x) for x in walk({"b": rd.node["a"][1:]})}
    for n in walk(f.body):
        if (n.get("fn") or {}).get("q") == "Util::error" or n.get("k") == "OpCall" and n.get("op") == "<<":
            skip |= {id(x) for x in walk(n)}
        elif option_call(n):
            skip |= {id(x) for x in walk({"b": n["a"][1:]})}
    return any(x.get("k") == "Ref" and x.get("id") == rd.tgt[1] and id(x) not in skip for x in walk(f.body))


def checked(p, f, seen=None):
    """line numbers (in execution order of a straight-line constructor) of calls of Options::check that always run"""
    out = []
    for s in stmts(f.body):
        for n in walk(s):
            if (n.get("fn") or {}).get("q") == "Options::check" and s.get("k") in ("Expr", "Decl", "Return", "If"):
                if s.get("k") == "If" and not any(n is x for x in walk(s["c"])):
                    continue
                out.append(n["l"])
            elif n.get("k") in ("Call", "MCall") and any(isoptions(t) for t in (n.get("fn") or {}).get("pt", [])) and s.get("k") == "Expr":
                for g in p.targets(n["fn"]):
                    if g.body is not None and g.m != f.m and not g.q.startswith("Options::") and g.m not in (seen or ()):
                        if checked(p, g, (seen or set()) | {f.m}):
                            out.append(n["l"])
    return out


def pairs_of(p, f):
    """factory: literal -> (class constructed, line)"""
    out = {}

    def made(b):
        return [n for s in stmts(b) for n in walk(s) if n.get("k") == "New" or n.get("k") in ("Call",) and "make_" in (n.get("fn") or {}).get("q", "")]

    for n in walk(f.body):
        if n.get("k") == "If":
            c = uncast(n["c"])
            if isinstance(c, dict) and c.get("k") == "OpCall" and c.get("op") == "==":
                s = [lit(a) for a in c["a"] if lit(a) is not None]
                if len(s) == 1:
                    m = made(n.get("x"))
                    if len(m) == 1:
                        out.setdefault(s[0], []).append((m[0].get("nt") or m[0].get("t", ""), n["l"], m[0]))
    return out


def factories(p, docs, bad, st, scope):
    insts = {}
    for f in p.functions(scope):
        if f.body is None or not FACTORY.search(f.q) or not f.cls:
            continue
        m = pairs_of(p, f)
        if not m:
            continue
        for s, ms in m.items():
            st["names"] += 1
            if len(ms) > 1:
                bad(f, ms[1][1], "name", "'%s' is tested for twice: the second method cannot be selected" % s, "twice|%s|%s" % (f.cls, s))
            c = ms[0][0].strip()
            insts[c] = (s, f, ms[0][1])
            # what is constructed gets the options of the call
            init = ms[0][2].get("init") or {}
            op = [q for q in f.params if isoptions(q["t"])]
            if op and init.get("k") == "Construct":
                for t, a in zip((init.get("fn") or {}).get("pt", []), init.get("a", [])):
                    if isoptions(t) and target(a) != ("l", op[0]["id"], op[0]["n"]):
                        bad(f, ms[0][1], "options", "'%s' is not given the options of the call" % s, "options|%s|%s" % (f.cls, s))
            if c in docs:
                d, title, keys = docs[c]
                name = re.sub(r"^(-\w+ |type=)", "", title or "")
                if title and name != s:
                    bad(f, ms[0][1], "name", "'%s' selects the method documented as '%s'" % (s, name), "name|%s|%s" % (f.cls, s))
            for g in p.byq.get(c + "::name", []):
                if g.body is not None:
                    r = [lit(x["e"]) for x in walk(g.body) if x.get("k") == "Return" and x.get("e")]
                    r = [x for x in r if x is not None]
                    if len(r) == 1:
                        st["names"] += 1
                        if r[0] != s and not (c in docs and s in docs[c][1]):
                            bad(g, g.line, "name", "the method selected by '%s' calls itself '%s'" % (s, r[0]), "self|%s|%s" % (c, s))
        # every method with a help text under the same base can be selected
        base = f.cls
        for c, (d, title, keys) in docs.items():
            if base in p.bases_closure(c) and title and c not in insts:
                name = re.sub(r"^(-\w+ |type=)", "", title)
                text = all_strings(f)
                if name not in text:
                    bad(d, d.line, "unselectable", "the documented method '%s' cannot be selected" % name, "unselectable|%s|%s" % (base, name))
    # what is listed as help
    for f in p.functions(scope):
        if f.body is None or f.name != "getDescriptions" or not f.cls:
            continue
        shown = {(n.get("fn") or {}).get("q", "").rsplit("::", 1)[0] for n in walk(f.body) if n.get("k") == "Call" and (n.get("fn") or {}).get("q", "").endswith("::description")}
        for c, (s, g, line) in insts.items():
            if f.cls in p.bases_closure(c) and c in docs:
                st["listed"] += 1
                if c not in shown:
                    bad(f, f.line, "unlisted", "the method '%s' is not in the help text" % s, "unlisted|%s|%s" % (f.cls, s))
    return insts


def all_strings(f):
    return {n["v"] for n in walk(f.body) if n.get("k") == "Str"}


def enumerators(p, q):
    for e in p.enums.values():
        for x in e.get("e", e.get("vals", [])) or []:
            pass
    return None


def maps(f, mp, key, bad, st):
    """different words of one option select different things; a word that names an enumerator selects that one"""
    byv = {}
    for s, (m, v, line) in sorted(mp.items()):
        st["words"] += 1
        if (m, str(v)) in byv and isinstance(v, tuple):
            bad(f, line, "word", "%s=%s selects the same as %s=%s" % (key, s, key, byv[(m, str(v))]), "word|%s|%s" % (f.q, s))
        byv.setdefault((m, str(v)), s)
    ens = {v[1]: s for s, (m, v, line) in mp.items() if isinstance(v, tuple)}
    for s, (m, v, line) in sorted(mp.items()):
        if not isinstance(v, tuple):
            continue
        own = v[1].split("::")[-1].lower()
        for e, s2 in ens.items():
            en = e.split("::")[-1].lower()
            if s2 != s and en.endswith(s.lower()) and not own.endswith(s.lower()):
                bad(f, line, "word", "%s=%s selects %s" % (key, s, v[1].split("::")[-1]), "word|%s|%s" % (f.q, s))


def statename(c):
    """`state == X` (or `X == state`): the enumerator and the variable"""
    c = uncast(c)
    if not isinstance(c, dict):
        return None
    if c.get("k") == "Bin" and c.get("op") in ("==", "!="):
        x, y = uncast(c["x"]), uncast(c["y"])
        for a, b in ((x, y), (y, x)):
            if isinstance(a, dict) and isinstance(b, dict) and a.get("k") == "Ref" and a.get("rk") == "enum" and refid(b) is not None:
                return a["n"], refid(b), c["op"]
    return None


def labelled(ss):
    """(enumerator, state variable, body) of a chain of comparisons of one variable, or of a switch"""
    out = []
    for s in ss:
        n = s
        while n is not None and n.get("k") == "If":
            e = statename(n.get("c"))
            if e and e[2] == "==":
                out.append((e[0], e[1], stmts(n.get("x"))))
            y = n.get("y")
            if isinstance(y, dict) and y.get("k") == "Block" and len(stmts(y)) == 1:
                y = stmts(y)[0]
            n = y
    return out


def next_states(b, sv):
    out = set()
    if sv is None:
        return out
    for n in walk({"b": b}):
        if n.get("k") == "Assign" and n.get("op") == "=" and refid(n["x"]) == sv:
            for z in walk({"b": [n["y"]]}):
                if z.get("k") == "Ref" and z.get("rk") == "enum":
                    out.add(z["n"])
    return out


def must_reset(ss, decl, sv, errors):
    """what is reset on each path through the statements; None: no path gets to the end"""
    got = set()
    for s in ss:
        k = s.get("k")
        if k == "Block":
            r = must_reset(stmts(s), decl, sv, errors)
            if r is None:
                return None
            got |= r
        elif k == "If":
            got |= resets([s.get("c")], decl) if isinstance(s.get("c"), dict) else set()
            r = [must_reset(stmts(s.get("x")), decl, sv, errors), must_reset(stmts(s.get("y")) if s.get("y") else [], decl, sv, errors)]
            e = statename(s.get("c"))
            if e and e[1] == sv and e[0] in errors:
                r[0 if e[2] == "==" else 1] = None
            r = [x for x in r if x is not None]
            if not r:
                return None
            got |= set.intersection(*r)
        elif k in ("For", "While", "RangeFor"):
            pass
        elif k == "Do":
            got |= must_reset(stmts(s.get("b")), decl, sv, errors) or set()
        elif k in ("Return", "Break", "Continue", "Throw"):
            return None if k != "Continue" else got
        else:
            got |= resets([s], decl)
            if any(n.get("k") in ("Call", "MCall") and ((n.get("fn") or {}).get("noret") or (n.get("fn") or {}).get("q") == "Util::error") or n.get("k") == "Throw" for n in walk({"b": [s]})):
                return None
            if next_states([s], sv) & errors:
                return None
    return got


def carried(p, f, bad, st):
    """a loop that collects settings and hands them on must reset each of them where it does"""
    loops = [n for n in walk(f.body) if n.get("k") in ("While", "For", "Do")]
    for w in loops:
        inside = {id(x) for x in walk(w)}
        decl = {v["id"]: v for n in walk(f.body) if n.get("k") == "Decl" and id(n) not in inside for v in n["v"]}
        branches = chain(stmts(w["b"]))
        if len(branches) < 4:
            continue
        states = labelled(stmts(w["b"]))
        sv = states[0][1] if states else None
        body = {id(b[0]): n for n, v, b in states if b}
        errors = {n for n, v, b in states if must_reset(b, decl, sv, set()) is None and not any(x.get("k") in ("Break", "Return") for x in walk({"b": b}))}
        succ = {n: next_states(b, sv) for n, v, b in states}
        # what the branches collect from the outside
        coll = {}
        for k, b in enumerate(branches):
            for i in collects(b, decl):
                coll.setdefault(i, set()).add(k)
        name = {k: body.get(id(b[0])) for k, b in enumerate(branches) if b}
        ends = set()
        done = set()
        for k, b in enumerate(branches):
            handed = any(isinstance(s, dict) and hands_on(s, decl) for s, enclosing in statements(b))
            if not handed:
                continue
            if name.get(k):
                ends.add(k)
            # everything collected in other branches that this branch uses
            used = {}
            for x in walk({"b": b}):
                if x.get("k") == "Ref" and x.get("id") in decl and x["id"] in coll and coll[x["id"]] - {k}:
                    used.setdefault(x["id"], x)
            reset = must_reset(b, decl, sv, errors)
            if reset is None:
                continue
            again = reach(succ, name.get(k), set()) if name.get(k) else None
            for i, x in sorted(used.items()):
                if scalarish(decl[i]):
                    continue
                # does the parser come back to where it is collected?
                if again is not None and not any(name.get(c) is None or name[c] in again for c in coll[i] - {k}):
                    continue
                st["carried"] += 1
                if i not in reset:
                    done.add(i)
                    bad(f, x["l"], "carried", "'%s' keeps what was collected for the one before" % decl[i]["n"], "carried|%s|%s" % (f.q, decl[i]["n"]))
        # what was collected for one variable must not reach the next one
        final = [n for n, v, b in states if any(x.get("k") in ("Break", "Return") for x in walk({"b": b})) and n not in errors]
        mr = {n: must_reset(b, decl, sv, errors) for n, v, b in states}
        for i, cs in sorted(coll.items()):
            if i in done or scalarish(decl[i]) or any(not name.get(c) for c in cs):
                continue
            killed = {n for n in mr if mr[n] is not None and i in mr[n]}
            reads = {n for n, v, b in states if any(x.get("k") == "Ref" and x.get("id") == i for x in walk({"b": b}))}
            for c in sorted(cs):
                s0 = name[c]
                if s0 in killed:
                    continue
                r = reach(succ, s0, killed)
                for e in sorted(name[k] for k in ends):
                    if e not in r or e in killed or not (succ[e] & set(final)):
                        continue
                    st["carried"] += 1
                    assigns = {name[c2] for c2 in cs if overwrites(branches[c2], i)}
                    r2 = reach(succ, e, killed | assigns) - assigns
                    hit = sorted(x for x in r2 & reads if x != e and x not in assigns)
                    if hit:
                        bad(f, branches[c][0].get("l", f.line), "carried", "'%s', collected in the state %s, is still there when the next variable is read, and used in the state %s" % (decl[i]["n"], s0, hit[0]), "carried|%s|%s|%s" % (f.q, decl[i]["n"], s0))
                        done.add(i)
                        break
                if i in done:
                    break


def overwrites(b, i):
    for n in walk({"b": b}):
        x = n["x"] if n.get("k") == "Assign" and n.get("op") == "=" else n["a"][0] if n.get("k") == "OpCall" and n.get("op") == "=" and n.get("a") else None
        if x is not None and refid(x) == i:
            return True
    return False


def reach(succ, s, stop):
    """states that follow s; those in `stop` are reached but not passed"""
    out, stack = set(), [s]
    first = True
    while stack:
        x = stack.pop()
        if x in stop and not first:
            continue
        first = False
        for y in succ.get(x, ()):
            if y not in out:
                out.add(y)
                stack.append(y)
    return out


def scalarish(v):
    return v["t"].replace("const ", "") in ("int", "bool", "float", "double", "unsigned int") or v["t"] not in () and "State" in v["t"]


def chain(ss):
    """bodies of a long if / else if chain (or switch) among the statements"""
    out = []
    for s in ss:
        if s.get("k") == "If":
            n = s
            while n is not None and n.get("k") == "If":
                out.append(stmts(n.get("x")))
                n = n.get("y")
            if n is not None:
                out.append(stmts(n))
        elif s.get("k") == "Switch":
            out += [[x] for x in stmts(s["b"])]
    return out


def statements(ss, enc=()):
    for s in ss:
        yield s, enc
        if isinstance(s, dict):
            for k in ("x", "y", "b"):
                b = s.get(k)
                if isinstance(b, list):
                    yield from statements([x for x in b if isinstance(x, dict) and "k" in x], enc + (s,))
                elif isinstance(b, dict) and s.get("k") in ("If", "For", "While", "Do", "RangeFor", "Block", "OMP"):
                    yield from statements(stmts(b), enc + (s,))


def refid(e):
    e = uncast(e)
    return e.get("id") if isinstance(e, dict) and e.get("k") == "Ref" and e.get("rk") in ("local", "param") else None


def collects(b, decl):
    """locals that take something from the outside (an argument of the function or of the call)"""
    out = set()
    for n in walk({"b": b}):
        k = n.get("k")
        if k == "MCall" and (n.get("fn") or {}).get("q", "").split("::")[-1] in ("addOptions", "addOption", "push_back", "emplace_back", "insert") and refid(n.get("o")) in decl:
            out.add(refid(n["o"]))
        x = y = None
        if k == "Assign" and n.get("op") == "=":
            x, y = n["x"], n["y"]
        elif k == "OpCall" and n.get("op") == "=" and len(n["a"]) == 2:
            x, y = n["a"]
        if x is not None and refid(x) in decl and any(z.get("k") == "Ref" and z.get("rk") == "param" for z in walk({"b": [y]})):
            out.add(refid(x))
    return out


def hands_on(s, decl):
    """a statement that stores something away for good: appends to a container, or an element of a map"""
    if s.get("k") != "Expr":
        return False
    for n in walk(s):
        if n.get("k") == "MCall" and (n.get("fn") or {}).get("q", "").split("::")[-1] in ("push_back", "emplace_back", "insert"):
            o = uncast(n.get("o"))
            if isinstance(o, dict) and (o.get("k") == "Member" or refid(o) in decl):
                return True
        if n.get("k") == "OpCall" and n.get("op") == "=" and len(n["a"]) == 2:
            x = uncast(n["a"][0])
            if isinstance(x, dict) and x.get("k") == "OpCall" and x.get("op") == "[]" and "map" in (uncast(x["a"][0]) or {}).get("t", ""):
                return True
    return False


def resets(b, decl):
    out = set()
    for n in walk({"b": b}):
        k = n.get("k")
        if k == "MCall" and (n.get("fn") or {}).get("q", "").split("::")[-1] in ("clear", "swap") and refid(n.get("o")) in decl:
            out.add(refid(n["o"]))
        if k in ("MCall", "Call") and (n.get("fn") or {}).get("q", "").split("::")[-1] == "swap":
            out |= {refid(a) for a in n.get("a", []) if refid(a) in decl}
        x = y = None
        if k == "Assign" and n.get("op") == "=":
            x, y = n["x"], n["y"]
        elif k == "OpCall" and n.get("op") == "=" and len(n["a"]) == 2:
            x, y = n["a"]
        if x is not None and refid(x) in decl and not any(z.get("k") == "Ref" and z.get("rk") == "param" for z in walk({"b": [y]})):
            out.add(refid(x))
        if k in ("Call", "MCall"):
            for t, a in zip((n.get("fn") or {}).get("pt", []), n.get("a", [])):
                if t.endswith("&") and not t.startswith("const ") and refid(a) in decl and (n.get("fn") or {}).get("own"):
                    out.add(refid(a))
                if t.endswith("&&") and refid(a) in decl:
                    out.add(refid(a))
                if "std::move" in str((uncast(a) or {}).get("fn", {}).get("q", "")):
                    out.add(refid((uncast(a) or {}).get("a", [None])[0]))
    return out


def accessed(p, bad, st):
    """Options: a key that is handed out counts as used; one that was never asked for is reported"""
    rec = p.records.get("Options")
    if not rec:
        return
    sets = {x["n"] for x in rec["fields"] if "set<" in x["t"]}
    for f in p.byq.get("Options::clear", []):
        if f.body is None:
            continue
        done = set()
        for n in walk(f.body):
            if n.get("k") == "MCall" and (n.get("fn") or {}).get("q", "").split("::")[-1] in ("clear", "swap", "resize", "assign", "erase"):
                done |= {z["n"] for z in walk({"b": [n["o"]]}) if z.get("k") == "Member"}
            x = n["x"] if n.get("k") == "Assign" else n["a"][0] if n.get("k") == "OpCall" and n.get("op") == "=" and n.get("a") else None
            if x is not None:
                done |= {z["n"] for z in walk({"b": [x]}) if z.get("k") == "Member"}
                if any(z.get("k") == "This" for z in walk({"b": [x]})) and (uncast(x) or {}).get("k") == "Un":
                    done |= {y["n"] for y in rec["fields"]}
        for y in rec["fields"]:
            st["cleared"] += 1
            if y["n"] not in done:
                bad(f, f.line, "cleared", "clearing the options leaves '%s' as it is, so that what was asked for the one before counts for the next" % y["n"], "cleared|%s" % y["n"])
    for q in ("getValue", "getValues"):
        for f in p.byq.get("Options::" + q, []):
            if f.body is None:
                continue
            st["lookups"] += 1
            def go(ss, marked):
                for x in ss:
                    if x.get("k") == "Return":
                        if x.get("e") and value(x["e"]) == 1.0 and not marked:
                            bad(f, x["l"], "unmarked", "an option that is handed out is not counted as used, so that it is reported as unknown", "unmarked|%s" % f.q)
                    subs = [x[k] for k in ("x", "y") if isinstance(x.get(k), dict)] if x.get("k") == "If" else \
                        [x["b"]] if isinstance(x.get("b"), dict) else [x] if x.get("k") == "Block" else []
                    for y in subs:
                        go(stmts(y), marked)
                    if x.get("k") in ("Expr", "Decl") and any(
                            n.get("k") == "MCall" and (n.get("fn") or {}).get("q", "").split("::")[-1] in ("insert", "emplace") and (uncast(n.get("o")) or {}).get("n") in sets
                            or n.get("k") in ("Call", "MCall") and (n.get("fn") or {}).get("q", "").startswith("Options::") for n in walk(x)):
                        marked = True

            go(stmts(f.body), False)


def analyse(p, res, scope="src/client"):
    st = Counter()
    und = []

    def bad(f, line, rule, text, key):
        res.add(rule, f.file, line, f.q, text, key)

    docs = descriptions(p, scope)
    insts = factories(p, docs, bad, st, scope)
    used = option_members_used(p)
    classes = set(docs) | {f.cls for f in p.functions(scope) if f.is_ctor and f.cls and f.body is not None and any(isoptions(q["t"]) for q in f.params)}
    classes.discard("Options")
    for c in sorted(classes):
        d, title, keys = docs.get(c, (None, None, {}))
        cs = ctors(p, c)
        rds, full = [], True
        for f in cs:
            o, g = reads_of(p, f)
            rds += o
            full &= g
        # constructors of base classes get the options too, through the initialiser list
        bykey = defaultdict(list)
        for r in rds:
            bykey[r.key].append(r)
        for key, (dflt, line) in sorted(keys.items()):
            st["documented"] += 1
            if not bykey.get(key):
                if full:
                    bad(d, line, "unread", "the documented option '%s' is never read" % key, "unread|%s|%s" % (c, key))
                else:
                    und.append("%s %s" % (c, key))
                continue
            rs = [r for r in bykey[key] if r.how != "hasValue"]
            if not rs:
                continue
            effs = [Effect(r) for r in rs]
            want = documented(dflt)
            ok = None
            if (want, key) in GIVEN:
                continue
            for r, e in zip(rs, effs):
                if want == "required":
                    ok = e.required or bool(ok)
                    if not e.required and e.known is False:
                        ok = True if ok is None else ok
                elif e.required:
                    # needed under a condition only
                    ok = True if want == "undef" else False
                elif r.tgt is not None and r.tgt[0] == "l" and isinstance(want, str) and want != "undef":
                    mp = mapping(r.f, r, r.tgt)
                    if e.known and isinstance(e.default, str) and e.default != "undef":
                        ok = same(e.default, want)
                    elif want in mp:
                        (m, v, l2) = mp[want]
                        init = [value(i["e"]) for i in r.f.d.get("inits") or [] if i.get("n") == m[1] and i.get("e")] if m[0] == "m" else []
                        if len(init) == 1 and init[0] is not None:
                            ok = init[0] == v
                elif e.known:
                    ok = same(e.default, want)
                    if want == "undef" and not ok and (isinstance(e.default, tuple) or isinstance(e.default, str)):
                        ok = None       # "undef" where the program chooses a name or a method
            if ok is None:
                und.append("%s default of %s" % (c, key))
            else:
                st["defaults"] += 1
                if not ok:
                    e = effs[0]
                    have = "required" if e.required else "undef" if e.default is None else e.default
                    bad(rs[0].f, rs[0].line, "default", "'%s' is documented with the default '%s' but is '%s' when it is not given" % (key, dflt, have), "default|%s|%s" % (c, key))
        seen = {}
        for key, rs in sorted(bykey.items()):
            for r in rs:
                if r.tgt is None or r.how == "hasValue":
                    continue
                st["options"] += 1
                e = Effect(r)
                if e.lost:
                    bad(r.f, e.lost, "lost", "the option '%s' is overwritten after it has been read" % key, "lost|%s|%s" % (c, key))
                if r.tgt[0] == "m":
                    if r.tgt in seen and seen[r.tgt] != key:
                        bad(r.f, r.line, "shared", "the options '%s' and '%s' are stored in the same place" % (seen[r.tgt], key), "shared|%s|%s" % (c, key))
                    seen.setdefault(r.tgt, key)
                    kin = {c, r.f.cls} | set(p.bases_closure(c)) | descendants(p, c)
                    if not any(used.get((k, r.tgt[1])) for k in kin):
                        bad(r.f, r.line, "ineffective", "the option '%s' is read but never used" % key, "ineffective|%s|%s" % (c, key))
                else:
                    if not local_used(r.f, r):
                        bad(r.f, r.line, "ineffective", "the option '%s' is read but never used" % key, "ineffective|%s|%s" % (c, key))
                    else:
                        maps(r.f, mapping(r.f, r, r.tgt), key, bad, st)
        # unknown options are reported
        if title and re.match(r"^-[cd] ", title):
            for f in cs:
                st["checked"] += 1
                ck = checked(p, f)
                own = [r for r in rds if r.f is f]
                if not ck:
                    bad(f, f.line, "unchecked", "unknown options are not reported", "unchecked|%s" % c)
                elif own and [r for r in own if r.line > min(ck) and not any(o.key == r.key and o.line <= min(ck) for o in own)]:
                    r = max(own, key=lambda r: r.line)
                    bad(f, r.line, "unchecked", "the option '%s' is read after unknown options have been reported" % r.key, "late|%s|%s" % (c, r.key))
    # options of variables
    for f in p.functions(scope):
        if f.body is None or f.is_ctor or f.q.startswith("Options::"):
            continue
        o = [r for r in reads_of(p, f)[0] if r.f is f and r.tgt is not None]
        bykey = {}
        for r in o:
            st["options"] += 1
            if r.key in bykey and bykey[r.key].tgt != r.tgt:
                bad(f, r.line, "shared", "the option '%s' is read into two places" % r.key, "twice|%s|%s" % (f.q, r.key))
            bykey.setdefault(r.key, r)
    for f in p.functions(scope):
        if f.body is None:
            continue
        if f.is_ctor:
            carried(p, f, bad, st)
        elif not f.q.startswith("Options::") and "/Testing/" not in f.file:
            # words looked up by a helper
            for q in f.params:
                if "basic_string" in q["t"] or q["t"].replace("const ", "").replace("&", "").strip() in ("std::string", "string"):
                    mp = mapping(f, None, ("l", q["id"], q["n"]))
                    if len(mp) > 1:
                        maps(f, mp, q["n"], bad, st)
    accessed(p, bad, st)
    res.coverage.update(st)
    res.coverage["undecided"] = und
    return st


WANT = {("unread", "Unread"), ("default", "Default"), ("shared", "Shared"), ("lost", "Lost"), ("ineffective", "Ineffective"), ("unchecked", "Unchecked"),
        ("unchecked", "Late"), ("word", "Word"), ("name", "Scheme"), ("unselectable", "Wrong"), ("unlisted", "Scheme"), ("carried", "Parser"), ("unmarked", "Options"), ("cleared", "Options"), ("carried", "Machine")}


def descendants(p, c):
    out, stack = set(), [c]
    while stack:
        for x in p.subclasses.get(stack.pop(), ()):
            if x not in out:
                out.add(x)
                stack.append(x)
    return out


class Collect:
    def __init__(self):
        self.got = set()
        self.coverage = {}

    def add(self, rule, file, line, q, text, key):
        self.got.add((rule, q.split("::")[0]))


def selftest():
    p = ir.samples("options")
    c = Collect()
    analyse(p, c, None)
    if c.got != WANT:
        raise ir.AnalysisBroken("self-test of the option rules: missed %s, wrongly reported %s" % (sorted(WANT - c.got), sorted(c.got - WANT)))
    return len(WANT)


def check(pid, res, tier):
    n = selftest()
    p = ir.load()
    st = analyse(p, res)
    res.coverage["selftest_bad"] = n
    res.explanation = "every documented and every read option of every scheme of the command-line program; factories; state carried over in the argument parser"
    res.floor("documented options", st["documented"], 90)

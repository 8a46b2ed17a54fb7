"""Which inputs of the analysed function an expression has to do with: data and control dependence over the syntax,
regardless of the order of statements, followed through the parameters of inlined calls."""


def refs(n, out=None):
    """Ids of the variables mentioned below a node."""
    out = set() if out is None else out
    todo = [n]
    while todo:
        x = todo.pop()
        if isinstance(x, list):
            todo += x
        elif isinstance(x, dict):
            if x.get("k") == "Ref" and "id" in x:
                out.add(x["id"])
            elif x.get("k") == "This":
                out.add("this")
            todo += [v for v in x.values() if isinstance(v, (dict, list))]
    return out


def base(e):
    """Id of the variable a store goes to."""
    while isinstance(e, dict):
        k = e.get("k")
        if k == "Ref":
            return e.get("id")
        if k == "This":
            return "this"
        if k in ("Index",):
            e = e.get("b") or e.get("x")
        elif k == "OpCall":
            e = e["a"][0] if e.get("a") else None
        elif k in ("Member", "MCall"):
            e = e.get("o") or e.get("b") or e.get("e")
        elif k in ("Cast", "Un"):
            e = e.get("e")
        else:
            return None
    return None


class Deps:
    def __init__(self):
        self.maps = {}

    def edges(self, f):
        """variable -> variables its value may come from, or be decided by, anywhere in f."""
        m = self.maps.get(f.m)
        if m is not None:
            return m
        m = self.maps[f.m] = {}

        def add(v, src):
            if v is not None:
                m.setdefault(v, set()).update(src)

        def go(n, ctl):
            if isinstance(n, list):
                for x in n:
                    go(x, ctl)
                return
            if not isinstance(n, dict):
                return
            k = n.get("k")
            if k == "If":
                c = ctl | refs(n.get("c"))
                go(n.get("init"), ctl)
                go(n.get("c"), ctl)
                go(n.get("x"), c)
                go(n.get("y"), c)
                return
            if k in ("For", "While", "Do"):
                c = ctl | refs(n.get("c"))
                for key in ("init", "c", "inc", "b"):
                    go(n.get(key), c)
                return
            if k == "Switch":
                c = ctl | refs(n.get("c"))
                go(n.get("b"), c)
                return
            if k == "RangeFor":
                add(n["v"].get("id"), refs(n.get("r")) | ctl)
                go(n.get("b"), ctl)
                return
            if k == "Decl":
                for v in n.get("v", []):
                    add(v.get("id"), refs(v.get("init")) | ctl)
                    go(v.get("init"), ctl)
                return
            if k == "Assign":
                add(base(n.get("x")), refs(n.get("y")) | refs(n.get("x")) | ctl)
            elif k == "Un" and n.get("op") in ("++", "--"):
                add(base(n.get("e")), set(ctl))
            elif k in ("Call", "MCall", "OpCall", "Construct"):
                fn = n.get("fn") or {}
                a = n.get("a", [])
                pt = fn.get("pt", [])
                allr = refs(a) | (refs(n.get("o")) if n.get("o") else set()) | ctl
                off = len(a) - len(pt)
                for i, x in enumerate(a):
                    t = pt[i - off].strip() if 0 <= i - off < len(pt) else ""
                    if (t.endswith("&") or t.endswith("*")) and not t.startswith("const "):
                        add(base(x), allr)
                if k == "MCall" and not fn.get("const"):
                    add(base(n.get("o")), allr)
                if k == "OpCall" and a and n.get("op", "").endswith("=") and n.get("op") not in ("==", "!=", "<=", ">="):
                    add(base(a[0]), allr)
            for v in n.values():
                if isinstance(v, (dict, list)):
                    go(v, ctl)

        go(f.body, set())
        return m

    def closure(self, f, start):
        m = self.edges(f)
        seen = set(start)
        todo = list(start)
        while todo:
            for y in m.get(todo.pop(), ()):
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        return seen

    def roots(self, fr, node, depth=0):
        """Inputs ('$i', 'this') of the function at the bottom of the call stack that a node of fr has to do with."""
        if fr is None or depth > 20:
            return frozenset()
        while fr.lexical is not None and fr.parent is not None:
            fr = fr.lexical
        vs = self.closure(fr.func, refs(node))
        out = set()
        for i, p in enumerate(fr.func.params):
            if p["id"] in vs:
                if fr.parent is None:
                    out.add("$%d" % i)
                elif fr.call is not None and i < len(fr.call.get("a", [])):
                    out |= self.roots(fr.parent, fr.call["a"][i], depth + 1)
        if "this" in vs:
            if fr.parent is None:
                out.add("this")
            elif fr.call is not None:
                out |= self.roots(fr.parent, fr.call.get("o"), depth + 1)
        return frozenset(out)

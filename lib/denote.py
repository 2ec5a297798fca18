"""What a program means, up to what the language lets nobody observe: names of
binders, order and spelling of attributes, parentheses, inherit against plain
bindings, with against let inherit, kinds of string literals."""
import indent
import sema


class Copy:
    def __init__(self, d):
        self.d = d


class Denote:
    def __init__(self, tree, R=None, renamed=None, fresh=None, data=None, inline=False):
        """renamed: a Def whose name is written as a bullet. fresh: a name that is written so everywhere.
        data: the program; indented strings are compared by value if it is given."""
        self.data = data
        self.inline = inline    # let inherit (e) x: the uses of x are e.x
        self.R = R or sema.Resolver(tree)
        self.defs = {d.range: d for d in self.R.defs}
        self.renamed, self.fresh = renamed, fresh
        self.subst = {}         # id(Def) -> denotation, for let inherit (e) x
        self.withs = {}         # id(With) -> denotation of its set
        self.form = self.number(self.go(tree))

    def name(self, n, key=None):
        if self.fresh is not None and n == self.fresh:
            return "\u2022"
        if self.renamed is not None and key is not None and self.defs.get((key.lo, key.hi)) is self.renamed:
            return "\u2022"
        return n

    def var(self, rg):
        v = self.R.vars[rg]
        n = self.R.names[rg]
        if v[0] == "undef":
            return ("free", self.name(n))
        if v[0] == "with":
            if len(v[1]) == 1:
                return ("sel", self.withs[id(v[1][0])], (self.name(n),), None)
            return ("with", tuple(self.withs[id(w)] for w in v[1]), self.name(n))
        if v[1].kind == "builtin":
            return ("free", n)
        if id(v[1]) in self.subst:
            return self.subst[id(v[1])]
        return ("v", v[1])

    def aname(self, a):
        if a.kind in ("id", "str"):
            return self.name(a.name)
        if a.kind == "dstr":
            p = [x for x in a.s.parts if x != ""]
            if len(p) == 1 and not isinstance(p[0], str):
                return ("dyn", self.go(p[0].e))
            return ("dyn", self.go(a.s))
        return ("dyn", self.go(a.e))

    def parts(self, n):
        out = []
        ps = indent.value(self.data, n) if self.data is not None and n.k == "Str" and n.ind else n.parts
        for p in ps:
            if isinstance(p, str):
                if out and isinstance(out[-1], str):
                    out[-1] += p
                else:
                    out.append(p)
            else:
                out.append(("i", self.go(p.e)))
        return tuple(x for x in out if x != "")

    def member(self, a):
        if a.kind == "inherit":
            return self.var((a.key.lo, a.key.hi))
        if a.kind == "from":
            return self.select(self.copy(a.value), (a.name,), None)
        if a.nested is not None:
            return self.set(a.nested)
        return self.go(a.value)

    def copy(self, n):
        """Of inherit (e) x y, each name has its own e."""
        seen = {}

        def f(x):
            if isinstance(x, tuple):
                if len(x) == 2 and x[0] in ("v", "d") and isinstance(x[1], (sema.Def, Copy)):
                    d = x[1].d if isinstance(x[1], Copy) else x[1]
                    if d.range and n.lo <= d.range[0] < n.hi:
                        return (x[0], seen.setdefault(id(x[1]), Copy(d)))
                    return x
                return tuple(f(y) for y in x)
            return x
        return f(self.go(n))

    def select(self, e, path, default):
        if e[0] == "sel" and e[3] is None:
            return ("sel", e[1], e[2] + path, default)
        return ("sel", e, path, default)

    def set(self, s, let=False):
        st = []
        for n, a in s.static.items():
            st.append((a, self.defs.get((a.key.lo, a.key.hi)) if s.rec else None))
        if let and self.inline:
            keep = []
            for a, d in st:
                if a.kind == "from":
                    self.subst[id(d)] = ("v", d)
            for a, d in st:
                if a.kind == "from":
                    e = self.copy(a.value)
                    self.subst[id(d)] = self.select(e, (a.name,), None)
                else:
                    keep.append((a, d))
            st = keep
        static = sorted(((self.name(a.name, a.key), self.d(d), self.member(a)) for a, d in st), key=lambda t: t[0])
        dyn = []
        for k, a in s.dynamic:
            dyn.append((self.aname(k), self.set(a.nested) if a.nested is not None else self.go(a.value)))
        return ("set", tuple(static), tuple(dyn))

    def d(self, d):
        return ("d", d) if d is not None and d.uses else None

    def go(self, n):
        if n is None:
            return None
        k = n.k
        g = self.go
        if k == "Var":
            return self.var((n.lo, n.hi))
        if k == "Str":
            return ("str", self.parts(n))
        if k == "Uri":
            return ("str", (n.v,))
        if k == "Path":
            return ("path", self.parts(n))
        if k in ("Int", "Float", "SPath"):
            return (k, n.v)
        if k == "Paren":
            return g(n.e)
        if k == "List":
            return ("list", tuple(g(x) for x in n.es))
        if k == "Attrs":
            return self.set(self.R.model.sets[id(n)])
        if k == "Let":
            s = self.R.model.sets[id(n)]
            b = self.set(s, let=True)
            body = g(n.body)
            return body if not b[1] else ("let", b, body)
        if k == "With":
            self.withs[id(n)] = g(n.with_)
            return g(n.body)
        if k == "If":
            return ("if", g(n.cond), g(n.then), g(n.els))
        if k == "Assert":
            return ("assert", g(n.cond), g(n.value))
        if k == "Lambda":
            fs = None
            if n.formals is not None:
                fs = tuple(sorted(((self.name(f.name.name, f.name), self.d(self.defs.get((f.name.lo, f.name.hi))), g(f.default))
                                   for f in n.formals), key=lambda t: t[0]))
            return ("fn", self.d(self.defs.get((n.arg.lo, n.arg.hi))) if n.arg is not None else None, fs, bool(n.ell), g(n.body))
        if k == "Select":
            p = tuple(self.aname(a) for a in n.path)
            e = g(n.e)
            return self.select(e, p, g(n.default))
        if k == "HasAttr":
            return ("has", g(n.e), tuple(self.aname(a) for a in n.path))
        if k == "Call":
            return ("call", g(n.fn), tuple(g(a) for a in n.args))
        if k == "Bin":
            return ("bin", n.op, g(n.l), g(n.r))
        if k == "Un":
            return ("un", n.op, g(n.e))
        raise KeyError(k)

    def number(self, t):
        ids, keep = {}, []

        def f(x):
            if isinstance(x, tuple):
                if len(x) == 2 and x[0] in ("v", "d") and isinstance(x[1], (sema.Def, Copy)):
                    keep.append(x[1])
                    return (x[0], ids.setdefault(id(x[1]), len(ids)))
                return tuple(f(y) for y in x)
            return x
        return f(t)


def diff(a, b, where=""):
    """Where two denotations differ first."""
    if a == b:
        return None
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return diff(x, y, where + "/" + (str(a[0]) if isinstance(a[0], str) else "") + str(i))
    return "%s: %s | %s" % (where, short(a), short(b))


def short(x):
    s = repr(x)
    return s if len(s) < 160 else s[:160] + "..."

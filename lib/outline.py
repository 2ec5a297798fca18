"""Symbols, folding ranges and semantic tokens a valid program should have, from
the trees of nixparse and the bindings of sema."""
import nixparse

FIELD, STRING, NUMBER, BOOLEAN, ARRAY, FUNCTION, VARIABLE, CONSTANT, NULL, EVENT, PROPERTY = 8, 15, 16, 17, 18, 12, 13, 14, 21, 24, 7
T_STRING, T_NUMBER, T_SELECT, T_BUILTIN, T_DEFINED, T_WITH, T_NULL, T_BOOL, T_ATTR, T_ARG, T_FORMAL = 1, 2, 3, 4, 5, 6, 8, 9, 10, 11, 12
ANY = "any"


class Structure:
    def __init__(self, R):
        self.R = R
        self.sets = R.model.sets
        self.tokens = {}      # (lo, hi) -> (type, modifiers): required
        self.may = {}         # allowed

    # ---- symbols: (name, kind, deprecated, lo, hi, slo, shi, children); ANY is not judged
    def symbols(self, n):
        out = []
        self.sym(n, out)
        return out

    def leaf(self, out, name, kind, n, dep=False):
        out.append((name, kind, dep, n.lo, n.hi, n.lo, n.hi, []))

    def var(self, out, name, lo, hi):
        v = self.R.vars[(lo, hi)]
        dep = False
        if name in ("true", "false"):
            k = BOOLEAN
        elif name == "null":
            k = NULL
        elif v[0] == "undef":
            k, dep = VARIABLE, True
        elif v[0] == "with":
            k = VARIABLE
        else:
            k = EVENT if v[1].kind == "builtin" else CONSTANT
        out.append((name, k, dep, lo, hi, lo, hi, []))

    def names(self, path, out):
        for a in path:
            self.leaf(out, a.name if a.kind in ("id", "str") else ANY, PROPERTY, a)

    def sym(self, n, out):
        k = n.k
        if k == "Str":
            self.leaf(out, n.parts[0] if len(n.parts) == 1 and isinstance(n.parts[0], str) else ANY, STRING, n)
        elif k == "Uri":
            self.leaf(out, n.v, STRING, n)
        elif k in ("Int", "Float"):
            self.leaf(out, ANY, NUMBER, n)
        elif k == "Var":
            self.var(out, n.name, n.lo, n.hi)
        elif k == "Lambda":
            ch = []
            self.sym(n.body, ch)
            if n.arg is not None:
                out.append((n.arg.name, FUNCTION, False, n.lo, n.hi, n.arg.lo, n.arg.hi, ch))
            else:
                out.append((ANY, FUNCTION, False, n.lo, n.hi, ANY, ANY, ch))
        elif k == "List":
            ch = []
            for e in n.es:
                self.sym(e, ch)
            out.append((ANY, ARRAY, False, n.lo, n.hi, n.lo, n.hi, ch))
        elif k in ("Attrs", "LegacyLet"):
            self.set(self.sets[id(n)], out)
        elif k == "Let":
            self.set(self.sets[id(n)], out)
            self.sym(n.body, out)
        elif k in ("Select", "HasAttr"):
            self.sym(n.e, out)
            self.names(n.path, out)
            if k == "Select" and n.default is not None:
                self.sym(n.default, out)
        elif k == "Path":
            for p in n.parts:
                if not isinstance(p, str):
                    self.sym(p.e, out)
        else:
            for c in nixparse.kids(n):
                self.sym(c, out)

    def set(self, s, out):
        for name, a in s.static.items():
            ch, hi = [], a.key.hi
            if a.kind == "inherit":
                self.var(ch, name, a.key.lo, a.key.hi)
            elif a.kind == "from":
                ch = ANY
            else:
                ch, hi = self.value(a)
            out.append((name, FIELD, False, a.key.lo, hi, a.key.lo, a.key.hi, ch))
        for key, a in s.dynamic:
            ch, hi = self.value(a)
            out.append((ANY, FIELD, False, key.lo, hi, key.lo, key.hi, ch))

    def value(self, a):
        ch = []
        if a.nested is not None:
            self.set(a.nested, ch)
        else:
            self.sym(a.value, ch)
        return ch, ANY if a.value is None else a.value.hi

    # ---- folding: [(lo, hi)] of the nodes that fold if they cover several lines
    def folds(self, n):
        k = n.k
        if k == "Str":
            return [(n.lo, n.hi)]
        out = [(n.lo, n.hi)] if k in ("Attrs", "List", "Lambda", "Let", "LegacyLet", "With", "If") else []
        if k == "Let" and n.binds:
            out.append((n.binds[0].lo, n.binds[-1].hi))
        if k == "Lambda":
            return out + self.folds(n.body)
        for c in nixparse.kids(n):
            out += self.folds(c)
        return out

    # ---- semantic tokens
    def put(self, into, lo, hi, t, m=0):
        into[(lo, hi)] = (t, m)

    def tok(self, n, into):
        k = n.k
        if k == "Str":
            if len(n.parts) == 1 and isinstance(n.parts[0], str):
                self.put(into, n.lo, n.hi, T_STRING)
            else:
                if not n.parts:
                    self.put(self.may, n.lo, n.hi, T_STRING)
                for p in n.parts:
                    if not isinstance(p, str):
                        self.tok(p.e, self.may)
        elif k == "Uri":
            self.put(into, n.lo, n.hi, T_STRING)
        elif k in ("Int", "Float"):
            self.put(self.may, n.lo, n.hi, T_NUMBER)
        elif k == "Var":
            self.tvar(n.name, n.lo, n.hi, into)
        elif k == "Lambda":
            if n.arg is not None:
                self.put(into, n.arg.lo, n.arg.hi, T_ARG)
            for f in n.formals or []:
                self.put(into, f.name.lo, f.name.hi, T_FORMAL)
                if f.default is not None:
                    self.tok(f.default, self.may)
            self.tok(n.body, into)
        elif k in ("Attrs", "LegacyLet", "Let"):
            self.tset(self.sets[id(n)], into)
            if k == "Let":
                self.tok(n.body, into)
        elif k == "Select":
            self.tok(n.e, into)
            for a in n.path:
                if a.kind == "id":
                    self.put(into, a.lo, a.hi, T_SELECT)
                else:
                    self.aname(a, self.may)
            if n.default is not None:
                self.tok(n.default, into)
        elif k == "HasAttr":
            self.tok(n.e, into)
            for a in n.path:
                self.aname(a, into)
        elif k == "Path":
            for p in n.parts:
                if not isinstance(p, str):
                    self.tok(p.e, into)
        else:
            for c in nixparse.kids(n):
                self.tok(c, into)

    def aname(self, a, into):
        if a.kind == "interp":
            self.tok(a.e, into)
        elif a.kind == "dstr":
            self.tok(a.s, into)
        else:
            self.put(into if a.kind == "str" and a.name and into is not self.may else self.may, a.lo, a.hi, T_STRING if a.kind == "str" else T_SELECT)

    def tvar(self, name, lo, hi, into):
        v = self.R.vars[(lo, hi)]
        if name in ("true", "false"):
            t = (T_BOOL, 1)
        elif name == "null":
            t = (T_NULL, 0)
        elif v[0] == "undef":
            t = (T_DEFINED, 2)
        elif v[0] == "with":
            t = (T_WITH, 4)
        elif v[1].kind == "builtin":
            t = (T_BUILTIN, 1)
        else:
            t = (T_DEFINED, 0)
        into[(lo, hi)] = t

    def tset(self, s, into):
        for name, a in s.static.items():
            if a.kind == "inherit":
                self.tvar(name, a.key.lo, a.key.hi, self.may)
            elif a.kind == "from":
                self.tok(a.value, self.may)
            else:
                self.put(into, a.key.lo, a.key.hi, T_ATTR)
                self.tvalue(a, into)
        for f in s.froms:
            self.tok(f, self.may)
        for key, a in s.dynamic:
            self.aname(key, self.may)
            self.tvalue(a, into)

    def tvalue(self, a, into):
        if a.nested is not None:
            self.tset(a.nested, into)
        else:
            self.tok(a.value, into)


def eq(want, got):
    return want == ANY or want == got


def samesym(w, g):
    return all(eq(a, b) for a, b in zip(w[:7], g[:7]))


def diffsym(want, got, up="the document"):
    """What is wrong with the symbols, or None. got: same shape; both unordered."""
    if want == ANY:
        return None
    rest = list(got)
    for w in want:
        m = [g for g in rest if samesym(w, g)]
        if not m:
            near = [g[:7] for g in got if g[5] == w[5]]
            return "in %s the symbol %s is missing (there: %s)" % (up, w[:7], near or [g[:7] for g in got][:6])
        # equal ones may differ in their children only
        err = None
        for g in m:
            err = diffsym(w[7], g[7], "the symbol %s" % (w[:4],))
            if err is None:
                rest.remove(g)
                break
        else:
            return err
    if rest:
        return "in %s there is an unexpected symbol %s" % (up, rest[0][:7])
    return None

"""Random Nix programs: syntax trees (nixparse.N), and a printer that lays them
out at random and records the span of every node."""
import random
import copy
import re
from nixparse import N, KEYWORDS

POOL = ["a", "b", "c", "x", "y", "f", "lib", "pkgs", "foo-bar", "x'", "_z", "self"]
BUILTIN_POOL = ["map", "import", "toString", "builtins", "true", "false", "null", "throw",
                "derivation", "__length", "isNull"]
STRCHARS = ["a", "B", " ", "0", "'", "/", "#", "{", "}", "\t", "\n", ";", "=", "\\n", "\\t",
            "\\r", "\\\\", "\\\"", "\\$", "$", "$$", "$a", "\\q", "\xc3\xa9", "\xe4\xbd\xa0",
            "\xf0\x9f\x98\x80", "*/", "/*", "''", ".", ":"]
INDCHARS = ["a", "B", " ", "0", "\"", "/", "#", "{", "}", "\t", "\n", "\n  ", ";", "\\", "''$", "'''",
            "''\\n", "''\\t", "''\\\\", "$", "$$", "$a", "\xc3\xa9", "\xf0\x9f\x98\x80", "*/", ".", "'"]

PREC = {"|>": 3, "<|": 2, "->": 4, "||": 5, "&&": 6, "==": 7, "!=": 7, "<": 8, "<=": 8,
        ">": 8, ">=": 8, "//": 9, "+": 11, "-": 11, "*": 12, "/": 12, "++": 13}
ASSOC = {"|>": "l", "<|": "r", "->": "r", "||": "l", "&&": "l", "==": "n", "!=": "n", "<": "n",
         "<=": "n", ">": "n", ">=": "n", "//": "r", "+": "l", "-": "l", "*": "l", "/": "l", "++": "r"}
NOT, HAS, NEG, APP, SEL, SIMPLE = 10, 14, 15, 16, 17, 18


def prec(n):
    k = n.k
    if k in ("Lambda", "Let", "With", "If", "Assert"):
        return 0
    if k == "LegacyLet":
        return 0
    if k == "Bin":
        return PREC[n.op]
    if k == "Un":
        return NOT if n.op == "!" else NEG
    if k == "HasAttr":
        return HAS
    if k == "Call":
        return APP
    if k == "Select":
        return SEL
    return SIMPLE


def paren(n):
    return N("Paren", e=n)


def need(n, p):
    return n if prec(n) >= p else paren(n)


class Gen:
    def __init__(self, rng, pool=None, unbound=0.06, dup=0.0, features=None, builtin=0.08,
                 redundant=0.04):
        self.r = rng
        self.pool = pool or POOL
        self.unbound = unbound
        self.dup = dup            # chance of allowing duplicates/conflicts
        self.builtin = builtin
        self.redundant = redundant
        self.off = set(features or ())   # features turned off

    def on(self, f):
        return f not in self.off

    # scopes: list of names in scope
    def name(self):
        return self.r.choice(self.pool)

    def var(self, sc):
        r = self.r
        x = r.random()
        if sc and x > self.unbound + self.builtin:
            return N("Var", name=r.choice(sc))
        if x < self.builtin:
            return N("Var", name=r.choice(BUILTIN_POOL))
        return N("Var", name=self.name())

    def expr(self, d, sc):
        r = self.r
        if d <= 0:
            return self.leaf(sc, d)
        x = r.random()
        if x < 0.10:
            return self.lambda_(d, sc)
        if x < 0.20:
            return self.let(d, sc)
        if x < 0.25:
            w = self.expr(d - 1, sc)
            return N("With", with_=w, body=self.expr(d - 1, sc))
        if x < 0.29:
            return N("If", cond=self.expr(d - 1, sc), then=self.expr(d - 1, sc), els=self.expr(d - 1, sc))
        if x < 0.32:
            return N("Assert", cond=self.expr(d - 1, sc), value=self.expr(d - 1, sc))
        if x < 0.34 and self.on("legacylet"):
            inner, b = self.bindset(d - 1, sc, True, let=False)
            if not any(i.k == "Bind" and i.path[0].k == "AName" and i.path[0].f.get("name") == "body"
                       for i in b):
                b.append(N("Bind", path=[N("AName", kind="id", name="body")], value=self.expr(d - 1, inner)))
            return N("LegacyLet", binds=b)
        if x < 0.50:
            return self.op(d, sc)
        return self.opnd(d, sc)

    def op(self, d, sc):
        r = self.r
        x = r.random()
        if x < 0.10:
            return N("Un", op="!", e=self.fit(self.expr(d - 1, sc), NOT))
        if x < 0.18:
            return N("Un", op="-", e=self.fit(self.expr(d - 1, sc), NEG))
        if x < 0.30:
            return N("HasAttr", e=self.fit(self.expr(d - 1, sc), NEG), path=self.path(d - 1, sc))
        o = r.choice(list(PREC) if self.on("pipes") is True else [k for k in PREC if k not in ("|>", "<|")])
        p, a = PREC[o], ASSOC[o]
        lp = p if a == "l" else p + 1
        rp = p if a == "r" else p + 1
        l = self.fit(self.expr(d - 1, sc), lp, left=True)
        rr = self.fit(self.expr(d - 1, sc), rp)
        if o in ("|>", "<|"):   # the two pipes do not mix
            # chains of one pipe: see known-findings.json (C02)
            chain = "+pipechain" in self.off
            if l.k == "Bin" and l.op in ("|>", "<|") and (l.op != o or not chain):
                l = paren(l)
            if rr.k == "Bin" and rr.op in ("|>", "<|") and (rr.op != o or not chain):
                rr = paren(rr)
        return N("Bin", op=o, l=l, r=rr)

    def fit(self, n, p, left=False):
        """Parenthesise where the grammar needs it. A prefix operator is also
        fine as the right operand of a tighter operator, except where what
        follows it would be swallowed; keep that simple and parenthesise."""
        q = prec(n)
        if q == 0:
            return paren(n)
        if q < p:
            return paren(n)
        if self.redundant and self.r.random() < self.redundant and n.k != "Paren":
            return paren(n)
        return n

    def opnd(self, d, sc):
        r = self.r
        x = r.random()
        if x < 0.14:
            fn = self.fit(self.simple(d - 1, sc), SEL)
            if fn.k in ("Int", "Float", "Str", "Path", "Attrs", "Uri", "SPath", "List", "LegacyLet"):
                fn = self.var(sc)
            n = r.choice([1, 1, 2, 3])
            return N("Call", fn=fn, args=[self.fit(self.simple(d - 1, sc), SEL) for _ in range(n)])
        if x < 0.28:
            e = self.fit(self.simple(d - 1, sc), SIMPLE)
            if e.k in ("Int", "Float"):
                e = paren(e)
            df = None
            if r.random() < 0.25:
                df = self.fit(self.simple(d - 1, sc), SEL)
            return N("Select", e=e, path=self.path(d - 1, sc), default=df)
        return self.simple(d, sc)

    def simple(self, d, sc):
        r = self.r
        if d <= 0:
            return self.leaf(sc, d)
        x = r.random()
        if x < 0.30:
            rec = r.random() < 0.35
            inner, b = self.bindset(d - 1, sc, rec)
            return N("Attrs", rec=rec, binds=b)
        if x < 0.42:
            return N("List", es=[self.fit(self.simple(d - 1, sc) if r.random() < .7 else self.opnd(d - 1, sc), SEL)
                                 for _ in range(r.randrange(4))])
        if x < 0.52:
            return paren(self.expr(d - 1, sc))
        if x < 0.66:
            return self.string(d, sc)
        return self.leaf(sc, d)

    def leaf(self, sc, d=0):
        r = self.r
        x = r.random()
        if x < 0.5:
            return self.var(sc)
        if x < 0.66:
            v = r.choice([0, 1, 2, 7, 42, 100, 2**31, 2**63 - 1, r.randrange(1000)])
            return N("Int", v=v)
        if x < 0.72:
            t = r.choice(["1.5", "0.25", "3.", ".5", "1.0e10", "2.5E-3", "12.75e+2", "0.1", "1.1e300",
                          "3.141592653589793"])
            return N("Float", v=float(t), text=t)
        if x < 0.85:
            return self.string(min(d, 1), sc)
        if x < 0.93 and self.on("path"):
            return self.pathlit(d, sc)
        if x < 0.95 and self.on("spath"):
            return N("SPath", v=r.choice(["nixpkgs", "nixpkgs/lib", "a-b/c.nix", "x+y"]))
        if x < 0.96 and self.on("uri"):
            if r.random() < .5:
                return N("Uri", v=r.choice("axZ") + "".join(r.choice("a1+-.") for _ in range(r.randrange(4))) + ":" +
                         "".join(r.choice("aZ0%/?:@&=+$,-_.!~*'") for _ in range(r.choice([1, 2, 5]))))
            return N("Uri", v=r.choice(["http://a.b/c?d=e", "x:y", "git+ssh:foo"]))
        return N("Attrs", rec=False, binds=[])

    def pathlit(self, d, sc):
        r = self.r
        t = r.choice(["./foo", "../x/y.nix", "/etc/x", "a/b", "~/foo", "./.", "a.b/c-d+e", "1/2", "./a/b/c"])
        parts = [t]
        if d > 0 and r.random() < 0.4 and self.on("pathinterp"):
            if r.random() < .5:
                parts[0] += "/"
            parts.append(N("Interp", e=self.expr(d - 1, sc)))
            if r.random() < .5:
                parts.append(r.choice(["/x", "y", ".nix", "/z/w"]))
        return N("Path", parts=parts)

    def string(self, d, sc, ind=None, static=False):
        r = self.r
        if ind is None:
            ind = r.random() < 0.3
        chars = INDCHARS if ind else STRCHARS
        parts = []
        for _ in range(r.choice([0, 1, 1, 2, 3, 6])):
            if not static and d > 0 and r.random() < 0.25:
                parts.append(N("Interp", e=self.expr(d - 1, sc)))
            else:
                parts.append(r.choice(chars))
        return mkstr(parts, ind)

    def aname(self, d, sc, dyn=True):
        r = self.r
        x = r.random()
        if x < 0.80 or (x >= 0.88 and not (dyn and self.on("dynamic"))):
            return N("AName", kind="id", name=r.choice(self.pool))
        if x < 0.88:
            if r.random() < .5:
                s = mkstr([r.choice(self.pool)], False)
            else:
                s = self.string(0, sc, ind=False, static=True)
            return N("AName", kind="str", name=s.parts[0] if s.parts else "", s=s)
        if x < 0.94:
            s = mkstr(["p", N("Interp", e=self.expr(d - 1, sc))], False)
            return N("AName", kind="dstr", s=s)
        return N("AName", kind="interp", e=self.expr(d - 1, sc))

    def path(self, d, sc):
        return [self.aname(d, sc) for _ in range(self.r.choice([1, 1, 1, 2, 3]))]

    def bindset(self, d, sc, rec, let=False):
        """Bindings, without conflicts unless self.dup asks for them. Returns
        (scope inside, bindings)."""
        r = self.r
        n = r.choice([0, 1, 1, 2, 2, 3, 4])
        used = {}     # name -> tree of nested names, or None for a leaf
        plan = []

        def insert(names):
            t = used
            for i, x in enumerate(names):
                last = i == len(names) - 1
                if last:
                    if x in t:
                        return False
                    t[x] = None
                    return True
                if x in t and t[x] is None:
                    return False
                t = t.setdefault(x, {})
            return True
        tops = []
        for _ in range(n):
            if r.random() < 0.22 and self.on("inherit"):
                frm = r.random() < 0.5
                names = []
                for _ in range(r.choice([1, 1, 2, 3]) if r.random() > .06 else 0):
                    if not frm and sc and r.random() < .8:
                        nm = r.choice(sc)
                        a = N("AName", kind="id", name=nm)
                    else:
                        a = self.aname(d, sc, dyn=False)
                        if a.kind == "str" and not re.fullmatch(r"[a-zA-Z_][\w'-]*", a.name):
                            a = N("AName", kind="id", name=r.choice(self.pool))
                        if a.kind == "str" and not self.on("quotedinherit"):
                            a = N("AName", kind="id", name=r.choice(self.pool))
                    if r.random() < self.dup or insert([a.name]):
                        names.append(a)
                        tops.append(a.name)
                plan.append(("i", frm, names))
            else:
                p = self.path(d, sc)
                if let and p[0].kind in ("dstr", "interp"):
                    p[0] = N("AName", kind="id", name=r.choice(self.pool))
                st = []
                for a in p:
                    if a.kind in ("dstr", "interp"):
                        break
                    st.append(a.name)
                if st:
                    if len(st) == len(p):
                        ok = insert(st)
                    else:
                        # a static prefix of a dynamic path: the prefix must be open
                        t, ok = used, True
                        for x in st:
                            if x in t and t[x] is None:
                                ok = False
                                break
                            t = t.setdefault(x, {})
                    if not ok and r.random() >= self.dup:
                        continue
                    tops.append(st[0])
                plan.append(("b", p))
        inner = sc + [t for t in tops if re.fullmatch(r"[a-zA-Z_][a-zA-Z0-9_'-]*", t) and t not in KEYWORDS] * 2 if rec or let else sc
        out = []
        for p in plan:
            if p[0] == "i":
                out.append(N("Inherit", frm=self.expr(min(d, 2), inner) if p[1] else None, names=p[2]))
            else:
                out.append(N("Bind", path=p[1], value=self.expr(d, inner)))
        if self.dup and d > 0 and r.random() < self.dup * .6:
            # the same attribute once more, as a set that merges with it
            b = r.choice([x for x in out if x.k == "Bind" and x.path[-1].kind in ("id", "str")] or [None])
            if b is not None:
                def one():
                    rc = r.random() < .3
                    return N("Attrs", rec=rc, binds=self.bindset(d - 1, inner, rc)[1])
                if r.random() < .8:
                    b.f["value"] = one()
                out.insert(r.randrange(out.index(b) + 1, len(out) + 1),
                           N("Bind", path=copy.deepcopy(b.path), value=one()))
        return inner, out

    def let(self, d, sc):
        inner, b = self.bindset(d - 1, sc, True, let=True)
        return N("Let", binds=b, body=self.expr(d - 1, inner))

    def lambda_(self, d, sc):
        r = self.r
        x = r.random()
        if x < 0.45:
            n = self.name()
            return N("Lambda", arg=N("Name", name=n), formals=None, ell=False,
                     body=self.expr(d - 1, sc + [n, n]), at="")
        names = []
        for _ in range(r.choice([0, 1, 2, 2, 3])):
            n = self.name()
            if n not in names or r.random() < self.dup:
                names.append(n)
        arg = None
        inner = sc + names * 2
        at = ""
        if r.random() < 0.4:
            c = [n for n in self.pool if n not in names] or ["zz"]
            if r.random() < self.dup and names:
                c = names
            a = r.choice(c)
            arg = N("Name", name=a)
            inner = inner + [a, a]
            at = r.choice("<>")
        fs = [N("Formal", name=N("Name", name=n),
                default=self.expr(d - 2, inner) if r.random() < .3 else None) for n in names]
        return N("Lambda", arg=arg, formals=fs, ell=r.random() < .4, body=self.expr(d - 1, inner), at=at)


def mkstr(parts, ind):
    """Str node from source fragments: decoded parts, and the source kept in raw."""
    raw = []
    for p in parts:
        raw.append(p)
    # fix up fragments that would combine into something else
    src = []
    for i, p in enumerate(raw):
        if isinstance(p, str):
            prev = src[-1] if src and isinstance(src[-1], str) else ""
            if p[:1] == "{" and prev.endswith("$"):
                continue
            if ind and p[:1] in ("'", "$", "\\") and prev.endswith("'"):
                continue
            if not ind and p == "''" and False:
                continue
            if p.startswith("$") and prev.endswith("$"):
                continue
            src.append(p)
        else:
            prev = src[-1] if src and isinstance(src[-1], str) else ""
            if prev.endswith("$") or (ind and prev.endswith("'")):
                src.append(" ")
            src.append(p)
    if ind and src and isinstance(src[-1], str) and src[-1].endswith("'"):
        src.append(" ")
    dec = []
    for p in src:
        if isinstance(p, str):
            if ind:
                v = {"''$": "$", "'''": "''", "''\\n": "\n", "''\\t": "\t", "''\\\\": "\\"}.get(p, p)
            else:
                v = p
                if p.startswith("\\"):
                    v = {"\\n": "\n", "\\t": "\t", "\\r": "\r"}.get(p, p[1:])
            if dec and isinstance(dec[-1], str):
                dec[-1] += v
            else:
                dec.append(v)
        else:
            dec.append(p)
    dec = [p for p in dec if p != ""]
    return N("Str", parts=dec, ind=ind, raw=src)


def quote(name):
    out = []
    for i, c in enumerate(name):
        if c in '"\\':
            out.append("\\" + c)
        elif c == "$" and name[i + 1:i + 2] == "{":
            out.append("\\$")
        elif c == "\n":
            out.append("\\n")
        elif c == "\r":
            out.append("\\r")
        elif c == "\t":
            out.append("\\t")
        else:
            out.append(c)
    return '"' + "".join(out) + '"'


COMMENTS = ["# c\n", "/* c */", "/**/", "#\n", "/* \xc3\xa9\n */", "# \xf0\x9f\x98\x80 x\n", "/* ** */",
            "/* a # b */", "# '' \" ${\n", "/* let x = 1; in */"]


class Printer:
    """style: 'one' (single spaces), 'rand'."""

    def __init__(self, rng, style="rand", crlf=False, comments=0.08, nonascii=True):
        self.r, self.style, self.crlf, self.pc = rng, style, crlf, comments
        self.out = []
        self.n = 0
        self.prev = None
        self.comments = COMMENTS if nonascii else [c for c in COMMENTS if c.isascii()]

    def raw(self, s):
        self.out.append(s)
        self.n += len(s)

    def gap(self, required):
        r = self.r
        if self.style == "one":
            if required:
                self.raw(" ")
            return
        x = r.random()
        if not required and x < 0.45:
            return
        if x < self.pc:
            c = r.choice(self.comments)
            self.raw(r.choice([" ", "\n", "  "]) + c + r.choice(["", " ", "\n"]))
            if not required:
                return
            if not self.out[-1][-1:].isspace():
                self.raw(" ")
            return
        self.raw(r.choice([" ", " ", " ", "  ", "\n", "\n  ", "\t", "\n\n    "]))

    def tok(self, s, glue_before=None):
        """Emit a token; returns its offset."""
        if self.prev is not None:
            req = not self.safe(self.prev, s)
            if glue_before is None:
                self.gap(req)
            elif not glue_before:
                self.gap(True)
        lo = self.n
        self.raw(s)
        self.prev = s
        return lo

    SAFE_AFTER = set("([{;,")
    SAFE_BEFORE = set(")]};")

    def safe(self, p, s):
        if (p[-1] in self.SAFE_AFTER and not p[0].isalpha()) or p == "${":
            return True
        if s[0] in self.SAFE_BEFORE:
            return True
        if s == ",":
            return p[-1] in ")]}\""  or re.fullmatch(r"[A-Za-z_0-9]+", p) is not None
        if p[-1] in ")]" and s[0] in "([\".@":
            return s != "..." and not s[1:2].isdigit() if s[0] == "." else True
        if s == "=" and re.fullmatch(r"[A-Za-z_0-9]+", p):
            return True
        if p == "=" and re.match(r"[A-Za-z_0-9({\[\"]", s):
            return True
        if s == ":" and (re.fullmatch(r"[A-Za-z_]+", p) or p == "}"):
            return True
        return False

    def print(self, n):
        m = getattr(self, "p_" + n.k)
        n.lo = None
        m(n)
        n.hi = self.n
        if n.lo is None:
            raise AssertionError(n.k)

    def text(self, n):
        if self.style == "rand":
            if self.r.random() < 0.3:
                self.raw(self.r.choice(["\n", " ", "# top\n", "/* \xc3\xa9 */"]))
        self.print(n)
        if self.style == "rand":
            if self.r.random() < 0.4:
                self.raw(self.r.choice(["\n", " ", " # end", "\n# end \xc3\xa9\n", " /* */"]))
        return "".join(self.out)

    # leaves
    def p_Var(self, n):
        n.lo = self.tok(n.name)

    def p_Name(self, n):
        n.lo = self.tok(n.name)

    def p_Int(self, n):
        n.lo = self.tok(n.f.get("text") or str(n.v))

    def p_Float(self, n):
        n.lo = self.tok(n.text)

    def p_SPath(self, n):
        n.lo = self.tok("<" + n.v + ">")

    def p_Uri(self, n):
        n.lo = self.tok(n.v)

    def p_Str(self, n, glue=None):
        q = "''" if n.ind else '"'
        n.lo = self.tok(q, glue)
        for p in n.raw:
            if isinstance(p, str):
                self.raw(p)
            else:
                self.interp(p)
        self.raw(q)
        self.prev = q

    def interp(self, p):
        p.lo = self.n
        self.raw("${")
        self.prev = "${"
        self.print(p.e)
        self.gap(False)
        self.raw("}")
        p.hi = self.n
        self.prev = "}"

    def p_Path(self, n):
        first = True
        for p in n.parts:
            if isinstance(p, str):
                if first:
                    n.lo = self.tok(p)
                else:
                    self.raw(p)
                    self.prev = p
            else:
                self.interp(p)
            first = False
        self.prev = "/x"

    def p_Paren(self, n):
        n.lo = self.tok("(")
        self.print(n.e)
        self.tok(")")

    def p_List(self, n):
        n.lo = self.tok("[")
        for e in n.es:
            self.print(e)
        self.tok("]")

    def p_AName(self, n, glue=None):
        if n.kind == "id":
            n.lo = self.tok(n.name, glue)
        elif n.kind in ("str", "dstr"):
            self.p_Str(n.s, glue)
            n.s.hi = self.n
            n.lo = n.s.lo
        else:
            if self.prev is not None and glue is None:
                self.gap(True)
            n.lo = self.n
            self.raw("${")
            self.prev = "${"
            self.print(n.e)
            self.gap(False)
            self.raw("}")
            self.prev = "}"
        n.hi = self.n

    def attrpath(self, p, glue=None):
        for i, a in enumerate(p):
            if i:
                if self.style == "rand" and self.r.random() < .06:
                    self.tok(".")
                    self.p_AName(a)
                    continue
                self.tok(".", True)
                self.p_AName(a, True)
            else:
                self.p_AName(a, glue)

    def binds(self, bs):
        for b in bs:
            if b.k == "Bind":
                self.attrpath(b.path)
                b.lo = b.path[0].lo
                b.f["eqlo"] = self.tok("=")
                self.print(b.value)
                self.tok(";")
            else:
                b.lo = self.tok("inherit")
                if b.frm is not None:
                    self.tok("(")
                    self.print(b.frm)
                    self.tok(")")
                for a in b.names:
                    self.p_AName(a)
                self.tok(";")
            b.hi = self.n

    def p_Attrs(self, n):
        if n.rec:
            n.lo = self.tok("rec")
            self.tok("{")
        else:
            n.lo = self.tok("{")
        self.binds(n.binds)
        self.tok("}")

    def p_Let(self, n):
        n.lo = self.tok("let")
        self.binds(n.binds)
        self.tok("in")
        self.print(n.body)

    def p_LegacyLet(self, n):
        n.lo = self.tok("let")
        self.tok("{")
        self.binds(n.binds)
        self.tok("}")

    def p_With(self, n):
        n.lo = self.tok("with")
        self.print(n.with_)
        self.tok(";")
        self.print(n.body)

    def p_If(self, n):
        n.lo = self.tok("if")
        self.print(n.cond)
        self.tok("then")
        self.print(n.then)
        self.tok("else")
        self.print(n.els)

    def p_Assert(self, n):
        n.lo = self.tok("assert")
        self.print(n.cond)
        self.tok(";")
        self.print(n.value)

    def p_Select(self, n):
        self.print(n.e)
        n.lo = n.e.lo
        if self.style == "rand" and self.r.random() < .06:
            self.tok(".", False)
            self.attrpath(n.path)
        else:
            glue = n.e.k not in ("Path", "Uri", "SPath")
            if glue:
                self.tok(".", True)
                self.attrpath(n.path, True)
            else:
                self.tok(".", False)
                self.attrpath(n.path)
        if n.default is not None:
            self.tok("or")
            self.print(n.default)

    def p_HasAttr(self, n):
        self.print(n.e)
        n.lo = n.e.lo
        self.tok("?")
        self.attrpath(n.path)

    def p_Call(self, n):
        self.print(n.fn)
        n.lo = n.fn.lo
        for a in n.args:
            self.print(a)

    def p_Bin(self, n):
        self.print(n.l)
        n.lo = n.l.lo
        n.f["oplo"] = self.tok(n.op, False)
        self.gap(True)
        self.prev = None
        self.print(n.r)

    def p_Un(self, n):
        n.lo = self.tok(n.op)
        self.gap(True)
        self.prev = None
        self.print(n.e)

    def p_Lambda(self, n):
        at = n.f.get("at", "")
        if n.formals is None:
            self.print(n.arg)
            n.lo = n.arg.lo
            self.tok(":")
            self.gap(True)
            self.prev = None
            self.print(n.body)
            return
        lo = None
        if n.arg is not None and at != ">":
            self.print(n.arg)
            lo = n.arg.lo
            self.tok("@")
        l2 = self.tok("{")
        n.f["flo"] = l2
        lo = l2 if lo is None else lo
        first = True
        for f in n.formals:
            if not first:
                self.tok(",")
            first = False
            self.print(f)
        if n.ell:
            if not first:
                self.tok(",")
            self.tok("...")
        elif not first and self.style == "rand" and self.r.random() < .2:
            self.tok(",")
        self.tok("}")
        n.f["fhi"] = self.n
        if n.arg is not None and at == ">":
            self.tok("@")
            self.print(n.arg)
        n.lo = lo
        self.tok(":")
        self.gap(True)
        self.prev = None
        self.print(n.body)

    def p_Formal(self, n):
        self.print(n.name)
        n.lo = n.name.lo
        if n.default is not None:
            self.tok("?")
            self.print(n.default)


def program(seed, depth=None, style=None, crlf=None, **kw):
    """(text, ast with spans)"""
    rng = random.Random(seed)
    g = Gen(rng, **kw)
    d = depth if depth is not None else rng.choice([1, 2, 3, 3, 4, 4, 5])
    n = g.expr(d, [])
    st = style or rng.choice(["one", "rand", "rand"])
    p = Printer(rng, st)
    return p.text(n), n

"""Code actions as an editor applies them."""
import json
import os
import re
import urllib.parse

import denote
import domain
import lsp
import lsptext
import nixparse
import prog
import rpc
import nixgen
import probe
from nixd import Server, document

IDENT = re.compile(r"[a-zA-Z_][a-zA-Z0-9_'\-]*\Z")
RESERVED = nixparse.KEYWORDS | {"true", "false", "null"}


class OneWith(denote.Denote):
    """Takes what may come from the with `one` as coming from it."""

    def __init__(self, p, one):
        self.one, self.each = one, {}
        super().__init__(p.tree, p.R, data=p.data, inline=True)

    def var(self, rg):
        v = self.R.vars[rg]
        if v[0] == "with" and v[1][0] is self.one:
            n = self.R.names[rg]
            if n not in self.each:
                self.each[n] = self.select(self.copy(self.one.with_), (n,), None)
            return self.each[n]
        return super().var(rg)


def chain(p, b):
    """The nodes around the byte b (strictly), outermost first."""
    out, n = [], p.tree
    while n is not None:
        out.append(n)
        n = next((x for x in nixparse.kids(n) if x.lo is not None and x.lo < b < x.hi), None)
    return out


def innermost(ch, k):
    return next((n for n in reversed(ch) if n.k == k), None)


def static(path):
    return all(a.kind in ("id", "str") for a in path)


def parent(ch, n):
    i = next(i for i, x in enumerate(ch) if x is n)
    return ch[i - 1] if i else None


class Actions(Server):
    builds = (("asan", ("nixd-bin",)),)
    deterministic = False
    evaluation = "actions"
    quick_cap = 60
    mine = ()               # prefixes of the titles that are judged

    def options(self, ctx, r):
        return {"timeout": 60}

    def ranges(self, r, p):
        out = []
        ns = [n for n in nixparse.walk(p.tree) if n.lo is not None]
        for n in r.sample(ns, min(5, len(ns))):
            b = r.randint(n.lo, n.hi)
            out.append((b, b))
        n = r.choice(ns)
        out.append((n.lo, n.hi))
        a, b = sorted(r.randint(0, len(p.bytes)) for _ in "ab")
        out.append((a, b))
        names = [n for n in ns if n.k in ("AName", "Name", "Var")]
        for n in r.sample(names, min(4, len(names))):
            b = r.randint(n.lo, n.hi)
            out.append((b, b))
        return out

    def boundary(self, p, b):
        while b > 0 and b < len(p.bytes) and p.bytes[b] & 0xC0 == 0x80:
            b -= 1
        return b

    def judge(self, ctx, t):
        p = prog.Prog(t)
        self.play(ctx, p, [(b, b) for b in range(len(p.bytes) + 1)])

    def play(self, ctx, p, ranges):
        try:
            c = self.client(ctx)
            name = "d%d.nix" % self.used
            u, _ = c.open(name, p.text)
            pend = []
            for lo, hi in ranges:
                lo, hi = self.boundary(p, lo), self.boundary(p, hi)
                pend.append((lo, hi, c.post("textDocument/codeAction", {
                    "textDocument": {"uri": u}, "range": p.rng(lo, hi), "context": {"diagnostics": []}})))
            done = set()
            for lo, hi, i in pend:
                a = c.wait(i)
                ctx.count("requests")
                if "error" in a:
                    ctx.violation("codeAction fails: %s" % a["error"]["message"], {"text": p.text, "at": [lo, hi]})
                    continue
                titles = []
                for x in a["result"]:
                    titles.append(x["title"])
                    if not x["title"].startswith(self.mine):
                        continue
                    k = json.dumps(x, sort_keys=True)
                    if k in done:
                        continue
                    done.add(k)
                    ctx.count("actions")
                    ctx.count(re.sub(r"`inherit \(.*|'.*'|to \S+\.nix.*", "..", x["title"], flags=re.S))
                    ctx.distinct((p.data, k))
                    for bad in self.action(ctx, p, u, lo, hi, x):
                        ctx.violation("%s: %s" % (x["title"][:80], bad), {"text": p.text, "at": [lo, hi], "action": x})
                if lo == hi or self.exact:
                    for w in self.offers(p, lo) if lo == hi else self.offered(p, lo, hi):
                        ctx.count("expected: " + re.sub(r"'.*'", "..", w))
                        if not any(x.startswith(w) for x in titles):
                            ctx.violation("%r is not offered" % w, {"text": p.text, "at": [lo, p.data[max(0, lo - 10):lo] + "|" + p.data[lo:lo + 10]],
                                                                  "offered": titles})
            c.close(name)
            c.forget()
            ctx.sample({"document": p.text[:200], "ranges": len(ranges)})
        except (rpc.Dead, lsp.Lost) as e:
            if self.c is None:
                raise
            self.died(ctx, e, {"text": p.text})

    exact = False

    def offers(self, p, b):
        return []

    def offered(self, p, lo, hi):
        return []

    def applied(self, p, u, x):
        """The program after the action, or what is wrong with the action."""
        e = x.get("edit") or {}
        ch = e.get("changes") or {}
        if set(e) != {"changes"} or set(ch) != {u}:
            return None, "changes %s" % json.dumps(e)[:200]
        new = lsptext.apply_edits(p.text, ch[u])
        if new is None:
            return None, "its edits cannot be applied: %s" % json.dumps(ch[u])[:300]
        try:
            return prog.Prog(new.encode("utf-8").decode("latin-1")), None
        except nixparse.NixError as ex:
            return None, "breaks the syntax (%s): %s" % (ex, new[:400])

    def action(self, ctx, p, u, lo, hi, x):
        q, bad = self.applied(p, u, x)
        if bad:
            yield bad
            return
        yield from self.same(ctx, p, q, lo, hi, x)

    def same(self, ctx, p, q, lo, hi, x):
        a = denote.Denote(p.tree, p.R, data=p.data)
        b = denote.Denote(q.tree, q.R, data=q.data)
        if a.form != b.form or q.R.model.dups:
            yield "changes the program: %s\n%s" % (denote.diff(a.form, b.form), q.text[:400])


class AttrText:
    """Small programs around attribute sets, written down at random."""
    NAMES = ["foo", "bar", "baz", "qux", "x1", "y'"]
    QUOTED = ['"foo"', '"bar"', '"with space"', '"if"', '"\\${x1}"', '"\xc3\xa9"', '"1a"', '"or"', "or", '"true"', '"a.b"', '""', '"q\\"uote"']

    def __init__(self, r):
        self.r = r

    def name(self, quoted=.15):
        return self.r.choice(self.QUOTED) if self.r.random() < quoted else self.r.choice(self.NAMES)

    def var(self):
        return self.r.choice(self.NAMES)

    def sp(self, must=False):
        r = self.r.random()
        return " " if r < .5 else ("" if not must else "\n") if r < .8 else self.r.choice(["\n  ", "\t", " /* c */ ", " # e = 1;\n", " /* \xf0\x9f\x98\x80 */ "])

    def value(self, d):
        r = self.r
        k = r.random()
        if d <= 0 or k < .25:
            return r.choice([self.var(), "1", '"s"', "''\n  t\n''", "./p", "[ ]", "{ }", '"\xc3\xa9${%s}"' % self.var(), "%s.%s" % (self.var(), self.name())])
        if k < .6:
            return self.set(d - 1)
        if k < .7:
            return "with %s;%s%s" % (self.value(d - 1), self.sp(), self.value(d - 1))
        if k < .76:
            return "let %s in %s" % (self.binds(d - 1), self.value(d - 1))
        if k < .82:
            return "(%s%s)" % (self.value(d - 1), self.sp())
        if k < .86:
            return "%s: %s" % (self.var(), self.value(d - 1))
        if k < .92:
            return "(%s).%s or (%s)" % (self.value(d - 1), self.path(), self.value(d - 1))
        return "%s // %s" % (self.set(d - 1), self.var())

    def path(self, n=None):
        n = n or self.r.choice([1, 1, 2, 2, 3])
        return ".".join(self.name() for _ in range(n))

    def source(self, d):
        r = self.r
        return r.choice([self.var(), "%s.%s" % (self.var(), self.name()), "%s %s" % (self.var(), self.var()), "(%s)" % self.var(),
                         "%s.%s or %s" % (self.var(), self.name(), self.var()), "./p", "import ./p { }", self.set(d - 1) if d > 0 else "{ }",
                         "%s // %s" % (self.var(), self.var()), '"a"', "x: x", "%s.%s.%s" % (self.var(), self.name(), self.name())])

    def bind(self, d):
        r = self.r
        k = r.random()
        if k < .12:
            return "inherit %s%s;" % (" ".join(self.name(.25) for _ in range(r.choice([1, 1, 1, 2]))), self.sp())
        if k < .24:
            return "inherit%s(%s)%s%s;" % (self.sp(), self.source(d), self.sp(), " ".join(self.name(.25) for _ in range(r.choice([1, 1, 1, 2]))))
        if k < .3:
            n = self.name(.3)
            return "%s = %s;" % (n, n.strip('"') if n.strip('"') in self.NAMES else n and self.var())
        if k < .38:
            n = self.name(.3)
            s = self.source(d)
            if " " in s or s.startswith(("./", "x:")):
                s = "(" + s + ")"
            return "%s = %s.%s;" % (n, s, n)
        if k < .42:
            return "%s.${%s} = %s;" % (self.name(), self.var(), self.value(d - 1))
        p = self.path()
        return "%s%s=%s%s%s;" % (p, self.sp(), self.sp(), self.value(d - 1), self.sp())

    def binds(self, d):
        r = self.r
        out = []
        for _ in range(r.choice([0, 1, 2, 2, 3])):
            out.append(self.bind(d))
        if r.random() < .5:
            # siblings
            f = self.name()
            for _ in range(r.choice([1, 2, 2, 3, 3])):
                b = "%s.%s =%s%s%s;" % (f, self.path(), self.sp(), self.value(d - 1), self.sp()) if r.random() < .85 else "%s = %s;" % (f, self.set(d - 1))
                out.append(b)
            if r.random() < .6:
                r.shuffle(out)
        return "".join(self.sp() + b for b in out) + self.sp()

    def set(self, d):
        return "%s{%s}" % ("rec " if self.r.random() < .15 else "", self.binds(d))

    def program(self):
        t = self.set(self.r.choice([1, 2, 2, 3]))
        k = self.r.random()
        if k < .2:
            t = "with %s;%s%s" % (self.source(1), self.sp(), t)
        elif k < .4:
            t = "let %s in%s%s" % (self.binds(1), self.sp(True), t)
        elif k < .5:
            t = "{ %s, ... }: %s" % (", ".join(self.NAMES[:3]), t)
        return t


def attrprogram(r):
    for _ in range(50):
        t = AttrText(r).program()
        try:
            p = prog.Prog(t)
            if not p.R.model.dups and not p.R.model.diffrec:
                return p
        except nixparse.NixError:
            pass
    return prog.Prog("{ }")


class C27(Actions):
    id = "C27"
    rule = "a distinct program and code action"
    quick = 5000
    thorough = 60000
    mine = ("Quote attribute", "Unquote attribute", "Convert to `inherit", "Convert to explicit", "Flatten", "Pack", "Recursively", "Convert `with`")

    def fixed(self):
        return ["{ foo.a = 1; bar = 2; foo.b = 3; }", "{ foo.bar.x = 1; foo.baz = 2; }", "rec { inherit x; y = x; }", "{ inherit (a b) \"c d\"; }",
                "{ foo.bar = rec { x = 1; y = x; }; foo.baz = 2; }", "{ a.b = { inherit (e) x y; }; a.c = 1; }", "with a; with b; a b c",
                "{ a.b = 1; a = { c = 2; }; }", "with x; x", "let x.y = 1; x.z = 2; in x", "{ x = a.b.x; y = (f z).y; }", "rec { x = x; }",
                "a.\"b\"or 1", "{ inherit\"a\"b; }", "{ a.b.c = 1; a.b.d = { e.f = 1; }; a.g.${h} = 1; }", "{ inherit (a.b or c) d; }"]

    def case(self, ctx, i):
        r = ctx.rng(i)
        p = attrprogram(r) if r.random() < .75 else prog.generate(r, builtin=.04, unbound=.1)
        if domain.undecided(p.data, p.tree) or any(n.k == "LegacyLet" for n in nixparse.walk(p.tree)):
            ctx.count("undecided")
            return
        if p.R.model.dups:
            ctx.count("duplicates")
            return
        self.play(ctx, p, self.ranges(r, p))

    def ranges(self, r, p):
        out = super().ranges(r, p)
        ns = [n for n in nixparse.walk(p.tree) if n.k in ("Bind", "Inherit", "With")]
        for n in r.sample(ns, min(4, len(ns))):
            b = {"Bind": lambda: n.path[0].lo, "Inherit": lambda: n.lo + 1, "With": lambda: n.lo + 1}[n.k]()
            out.append((b, b))
        return out

    def same(self, ctx, p, q, lo, hi, x):
        t = x["title"]
        if t.startswith("Convert `with`"):
            w = innermost_with(p, lo, hi)
            a = OneWith(p, w)
            b = denote.Denote(q.tree, q.R, data=q.data, inline=True)
            if a.form != b.form or q.R.model.dups:
                yield "changes the program: %s\n%s" % (denote.diff(a.form, b.form), q.text[:400])
            return
        bad = list(super().same(ctx, p, q, lo, hi, x))
        if bad and t == "Convert to `inherit`":
            (e,), = x["edit"]["changes"].values()
            n = next((n for n in nixparse.walk(p.tree) if n.k == "Bind" and p.rng(n.lo, n.hi) == e["range"]), None)
            if n is not None and n.value.k == "Var":
                v = p.R.vars[(n.value.lo, n.value.hi)]
                if v[0] == "def" and v[1].range == (n.path[0].lo, n.path[0].hi):
                    ctx.count("infinite recursion converted to inherit")
                    return
        yield from bad

    def offers(self, p, b):
        if not re.match(r"[a-zA-Z_'-]{2}", p.data[b - 1:b + 1]):
            return      # what a cursor between two tokens points at is not judged
        ch = chain(p, b)
        n = ch[-1]
        if n.k == "AName" and n.kind == "id":
            yield "Quote attribute name"
        if n.k == "AName" and n.kind == "str" and IDENT.match(n.name) and n.name not in RESERVED:
            yield "Unquote attribute name"
        if n.k == "With" and n.lo < b < n.lo + 4:
            uses = [(rg, v) for rg, v in p.R.vars.items() if v[0] == "with" and any(w is n for w in v[1])]
            names = {p.R.names[rg] for rg, v in uses}
            inner = {x.name for x in nixparse.walk(n.with_) if x.k == "Var"}
            for s in nixparse.walk(n.with_):
                if s.k == "Inherit" and s.frm is None:
                    inner |= {a.name for a in s.names}
            if uses and all(v[1][0] is n for _, v in uses) and not names & inner:
                yield "Convert `with` to `let/inherit`"
        bd = innermost(ch, "Bind")
        if bd is not None:
            v = bd.value
            if v.k == "Attrs" and not v.rec and v.binds and static(bd.path) and all(x.k == "Bind" and static(x.path) for x in v.binds):
                yield "Flatten nested attribute set"
            if len(bd.path) == 1 and static(bd.path):
                if v.k == "Var" and v.name == bd.path[0].name:
                    yield "Convert to `inherit`"
                if v.k == "Select" and v.default is None and static(v.path) and v.path[-1].name == bd.path[0].name:
                    yield "Convert to `inherit ("
            up = parent(ch, bd)
            if len(bd.path) > 1 and static(bd.path) and up.k == "Attrs" and not up.rec:
                f = bd.path[0].name
                sib = [x for x in up.binds if x.k == "Bind" and x.path[0].kind in ("id", "str") and x.path[0].name == f]
                if all(len(x.path) > 1 and static(x.path) for x in sib):
                    if not any(x is not bd and x.path[1].name == bd.path[1].name for x in sib):
                        yield "Pack dotted path to nested set"
                    if len(sib) > 1:
                        yield "Pack all '%s' bindings" % f.encode("latin-1").decode("utf-8")
        ih = innermost(ch, "Inherit")
        if ih is not None and len(ih.names) == 1:
            up = parent(ch, ih)
            if ih.frm is not None or (up.k == "Attrs" and not up.rec and ih.names[0].name not in RESERVED and IDENT.match(ih.names[0].name)):
                yield "Convert to explicit binding"


def chain_closed(p, lo, hi):
    out, n = [], p.tree
    while n is not None:
        out.append(n)
        n = next((x for x in nixparse.kids(n) if x.lo is not None and x.lo <= lo and hi <= x.hi), None)
    return out


def innermost_with(p, lo, hi):
    return next(n for n in reversed(chain_closed(p, lo, hi)) if n.k == "With" and n.lo <= lo)




class StrText:
    """Programs full of string literals of both kinds."""
    DQ = ["a", "b c", " ", "  ", "\n", "\n  ", "\r", "\r\n", "\t", "'", "''", "'''", "$", "$$", "$$$", "\\${", "\\$", "\\n", "\\r", "\\t", "\\\\", "\\\"",
          "\\q", "\\'", "{", "}", "\\n  ", "\xc3\xa9", "\xf0\x9f\x98\x80", "# c", "/*", "http://x", "''\\\\", "$'", "'$", "\\n ", "\x01"]
    IND = ["a", "b c", " ", "  ", "\n", "\n  ", "\n    ", "\n\n", "\r", "\r\n", "\t", "\n\t", "'", "'''", "''$", "''${", "''\\n", "''\\r", "''\\t", "''\\ ",
           "''\\'", "''\\q", "''\\$", "$", "$$", "$$$", "\"", "\\", "\\n", "{", "}", "\xc3\xa9", "\xf0\x9f\x98\x80", "'a", "\n ", "   x\n", "''\\\n", "\n  y"]

    def __init__(self, r):
        self.r = r

    def string(self, d=2):
        r = self.r
        ind = r.random() < .5
        atoms = self.IND if ind else self.DQ
        if r.random() < .4:
            atoms = r.sample(atoms, 4)
        out = []
        for _ in range(r.choice([0, 1, 1, 2, 3, 4, 6, 9])):
            if d > 0 and r.random() < .2:
                out.append("${%s}" % self.expr(d - 1))
            else:
                out.append(r.choice(atoms))
        q = "''" if ind else '"'
        return q + "".join(out) + q

    def expr(self, d):
        r = self.r
        return r.choice([lambda: "x", lambda: "x.y", lambda: self.string(d), lambda: "{ a = 1; }.a", lambda: "f " + self.string(d),
                         lambda: "\n    x\n  "])()

    def program(self):
        r = self.r
        s = [self.string() for _ in range(4)]
        g = r.choice(["", " ", "\n"])
        return r.choice(["%s" % s[0], "[%s%s%s%s%s]" % (g, s[0], g, s[1], g), "f%s%s" % (g, s[0]), "x: f %s%s%s" % (s[0], g, s[1]),
                         "{ a = %s; b =%s%s; }" % (s[0], g, s[1]), "(%s)" % s[0], "1%s%s" % (g, s[0]), "if a then%s%s else%s%s" % (g, s[0], g, s[1]),
                         "%s+%s" % (s[0], s[1]), "./p%s%s" % (g, s[0]), "http://x%s%s" % (g, s[0]), "a.b or%s%s" % (g, s[0]), "f %s" % s[1],
                         "<p>%s%s" % (g, s[0]), "{ a.%s = %s; }" % ('"k"', s[0]), "assert a ==%s;%s" % (s[0], s[1]), "x'%s%s" % (g, s[0]),
                         "{ ${%s} = %s; }" % (s[0], s[1]), "let a = %s; in%s%s" % (s[0], g, s[1])])


class C28(Actions):
    id = "C28"
    rule = "a distinct program and rewritten string"
    quick = 8000
    thorough = 100000
    mine = ("Convert to indented", "Convert to double-quoted")

    def fixed(self):
        return ['"a"', "''a''", '"\'"', '"$"', "f\"a\"", "[\"a\"''b'']", "''\n  a\n    b\n''", "''\n  ''", '"\\n  "', '"  a"', '"a\\n "', '"$${x}"', "''$''${x}''",
                "''''${x}''", '"\\$${x}"', "''a\n  ${x}\n   b''", "''\n\ta\n  b\n''", '"a\r\nb"', "''a\r\nb''", "''\n  a${''b''}\n''", '""', "''''",
                '"${"a"}"', "{ ${\"a\"} = 1; \"b\" = 2; }", "x.\"a\"", "''  ''\\n a''"]

    def case(self, ctx, i):
        r = ctx.rng(i)
        p = None
        for _ in range(50):
            t = StrText(r).program() if r.random() < .8 else None
            try:
                p = prog.Prog(t) if t is not None else prog.generate(r, builtin=.04, unbound=.1)
                if not p.R.model.dups and not p.R.model.diffrec and not domain.undecided(p.data, p.tree):
                    break
            except nixparse.NixError:
                pass
            p = None
        if p is None:
            ctx.count("undecided")
            return
        out = []
        for n in nixparse.walk(p.tree):
            if n.k == "Str" and n.lo is not None:
                for b in {n.lo, n.lo + 1, n.hi - 1, n.hi, r.randint(n.lo, n.hi)}:
                    out.append((b, b))
        self.play(ctx, p, r.sample(out, min(8, len(out))))

    def offers(self, p, b):
        ch = chain(p, b)
        s = innermost(ch, "Str")
        if s is None or s is not ch[-1] and ch[ch.index(s):][-1].k not in ("Str",):
            return
        if any(n.k == "AName" for n in ch):
            return
        if s.ind and not (s.lo + 2 <= b <= s.hi - 2) or p.data[b - 1:b + 1] in ("${", "''"):
            return
        yield "Convert to double-quoted" if s.ind else "Convert to indented"


class Odd(Exception):
    pass


def jsonvalue(n):
    """The value of a literal Nix expression."""
    k = n.k
    if k == "Paren":
        return jsonvalue(n.e)
    if k == "Var" and n.name in ("true", "false", "null"):
        return {"true": True, "false": False, "null": None}[n.name]
    if k == "Int":
        return int(n.v)
    if k == "Float":
        return float(n.v)
    if k == "Un" and n.op == "-":
        v = jsonvalue(n.e)
        if isinstance(v, bool) or not isinstance(v, (int, float)):
            raise Odd("negated %r" % (v,))
        return -v
    if k == "Bin" and n.op in "+-":
        a, b = jsonvalue(n.l), jsonvalue(n.r)
        if type(a) is not int or type(b) is not int:
            raise Odd("operator")
        v = a + b if n.op == "+" else a - b
        if not -2 ** 63 <= v < 2 ** 63:
            raise Odd("overflow")
        return v
    if k == "Str":
        if any(not isinstance(p, str) for p in n.parts):
            raise Odd("interpolation")
        if n.ind:
            raise Odd("indented string")
        return "".join(n.parts).encode("latin-1").decode("utf-8")
    if k == "List":
        return [jsonvalue(x) for x in n.es]
    if k == "Attrs" and not n.rec:
        out = {}
        for b in n.binds:
            if b.k != "Bind" or len(b.path) != 1 or b.path[0].kind not in ("id", "str"):
                raise Odd("binding")
            a = b.path[0].name.encode("latin-1").decode("utf-8")
            if a in out:
                raise Odd("%s is defined twice" % a)
            out[a] = jsonvalue(b.value)
        return out
    raise Odd(k)


def typed(v):
    """Numbers that JSON writes as integers stay integers where Nix has them."""
    if isinstance(v, dict):
        return {k: typed(x) for k, x in v.items()}
    if isinstance(v, list):
        return [typed(x) for x in v]
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return (type(v).__name__, v)
    if isinstance(v, int) and not -2 ** 63 <= v < 2 ** 63:
        return ("number", float(v))
    return ("number", v)


def deep(v):
    if isinstance(v, (dict, list)):
        return 1 + max([deep(x) for x in (v.values() if isinstance(v, dict) else v)] or [0])
    return 0


class C29(Server):
    id = "C29"
    rule = "a distinct selected text"
    evaluation = "json"
    builds = (("asan", ("nixd-bin",)),)
    deterministic = False
    quick = 6000
    quick_cap = 60
    thorough = 100000
    TITLE = "Convert JSON to Nix"
    STR = ["a", "foo", "x y", "if", "or", "true", "null", "\\n", "\\r", "\\t", "\\b", "\\f", "\\/", "\\\\", "\\\"", "\\u0001", "\\u00e9", "\\u20ac", "\\u0022", "\\u005c",
           "\\u0024{", "$", "${", "$${", "${a}", "\\\\${", "'", "''", "\u00e9", "\U0001F600", "#", "-", "1", " ", "\u2028", "/*", "_a", "a-b", "a'", "1a", ".", "\x7f"]
    NUM = ["0", "1", "-1", "-0", "42", "9223372036854775807", "-9223372036854775808", "-9223372036854775807", "9223372036854775808", "18446744073709551615",
           "18446744073709551616", "-9223372036854775809", "1e2", "1E2", "1e22", "1e+22", "-1e22", "1e-7", "9.5367431640625e-07", "1.5", "-1.5", "0.1", "-0.1", "1.0",
           "-1.0", "0.0", "-0.0", "1e300", "5e-324", "1.7976931348623157e308", "123456789012345678901234567890", "0.30000000000000004", "1e16", "1e17", "1e18", "1e19",
           "2.5e15", "12345678.9", "1e0", "100000000000000000000.5", "1e-5", "-1e-300", "3.14"]

    def fixed(self):
        return ['[1]', '{"a": 1}', '[-1, -2.5]', '{"a": -1}', '[]', '{}', '[1e22]', '{"if": {"a b": []}}', '["${x}"]', '["\\u0000"]', '{"\\u0000": 1}', '[1e400]',
                '[-9223372036854775808]', "[" * 100 + "1" + "]" * 100, "[" * 150 + "1" + "]" * 150, "[" + ",".join(["1"] * 10000) + "]", '{"a":1,"a":2}', '1', '"a"', 'null',
                '[1,]', "{a = 1;}", '[1 2]', '{"":1}', '[""]', '["\\ud83d\\ude00"]']

    def options(self, ctx, r):
        return {"timeout": 60}

    def string(self, r):
        return '"%s"' % "".join(r.choice(self.STR) for _ in range(r.choice([0, 1, 1, 1, 2, 3])))

    def value(self, r, d):
        k = r.random()
        s = lambda: r.choice(["", "", "", " ", "\n", "\r\n", "\t"])
        if d > 0 and k < .45:
            n = r.choice([0, 1, 2, 3, 5])
            if r.random() < .5:
                return "[%s%s]" % (s(), ",".join(s() + self.value(r, d - 1) + s() for _ in range(n)))
            ks = {}
            for _ in range(n):
                x = self.string(r)
                ks[json.loads(x, strict=False)] = x
            return "{%s%s}" % (s(), ",".join(s() + x + s() + ":" + s() + self.value(r, d - 1) + s() for x in ks.values()))
        if k < .7:
            return r.choice(self.NUM) if r.random() < .7 else repr(r.choice([r.uniform(-1, 1), r.gauss(0, 1e18), r.randint(-2 ** 64, 2 ** 64), 10.0 ** r.randint(-320, 308)]))
        if k < .8:
            return r.choice(["true", "false", "null"])
        return self.string(r)

    def case(self, ctx, i):
        r = ctx.rng(i)
        k = r.random()
        if k < .03:
            n = r.choice([10, 99, 100, 101, 102, 140])
            t = "".join(r.choice(['[', '{"a":']) for _ in range(n))
            t += r.choice(["1", "[]", "{}"]) + "".join("]" if c == "[" else "}" for c in reversed(t) if c in "[{")
        elif k < .04:
            n = r.choice([9999, 10000, 10001])
            t = "[" + ",".join(["0"] * n) + "]"
        else:
            t = self.value(r, r.choice([1, 2, 3, 4]))
            for _ in range(20):
                if t[:1] in "[{" and len(t) > 4 or r.random() < .05:
                    break
                t = self.value(r, 3)
            if r.random() < .12:
                q = r.randrange(len(t) + 1)
                t = r.choice([t[:q] + t[q + 1:], t[:q] + r.choice(',:[]{}"1a;=') + t[q:], t[:q], t + " ", t + ";", " " + t])
        self.one(ctx, t, r.choice(["", "{ a = ", "x: ", "# \u00e9\U0001F600 ", "\"\U0001F600\" + ", "\r\n\n", "[ "]), r.choice(["", "; }", "\n", " ]", "\U0001F600"]))

    def judge(self, ctx, t):
        self.one(ctx, t if isinstance(t, str) else t.encode("latin-1").decode("utf-8"), "", "")

    def expected(self, t):
        """(whether an action is expected, the value); None where it is not decided."""
        if t[:1] not in ("[", "{"):
            return False, None
        try:
            def no(x):
                raise ValueError(x)
            v = json.loads(t, parse_constant=no, strict=False)
        except (ValueError, RecursionError):
            return None, None
        if not v:
            return False, None
        bad = []

        def walk(x):
            if isinstance(x, (list, dict)):
                if len(x) > 10000:
                    bad.append("wide")
                for y in x:
                    walk(y)
                if isinstance(x, dict):
                    for y in x.values():
                        walk(y)
            elif isinstance(x, str) and "\0" in x:
                bad.append("nul")
            elif isinstance(x, float) and x in (float("inf"), float("-inf")):
                bad.append("inf")
        walk(v)
        d = deep(v)
        if bad or d > 101:
            return False, v
        if d > 99:
            return None, v
        return True, v

    def one(self, ctx, t, pre, post):
        text = pre + t + post
        try:
            text.encode("utf-8")
            c = self.client(ctx)
            name = "d%d.nix" % self.used
            u, _ = c.open(name, text)
            def pos(i):
                l, ch = lsptext.to_pos(text, i)
                return {"line": l, "character": ch}
            rg = {"start": pos(len(pre)), "end": pos(len(pre) + len(t))}
            a = c.wait(c.post("textDocument/codeAction", {"textDocument": {"uri": u}, "range": rg, "context": {"diagnostics": []}}))
            c.close(name)
            c.forget()
            ctx.count("selections")
            if "error" in a:
                ctx.violation("codeAction fails: %s" % a["error"]["message"], {"text": text, "selected": t})
                return
            xs = [x for x in a["result"] if x["title"] == self.TITLE]
            want, v = self.expected(t)
            ctx.distinct(t)
            ctx.sample({"selected": t[:200], "offered": bool(xs)})
            if want is not None:
                ctx.count("expected" if want else "not expected")
                if want != bool(xs):
                    ctx.violation("the action is %s" % ("not offered" if want else "offered"), {"text": text[:2000], "selected": t[:2000]})
                    return
            if len(xs) > 1:
                ctx.violation("offered %d times" % len(xs), {"text": text, "selected": t})
            for x in xs:
                ctx.count("actions")
                ch = (x.get("edit") or {}).get("changes") or {}
                es = ch.get(u)
                if set(ch) != {u} or len(es) != 1 or es[0]["range"] != rg:
                    ctx.violation("replaces another range", {"text": text[:2000], "selected": t[:2000], "action": x})
                    continue
                new = es[0]["newText"]
                try:
                    w = jsonvalue(nixparse.parse(new.encode("utf-8").decode("latin-1")))
                except (nixparse.NixError, Odd) as e:
                    ctx.violation("not the JSON value (%s): %s" % (e, new[:300]), {"text": text[:2000], "selected": t[:2000], "action": x})
                    continue
                if v is not None and typed(v) != typed(w):
                    ctx.violation("another value: %s" % new[:300], {"text": text[:2000], "selected": t[:2000], "action": x})
        except (rpc.Dead, lsp.Lost) as e:
            if self.c is None:
                raise
            self.died(ctx, e, {"text": text})
        except UnicodeEncodeError:
            ctx.count("undecided")


class Beta(denote.Denote):
    """Takes (({ a, b }: e) { a = x; b = y; }) at byte `at` as e."""

    def __init__(self, p, at):
        self.at = at
        super().__init__(p.tree, p.R, data=p.data)

    def go(self, n):
        if n is not None and n.k == "Call" and n.fn.k == "Paren" and n.fn.lo == self.at:
            f, a = n.fn.e, n.args[0]
            s = self.set(self.R.model.sets[id(a)])
            given = {x[0]: x[2] for x in s[1]}
            names = {x.name.name for x in f.formals}
            if names != set(given):
                raise Odd("takes %s, given %s" % (sorted(names), sorted(given)))
            for x in f.formals:
                d = self.defs.get((x.name.lo, x.name.hi))
                self.subst[id(d)] = given[x.name.name]
            e = self.go(f.body)
            if len(n.args) > 1:
                return ("call", e, tuple(self.go(x) for x in n.args[1:]))
            return e
        return super().go(n)


EXTRACTABLE = ("Lambda", "Let", "If", "With", "Call", "Bin", "Un", "HasAttr", "Assert", "Paren")


def filename(ch, n):
    """The name a file for the node n gets."""
    i = next(i for i, x in enumerate(ch) if x is n)
    b = next((x for x in reversed(ch[:i]) if x.k == "Bind"), None)
    if b is not None and b.path[-1].kind in ("id", "str"):
        return re.sub(r"[^a-zA-Z0-9_-]", "_", b.path[-1].name) + ".nix"
    return {"Lambda": "extracted-lambda", "Attrs": "extracted-attrs", "List": "extracted-list", "Let": "extracted-let",
            "If": "extracted-if"}.get(n.k, "extracted") + ".nix"


class C37(Actions):
    id = "C37"
    rule = "a distinct program and extraction"
    quick = 5000
    thorough = 60000
    mine = ("Extract to ",)
    exact = True
    DIRS = ["", "", "a%20b/", "p%25q/", "\u00e9/", "%C3%A9%23/", "x/y/"]

    def fixed(self):
        return ["{ a = f x y; }", "x: [ (f x) ]", "with a; [ b c ]", "x: with a; { y = f x z; }", "x: { a = { inherit x; }; }", "with a; { b = with c; [ d ]; }",
                "let f = x: x; in f 1", "{ a = { b = 1; }; a.c = 2; }", "{ a.c = 2; a = { b = 1; }; }", "{ a = { b = { c = 1; }; }; a.b.d = 2; }", "let import = 1; in [ a ]",
                "a: if(a b)then(b c)else(c d)", "[(a b)(c d)]", "x: y:(x y)", "(a b).c", "(a b) c", "a-(b c)", "rec { a = f b; b = 1; }", "{ \"a b\" = f x; }", "{ ${a} = f x; }",
                "map: map f", "{ a ? f b, b }: a", "let x = 1; in with y; [ x z ]", "a:(b c)", "\"${f x}\"", "x: x ++(f x)", "{ inherit (f x) y; }", "let { body = 1; }"]

    def case(self, ctx, i):
        r = ctx.rng(i)
        p = attrprogram(r) if r.random() < .3 else prog.generate(r, builtin=.04, unbound=.1)
        if domain.undecided(p.data, p.tree) or any(n.k == "LegacyLet" for n in nixparse.walk(p.tree)):
            ctx.count("undecided")
            return
        if p.R.model.dups or p.R.model.diffrec:
            ctx.count("duplicates")
            return
        self.where = r.choice(self.DIRS)
        self.files = []
        ns = [n for n in nixparse.walk(p.tree) if n.k == "Bind" and n.path[-1].kind in ("id", "str")]
        base = [re.sub(r"[^a-zA-Z0-9_-]", "_", n.path[-1].name) for n in ns] + ["extracted", "extracted-list", "extracted-attrs"]
        for f in r.sample(base, min(len(base), r.choice([0, 0, 1, 2]))):
            self.files.append(f + ".nix")
            for k in range(1, r.choice([1, 1, 2, 3])):
                self.files.append("%s-%d.nix" % (f, k))
        self.play(ctx, p, self.ranges(r, p))

    def judge(self, ctx, t):
        self.where, self.files = "", []
        super().judge(ctx, t)

    def ranges(self, r, p):
        out = super().ranges(r, p)
        ns = [n for n in nixparse.walk(p.tree) if n.lo is not None and (n.k in EXTRACTABLE or n.k in ("Attrs", "List", "AName"))]
        for n in r.sample(ns, min(6, len(ns))):
            out.append((n.lo, n.hi) if r.random() < .5 else (min(n.lo + 1, n.hi),) * 2)
        return out

    def client(self, ctx, r=None):
        c = super().client(ctx, r)
        self.disk = os.path.join(c.dir, "docs", urllib.parse.unquote(self.where))
        os.makedirs(self.disk, exist_ok=True)
        for f in self.files:
            open(os.path.join(self.disk, f), "w").close()
        self.prefix = "docs/" + self.where
        return Within(c, self)

    def existing(self):
        return set(os.listdir(self.disk))

    def action(self, ctx, p, u, lo, hi, x):
        try:
            yield from self.extraction(ctx, p, u, lo, hi, x)
        except Odd as e:
            yield "%s: %s" % (e, json.dumps(x)[:600])

    def extraction(self, ctx, p, u, lo, hi, x):
        e = x.get("edit") or {}
        dc = e.get("documentChanges")
        if set(e) - {"changes"} != {"documentChanges"} or e.get("changes") or len(dc) != 3:
            raise Odd("unexpected edit")
        create, fill, edit = dc
        path = lambda v: urllib.parse.unquote(urllib.parse.urlsplit(v).path)
        if create.get("kind") != "create" or create.get("options", {}).get("overwrite"):
            raise Odd("no file is created")
        new = path(create["uri"])
        m = re.match(r"Extract to (\S+\.nix)(?: \((\d+) free variables?(, has 'with' vars)?\))?\Z", x["title"])
        if not m:
            raise Odd("odd title")
        name = m.group(1)
        if new != os.path.join(self.disk, name):
            raise Odd("creates %s, not %s" % (new, name))
        if name in self.existing():
            raise Odd("the file exists")
        if path(fill["textDocument"]["uri"]) != new or path(edit["textDocument"]["uri"]) != path(u):
            raise Odd("edits another file")
        for t in (fill, edit):
            if t["textDocument"].get("version") is not None:
                raise Odd("the edit is for version %s, the document has 1" % t["textDocument"]["version"])
        content = lsptext.apply_edits("", fill["edits"])
        if len(edit["edits"]) != 1:
            raise Odd("several edits")
        ed = edit["edits"][0]
        text = lsptext.apply_edits(p.text, [ed])
        if content is None or text is None:
            raise Odd("edits cannot be applied")
        ns = [n for n in nixparse.walk(p.tree) if n.lo is not None and p.rng(n.lo, n.hi) == ed["range"]]
        if not ns:
            raise Odd("replaces what is not an expression")
        try:
            q = prog.Prog(text.encode("utf-8").decode("latin-1"))
            f = prog.Prog(content.encode("utf-8").decode("latin-1"))
        except nixparse.NixError as ex:
            raise Odd("breaks the syntax (%s): %s | %s" % (ex, text[:300], content[:300]))
        b = ed["newText"].encode("utf-8").decode("latin-1")
        at = b.index("import ./") + ns[0].lo
        call = "import ./" + name
        if not q.data.startswith(call, at):
            raise Odd("does not import the file: %s" % b)
        iv = q.R.vars.get((at, at + 6))
        if iv is None or iv[1] is None or iv[0] != "undef" and iv[1].kind != "builtin":
            raise Odd("imports with another function than the builtin")
        # what the new file leaves free is free in the program
        free = {}
        for rg, v in p.R.vars.items():
            if v[0] == "undef" or v[0] == "def" and v[1].kind == "builtin":
                free.setdefault(p.R.names[rg], []).append(rg)
        for rg, v in f.R.vars.items():
            n = f.R.names[rg]
            if (v[0] == "undef" or v[0] == "def" and v[1].kind == "builtin") and \
                    not any(ns[0].lo <= g[0] < ns[0].hi for g in free.get(n, [])):
                raise Odd("the new file does not know %s: %s" % (n, content[:300]))
        takes = 0
        if m.group(2):
            takes = int(m.group(2))
            if f.tree.k != "Lambda" or f.tree.formals is None or f.tree.arg is not None or f.tree.ell or len(f.tree.formals) != takes:
                raise Odd("not a function of %d arguments: %s" % (takes, content[:300]))
        # put it back
        t3 = q.data[:at] + "(" + f.data + ")" + q.data[at + len(call):]
        try:
            w = prog.Prog(t3)
        except nixparse.NixError as ex:
            raise Odd("cannot be put back (%s): %s" % (ex, t3[:300]))
        a = denote.Denote(p.tree, p.R, data=p.data)
        c = Beta(w, at if takes else -1)
        if a.form != c.form or w.R.model.dups:
            yield "changes the program: %s\n%s\n%s" % (denote.diff(a.form, c.form), text[:400], content[:400])
        ctx.count("with free variables" if takes else "closed")
        if name != filename(Path(p, ns[-1]), ns[-1]):
            ctx.count("numbered files")

    def offered(self, p, lo, hi):
        vs = [n for n in nixparse.walk(p.tree) if n.lo == lo and n.hi == hi]
        if len(vs) != 1:
            return
        v = vs[0]
        if v.k not in EXTRACTABLE and not (v.k == "Attrs" and v.binds) and not (v.k == "List" and v.es):
            return
        if any(d.name == "import" for d in p.R.defs):
            return
        inside = lambda n: v.lo <= n.lo and n.hi <= v.hi
        for rg, x in p.R.vars.items():
            if v.lo <= rg[0] < v.hi and x[0] == "with" and len({inside(w) for w in x[1]}) > 1:
                return
            if v.lo <= rg[0] < v.hi and (not IDENT.match(p.R.names[rg]) or p.R.names[rg] in RESERVED):
                return
        if v.k == "Attrs" and merged(p, v):
            return
        yield "Extract to "


def merged(p, v):
    """Whether other bindings add to the set v, the value of a binding."""
    if getattr(p.R.model.sets.get(id(v)), "gone", False):
        return True
    path, ch = (), Path(p, v)
    while len(ch) > 2 and ch[-2].k == "Bind" and static(ch[-2].path):
        path = tuple(a.name for a in ch[-2].path) + path
        for s in ch[-3].binds:
            if s.k == "Bind" and s is not ch[-2] and tuple(a.name if a.kind in ("id", "str") else None for a in s.path[:len(path)]) == path:
                return True
        ch = ch[:-2]
    return False


def Path(p, n):
    out, x = [], p.tree
    while x is not None:
        out.append(x)
        if x is n:
            break
        x = next((y for y in nixparse.kids(x) if y.lo is not None and y.lo <= n.lo and n.hi <= y.hi), None)
    return out


class Within:
    """The client, for documents in a directory."""

    def __init__(self, c, check):
        self.c, self.check = c, check

    def open(self, name, text):
        return self.c.open(self.check.prefix + name, text)

    def close(self, name):
        return self.c.close(self.check.prefix + name)

    def __getattr__(self, k):
        return getattr(self.c, k)


class NewFormal(denote.Denote):
    """The formal x of the lambda at `at` is not there, its uses are free."""

    def __init__(self, p, at, name):
        self.at, self.new = at, name
        super().__init__(p.tree, p.R, data=p.data)

    def var(self, rg):
        v = self.R.vars[rg]
        if v[0] == "def" and v[1] is self.gone:
            return ("free", self.new)
        return super().var(rg)

    def go(self, n):
        if n is not None and n.k == "Lambda" and n.lo == self.at and n.formals is not None:
            f = next((f for f in n.formals if f.name.name == self.new), None)
            if f is None or f.default is not None:
                raise Odd("does not add the formal")
            self.gone = self.defs.get((f.name.lo, f.name.hi))
            t = super().go(n)
            return t[:2] + (tuple(x for x in t[2] if x[0] != self.new),) + t[3:]
        return super().go(n)

    gone = None


class C36(Actions):
    id = "C36"
    rule = "a distinct document and quick fix, formal or link to the documentation"
    evaluation = "documents"
    builds = (("asan", ("nixd-bin", "nixfprobe")),)
    quick = 5000
    thorough = 60000
    mine = ("add `", "Open Noogle")
    probe = None

    def fixed(self):
        return ["{ }: x", "{a}: x", "{ a, ... }: x", "{ ... }: x", "{ a, }: x", "{ a ? 1 }: x y", "args@{ a }: x", "{ a }@args: x", "{ a }: y: x", "{ a ? x }: a",
                "{ # c\n}: x", "{ }: { }: x", "lib.strings.toUpper", "f lib.a.b lib.c", "lib.a.${b}", "(lib).a", "lib.\"a b\"", "lib.a or lib.b", "let a = 1; b = 2; in \"\U0001F600\" + a".encode().decode("latin-1"),
                "rec { a = 1; }", "with a; 1", "{ a = 1; a = 2; }", "let inherit (x) y z; in y", "{ inherit; }", "(1)", "{ a, a }: 1", "{ a b }: 1", "a.b.", "/* ",
                "{ \xc3\xa9 = 1; }", "isNull x", "{ a, \xc3\xa9 ? 2 }: x", "{ a }:\r\n  x", "{ a\r\n, b\r\n}:\r\n  x"]

    def fixes(self, rep, text, u):
        data = text.encode("utf-8")

        def pos(b):
            lo = hi = b
            while lo > 0 and lo < len(data) and data[lo] & 0xC0 == 0x80:
                lo -= 1
            while hi < len(data) and data[hi] & 0xC0 == 0x80:
                hi += 1
            return tuple(tuple(lsptext.to_pos(text, len(data[:x].decode("utf-8")))) for x in (lo, hi))
        out = []
        for d in rep["diags"]:
            for f in d["fixes"]:
                out.append({"d": d, "title": f["m"].encode("latin-1").decode("utf-8", "replace"), "pref": d["s"] == "sema-unused-def-let",
                            "edits": [((pos(e[0][0]), pos(e[0][1])), e[1].encode("latin-1").decode("utf-8", "replace")) for e in f["e"]]})
        return out

    def same_fix(self, x, f, u):
        e = x.get("edit") or {}
        if set(e) != {"changes"} or set(e["changes"]) != {u} or x["title"] != f["title"] or bool(x.get("isPreferred")) != f["pref"]:
            return False
        es = e["changes"][u]
        return len(es) == len(f["edits"]) and all(
            tuple(g["range"]["start"].values()) is not None and (g["range"]["start"]["line"], g["range"]["start"]["character"]) in w[0][0] and
            (g["range"]["end"]["line"], g["range"]["end"]["character"]) in w[0][1] and g["newText"] == w[1] for g, w in zip(es, f["edits"]))

    def judge(self, ctx, t):
        text = t.encode("latin-1").decode("utf-8") if isinstance(t, str) else t.decode("utf-8")
        n = len(text.encode("utf-8"))
        self.one(ctx, text, [(b, b) for b in range(n + 1)] + [(0, n)])

    def case(self, ctx, i):
        r = ctx.rng(i)
        k = r.random()
        if k < .45:
            _, text = document(r)
        elif k < .8:
            text = prog.generate(r, builtin=.04, unbound=r.choice([.1, .5])).text
        else:
            fs = r.sample(["a", "b ? 1", "c ? x", "d\n", "e # c\n", "f /* \u00e9 */"], r.randint(0, 3))
            g = ("," + r.choice(["", " ", "\n"])).join(fs) + r.choice(["", "", ", ...", ", "] if fs else ["", "", "..."])
            b = r.choice(["x", "x + y", "z: x", "with w; x", "[ x lib.a.b (lib.c or x) ]", "{ x, ... }: y", "let v = x; in \"\u00e9${v}${lib.a.b-c.d x}\"", "{ inherit x; }",
                          "lib.x.\"y z\".w", "{ lib.a = lib.b; }", "x lib", "(lib.a).b", "lib.a ? b", "f: x f"])
            text = "%s{%s%s%s}%s:%s%s" % (r.choice(["", "", "args@", "/* \U0001F600 */"]), r.choice(["", " ", "\n"]), g, r.choice(["", " ", "\n", " # }\n"]),
                                          r.choice(["", "", "@args"]), r.choice([" ", "\n", "\r\n"]), b)
        if r.random() < .1:
            text = text.replace("\n", "\r\n")
        data = text.encode("utf-8")
        self.r = r
        self.one(ctx, text, None)

    def one(self, ctx, text, ranges):
        data = text.encode("utf-8")
        if "\0" in text:
            ctx.count("undecided")
            return
        if self.probe is None:
            self.probe = probe.Probe(ctx.paths["asan/nixfprobe"])
        rep = self.probe.ask(data, 7)
        try:
            p = prog.Prog(data.decode("latin-1"))
            if domain.undecided(p.data, p.tree) or any(n.k == "LegacyLet" for n in nixparse.walk(p.tree)) or p.R.model.dups:
                p = None
        except nixparse.NixError:
            p = None
        try:
            c = self.client(ctx)
            name = "d%d.nix" % self.used
            u, _ = c.open(name, text)
            fx = self.fixes(rep, text, u)
            if ranges is None:
                r = self.r
                n = len(data)
                ranges = []
                for d in r.sample(rep["diags"], min(4, len(rep["diags"]))):
                    lo, hi = d["r"][:2]
                    ranges += [(lo, lo), (hi, hi), (lo, hi)]
                    b = r.randint(min(lo, hi), max(lo, hi))
                    ranges.append((b, b))
                for _ in range(2):
                    ranges.append(tuple(sorted((r.randint(0, n), r.randint(0, n)))))
                if p is not None:
                    vs = [x for x in nixparse.walk(p.tree) if x.lo is not None and x.k in ("Var", "Select")]
                    for x in r.sample(vs, min(6, len(vs))):
                        b = r.randint(x.lo, x.hi)
                        ranges.append((b, b))
            q = p or Text(text)
            pend = []
            for lo, hi in ranges:
                lo, hi = self.boundary(q, lo), self.boundary(q, hi)
                pend.append((lo, hi, c.post("textDocument/codeAction", {
                    "textDocument": {"uri": u}, "range": q.rng(lo, hi), "context": {"diagnostics": []}})))
            done = set()
            for lo, hi, i in pend:
                a = c.wait(i)
                ctx.count("requests")
                data_ = {"text": text, "at": [lo, hi]}
                if "error" in a:
                    ctx.violation("codeAction fails: %s" % a["error"]["message"], data_)
                    continue
                quick = [x for x in a["result"] if x.get("kind") == "quickfix" and not x["title"].startswith("add `")]
                rest = list(quick)
                for f in fx:
                    dlo, dhi = f["d"]["r"][:2]
                    # ranges that only touch may or may not be taken to overlap
                    must = max(lo, dlo) < min(hi, dhi) or dlo < lo == hi < dhi or lo < dlo == dhi < hi
                    x = next((x for x in rest if self.same_fix(x, f, u)), None)
                    if x is not None:
                        rest.remove(x)
                        ctx.count("fixes")
                        ctx.distinct((text, f["title"], lo))
                        if hi < dlo or dhi < lo:
                            ctx.violation("the fix %r of %s is offered elsewhere" % (f["title"], f["d"]["s"]), data_)
                    elif must:
                        ctx.violation("the fix %r of %s is not offered" % (f["title"], f["d"]["s"]), dict(data_, offered=quick, want=repr(f["edits"])))
                for x in rest:
                    ctx.violation("the quick fix %r is none of a diagnostic" % x["title"], dict(data_, action=x))
                if p is None:
                    continue
                for x in a["result"]:
                    if not x["title"].startswith(self.mine):
                        continue
                    k = json.dumps(x, sort_keys=True)
                    if k in done:
                        continue
                    done.add(k)
                    ctx.count(re.sub(r"`.*`|for .*", "..", x["title"]))
                    ctx.distinct((text, k))
                    try:
                        for bad in self.action(ctx, p, u, lo, hi, x):
                            ctx.violation("%s: %s" % (x["title"], bad), dict(data_, action=x))
                    except Odd as e:
                        ctx.violation("%s: %s" % (x["title"], e), dict(data_, action=x))
                if lo == hi:
                    want = list(self.offers(p, lo))
                    for w in want:
                        ctx.count("expected " + re.sub(r"`.*`|for .*", "..", w))
                        if not any(x["title"] == w for x in a["result"]):
                            ctx.violation("%r is not offered" % w, dict(data_, offered=[x["title"] for x in a["result"]]))
                    if want is not None and self.decided(p, lo):
                        for x in a["result"]:
                            if x["title"].startswith(self.mine) and x["title"] not in want:
                                ctx.violation("%r is offered" % x["title"], dict(data_, want=want))
            c.close(name)
            c.forget()
            ctx.sample({"document": text[:200], "fixes": len(fx)})
        except (rpc.Dead, lsp.Lost) as e:
            if self.c is None:
                raise
            self.died(ctx, e, {"text": text})

    def decided(self, p, b):
        return 0 < b < len(p.data) and re.match(r"[a-zA-Z_'-]{2}", p.data[b - 1:b + 1]) and chain(p, b)[-1].k in ("Var", "AName")

    def lib(self, ch):
        """The path of the innermost selection around, if it is one of lib."""
        s = innermost(ch, "Select")
        if s is None or s.e.k != "Var" or s.e.name != "lib" or not static(s.path):
            return None
        return ["lib"] + [a.name for a in s.path]

    def formal(self, p, ch):
        v = ch[-1]
        if v.k != "Var" or p.R.vars[(v.lo, v.hi)][0] != "undef" or v.name in RESERVED:
            return None
        f = innermost(ch, "Lambda")
        if f is None or f.formals is None:
            return None
        return f

    def offers(self, p, b):
        if not self.decided(p, b):
            return
        ch = chain(p, b)
        n = self.lib(ch)
        if n is not None:
            yield "Open Noogle documentation for " + n[-1].encode("latin-1").decode("utf-8")
        if self.formal(p, ch) is not None:
            yield "add `%s` to formals" % ch[-1].name

    def action(self, ctx, p, u, lo, hi, x):
        if x["title"].startswith("Open Noogle"):
            url = (x.get("data") or {}).get("noogleUrl")
            ch = chain_closed(p, lo, hi)
            n = self.lib(ch)
            if n is None or not all(re.fullmatch(r"[\w'-]+", a, re.A) for a in n):
                return
            if url != "https://noogle.dev/f/" + "/".join(n):
                yield "leads to %s" % url
                return
            k = len(self.c.calls)
            a = self.c.wait(self.c.post("codeAction/resolve", x))
            ctx.count("resolved")
            if "error" in a or a["result"] != x:
                yield "is resolved as %s" % json.dumps(a)[:300]
            got = lambda: [m for m in self.c.calls[k:] if m["method"] == "window/showDocument"]
            if not self.c.until(lambda: got(), 20):
                yield "shows no document"
            elif got()[0]["params"].get("uri") != url or not got()[0]["params"].get("external"):
                yield "shows %s" % json.dumps(got()[0]["params"])
            return
        q, bad = self.applied(p, u, x)
        if bad:
            yield bad
            return
        if not x.get("isPreferred") or x.get("kind") != "quickfix":
            yield "is not a preferred quick fix"
        name = re.match(r"add `(.*)` to formals", x["title"]).group(1)
        es = x["edit"]["changes"][u]
        b = next(b for b in range(len(p.bytes) + 1) if p.bytes[b:b + 1] == b"" or p.bytes[b] & 0xC0 != 0x80 if p.pos(b) == es[0]["range"]["start"])
        ls = [n for n in nixparse.walk(p.tree) if n.k == "Lambda" and n.formals is not None and n.lo <= b < n.body.lo]
        if not ls:
            yield "changes no formals"
            return
        f = min(ls, key=lambda n: n.hi - n.lo)
        for rg, v in p.R.vars.items():
            if f.lo <= rg[0] < f.hi and p.R.names[rg] == name and v[0] != "undef":
                ctx.count("undecided: a with within provides the name, too")
                return
        a = denote.Denote(p.tree, p.R, data=p.data)
        d = NewFormal(q, f.lo, name)
        if a.form != d.form:
            yield "changes the program: %s\n%s" % (denote.diff(a.form, d.form), q.text[:400])
        use = innermost(chain_closed(p, lo, hi), "Var")
        if use is not None:
            g = q.R.vars.get((use.lo + len(q.data) - len(p.data), use.hi + len(q.data) - len(p.data))) if use.lo >= b else None
            if use.lo >= b and (g is None or g[0] != "def" or g[1].name != name):
                yield "the use is not bound: %s" % q.text[:300]


class Text:
    """A text that is not a program."""

    def __init__(self, text):
        self.text, self.bytes = text, text.encode("utf-8")

    def pos(self, b):
        l, c = lsptext.to_pos(self.text, len(self.bytes[:b].decode("utf-8")))
        return {"line": l, "character": c}

    def rng(self, lo, hi):
        return {"start": self.pos(lo), "end": self.pos(hi)}

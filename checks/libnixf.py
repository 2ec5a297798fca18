"""Checks of libnixf: the parser and the analyses, through nixfprobe (ASan+UBSan)."""
import bisect
import json
import os
import re
import time

import domain
import edits
import nixf
import nixgen
import nixparse
import probe
import run
import sema
import semacheck

with open(os.path.join(run.VERIF, "corpus", "snippets.json")) as _f:
    SNIPPETS = [s.encode("utf-8").decode("latin1") for s in json.load(_f)]
POOLS = [None, None, ["a", "b", "c"], ["map", "toString", "a", "b", "length", "null", "x"]]


class Nixf(run.Check):
    """Base: one nixfprobe per worker. Texts are latin-1 strings (= bytes)."""
    builds = (("asan", ["nixfprobe"]),)
    mode = 7
    quick_cap = 40
    assumptions = ("the list of builtins is that of harness/PrimOpsInfo.cpp (the build reads it from libnix, "
                   "which is not installed)",)

    def init(self, ctx):
        ctx.p = probe.Probe(ctx.paths["asan/nixfprobe"])

    def done(self, ctx):
        ctx.p.stop()

    def ask(self, ctx, text, mode=None):
        """The probe's report; None if the code died (a violation of any property)."""
        try:
            rep = ctx.p.ask(text.encode("latin1"), self.mode if mode is None else mode)
        except probe.Crash as c:
            head = c.detail.splitlines()[0]
            ctx.violation("the library %s: %s" % ("hangs" if c.kind == "hang" else "dies", head), text,
                          key=self.key("crash", text))
            return None
        ctx.count("nodes", len(rep.get("nodes", ())))
        ctx.count("diagnostics", len(rep["diags"]))
        return rep

    def key(self, what, text):
        return text

    def program(self, rng, i, **kw):
        """(text, tree) of a valid program."""
        kw.setdefault("depth", rng.choice([1, 2, 2, 3, 3, 4, 4, 5]))
        kw.setdefault("pool", rng.choice(POOLS))
        kw.setdefault("builtin", rng.choice([.02, .08, .3]))
        return nixgen.program("%s/%s/%s" % (self.id, rng.random(), i), **kw)

    def parse(self, text, dups=True):
        """(reference tree, None) or (None, reason)."""
        try:
            ref = nixparse.parse(text)
        except nixparse.NixError as e:
            return None, e
        except RecursionError:
            return None, nixparse.NixError("nested too deeply for the reference", 0)
        if dups:    # Nix finds duplicates while it parses
            m = sema.Model()
            for n in nixparse.walk(ref):
                if n.k in ("Attrs", "Let", "LegacyLet") and id(n) not in m.sets:
                    m.build(n)
            for n in nixparse.walk(ref):
                if n.k == "Let" and m.sets[id(n)].dynamic:
                    return None, nixparse.NixError("dynamic attributes not allowed in let", n.lo)
            if m.dups or m.dyninherit:
                return None, nixparse.NixError("duplicate or dynamic attributes", (m.dups or [(m.dyninherit[0],)])[0][0][0])
        return ref, None


def mutant(rng, check, i):
    o = rng.random()
    if o < .25:
        s = rng.choice(SNIPPETS)
        if rng.random() < .3:
            s = s[:60] + rng.choice(SNIPPETS)[:80]
    else:
        s, _ = check.program(rng, i, depth=rng.choice([1, 2, 2, 3]), dup=rng.choice([0, .3]))
    return domain.mutate(rng, s)


# ---------------------------------------------------------------- C01
UNITS = ["(", "[", "{a=", "\"${", "''${", "let a=", "let in ", "if ", "if a then ", "if a then b else ", "with a;",
         "assert a;", "x:", "{a?", "{a}:", "!", "-", "a.${", "a or ", "a.b or ", "a?", "a+", "a==", "a->", "a|>",
         "rec{", "inherit(", "./a${", "a ", "a.", "{", "$", "''", "\"", "/*", "\\", "''\\", "<", "@", ",", "...", ";",
         "inherit ", "{inherit a;}", "(a ", "[a ", "{a.b.c=", "~/${", "a/${", "throw ", ")", "]", "}", "=", "a=b;",
         "\"\\", "let{", "body=", "{ a, ", "${", "a: ", "a@", "{}@", "\n", "# c\n", "/**/", "1 ", "1.", ".5", "x:y ",
         "http://a ", "<a>", "a/b ", "a.\"${"]


class Total(Nixf):
    id = "C01"
    rule = ("random bytes, token soup, truncations, splices and mutants of programs and of the documentation's "
            "snippets, repeated units (depth up to 500); non-trivial: the tree has at least three nodes or a diagnostic")
    quick = 60000
    thorough = 900000
    quick_cap = 45
    assumptions = Nixf.assumptions + (
        "nesting is bounded (500 levels, 64 MB of stack): the recursive descent parser has no depth limit",)

    def text(self, rng, i):
        o = rng.random()
        if o < .08:
            return "".join(chr(rng.choice([rng.randrange(256), rng.randrange(32, 127)]))
                           for _ in range(rng.choice([1, 2, 3, 8, 40, 200])))
        if o < .22:
            return "".join(rng.choice(domain.VOC) + rng.choice(["", " ", "", "\n"])
                           for _ in range(rng.choice([1, 2, 3, 4, 6, 10, 30])))
        if o < .30:
            k = rng.randrange(1, 4)
            us = [rng.choice(UNITS) for _ in range(k)]
            n = rng.choice([2, 5, 20, 100, 500 // k])
            s = "".join(us) * n
            if rng.random() < .5:
                s += rng.choice(["a", "1", "\"", "''", "", ";", "a;", "}"])
                if rng.random() < .5:
                    close = {"(": ")", "[": "]", "{": "}"}
                    tail = "".join(close.get(c, "") for u in reversed(us) for c in reversed(u))
                    s += rng.choice(["", ";"]).join([tail] * n)
            return s
        if o < .45:
            s, _ = self.program(rng, i, dup=.2)
            return s[:rng.randrange(len(s) + 1)]
        if o < .55:
            s, _ = self.program(rng, i, dup=.2)
            j = rng.randrange(len(s) + 1)
            t = rng.choice(SNIPPETS)
            k = rng.randrange(len(t) + 1)
            return s[:j] + t[k:]
        if o < .62:
            s, _ = self.program(rng, i)
            b = list(s)
            for _ in range(rng.randrange(1, 4)):
                if b:
                    b[rng.randrange(len(b))] = chr(rng.randrange(256))
            return "".join(b)
        return mutant(rng, self, i)

    def fixed(self):
        out = ["", "\\", "\"\\", "''\\", "''${", "''''\\", "''''", "$", "${", "\"${\"", "/*", "#", ".", "..", "...",
               "1.", ".e", "1e", "9" * 400, "1." + "9" * 400, "1e99999", ".5e-99999", "\0", "a\0b", "\xff\xfe", "{",
               "''\n  ''${", "x:with a;b", "assert;a", "a" * 100000, "{}" * 2000, "\"" + "a" * 100000 + "\"",
               "\n" * 50000, "-" * 300 + "1", "(" * 300 + ")" * 300, "[ " * 300 + " ]" * 300,
               "{ a = " * 300 + "1" + "; }" * 300, "''" + " \n" * 3000 + "''", "a." * 2000 + "a", "a+" * 400 + "a",
               "{ " + "".join("a%d = %d; " % (k, k) for k in range(3000)) + "}",
               "{" + "a.b=1;" * 2000 + "}", "{ inherit (x) " + "y " * 3000 + "; }",
               "{ " + ", ".join("a%d" % k for k in range(3000)) + "}: a1"]
        return out + SNIPPETS

    def judge(self, ctx, text):
        # the self checks of the probe take quadratic time
        mode = 7 if len(text) < 600 else 3
        t0 = time.time()
        rep = self.ask(ctx, text, mode)
        if rep is None:
            return
        ms = int((time.time() - t0) * 1000)
        ctx.slow = max(getattr(ctx, "slow", 0), ms)
        ctx.count("bytes", len(text))
        if ms > 6000 and mode == 3:
            ctx.violation("%d bytes take %d ms" % (len(text), ms), text)
        for e in rep.get("errs", ())[:1]:
            ctx.violation("inconsistent tree: " + e, text)
        again = self.ask(ctx, text, mode)
        if again is not None and again != rep:
            ctx.violation("two runs on the same text differ", text)
        if len(rep.get("nodes", ())) > 2 or rep["diags"]:
            ctx.distinct(text)
            ctx.sample(text[:120])

    def case(self, ctx, i):
        rng = ctx.rng(i)
        self.judge(ctx, self.text(rng, i)[:20000])

    def done(self, ctx):
        ctx.count("slowest_ms_of_worker_%d" % ctx.wid, getattr(ctx, "slow", 0))
        Nixf.done(self, ctx)


# ---------------------------------------------------------------- C02
def pipes(ref):
    return any(n.k == "Bin" and n.op in ("|>", "<|") for n in nixparse.walk(ref))


def swap_pipes(ref):
    """The tree with the associativity of |> and <| exchanged (a known finding)."""
    def fix(n):
        if not (isinstance(n, nixparse.N) and n.k == "Bin" and n.op in ("|>", "<|")):
            return
        op, items = n.op, []

        def chain(m):
            if m.k == "Bin" and m.op == op:
                chain(m.l)
                items.append(m.oplo)
                chain(m.r)
            else:
                items.append(m)
        chain(n)
        es, ops = items[::2], items[1::2]
        if len(es) < 3:
            return
        if op == "|>":          # to the right
            acc = es[-1]
            for e, o in reversed(list(zip(es[1:-1], ops[1:]))):
                acc = nixparse.N("Bin", e.lo, acc.hi, op=op, l=e, r=acc, oplo=o)
            n.f.update(l=es[0], r=acc, oplo=ops[0])
        else:
            acc = es[0]
            for e, o in zip(es[1:-1], ops):
                acc = nixparse.N("Bin", acc.lo, e.hi, op=op, l=acc, r=e, oplo=o)
            n.f.update(l=acc, r=es[-1], oplo=ops[-1])
    done = set()

    def go(n, inner):
        if n.k == "Bin" and n.op in ("|>", "<|") and inner != n.op:
            fix(n)
        done.add(id(n))
        for c in nixparse.kids(n):
            if id(c) not in done:
                go(c, n.op if n.k == "Bin" and n.op in ("|>", "<|") else None)
    go(ref, None)
    return ref


class Valid(Nixf):
    id = "C02"
    rule = ("programs printed from random syntax trees with random layout; non-trivial: at least four nodes were "
            "compared with the reference tree")
    quick = 60000
    thorough = 6000000
    mode = 1
    spans = False
    values = False
    what = "tree"
    FIXED = ["a / b / c", "a / b * c", "a * b / c", "!a // b", "!a == b", "-a.b", "- a b", "-a ? b", "a ? b.c || d",
             "a.b or c d", "a ++ b ++ c", "a // b // c", "a -> b -> c", "a + b - c", "a - b + c", "a < b || c > d",
             "f x y z", "[ a b.c (d e) ]", "{ a, b ? c, ... }@d: e", "d@{ a }: e", "x: y: x y", "{ }: a", "{ ... }: a",
             "a: b", "a:b", "./a/b", "a/b", "a / b", "a/ b", "a /b", "~/a", "<a/b>", "<a>", "a<b>c", "/a${b}/c",
             "./${a}${b}", ".5", "1.5e3", "1.", "1.e3", ".5.a", "\"\"", "''''", "x.\"a\".${b}.c or d", "rec { }",
             "let a = b; in a", "let in a", "with a; b", "assert a; b", "if a then b else c", "a or b", "[ a or ]",
             "{ or = a; }.or", "{ inherit; inherit (a); inherit a \"b\" ${\"c\"}; }", "{ a.b.\"c\".${d} = e; }",
             "{ ${a} = b; \"${c}\" = d; }", "a <| b", "a |> b", "a |> b |> c", "a <| b <| c", "a + b |> c", "a || b |> c",
             "a -> b |> c", "''a ''${b} '''c''\\n ''", "\"$${a} ${b} \\${c}\"", "a.b.c.d", "(a).b", "(a)(b)", "[a(b)]",
             "a == b && c != d", "!a && !b", "a ? \"b\"", "a ? ${b}.c", "a.b ? c", "-a * -b", "-1 + -2", "a- b", "a-b",
             "a -b", "1-1", "http://a.b/c", "a:b/c", "a#c\nb", "a/*c*/b", "a/**/", "let { body = a; }.b",
             "{ a ? { b }: b, c ? [ ] }: a", "a.b or c.d or e", "a.b or (c)", "a b.c or d e", "throw \"a\"", "1 / 2 / 3",
             "a ? b ? c", "(a ? b) ? c", "- - a", "! ! a", "!a ? b", "-a ++ b", "!(a)", "a.${\"b\"}", "x@{a,}: a"]

    def fixed(self):
        return self.FIXED

    def bad(self, rep, ref):
        er = ["reports %s: %s" % (d["s"], d["msg"]) for d in nixf.errors(rep)]
        t = nixf.compare(rep, ref, spans=self.spans, values=self.values)
        return er + t.errs, t

    def one(self, ctx, text, ref):
        rep = self.ask(ctx, text)
        if rep is None:
            return
        bad, t = self.bad(rep, ref)
        ctx.count("nodes_compared", t.count)
        if bad:
            k = text
            if pipes(ref):
                alt = nixparse.parse(text)
                b2, _ = self.bad(rep, swap_pipes(alt))
                if not b2:
                    k = "pipe-associativity"
            ctx.violation("a valid program is not understood: " + "; ".join(bad[:3]), text, key=k)
        if t.count >= 4:
            ctx.distinct(text)
            ctx.sample(text[:150])

    def judge(self, ctx, text):
        ref, err = self.parse(text)
        if ref is None:
            ctx.note("reference rejects %r: %s" % (text, err))
        elif not domain.undecided(text, ref):
            self.one(ctx, text, ref)

    def case(self, ctx, i):
        rng = ctx.rng(i)
        if i % 4 == 3:      # mutants that are valid
            for _ in range(3):
                m = mutant(rng, self, i)
                ref, err = self.parse(m)
                if ref is not None and not domain.undecided(m, ref):
                    ctx.count("valid_mutants")
                    self.one(ctx, m, ref)
                    break
            return
        text, ref = self.program(rng, i)
        if domain.undecided(text, ref):
            ctx.count("undecided")
            return
        self.one(ctx, text, ref)


# ---------------------------------------------------------------- C03
class Invalid(Nixf):
    id = "C03"
    rule = ("mutants of programs that the reference grammar rejects; non-trivial: all of them, distinct by text. "
            "Mutants that are valid are judged the other way round")
    quick = 200000
    thorough = 9000000
    mode = 0
    FIXED = ["a ?", "(a ? )", "a ? || b", "{ a = 1 }", "{ a = ; }", "{ a }", "let a = 1 in a", "let a = 1; a", "[ 1", "( 1",
             "{ a = 1;", "if a then b", "if a b", "if then else", "with a b", "with a;", "assert a", "assert; a",
             "a: ", "{ a b }: c", "{ a, ..., b }: c", "{ ..., ... }: c", "{ , a }: c", "{ a,, b }: c", "{ a = 1, }",
             "a @ b: c", "{a}@: b", "a@{b} c", "a ==", "a == b == c", "a < b < c", "a.", "a.b.", ".a", "a..b",
             "a +", "+ a", "a !", "!", "-", "\"a", "''a", "\"${a\"", "''${a''", "/* a", "a b )", "a ]", "a }", ")",
             "{ inherit }", "{ inherit a }", "{ inherit (a) b }", "{ inherit (a b; }", "{ inherit a.b; }",
             "99999999999999999999", "a/", "./a/", "~/", "./${a}/", "let ${a} = b; in c", "let a.${b} = c; in d",
             "{ a, a }: b", "a@{ a }: b", "a or", "let", "in", "then", "rec", "rec a", "a;", "a,b", "a = b", "a: b: ",
             "${a}", "{ ${a = b; }", "a ? ${b", "<a", "a>", "^", "a ^ b", "`", "%", "a & b", "a | b", "~", "\\", "@",
             "let { a = 1; ", "{ a.b. = 1; }", "{ .a = 1; }", "{ a..b = 1; }", "{ = 1; }", "{ 1 = 1; }", "{ a == 1; }",
             "{ a = 1;; }", "{ a = 1; b }", "[ a, b ]", "[ a; b ]", "[ -1 ]", "[ !a ]", "[ a + b ]", "[ x: x ]", "f -1 2 ?",
             "a |>", "<| a", "a |> b <| c", "a -> ", "a &&", "|| a", "f x: x", "if a then b else", "- - ", "a inherit b",
             "{ \"a\" }", "{ a ? }: a", "{ a ? b", "{ ... }", "{ a, b }", "a: { ...", "assert a b; c ;", "with a; b; c"]

    def key(self, what, text):
        return what if what == "hasattr-empty" else text

    def fixed(self):
        return self.FIXED

    def hasattr(self, text, err):
        """Is a missing name after '?' the only thing wrong with the text?"""
        seen = False
        for _ in range(6):
            if not (err is not None and "attribute name" in str(err)):
                return False
            pos = err.pos
            if not re.search(r"\?(\s|#[^\n]*(\n|$)|/\*.*?\*/)*$", text[:pos], re.S):
                return False
            seen = True
            text = text[:pos] + "\na " + text[pos:]
            ref, err = self.parse(text)
            if ref is not None:
                return seen
        return False

    def judge(self, ctx, text):
        if domain.undecided(text):
            ctx.count("undecided")
            return
        ref, err = self.parse(text)
        if ref is not None and domain.undecided(text, ref):
            ctx.count("undecided")
            return
        rep = self.ask(ctx, text)
        if rep is None:
            return
        errs = nixf.errors(rep)
        if ref is None:
            ctx.count("invalid")
            ctx.notes["reject: " + re.sub(r"'.*|\d+", "", str(err))[:40]] += 1
            if not errs:
                k = "hasattr-empty" if self.hasattr(text, err) else text
                ctx.violation("no error is reported for an invalid program (%s)" % err, text, key=k)
            ctx.distinct(text)
            ctx.sample(text[:150])
        else:
            ctx.count("valid")
            if errs:
                ctx.violation("an error is reported for a valid program (%s)" % errs[0]["msg"], text)

    def case(self, ctx, i):
        rng = ctx.rng(i)
        self.judge(ctx, mutant(rng, self, i))


# ---------------------------------------------------------------- C04
class Spans(Valid):
    id = "C04"
    rule = ("valid programs: the span of every node equals the one the printer recorded; mutants: every range is "
            "inside of its parent and of the text, line/column agree with the offset; non-trivial: four nodes")
    spans = True
    quick = 80000
    mode = 7

    thorough = 3000000
    def ranges(self, ctx, text, rep):
        nl = [j for j, c in enumerate(text) if c == "\n"]

        def pos(o):
            ln = bisect.bisect_left(nl, o)
            return ln, o - (nl[ln - 1] + 1 if ln else 0)

        def ok(r, what):
            ctx.count("ranges")
            if not 0 <= r[0] <= r[1] <= len(text):
                return "%s spans %s, the text has %d bytes" % (what, r[:2], len(text))
            if pos(r[0]) != (r[2], r[3]) or pos(r[1]) != (r[4], r[5]):
                return "%s: offsets %s are at %s and %s, reported %s" % (what, r[:2], pos(r[0]), pos(r[1]), r[2:])
            return None
        out = []
        nd = rep.get("nodes", ())
        for n in nd:
            out.append(ok(n["r"], n["k"]))
            if n["k"] == "Identifier" and n["name"] != text[n["r"][0]:n["r"][1]] and text[n["r"][0]:n["r"][0] + 1] != '"':
                out.append("identifier %s spans %r" % (n["name"], text[n["r"][0]:n["r"][1]]))
        for i, n in enumerate(nd[:rep["ntree"]] if nd else ()):
            rs = []
            for c in n["c"]:
                if nd[c]["k"] == "Misc":
                    continue
                r = nd[c]["r"]
                if not (n["r"][0] <= r[0] and r[1] <= n["r"][1]):
                    out.append("%s at %s is outside of its parent %s at %s" % (nd[c]["k"], r[:2], n["k"], n["r"][:2]))
                rs.append(r[:2])
            rs.sort()
            for a, b in zip(rs, rs[1:]):
                if b[0] < a[1]:
                    out.append("children of %s overlap: %s %s" % (n["k"], a, b))
        for d in rep["diags"]:
            out.append(ok(d["r"], "diagnostic " + d["s"]))
            for x in d["notes"]:
                out.append(ok(x["r"], "note of " + d["s"]))
            for f in d["fixes"]:
                for r, _ in f["e"]:
                    out.append(ok(r, "fix of " + d["s"]))
        return [x for x in out if x]

    def one(self, ctx, text, ref):
        rep = self.ask(ctx, text)
        if rep is None:
            return
        bad, t = self.bad(rep, ref)
        bad = [] if nixf.errors(rep) else t.errs
        if bad and pipes(ref):      # how they associate is judged by C02
            bad = min(bad, self.bad(rep, swap_pipes(nixparse.parse(text)))[1].errs, key=len)
        bad += self.ranges(ctx, text, rep)
        ctx.count("nodes_compared", t.count)
        if bad:
            ctx.violation("source ranges: " + "; ".join(bad[:3]), text)
        if t.count >= 4:
            ctx.distinct(text)
            ctx.sample(text[:150])

    def judge(self, ctx, text):
        self.ranges_only(ctx, text)
        Valid.judge(self, ctx, text)

    def ranges_only(self, ctx, text):
        rep = self.ask(ctx, text)
        if rep is None:
            return
        bad = self.ranges(ctx, text, rep)
        if bad:
            ctx.violation("source ranges: " + "; ".join(bad[:3]), text)
        elif len(rep.get("nodes", ())) >= 4:
            ctx.distinct(text)

    def fixed(self):
        return self.FIXED + SNIPPETS

    def case(self, ctx, i):
        if i % 2:
            self.ranges_only(ctx, mutant(ctx.rng(i), self, i))
        else:
            Valid.case(self, ctx, i)


# ---------------------------------------------------------------- C05
class Values(Valid):
    id = "C05"
    rule = ("programs made of literals: strings, indented strings, paths, numbers, quoted names; non-trivial: four "
            "nodes, or a literal with at least two kinds of content")
    values = True
    quick = 150000
    FIXED = ["\"a\\nb\\t\\r\\\\\\\"\\${x}$${y}$\\q\"", "''\n  a\n   b\n ''", "''\n\ta\n  b''", "''a ''$ ''' ''\\n ''\\\\ x''",
             "''  ${a}\n    b\n  c''", "''\n  ''\\n\n  x\n''", "''\n    a\n\n  \n  b''", "''$${a}''", "''$''${a}''",
             "''${a}\n  ${b}''", "'' ''", "''\n''", "''\n\n''", "''\n  x''", "\"\"", "\"$\"", "\"$$\"", "\"$$$${a}\"",
             "''$$''", "''''$''", "''\r\n  a\r\n  b\r\n''", "\"\r\n\"", "\"a\r\nb\rc\"", "''\\t''", "\"\\\n\"", "0", "00", "007",
             "9223372036854775807", "1.5", ".5", "1.0e10", "1.5E-3", "1.7976931348623157e308", "4.9e-324", "0.1",
             "123456789.123456789", "./a${b}c/d", "a/b", "~/a", "/a/b", "./a.b-c_d+e", "{ \"a b\" = \"\"; \"\\n\" = 1; }",
             "a.\"\\${b}\"", "''\n  a\n  ${b}\n    c\n''", "''\n  ${a} b\n''", "''\n a\n  ''\\${b}\n''", "\"\\r\\n\"",
             "''\xc3\xa9\n  \xe4\xbd\xa0''"]

    thorough = 9000000
    def lit(self, rng, i):
        g = nixgen.Gen(rng)
        o = rng.random()
        for _ in range(20):
            n = g.string(1, ["a"], ind=rng.random() < .6) if o < .7 else (
                g.pathlit(1, ["a"]) if o < .8 else g.leaf(["a"], 1))
            if n.k != "Var":
                break
        p = nixgen.Printer(rng, "rand")
        return p.text(n), n

    def case(self, ctx, i):
        rng = ctx.rng(i)
        if i % 3:
            text, ref = self.lit(rng, i)
            rep = None
            if domain.undecided(text, ref):
                return
            rep = self.ask(ctx, text)
            if rep is None:
                return
            bad, t = self.bad(rep, ref)
            if bad:
                ctx.violation("a literal is decoded wrongly: " + "; ".join(bad[:3]), text)
            ctx.count("literals")
            ctx.count("literal_" + ref.k)
            if t.count >= 2 or len(text) > 6:
                ctx.distinct(text)
                ctx.sample(text[:150])
        else:
            Valid.case(self, ctx, i * 4)


# ---------------------------------------------------------------- C06, C09, C10, C11
class Sema(Nixf):
    dups = 0
    quick = 8000
    thorough = 400000
    rule = "valid programs with random bindings, scopes and builtins; non-trivial: "

    def programs(self, ctx, rng, i):
        return self.program(rng, i, dup=self.dups)

    def one(self, ctx, text, ref):
        rep = self.ask(ctx, text)
        if rep is None:
            return
        if nixf.errors(rep) and any(d["s"] not in ("sema-duplicated-attrname", "sema-dynamic-inherit", "merge-diff-rec")
                                    for d in nixf.errors(rep)):
            ctx.note("errors in a valid program: judged by C02")
            return
        cmp = nixf.compare(rep, ref, spans=False, values=False)
        if cmp.errs:
            ctx.note("other tree: judged by C02")
            return
        R = semacheck.resolver(ref)
        errs, n = self.oracle(ctx, rep, ref, R, cmp)
        if errs:
            ctx.violation(self.what + ": " + "; ".join(errs[:3]), text)
        if n:
            ctx.distinct(text)
            ctx.sample(text[:200])

    def judge(self, ctx, text):
        ref, err = self.parse(text, dups=False)
        if ref is None:
            ctx.note("reference rejects %r: %s" % (text, err))
        elif not domain.undecided(text, ref):
            self.one(ctx, text, ref)

    def case(self, ctx, i):
        rng = ctx.rng(i)
        text, ref = self.programs(ctx, rng, i)
        if domain.undecided(text, ref):
            ctx.count("undecided")
            return
        self.one(ctx, text, ref)


class Attrsets(Sema):
    id = "C06"
    dups = .3
    quick = 60000
    what = "attribute sets"
    rule = Sema.rule + "an attribute set with at least one attribute was compared"

    thorough = 4000000
    def fixed(self):
        return ["{ a.b = 1; a.c = 2; }", "{ a = { b = 1; }; a.c = 2; }", "{ a.b = 1; a = { c = 2; }; }",
                "{ a = 1; a = 2; }", "{ a = 1; a.b = 2; }", "{ a.b = 1; a.b = 2; }", "{ a.b = 1; a.b.c = 2; }",
                "{ inherit a; a = 1; }", "{ inherit a a; }", "{ inherit (x) a; inherit a; }", "{ \"a\" = 1; a = 2; }",
                "{ ${x} = 1; ${x} = 2; }", "{ a.${x} = 1; a.b = 2; }", "{ a.${x}.c = 1; a.${x}.d = 2; }",
                "rec { a = { b = 1; }; a.c = 2; }", "{ a = rec { b = 1; }; a.c = b; }", "{ a.b = 1; a = rec { c = 2; }; }",
                "let a.b = 1; a.c = 2; in a", "let inherit (x) a b; in a", "{ inherit \"a\" ${\"b\"}; }",
                "{ inherit ${x}; }", "{ a = { b = 1; }; a = { b = 2; }; }", "{ a = { inherit b; }; a.b = 1; }",
                "{ \"${\"a\"}\" = 1; a = 2; }", "{ a.b.c.d = 1; a.b.c.e = 2; a.b.f = 3; }", "{ a = { }; a = { }; }",
                "{ a = x; a.b = 1; }", "{ a = { b = { c = 1; }; }; a.b.d = 1; }",
                "{ a = { ${x} = 1; }; a = { ${y} = 2; b = 3; }; }", "{ a.b = 1; a = rec { b = 2; }; }",
                "{ a = rec { }; a.b = 1; a = { b = 2; c = 3; }; }", "{ a = { b.c = 1; }; a = { b.d = 1; e.f = 2; }; }", "{ \"\" = 1; \"\".a = 2; }"]

    def programs(self, ctx, rng, i):
        return self.program(rng, i, dup=rng.choice([0, .1, .3, .6]),
                            pool=rng.choice([["a", "b"], ["a", "b", "c"], None]), depth=rng.choice([2, 3, 3, 4, 5]))

    def oracle(self, ctx, rep, ref, R, cmp):
        errs, judged = semacheck.attrsets(rep, ref, R, cmp)
        ctx.count("sets", judged)
        ctx.count("duplicates", len(R.model.dups))
        return errs, judged


class Names(Sema):
    id = "C09"
    what = "name resolution"
    rule = Sema.rule + "a variable was resolved by both"

    quick = 60000
    thorough = 4000000
    def oracle(self, ctx, rep, ref, R, cmp):
        for v in R.vars.values():
            ctx.count("vars_" + v[0])
        ctx.count("definitions", len(R.defs))
        return semacheck.variables(rep, ref, R) + semacheck.undefined(rep, ref, R), len(R.vars)

    def fixed(self):
        return ["let a = b; b = a; in a", "rec { a = b; b = 1; }", "{ a = b; b = 1; }", "with a; b", "with a; with c; b",
                "a: with a; a b", "let a = 1; in with { a = 2; }; a", "{ a, b ? a }: b", "x@{ a ? x }: a",
                "let a = 1; in { inherit a; }", "let a = 1; in rec { inherit a; b = a; }", "rec { inherit (b) b; }",
                "let inherit (b) a; b = a; in a", "let a.b = a; in a", "rec { a.b = c; c = 1; }", "map", "__map", "builtins.x",
                "length", "__length", "toString", "let { a = 1; body = a; }", "with (with a; b); c", "a: a: a",
                "let a = 1; in let b = a; in b", "rec { ${a} = 1; a = 2; }", "{ a }: { a }: a", "with 1; with 2; a: a b",
                "rec { a = { b = c; }; c = 1; a.d = c; }", "let a = with b; c; b = 1; in a", "x: { inherit (x) x; }",
                "let x = 1; in { inherit (x) y; }", "import", "derivation", "__curPos", "__nixPath", "true",
                "let x = { y = x; }; in { inherit (let x = 2; in x) z; }", "rec { inherit (x); x = 1; }"]


class Liveness(Sema):
    id = "C10"
    what = "unused definitions"
    rule = Sema.rule + "it binds a name, or has a with or rec"

    quick = 60000
    thorough = 4000000
    def oracle(self, ctx, rep, ref, R, cmp):
        ctx.count("definitions", len(R.defs))
        ctx.count("unused", sum(1 for d in R.defs if not d.uses))
        ctx.count("withs", len(R.withnodes))
        ctx.count("recs", len(R.recs))
        return semacheck.liveness(rep, ref, R), len(R.defs) + len(R.withnodes) + len(R.recs)

    def fixed(self):
        return Names.fixed(self)


class Builtins(Sema):
    id = "C11"
    what = "builtins"
    rule = Sema.rule + "it mentions or overrides a builtin"

    quick = 60000
    thorough = 4000000
    def programs(self, ctx, rng, i):
        return self.program(rng, i, builtin=.35, pool=rng.choice(
            [None, ["map", "toString", "a", "length", "null", "x", "import", "derivation", "true", "foldl'"]]))

    def oracle(self, ctx, rep, ref, R, cmp):
        n = sum(1 for v in R.vars.values() if v[0] == "def" and v[1].kind == "builtin")
        n += sum(1 for x in nixparse.walk(ref) if x.k == "Select" and x.e.k == "Var" and x.e.name == "builtins")
        ctx.count("mentions", n)
        return semacheck.builtins(rep, ref, R), n

    def fixed(self):
        return ["builtins.map", "builtins.length", "builtins.__length", "builtins.foo", "builtins.true", "builtins.null",
                "let map = 1; in map", "let true = 1; in true", "{ map }: map", "map: map", "rec { map = 1; a = map; }",
                "let inherit (builtins) map; in map", "let inherit (builtins) length; in length", "let a = builtins; in a.x",
                "{ builtins }: builtins.x", "builtins.currentTime", "builtins.${map}", "builtins.map.x", "builtins.\"map\"",
                "let map = builtins.map; in map", "builtins.import", "builtins.toString", "builtins.nixVersion",
                "{ inherit (builtins) map; }", "{ derivation = 1; }", "let derivation = 1; in derivation",
                "builtins.derivation", "builtins.builtins", "builtins.x or 1", "x.map", "(builtins).map"]


# ---------------------------------------------------------------- C13
class Parents(Nixf):
    id = "C13"
    rule = ("valid programs and mutants; each node's chain of parents, and the deepest node at every token boundary, "
            "are checked against the tree itself; non-trivial: at least four nodes")
    quick = 80000
    thorough = 4000000
    mode = 5

    def judge(self, ctx, text):
        rep = self.ask(ctx, text)
        if rep is None or rep["root"] is None:
            return
        ctx.count("parent_chains", rep["chains"])
        ctx.count("descends", rep["descends"])
        if rep["errs"]:
            ctx.violation("parents: " + "; ".join(rep["errs"][:3]), text)
        if rep["ntree"] > 3:
            ctx.distinct(text)
            ctx.sample(text[:150])

    def fixed(self):
        return SNIPPETS

    def case(self, ctx, i):
        rng = ctx.rng(i)
        self.judge(ctx, mutant(rng, self, i) if i % 2 else self.program(rng, i, dup=.2)[0])


# ---------------------------------------------------------------- C07
class Formals(Nixf):
    id = "C07"
    rule = ("parameter lists from random sequences of names, defaults, commas and ellipses, most of them invalid; "
            "non-trivial: at least two items")
    quick = 60000
    thorough = 3000000
    mode = 3
    SN = ("sema-empty-formal", "sema-formal-missing-comma", "sema-formal-extra-ellipsis", "sema-misplaced-ellipsis",
          "sema-dup-formal", "sema-dup-formal-arg")

    def make(self, rng):
        ws = lambda req=False: rng.choice([" ", "\n", " /*c*/ ", "  ", " # c\n"] + ([] if req else ["", "", "", " "]))
        items = []
        n = rng.choice([0, 1, 2, 2, 3, 3, 4, 5, 6])
        neat = rng.random() < .5
        for k in range(n):
            o = rng.random()
            what = "id" if o < .7 else "..." if o < .9 else ""
            comma = (k > 0) if neat else (rng.random() < (.85 if k else .15))
            if neat and what == "":
                what = "id"
            items.append([comma, what, rng.choice("abcdef") if what == "id" else None,
                          what == "id" and rng.random() < .3])
        if neat and items and rng.random() < .3:
            items.append([True, "", None, False])
        for it in items:
            if it[1] == "" and not it[0]:
                it[0] = True
        for a, b in zip(items, items[1:]):
            if a[1] == "":
                b[0] = True
            if b[1] == "id" and not b[0]:    # it would be an argument in the default value
                a[3] = False
        first_comma = items and items[0][0]
        arg = None
        o = rng.random()
        if first_comma or o < .3:
            arg, before = rng.choice("abxyz"), True
        elif o < .5:
            arg, before = rng.choice("abxyz"), False
        # `{ a b` is taken for a set unless one of the first tokens says otherwise
        s = ""
        if arg and before:
            s += arg + ws() + "@" + ws()
        s += "{"
        spans, ids = [], []
        prevword = False
        for k, (comma, what, name, dflt) in enumerate(items):
            s += ws(req=prevword and not comma)
            lo = len(s)
            if comma:
                s += ","
                if what:
                    s += ws()
            idr = None
            if what == "id":
                ilo = len(s)
                s += name
                idr = (ilo, len(s))
                if dflt:
                    s += ws() + "?" + ws(True) + rng.choice(
                        ["1", "x: a", "a b", "{ }", "with a; b", "-1", "\"x\"", "(a)", "[ ]", "{ a ? 1 }: a"])
            elif what:
                s += "..."
            prevword = what == "id" or what == "..."
            spans.append((lo, len(s)))
            ids.append(idr)
        s += ws() + "}"
        argr = None
        if arg and before:
            j = 0
            argr = (0, 1)
        elif arg:
            s += ws() + "@" + ws()
            argr = (len(s), len(s) + 1)
            s += arg
        s += ws() + ":" + ws(True) + rng.choice(["1", "a", "a b", "[ a b c ]"])
        return s, items, spans, ids, arg, argr

    def expect(self, items, spans, ids, arg, argr):
        want = []
        seen = {}
        last = len(items) - 1
        for k, (comma, what, name, _) in enumerate(items):
            if k and not comma:
                want.append(("sema-formal-missing-comma", spans[k]))
            if what == "..." and k != last:
                want.append(("sema-formal-extra-ellipsis" if items[-1][1] == "..." else "sema-misplaced-ellipsis", spans[k]))
            if comma and what == "" and not (k == last and k > 0):
                want.append(("sema-empty-formal", spans[k]))
            elif comma and k == 0:
                want.append(("sema-empty-formal", (spans[k][0], spans[k][0] + 1)))
            if what == "id":
                if name in seen:
                    want.append(("sema-dup-formal", ids[k]))
                else:
                    seen[name] = ids[k]
        if arg and arg in seen:
            want.append(("sema-dup-formal-arg", argr))
        return sorted(want), seen

    def case(self, ctx, i):
        rng = ctx.rng(i)
        text, items, spans, ids, arg, argr = self.make(rng)
        rep = self.ask(ctx, text)
        if rep is None:
            return
        want, seen = self.expect(items, spans, ids, arg, argr)
        errs = nixf.errors(rep)
        lam = rep["root"] is not None and rep["nodes"][0]["k"] == "ExprLambda"
        ref, err = self.parse(text)
        if (ref is not None) != (not want):
            ctx.violation("the specification disagrees with the reference grammar: %s %s" % (want, err), text)
            return
        if not lam:
            if not want:
                ctx.violation("a valid function is not parsed as one", text)
            elif not errs:
                ctx.violation("no error for an invalid function", text)
            ctx.count("not taken for a function")
            return
        got = sorted((d["s"], tuple(d["r"][:2])) for d in rep["diags"] if d["s"] in self.SN)
        ctx.count("expected_diagnostics", len(want))
        for w in want:
            ctx.count(w[0])
        if got != want:
            ctx.violation("formals: reported %s, expected %s" % (got, want), text)
            return
        for d in rep["diags"]:
            if d["s"] in ("sema-dup-formal", "sema-dup-formal-arg"):
                nm = text[d["r"][0]:d["r"][1]]
                if [tuple(n["r"][:2]) for n in d["notes"]] not in ([seen[nm]], [self.whole(rep, seen[nm])]):
                    ctx.violation("the note of %s does not point at the first %s" % (d["s"], nm), text)
        if len(items) > 1:
            ctx.distinct(text)
            ctx.sample(text)
        # the quick fixes lead to a valid function with the same parameters
        # (`{ ,` is not taken for a function, a fix that leaves it is not followed)
        if want and not any(w[0].startswith("sema-dup") for w in want) and (
                text[0] != "{" or not any(it[1] == "" for it in items)):
            self.converge(ctx, text, rep, len(want), set(seen), any(it[1] == "..." for it in items))

    def whole(self, rep, r):
        for n in rep["nodes"]:
            if n["k"] == "Formal" and n["r"][0] <= r[0] and r[1] <= n["r"][1]:
                return tuple(n["r"][:2])
        return None

    def converge(self, ctx, text, rep, n, names, ell):
        t = text
        steps = [t]
        for _ in range(2 * n + 3):
            d = next((d for d in rep["diags"] if d["s"] in self.SN), None)
            if d is None:
                break
            if not d["fixes"]:
                ctx.violation("%s has no quick fix" % d["s"], text)
                return
            try:
                t = edits.apply(t, d["fixes"][0]["e"])
            except edits.Bad as e:
                ctx.violation("the quick fix of %s: %s" % (d["s"], e), t)
                return
            steps.append(t)
            rep = self.ask(ctx, t)
            if rep is None:
                return
        ctx.count("fixed_programs")
        ref, err = self.parse(t)
        if ref is None or ref.k != "Lambda" or {f.name.name for f in ref.formals or ()} != names or bool(ref.ell) != ell:
            ctx.violation("the quick fixes do not lead to a valid function with the same parameters: %s" %
                          " => ".join(steps), text)


# ---------------------------------------------------------------- C12
class Tidy(Nixf):
    id = "C12"
    rule = ("the report of nixf-tidy on programs, mutants and texts with arbitrary bytes is compared with what the "
            "library reports; non-trivial: at least one diagnostic")
    builds = (("asan", ["nixfprobe", "nixf-tidy"]),)
    quick = 1500
    thorough = 60000
    mode = 0
    ESC = 0

    def fixed(self):
        return ["", "{ \"\xff\" = 1; \"\xff\" = 2; }", "let \xff = 1; in 2", "{ a = 1; a = 2; }", "a", "\xc3\xa9", "{ \"\xc3\xa9\" = 1; \"\xc3\xa9\" = 2; }",
                "(1)", "let a = 1; in 2", "{ x }: 1", "x: 1"] + SNIPPETS[:60]

    def case(self, ctx, i):
        rng = ctx.rng(i)
        o = rng.random()
        if o < .5:
            t = mutant(rng, self, i)
        elif o < .8:
            t = self.program(rng, i, dup=.3)[0]
        else:
            t = mutant(rng, self, i)
            b = list(t)
            for _ in range(3):
                if b:
                    b[rng.randrange(len(b))] = chr(rng.randrange(256))
            t = "".join(b)
        self.judge(ctx, t)

    def run(self, ctx, text, flag):
        import subprocess
        p = subprocess.run([ctx.paths["asan/nixf-tidy"]] + flag, input=text.encode("latin1"), capture_output=True,
                           timeout=60, env=probe.env())
        ctx.count("runs")
        return p

    def judge(self, ctx, text):
        for flag, mode in ((["--variable-lookup"], 2), ([], 0)):
            rep = self.ask(ctx, text, mode)
            if rep is None:
                return
            p = self.run(ctx, text, flag)
            if p.returncode != 0 or p.stderr:
                ctx.violation("nixf-tidy %s exits %d: %s" % (" ".join(flag), p.returncode,
                                                             probe.summary(p.stderr.decode(errors="replace"))), text)
                return
            try:
                out = json.loads(p.stdout.decode("utf-8", "strict"))
            except ValueError as e:
                ctx.violation("nixf-tidy does not print JSON: %s" % e, text)
                return
            ctx.count("reported", len(out))
            if len(out) != len(rep["diags"]):
                ctx.violation("nixf-tidy %s reports %d diagnostics, the library %d" % (flag, len(out), len(rep["diags"])), text)
                return
            for g, w in zip(out, rep["diags"]):
                bad = self.differs(g, w)
                if bad:
                    ctx.violation("nixf-tidy reports %s of %s" % (bad, w["s"]), text)
                    return
            if out:
                ctx.distinct(text)
                ctx.sample(text[:100])

    @staticmethod
    def text(s):
        return s.encode("latin1").decode("utf-8", "replace")

    def rng(self, r):
        return {"lCur": {"line": r[2], "column": r[3], "offset": r[0]}, "rCur": {"line": r[4], "column": r[5], "offset": r[1]}}

    def differs(self, g, w):
        if g["sname"] != w["s"] or g["severity"] != w["sev"]:
            return "another kind or severity"
        if g["range"] != self.rng(w["r"]):
            return "another range"
        if g["message"] != self.text(w["raw"]) and g["message"] != self.text(w["msg"]):
            return "another message (%r)" % g["message"]
        if g["args"] != [self.text(a) for a in w["args"]]:
            return "other arguments"
        if len(g["notes"]) != len(w["notes"]) or any(a["range"] != self.rng(b["r"]) for a, b in zip(g["notes"], w["notes"])):
            return "other notes"
        gf = [[(e["newText"], e["range"]) for e in f["edits"]] for f in g["fixes"]]
        wf = [[(self.text(t), self.rng(r)) for r, t in f["e"]] for f in w["fixes"]]
        if gf != wf or [f["message"] for f in g["fixes"]] != [self.text(f["m"]) for f in w["fixes"]]:
            return "other fixes"
        return None


# ---------------------------------------------------------------- C08
def plain(n):
    """The tree without parentheses, in a form in which those make no difference."""
    N = nixparse.N
    if isinstance(n, (list, tuple)):
        return [plain(x) for x in n]
    if not isinstance(n, N):
        return n
    if n.k == "Paren":
        return plain(n.e)
    m = N(n.k, n.lo, n.hi, **{a: (v if a == "raw" else plain(v)) for a, v in n.f.items()})
    if m.k == "Call" and m.fn.k == "Call":
        m.f.update(fn=m.fn.fn, args=m.fn.args + m.args)
    if m.k == "Select" and m.e.k == "Select" and m.e.default is None:
        m.f.update(path=m.e.path + m.path, e=m.e.e)
    return m


class QuickFixes(Nixf):
    id = "C08"
    rule = ("every quick fix of every diagnostic on valid programs (the result has to be the program the fix "
            "announces), on programs with one token missing or added, and on mutants; non-trivial: a fix was applied")
    quick = 60000
    thorough = 2500000
    mode = 3
    STRICT = {"parse-redundant-paren", "sema-unused-def-let", "sema-extra-with", "sema-extra-rec", "deprecated-let",
              "deprecated-url-literal", "sema-primop-needs-prefix", "sema-primop-removed-prefix", "empty-inherit"}

    def fixed(self):
        return ["{ inherit; }", "{ inherit (a); }", "{inherit(a);b=1;}", "builtins.map a", "builtins.map or a", "builtins.\"map\"",
                "builtins.map.x", "builtins . map", "(builtins).map", "length", "length.x", "[length]", "x: length x",
                "{ inherit length; }", "let inherit (builtins) map; in map", "let inherit (builtins) map toString; in map",
                "let a = 1; in 2", "let a.b = 1; a.c = 2; in 3", "let a = 1; b = a; in 2", "with a; 1", "f (with a; 1)",
                "rec { a = 1; }", "rec{}", "rec{a=1;}", "let { body = 1; }", "let{body=a;a=1;}", "let { a = body; body = 1; }",
                "[ (let { body = 1; }) ]", "(a)", "(1)", "f (a)", "(a).b", "(a)b", "a(b)c", "((a))", "((a b))", "[(a)]",
                "http://a.b", "[http://a.b]", "f http://a.b", "if a then(b)else(c)", "with a;b", "x:with a; 1", "if(a)then b else c",
                "a.b or(c)", "(a)?b", "(\"a\").b", "(builtins.map)", "-(a)", "!(a)", "assert(a);b", "let in(a)", "a+(b)",
                "{ a ? (b) }: c", "{ a = (b); }", "inherit (a)", "\"${(a)}\"", "a.${(b)}", "builtins.map builtins.toString",
                "builtins.${\"map\"}", "rec { inherit (builtins) map; }", "let a = with b; c; in a"]

    def case(self, ctx, i):
        rng = ctx.rng(i)
        o = i % 4
        if o < 2:
            text, ref = self.program(rng, i, depth=rng.choice([0, 1, 2, 2, 3]),
                                     pool=rng.choice([None, ["a", "b", "map", "length", "toString"], ["builtins", "map", "a"]]))
            self.valid(ctx, text)
        elif o == 2:
            self.single(ctx, rng, i)
        else:
            self.safe(ctx, mutant(rng, self, i))

    def judge(self, ctx, text):
        if self.parse(text)[0] is not None:
            self.valid(ctx, text)
        else:
            self.safe(ctx, text)

    def fixes(self, ctx, text, rep):
        """(diagnostic, fix, fixed text) of every fix; edits that cannot be applied are reported."""
        for d in rep["diags"]:
            for f in d["fixes"]:
                ctx.count("fixes")
                ctx.count(d["s"])
                try:
                    t = edits.apply(text, f["e"])
                except edits.Bad as e:
                    ctx.violation("the fix %r of %s: %s" % (f["m"], d["s"], e), text)
                    continue
                if t == text:
                    ctx.violation("the fix %r of %s does nothing" % (f["m"], d["s"]), text)
                yield d, f, t

    def safe(self, ctx, text):
        rep = self.ask(ctx, text)
        if rep is None:
            return
        for d, f, t in self.fixes(ctx, text, rep):
            ctx.distinct((text, t))
            self.ask(ctx, t, 2)

    # -- valid programs
    def valid(self, ctx, text):
        ref = nixparse.parse(text)
        u = domain.undecided(text, ref)
        rep = self.ask(ctx, text)
        if rep is None:
            return
        if u and u != "legacy let":
            ctx.count("undecided")
            return
        if pipes(ref) or nixf.errors(rep):
            ctx.count("left to C02")
            return
        for d, f, t in self.fixes(ctx, text, rep):
            if d["s"] not in self.STRICT:
                continue
            want = self.want(text, d, f)
            if want is None:
                ctx.count("no expectation for " + d["s"])
                continue
            ctx.distinct((text, t))
            ctx.sample("%s: %s => %s" % (d["s"], text[:80], t[:80]))
            try:
                got = nixparse.parse(t)
            except nixparse.NixError as e:
                ctx.violation("the fix %r of %s leads to an invalid program (%s): %s" % (f["m"], d["s"], e, t), text)
                continue
            if domain.undecided(t, got) not in (None, "legacy let"):
                # a literal that is called is left alone by nix, and rejected by nixf
                ctx.count("undecided after the fix")
                continue
            g = nixparse.canon(plain(got))
            if all(g != nixparse.canon(plain(w)) for w in want):
                ctx.violation("the fix %r of %s leads to another program: %s" % (f["m"], d["s"], t), text)

    def want(self, text, d, f):
        """Trees that the fix may lead to."""
        N = nixparse.N
        ref = nixparse.parse(text)
        s, (lo, hi) = d["s"], d["r"][:2]
        if s in ("parse-redundant-paren", "deprecated-url-literal"):
            return [ref]
        nodes = list(nixparse.walk(ref))

        def become(n, m):
            n.k = m.k
            n.f.clear()
            n.f.update(m.f)
        R = semacheck.resolver(ref)
        if s == "sema-unused-def-let":
            for n in nodes:
                if n.k == "Let":
                    for b in n.binds:
                        if b.k == "Bind" and (b.path[0].lo, b.path[0].hi) == (lo, hi):
                            n.binds.remove(b)
                            return [ref]
        elif s == "sema-extra-with":
            for n in nodes:
                if n.k == "With" and n.lo == lo:
                    become(n, n.body)
                    return [ref]
        elif s == "sema-extra-rec":
            for n in nodes:
                if n.k == "Attrs" and n.rec and n.lo == lo:
                    n.f["rec"] = False
                    return [ref]
        elif s == "sema-primop-needs-prefix":
            if any(D.name == "builtins" for D in R.defs):
                return None
            for n in nodes:
                if n.k == "Var" and (n.lo, n.hi) == (lo, hi):
                    become(n, N("Select", e=N("Var", name="builtins"), path=[N("AName", kind="id", name=n.name)],
                                default=None))
                    return [ref]
        elif s == "sema-primop-removed-prefix":
            for n in nodes:
                if n.k == "Select" and n.e.k == "Var" and (n.e.lo, n.e.hi) == (lo, hi):
                    become(n, N("Var", name=n.path[0].name))
                    return [ref]
                if n.k == "Inherit":
                    for a in n.names:
                        if (a.lo, a.hi) == (lo, hi):
                            n.names.remove(a)
                            return [ref]
        elif s == "empty-inherit":
            for n in nodes:
                if n.k in ("Attrs", "Let", "LegacyLet"):
                    for b in n.binds:
                        if b.k == "Inherit" and b.lo == lo:
                            n.binds.remove(b)
                            return [ref]
        elif s == "deprecated-let":
            for n in nodes:
                if n.k == "LegacyLet" and n.lo == lo and n.hi == hi:
                    body = [b for b in n.binds if b.k == "Bind" and b.path[0].kind in ("id", "str") and
                            b.path[0].name == "body"]
                    if len(body) != 1 or len(body[0].path) != 1:
                        return None
                    used = any(D.name == "body" and D.uses and D.owner is n for D in R.defs)
                    out = []
                    if not used:
                        n.k, old = "Let", list(n.binds)
                        n.f.update(binds=[b for b in old if b is not body[0]], body=body[0].value)
                        out.append(ref)
                        keep = nixparse.parse(text)
                        n = next(x for x in nixparse.walk(keep) if x.k == "LegacyLet" and x.lo == lo and x.hi == hi)
                    else:
                        keep = ref
                    n.k = "Let"
                    n.f.update(body=N("Var", name="body"))
                    out.append(keep)
                    return out
        return None

    # -- programs with one token missing, or one too many
    def single(self, ctx, rng, i):
        text, ref = self.program(rng, i, depth=rng.choice([0, 1, 1, 2]))
        if domain.undecided(text, ref):
            return
        tk = domain.TOK.findall(text)
        js = [j for j, t in enumerate(tk) if not t.isspace()]
        j = rng.choice(js)
        if rng.random() < .75:
            m = "".join(tk[:j] + tk[j + 1:])
            gone = tk[j]
        else:
            m = "".join(tk[:j] + [rng.choice(["^", "@", ")", "]", "%", "`", ","])] + tk[j:])
            gone = ""
        rep = self.ask(ctx, m)
        if rep is None:
            return
        er = [d for d in rep["diags"][:rep["nparse"]] if d["sev"] <= 1]
        odd = gone in ("<", ">", "=", "*", "/", "#", "'", "''") or "/*" in m or "#" in m or re.search(r"''\\?$|[0-9]\.$", m)
        for d, f, t in self.fixes(ctx, m, rep):
            rep2 = self.ask(ctx, t, 2)
            if rep2 is None:
                return
            if len(er) != 1 or d is not er[0] or odd:
                continue
            e2 = [x for x in rep2["diags"][:rep2["nparse"]] if x["sev"] <= 1]
            ins = re.match("insert (.*)", f["m"])
            if ins and ins.group(1) in (")", "]", "}", ":", "in", "then", "\"", "${", ",", "dummy expression", "dummy attrpath",
                                        "dummy attrname") or f["m"].startswith("remove extra") or \
                    f["m"] == "remove unexpected text" or f["m"] == "remove empty formal":
                limit = 0
            elif ins and ins.group(1) in (";", "else"):
                limit = 1
            else:
                continue
            ctx.distinct((m, t))
            ctx.count("single_error_fixes")
            if ins and any(r[0] != r[1] for r, _ in f["e"]):
                ctx.violation("the fix %r of %s removes text" % (f["m"], d["s"]), m)
            if any("associative" in x["msg"] for x in e2):     # `a < b` `> c`: what was a path
                continue
            if len(e2) > limit:
                ctx.violation("after the fix %r of %s there still is an error: %s: %s" % (f["m"], d["s"], e2[0]["msg"], t), m)

"""What the server tells about the structure of a document: symbols, folding
ranges, semantic tokens, links."""
import os
import urllib.parse

import domain
import lsp
import nixparse
import prog
import rpc
import shape
import outline
from nixd import Server

FIXED = ["{ a.b = 1; a.c = { d = 2; }; inherit x; a = { e = true; }; ${k}.r = 3; }", "let a.b = 1; in a.b or c",
         "{ a, b ? 1 }@x: x: \"s\"", "rec { inherit (builtins) map; x = map; y.\"k\".${z} = with q; [ v builtins null ]; }.a.\"b\".${c} or 2",
         "{\n a.b =\n 1; a.c =\n 2;\n}", "let\n x =\n 1;\n in x", "let in [\n]", "a ? ${b}.\"c\".d", "{ \"é\" = \"ü\"; ß = é; }".replace("ß", "b").replace("é;", "b;"),
         "[ \"😀\" x ] ++ [ true ]", "''\n a\n'' + \"a\n\"", "x: y:\n z", "{ a = {\n }; a.b = { }; }", "if\n a then b else [\n ]",
         "with x;\n with y; z", "./a${b}/c", "(\n{ }\n)", "assert [\n]; { }", "{ a = 1; }.a", "\"\"", "''''", "1.5", "- 1", "a: { b }: c"]


class C30(Server):
    id = "C30"
    rule = "a distinct program whose symbols, folding ranges and semantic tokens were compared"
    quick = 20000
    thorough = 100000
    quick_cap = 60
    deterministic = False
    evaluation = "requests"
    life = 100

    def options(self, ctx, r):
        return {"timeout": 60}

    def fixed(self):
        return FIXED

    def judge(self, ctx, t):
        self.play(ctx, ctx.rng(0, "fixed"), prog.Prog(t.encode("utf-8").decode("latin-1")))

    def case(self, ctx, i):
        r = ctx.rng(i)
        # parsed again: the tree then holds what strings mean
        t = prog.generate(r, builtin=.15, unbound=.1).data
        if r.random() < .01:        # deep, yet within what is looked at (256 levels)
            k = r.choice([10, 20, 40, 80, 120])
            a, b = r.choice([("[\n", "\n]"), ("{a=\n", "\n;}"), ("x:\n", ""), ("with x;\n", ""), ("if a then\n", "\nelse b")])
            t = a * k + "(" + t + "\n)" + b * k
        self.play(ctx, r, prog.Prog(t))

    def play(self, ctx, r, p):
        if domain.undecided(p.data, p.tree):
            ctx.count("undecided")
            return
        p.R
        if p.R.model.dups or p.R.model.diffrec or p.R.model.dyninherit:
            ctx.count("undecided: duplicates")
            return
        try:
            c = self.client(ctx, r)
            name = "d%d.nix" % self.used
            u, _ = c.open(name, p.text)
            q = {"textDocument": {"uri": u}}
            ids = [c.post("textDocument/" + m, q) for m in ("documentSymbol", "foldingRange", "semanticTokens/full")]
            rep = [c.wait(i) for i in ids]
            ctx.count("requests", 3)
            for b in self.compare(ctx, p, shape.Doc(u, p.text), rep):
                ctx.violation(b, p.text)
            c.close(name)
            c.forget()
            ctx.distinct(p.data)
            ctx.sample(p.text[:200])
        except (rpc.Dead, lsp.Lost) as e:
            if self.c is None:
                raise
            self.died(ctx, e, {"text": p.text})

    def compare(self, ctx, p, doc, rep):
        for x, m in zip(rep, ("symbols", "folding ranges", "semantic tokens")):
            if "error" in x:
                yield "%s are refused: %s" % (m, x["error"])
                return
        S = outline.Structure(p.R)
        ix = p.index

        def conv(ws):
            return outline.ANY if ws == outline.ANY else [
                (w[0].encode("latin-1").decode("utf-8", "replace"), w[1], w[2]) +
                tuple(outline.ANY if x == outline.ANY else ix(x) for x in w[3:7]) + (conv(w[7]),) for w in ws]
        bad = []
        total = [0]

        def got(ss):
            out = []
            for s in ss:
                total[0] += 1
                a, b = doc.span(s["range"]), doc.span(s["selectionRange"])
                if a is None or b is None:
                    bad.append("the symbol %s has no range in the document" % s["name"])
                    continue
                out.append((s["name"], s["kind"], bool(s.get("deprecated")), a[0], a[1], b[0], b[1], got(s.get("children") or [])))
            return out
        g = got(rep[0]["result"])
        for b in bad:
            yield b
        d = outline.diffsym(conv(S.symbols(p.tree)), g)
        if d:
            yield "symbols: " + d
        ctx.count("symbols", total[0])
        # folding ranges
        want = []
        for lo, hi in S.folds(p.tree):
            a, b = p.pos(lo), p.pos(hi)
            if a["line"] < b["line"]:
                want.append((a["line"], a["character"], b["line"], b["character"]))
        have = sorted((f["startLine"], f.get("startCharacter", 0), f["endLine"], f.get("endCharacter", 0)) for f in rep[1]["result"])
        if sorted(want) != have:
            yield "folding ranges: missing %s, unexpected %s" % (sorted(set(want) - set(have)), sorted(set(have) - set(want)))
        ctx.count("folding ranges", len(have))
        # semantic tokens
        S.tok(p.tree, S.tokens)
        complaints, toks = shape.tokens(doc, rep[2]["result"])
        for b in complaints:
            yield b
        one = lambda lo, hi: p.pos(lo)["line"] == p.pos(hi)["line"]
        must = {(ix(a), ix(b)): v for (a, b), v in S.tokens.items() if one(a, b)}
        may = {(ix(a), ix(b)): v for (a, b), v in S.may.items() if one(a, b)}
        seen = {(a, b): (t, m) for a, b, t, m in toks}
        if len(seen) != len(toks):
            yield "a token comes twice"
        for k, v in must.items():
            if seen.get(k) != v:
                yield "semantic tokens: %r at %s is marked %s, want %s" % (p.text[k[0]:k[1]], k, seen.get(k), v)
                break
        for k, v in seen.items():
            if k not in must and may.get(k) != v:
                yield "semantic tokens: %r at %s is unexpectedly marked %s" % (p.text[k[0]:k[1]], k, v)
                break
        ctx.count("semantic tokens", len(toks))


FILES = ["a.nix", "b", "d/default.nix", "d/x.nix", "deep/er/default.nix", "sub/plain", "UPPER.nix", "with-dash+plus_.nix", "café.nix", "d.nix/default.nix",
         "dd/default.nix/keep"]
LINKS = [("lnk", "a.nix"), ("dl", "d"), ("dangling", "nope"), ("loop", "loop"), ("out", "../top.nix"), ("chain", "lnk")]
HERE = ["src", "sp ace", "é", "100%", "a#b?c", "src/inner", "q+&=@:,;"]
PATHS = ["./a.nix", "./b", "./d", "./e", "./nope", "./nope/x", "./d/x.nix", "./d/../a.nix", "../top.nix", "./.", "../.", "./lnk", "./dl", "./dangling", "./loop",
         "./out", "./chain", "d/x.nix", "deep/er", "./deep", "./deep/er", "./deep/./er/../er", "./sub", "./sub/plain", "./UPPER.nix", "./upper.nix",
         "./with-dash+plus_.nix", "./d.nix", "./a.nix/x", "./dl/x.nix", "../src/a.nix", "../../w/top.nix", "./dd", "./../../../../../../../../../nonexistent"]


class C31(Server):
    id = "C31"
    rule = "a distinct document and place whose links, and definitions at paths, were compared with the file system"
    quick = 3000
    thorough = 60000
    quick_cap = 60
    deterministic = False
    evaluation = "requests"
    life = 100

    def options(self, ctx, r):
        return {"timeout": 60}

    def fixed(self):
        return ["[ %s ]" % " ".join(PATHS), "{ a = ./a.nix; b.${./b} = ./d/../a.nix or ./b; }", "é: \"é${./a.nix}\"",
                "{ x ? ./a.nix }: x", "with ./a.nix; inherit", "{ inherit (import ./a.nix) b; }", "<nixpkgs> + ./a${b} + ~/a.nix", "import ./d { }"]

    def judge(self, ctx, t):
        self.play(ctx, ctx.rng(0, "fixed"), t)

    def client(self, ctx, r=None):
        c = Server.client(self, ctx, r)
        if not os.path.exists(c.dir + "/w"):
            for h in HERE:
                h = c.dir + "/w/" + h
                os.makedirs(h + "/e")
                for f in FILES:
                    os.makedirs(os.path.dirname(h + "/" + f), exist_ok=True)
                    open(h + "/" + f, "w").close()
                for a, b in LINKS:
                    os.symlink(b, h + "/" + a)
            open(c.dir + "/w/top.nix", "w").close()
            open(c.dir + "/w/default.nix", "w").close()
            os.symlink("src/inner", c.dir + "/w/symlinked")
        return c

    def case(self, ctx, i):
        r = ctx.rng(i)

        def some():
            k = r.random()
            if k < .7:
                return r.choice(PATHS)
            if k < .8:
                return "@DIR@/w/" + r.choice(HERE[:1]) + "/" + r.choice(FILES[:4])
            if k < .9:
                return "./" + "/".join(r.choice(["d", "e", "..", ".", "deep", "er", "sub", "a.nix", "x.nix", "default.nix"]) for _ in range(r.randint(1, 4)))
            return r.choice(["./a${x}", "<nixpkgs>", "./${x}/b", "http://a.b/c", "\"./a.nix\"", "./d/${./a.nix}"])
        forms = ["%s", "import %s", "import %s { }", "(%s)", "[ %s ]", "{ a = %s; }", "rec { a.b = %s; c = a; }", "x.y or %s", "\"é${%s}\"", "''\n  ü ${%s}\n''",
                 "{ ${%s} = 1; }", "({ a ? %s }: a)", "{ inherit (%s) q; }", "(let p = %s; in p)", "(with %s; z)", "(if %s then 1 else 2)", "(assert %s; 1)",
                 "(a: %s)", "(%s ++ 1)", "!%s", "/* é😀 */ %s", "(a ? b.${%s})", "\"${\"${%s}\"}\"", "callPackage %s"]
        parts = []
        for _ in range(r.randint(1, 6)):
            t = some()
            for _ in range(r.choice([1, 1, 2])):
                f = r.choice(forms)
                t = f.replace("%s", "(" + t + ")" if " " in t or f == "%s ++ 1" else t)
            parts.append("(" + t + ")" if " " in t or t.startswith("!") else t)
        self.play(ctx, r, "[" + r.choice([" ", "\n", "\n  # é\n"]) + r.choice([" ", "\n  "]).join(parts) + " ]")

    def play(self, ctx, r, t):
        try:
            c = self.client(ctx, r)
            t = t.replace("@DIR@", c.dir)
            try:
                p = prog.Prog(t.encode("utf-8").decode("latin-1"))
            except nixparse.NixError:
                ctx.count("not a program")
                return
            place = c.dir + "/w/" + r.choice(HERE + ["symlinked"])
            path = place + "/doc%d.nix" % self.used
            u = "file://" + urllib.parse.quote(path, safe=r.choice(["/", "/+&=@:,;"]))
            c.notify("textDocument/didOpen", {"textDocument": {"uri": u, "languageId": "nix", "version": 1, "text": t}})
            want = {}
            all_ = []
            skip = False
            for n in nixparse.walk(p.tree):
                if n.k != "Path":
                    continue
                lit = n.parts[0] if len(n.parts) == 1 and isinstance(n.parts[0], str) else None
                if lit is not None and (lit.startswith("~") or lit.endswith("/")):
                    skip = True
                if lit is not None and self.odd(place, lit):
                    skip = True
                tgt = self.target(place, lit) if lit is not None else None
                all_.append((n, lit, tgt))
                if tgt is not None:
                    want[(n.lo, n.hi)] = tgt
            if skip:
                ctx.count("undecided")
                c.notify("textDocument/didClose", {"textDocument": {"uri": u}})
                return
            link = c.post("textDocument/documentLink", {"textDocument": {"uri": u}})
            pend = []
            for n, lit, tgt in r.sample(all_, min(4, len(all_))):
                if lit is None:
                    continue
                pos = p.pos(r.randrange(n.lo, n.hi))
                pend.append((n, lit, tgt, c.post("textDocument/definition", {"textDocument": {"uri": u}, "position": pos})))
            rep = c.wait(link)
            ctx.count("requests")
            if "error" in rep:
                ctx.violation("links are refused: %s" % rep["error"], {"text": t, "in": place})
            else:
                w = sorted((prog.key(p.rng(*k)), v) for k, v in want.items())
                g = sorted((prog.key(l["range"]), self.unuri(l["target"])) for l in rep["result"])
                if w != g:
                    ctx.violation("links are %s, want %s" % ([x for x in g if x not in w], [x for x in w if x not in g]), {"text": t, "in": place})
                ctx.count("links", len(g))
            ctx.count("paths", len(all_))
            for n, lit, tgt, i in pend:
                rep = c.wait(i)
                ctx.count("requests")
                d = rep.get("result")
                locs = d if isinstance(d, list) else [d] if d else []
                got = [(self.unuri(l["uri"]), prog.key(l["range"])) for l in locs]
                if got != ([(tgt, (0, 0, 0, 0))] if tgt is not None else []):
                    ctx.violation("the definition at %s is %s, want %s" % (lit, got if d is not None else rep, tgt), {"text": t, "in": place})
                ctx.count("definitions at a path")
            c.notify("textDocument/didClose", {"textDocument": {"uri": u}})
            c.forget()
            ctx.distinct((t.replace(c.dir, "@DIR@"), os.path.basename(place)))
            ctx.sample({"document": t[:200], "in": os.path.basename(place)})
        except (rpc.Dead, lsp.Lost) as e:
            if self.c is None:
                raise
            self.died(ctx, e, {"text": t})

    def unuri(self, u):
        if not u.startswith("file:///"):
            return "not a file: " + u
        if any(c in u for c in " #?\"<>é"):
            return "not a URI: " + u
        return urllib.parse.unquote(u[7:])

    def odd(self, place, lit):
        """.. after a symbolic link, or below something missing: Nix and file systems may disagree."""
        cur = "/" if lit.startswith("/") else os.path.realpath(place)
        for s in lit.split("/"):
            if s == "..":
                if os.path.islink(cur) or not os.path.isdir(cur):
                    return True
                cur = os.path.dirname(cur)
            elif s == "." and not os.path.isdir(cur):
                return True
            elif s not in ("", "."):
                cur = os.path.join(cur, s)
        return False

    def target(self, place, lit):
        try:
            q = os.path.realpath(os.path.join(os.path.realpath(place), lit), strict=True)
        except (FileNotFoundError, OSError):
            return None
        if os.path.isdir(q):
            q += "/default.nix"
            if not os.path.exists(q):
                return None
        return q

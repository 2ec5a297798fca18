"""The server as an editor sees it."""
import json
import os
import random
import re
import time

import denote
import domain
import lsp
import lsptext
import nixgen
import nixparse
import probe
import prog
import rpc
import run
import shape
import world


def clean(err):
    return re.sub(r"0x[0-9a-f]+|==\d+==|\(pid=\d+\)", "", err)


def evidence(err):
    """The report of a sanitizer, or the end of what was logged."""
    e = clean(err)
    m = re.search(r"(ERROR: \w+Sanitizer|WARNING: ThreadSanitizer|[^\n]*runtime error:|[^\n]*Assertion `)", e)
    return e[m.start():m.start() + 5000] if m else e[-1500:]


def sanitizers(err):
    return re.search(r"AddressSanitizer|ThreadSanitizer|LeakSanitizer|UndefinedBehaviorSanitizer|runtime error:|Assertion `|"
                     r"terminate called", err)


class Server(run.Check):
    """Keeps a nixd for some cases, then ends it in order and looks at what it leaves."""
    builds = (("asan", ("nixd-bin",)),)
    level = "exploration"
    life = 25
    c = None
    used = 0
    cfg = "asan"

    def options(self, ctx, r):
        return {}

    def client(self, ctx, r=None):
        if self.c is not None and self.used >= self.life:
            self.end(ctx)
        if self.c is None:
            self.c = lsp.Client(ctx.paths[self.cfg + "/nixd-bin"], **self.options(ctx, r or random.Random(ctx.wid)))
            self.used = 0
            ctx.count("servers")
        self.used += 1
        return self.c

    def end(self, ctx):
        if self.c is None:
            return
        c, self.c = self.c, None
        try:
            code, err = c.finish()
        except (rpc.Dead, lsp.Lost) as e:
            _, err = c.kill()
            ctx.violation("the server does not end in order: %s %s" % (e, probe.summary(err)), {"stderr": evidence(err)})
            return
        if code != 0 or sanitizers(err):
            ctx.violation("the server ends with %s: %s" % (code, probe.summary(err)), {"stderr": evidence(err)})
        for b in c.bad:
            ctx.violation(b)

    def died(self, ctx, e, data):
        c, self.c = self.c, None
        _, err = c.kill()
        ctx.violation("%s: %s" % (e, probe.summary(err) if sanitizers(err) else err[-300:]), dict(data, stderr=evidence(err)))

    def done(self, ctx):
        self.end(ctx)


REQUESTS = ["hover", "definition", "references", "documentHighlight", "documentSymbol", "foldingRange", "semanticTokens/full",
            "documentLink", "inlayHint", "completion", "codeAction", "rename", "prepareRename"]


IDS = [n for n in world.NAMES if re.fullmatch(r"[a-zA-Z_][\w'-]*", n, re.A)]


def module(r):
    """A program whose names lead to the workers."""
    def path(k=3):
        return ".".join(r.choice(IDS) for _ in range(r.randint(1, k)))

    def value():
        return r.choice(["pkgs." + path(), "with pkgs; [ %s %s ]" % (path(2), path(1)), "lib.%s 1" % path(2), "{ %s = 1; %s = pkgs.%s; }" % (path(), path(), path()),
                         "config." + path(), "true", "with lib; %s" % path(1), "(%s: with pkgs; %s)" % (path(1), path(2))])
    return "{ config, pkgs, lib, ... }:\n{\n%s}\n" % "".join("  %s = %s;\n" % (path(), value()) for _ in range(r.randint(1, 8)))


def document(r):
    """(kind, text): programs, broken programs, odd texts; non-ASCII included."""
    k = r.random()
    if k < .2:
        t = module(r)
        return ("module", t) if k < .1 else ("mutant", domain.mutate(r, t.encode().decode("latin-1")).encode("latin-1").decode("utf-8", "replace"))
    k = r.random()
    if k < .45:
        t, _ = nixgen.program("%d" % r.randrange(1 << 40), dup=r.choice([0, 0, .3]))
        kind = "program"
    elif k < .9:
        t, _ = nixgen.program("%d" % r.randrange(1 << 40), dup=.1)
        t = domain.mutate(r, t)
        kind = "mutant"
    elif k < .95:
        t = "".join(r.choice(domain.VOC + [" ", "\n"]) + r.choice(["", " "]) for _ in range(r.randint(0, 40)))
        kind = "tokens"
    else:
        t = lsptext.text(r, r.randint(0, 60)).replace("\0", "")
        return "noise", t
    t = t.encode("latin-1").decode("utf-8", "replace")
    if r.random() < .15:
        t = t.replace("\n", "\r\n")
    return kind, t


def params(r, doc, method, wild=.1):
    p = {"textDocument": {"uri": doc.uri}}
    n = len(doc.text)

    def somepos():
        if r.random() < wild:
            return {"line": r.choice([0, 1, 5, 1000, 2 ** 31 - 1]), "character": r.choice([0, 1, 7, 1000, 2 ** 31 - 1])}
        return doc.at(r.randint(0, n))
    if method in ("hover", "definition", "references", "documentHighlight", "completion", "rename", "prepareRename"):
        p["position"] = somepos()
    if method == "references":
        p["context"] = {"includeDeclaration": True}
    if method == "rename":
        p["newName"] = r.choice(["renamed", "x", "foo bar", "", "if"])
    if method == "inlayHint":
        p["range"] = doc.rng(0, n) if r.random() < .6 else {"start": somepos(), "end": somepos()}
    if method == "codeAction":
        a = somepos()
        p["range"] = {"start": a, "end": a if r.random() < .6 else somepos()}
        p["context"] = {"diagnostics": []}
    return p


class C22(Server):
    id = "C22"
    rule = "a distinct document on which requests were judged"
    quick = 1600
    thorough = 60000
    quick_cap = 60
    deterministic = False
    evaluation = "requests"
    assumptions = ("Requests come after initialize; workers reply (C32 judges what happens if they do not).",)

    def options(self, ctx, r):
        r = random.Random("%s/%s" % (ctx.seed, r.random()))
        return {"db": {"exprs": {lsp.NIXPKGS: world.tree(r, 3, "info", wide=.3), lsp.NIXOS: world.tree(r, 3, "option", wide=.3)}},
                "caps": {"window": {"workDoneProgress": r.random() < .5}, "workspace": {"configuration": r.random() < .5},
                         "textDocument": {"completion": {"completionItem": {"snippetSupport": r.random() < .5}}}},
                "timeout": 60}

    def fixed(self):
        return ["", "{ config, pkgs, ... }: { a.b. }", "with pkgs; [ héllo ]", "let é = 1; in x", "{ a.b = x; a.b.c = 1; }"]

    def judge(self, ctx, t):
        self.play(ctx, ctx.rng(0, "fixed"), "fixed", t)

    def case(self, ctx, i):
        r = ctx.rng(i)
        kind, t = document(r)
        self.play(ctx, r, kind, t)

    def play(self, ctx, r, kind, t):
        sent = []
        try:
            c = self.client(ctx, r)
            doc = shape.Doc(c.uri("d%d.nix" % self.used), t)
            u, n = c.open("d%d.nix" % self.used, t, 1)
            asked = []

            def ask(m, p):
                full = m if "/" in m and not m.startswith("semantic") else "textDocument/" + m
                sent.append([m, p])
                asked.append((c.post(full, p), full, p, doc))
            for _ in range(r.choice([3, 8, 14])):
                m = r.choice(REQUESTS)
                ask(m, params(r, doc, m))
                if r.random() < .08:
                    ask("textDocument/" + r.choice(REQUESTS), r.choice([{}, {"textDocument": {"uri": c.uri("other.nix")}},
                                                                        {"textDocument": {"uri": c.uri("other.nix")}, "position": {"line": 0, "character": 0},
                                                                         "range": doc.rng(0, 0), "context": {"diagnostics": []}, "newName": "q"}, None, [1],
                                                                        {"textDocument": {"uri": "untitled:x"}, "position": {"line": -1, "character": 0}}]))
                if r.random() < .03:
                    ask(r.choice(["workspace/unknown", "completionItem/resolve", "codeAction/resolve"]),
                        r.choice([{}, {"label": "a"}, {"label": "a", "data": "{"}, {"label": "a", "data": "{\"Scope\": [], \"Prefix\": \"\"}"},
                                  {"title": "x"}, {"title": "x", "data": {"noogleUrl": "https://noogle.dev"}}]))
                if r.random() < .06:
                    # the document changes under the requests
                    nt = document(r)[1]
                    doc = shape.Doc(doc.uri, nt)
                    c.change("d%d.nix" % self.used, [{"text": nt}], 2)
                    sent.append(["change", nt])
                    ctx.count("changes")
            if r.random() < .5:
                c.close("d%d.nix" % self.used)
                sent.append(["close", None])
                ctx.count("closed with requests under way")
            resolve = []
            for i, m, p, d in asked:
                rep = c.wait(i)
                ctx.count("requests")
                if "error" in rep:
                    ctx.count("errors")
                    continue
                if not isinstance(p, dict) or (p.get("textDocument") or {}).get("uri") != d.uri:
                    continue
                if r.random() < .5 and m == "textDocument/completion":
                    resolve += [("completionItem/resolve", it) for it in r.sample(rep["result"]["items"], min(2, len(rep["result"]["items"])))]
                if r.random() < .2 and m == "textDocument/codeAction":
                    resolve += [("codeAction/resolve", a) for a in rep["result"][:2]]
                if doc.text == t:
                    # the text did not change: the reply is about this text
                    for b in shape.reply(d, m, rep["result"], p):
                        ctx.violation(b, {"text": d.text, "method": m, "params": p})
                    ctx.count("judged replies")
                    if rep["result"]:
                        ctx.count("judged " + m.split("/", 1)[1])
            for m, it in resolve:
                rep = c.wait(c.post(m, it))
                ctx.count("requests")
                if "error" in rep or not isinstance(rep["result"], dict):
                    ctx.violation("the item cannot be resolved: %s" % json.dumps(rep)[:300], {"item": it})
            if t == doc.text and c.diags.get(u):
                for p in c.diags[u][n:]:
                    if p["diagnostics"]:
                        for b in shape.diagnostics(doc, p["diagnostics"]):
                            ctx.violation(b, {"text": t})
                        ctx.count("judged diagnostics")
            for b in c.bad:
                ctx.violation(b, {"text": t, "sent": sent})
            c.forget()
            ctx.distinct(t)
            ctx.count("documents: " + kind)
            ctx.sample({"document": t[:200], "requests": [s[0] for s in sent]})
        except (rpc.Dead, lsp.Lost) as e:
            if self.c is None:
                raise
            self.died(ctx, e, {"text": t, "sent": sent})


IDENT = re.compile(r"[a-zA-Z_][a-zA-Z0-9_'\-]*")


def occurrences(p):
    """[(range, Def or None, what)] where a cursor names a variable: uses, and definitions."""
    out = []
    taken = set()
    for rg, v in p.R.vars.items():
        out.append((rg, v, "use"))
        taken.add(rg)
    for d in p.R.defs:
        if d.range and d.range not in taken:
            out.append((d.range, ("def", d), "definition"))
    return out


class C25(Server):
    id = "C25"
    rule = "a distinct program with a variable on which navigation was judged"
    quick = 8000
    thorough = 50000
    quick_cap = 60
    deterministic = False
    evaluation = "requests"

    def options(self, ctx, r):
        return {"timeout": 60}

    def fixed(self):
        return ["let x = 1; in { x = 2; inherit x; }", "rec { x = 1; inherit x; }", "let a.b = 1; a.c = 2; in a",
                "let \"a\" = 1; in a", "with a; with b; c", "{ a ? b, b }@c: c.a", "x: x x", "let inherit (a) b; in b",
                "rec { inherit a; c = a; }", "let x = 1; in with x; x", "let\n é = 1; in 1"]

    def judge(self, ctx, t):
        d = t.encode("utf-8").decode("latin-1")
        try:
            p = prog.Prog(d)
        except nixparse.NixError:
            return
        self.play(ctx, ctx.rng(0, "fixed"), p, "fixed" if not p.R.model.dups else "dup")

    def case(self, ctx, i):
        r = ctx.rng(i)
        self.play(ctx, r, prog.generate(r, builtin=.05, unbound=.05), "program")

    def play(self, ctx, r, p, kind):
        if domain.undecided(p.data, p.tree):
            ctx.count("undecided")
            return
        occ = occurrences(p)
        if not occ:
            return
        try:
            c = self.client(ctx, r)
            name = "d%d.nix" % self.used
            u, _ = c.open(name, p.text)
            pend = []
            for rg, v, what in (occ if len(occ) <= 6 else r.sample(occ, 6)):
                lo, hi = p.index(rg[0]), p.index(rg[1])
                nxt = p.text[hi:hi + 1]
                b = rg[0] + r.randrange(rg[1] - rg[0]) if r.random() < .8 or nxt not in " ;)]}\n" else rg[1]
                i = p.text[:p.index(rg[0])]
                at = p.index(rg[0]) + len(p.bytes[rg[0]:b].decode("utf-8", "ignore"))
                l, ch = lsptext.to_pos(p.text, at)
                q = {"textDocument": {"uri": u}, "position": {"line": l, "character": ch}}
                pend.append((rg, v, what, at, [c.post("textDocument/" + m, dict(q, context={"includeDeclaration": False}))
                                               for m in ("definition", "references", "documentHighlight")]))
            for rg, v, what, at, ids in pend:
                rep = [c.wait(i) for i in ids]
                ctx.count("requests", 3)
                ctx.count("at a " + what)
                ctx.count("bound by " + (v[0] if v[0] != "def" else v[1].kind))
                for b in self.compare(p, u, rg, v, what, rep, kind):
                    ctx.violation(b, {"text": p.text, "at": p.text[max(0, at - 10):at] + "|" + p.text[at:at + 10]})
            c.close(name)
            c.forget()
            ctx.distinct(p.data)
            ctx.sample({"document": p.text[:200], "variables": len(occ)})
        except (rpc.Dead, lsp.Lost) as e:
            if self.c is None:
                raise
            self.died(ctx, e, {"text": p.text})

    def compare(self, p, u, rg, v, what, rep, kind):
        name = "%s at %s" % (p.bytes[rg[0]:rg[1]].decode(), rg)
        d, refs, hl = [x.get("result") if "result" in x else x["error"] for x in rep]
        err = ["error" in x for x in rep]
        if kind == "dup":
            return
        locs = [] if d is None or err[0] else d if isinstance(d, list) else [d]
        mine = sorted(prog.key(l["range"]) for l in locs if l["uri"] == u)
        other = [l for l in locs if l["uri"] != u]
        if other:
            yield "%s is defined elsewhere: %s" % (name, json.dumps(other)[:200])
        R = p.R
        k = lambda x: prog.key(p.rng(*x))
        if v[0] == "undef" or (v[0] == "def" and v[1].kind == "builtin"):
            if mine:
                yield "%s has no definition here, yet it leads to %s" % (name, mine)
            if v[0] == "undef":
                if not err[1] and refs:
                    yield "%s is undefined, yet has references" % name
                if not err[2] and hl:
                    yield "%s is undefined, yet is highlighted" % name
            else:
                want = sorted(k(x) for x in v[1].uses)
                if err[1] or sorted(prog.key(l["range"]) for l in refs) != want:
                    yield "references of the builtin %s are %s, want %s" % (name, refs if err[1] else sorted(prog.key(l["range"]) for l in refs), want)
            return
        if v[0] == "with":
            kws = {k((w.lo, w.lo + 4)): w for w in v[1]}
            if len(mine) != 1 or mine[0] not in kws:
                yield "%s comes from with, and leads to %s" % (name, mine)
                return
            w = kws[mine[0]]
            uses = sorted(k(x) for x, y in R.vars.items() if y[0] == "with" and any(z is w for z in y[1]))
            decl = mine[0]
        else:
            D = v[1]
            uses = sorted(k(x) for x in D.uses)
            decl = k(D.range)
            if what == "use" and mine != [decl]:
                yield "%s is bound at %s, and leads to %s" % (name, decl, mine)
            if what == "definition" and mine not in ([decl], []):
                yield "the definition %s leads to %s" % (name, mine)
        if err[1] or sorted(prog.key(l["range"]) for l in refs) != uses or any(l["uri"] != u for l in refs):
            yield "references of %s are %s, want %s" % (name, refs if err[1] else sorted(prog.key(l["range"]) for l in refs), uses)
        got = None if err[2] else sorted((prog.key(h["range"]), h.get("kind")) for h in hl)
        if got != sorted([(x, 2) for x in uses] + [(decl, 3)]):
            yield "highlights of %s are %s, want %s and %s" % (name, got, uses, decl)


FRESH = "renamed9"


class C26(Server):
    id = "C26"
    rule = "a distinct program and variable that was renamed"
    quick = 1600
    thorough = 60000
    quick_cap = 60
    deterministic = False
    evaluation = "renames"

    def options(self, ctx, r):
        return {"timeout": 60}

    def fixed(self):
        return ["let x = 1; in { inherit x; }", "let x.a = 1; x.b = 2; in x", "let \"x\" = 1; in x", "let inherit (a) x; in x",
                "rec { x = 1; y = x; }", "x: rec { inherit x; y = x; }", "{ x ? 1, y ? x }: y", "let x = 1; y = { inherit x; }; in y",
                "let x = 1; in let inherit x; in x", "rec { inherit (a) b c d; e = c; }", "let a = { x = 1; }; a.y = 2; in a",
                "let x.a = 1; x.b = 2; x.c.d = 3; x.c.e = 4; in x", "rec { x.a = 1; x.b = 2; \"x\".c = x; ${\"x\"}.d = x.a; }",
                "let inherit (a) \"x\"b; in x + b", "rec { inherit (a) b\"x\"c \"d\"\"e\"; y = x + d + e; }", "let inherit (a)x; in x",
                "let x=1;in[x\"\"x]", "let x=1;in(x)x", "let x=1;in{inherit x;\"y\"=x;}", "let x=1;in if x then x else x",
                "let x = 1; in ''${x}'' + \"${x}x\"", "let x=1;y=x;in assert x;y.x or x", "let \"x\"=1;in x",
                "let x=1;y=2;z=3;w=4;in{inherit \"x\"y;inherit z\"w\";}", "let x=1;y=2;in{inherit\"x\"y;}", "rec{\"x\"=1;inherit({inherit\"x\";})y;}"]

    def judge(self, ctx, t):
        p = prog.Prog(t)
        for o in sorted(occurrences(p), key=lambda o: o[0]):
            self.play(ctx, ctx.rng(0, "fixed"), p, [o])

    def case(self, ctx, i):
        r = ctx.rng(i)
        p = prog.generate(r, builtin=.04, unbound=.04)
        if domain.undecided(p.data, p.tree) or any(n.k == "LegacyLet" for n in nixparse.walk(p.tree)):
            ctx.count("undecided")
            return
        occ = occurrences(p)
        if occ:
            bound = [o for o in occ if o[1][0] == "def" and o[1][1].range]
            self.play(ctx, r, p, r.sample(bound, min(4, len(bound))) + r.sample(occ, min(1, len(occ))))

    def play(self, ctx, r, p, occ):
        try:
            c = self.client(ctx, r)
            name = "d%d.nix" % self.used
            u, _ = c.open(name, p.text)
            pend = []
            for rg, v, what in occ:
                word = p.data[rg[0]:rg[1]]
                before = p.data[rg[0] - 1:rg[0]]      # another name may end where this begins
                stuck = before != "" and before in "\"'" or word[0] == '"' and (before.isalnum() or before == "_")
                if stuck and (len(word) == 1 or not word.isascii()):
                    ctx.count("undecided: between two names")
                    continue
                at = p.pos(rg[0] + r.randrange(stuck, len(word))) if word.isascii() else p.pos(rg[0])
                q = {"textDocument": {"uri": u}, "position": at}
                bad = r.choice(["", "1a", "foo bar", "if", "a.b", "a;", "\"a", "x\n", "é", "rec", "a=1;b"]) if r.random() < .15 else None
                pend.append((rg, v, what, bad, c.post("textDocument/prepareRename", q),
                             c.post("textDocument/rename", dict(q, newName=FRESH if bad is None else bad))))
            for rg, v, what, bad, i, j in pend:
                a, b = c.wait(i), c.wait(j)
                ctx.count("renames")
                for x in self.compare(ctx, p, u, rg, v, bad, a, b):
                    ctx.violation(x, {"text": p.text, "at": [rg, p.data[rg[0]:rg[1]]], "new name": bad or FRESH,
                                      "reply": b.get("result", b.get("error"))})
                ctx.distinct((p.data, rg))
            c.close(name)
            c.forget()
            ctx.sample({"document": p.text[:200], "variables": len(occ)})
        except (rpc.Dead, lsp.Lost) as e:
            if self.c is None:
                raise
            self.died(ctx, e, {"text": p.text})

    def compare(self, ctx, p, u, rg, v, bad, prep, rep):
        name = "%s at %s" % (p.data[rg[0]:rg[1]], rg)
        if v[0] != "def" or v[1].range is None:
            if "error" not in rep or "error" not in prep:
                yield "%s is not bound in the document, yet can be renamed" % name
            ctx.count("refused: not bound here")
            return
        if bad is not None:
            if "error" not in rep:
                yield "%s can be renamed to %r" % (name, bad)
            ctx.count("refused: invalid name")
            return
        D = v[1]
        if "error" in rep:
            yield "%s cannot be renamed: %s" % (name, rep["error"]["message"])
            return
        if "error" in prep or prep["result"] is None:
            yield "%s can be renamed, prepareRename says no: %s" % (name, prep)
        else:
            k = prep["result"]
            w = p.rng(*rg)
            inner = p.rng(rg[0] + 1, rg[1] - 1) if p.data[rg[0]] == '"' else w
            if k not in (w, inner):
                yield "prepareRename of %s names %s" % (name, k)
        ch = rep["result"].get("changes") or {}
        if set(ch) != {u}:
            yield "renaming %s changes %s" % (name, list(ch))
            return
        new = lsptext.apply_edits(p.text, ch[u])
        if new is None:
            yield "the edits that rename %s cannot be applied" % name
            return
        try:
            q = prog.Prog(new.encode("utf-8").decode("latin-1"))
        except nixparse.NixError as e:
            yield "renaming %s breaks the syntax (%s): %s" % (name, e, new[:300])
            return
        a = denote.Denote(p.tree, p.R, renamed=D)
        b = denote.Denote(q.tree, q.R, fresh=FRESH)
        if a.form != b.form or q.R.model.dups:
            yield "renaming %s changes the program: %s\n%s" % (name, denote.diff(a.form, b.form), new[:400])
            return
        ctx.count("renamed " + D.kind)
        if len(D.uses) > 1:
            ctx.count("renamed with several uses")


SNAMES = ["sema-duplicated-attrname", "sema-unused-def-let", "sema-unused-def-lambda-noarg-formal", "sema-unused-def-lambda-witharg-formal",
          "sema-unused-def-lambda-witharg-arg", "sema-escaping-with", "sema-undefined-variable", "sema-extra-with", "sema-extra-rec",
          "sema-primop-overridden", "sema-primop-removed-prefix", "sema-primop-needs-prefix", "sema-primop-unknown", "sema-empty-inherit",
          "parse-expected", "parse-redundant-parens", "or-identifier", "let-dynamic", "lex-unterminated-bcomment", "no-such-name", ""]


def lspdiags(rep, text, u, suppress=()):
    """What is to be published for what the library reports."""
    data = text.encode("utf-8")

    def pos(b):
        # the library may point into the middle of a character: both sides of it are fine
        lo = hi = b
        while lo > 0 and lo < len(data) and data[lo] & 0xC0 == 0x80:
            lo -= 1
        while hi < len(data) and data[hi] & 0xC0 == 0x80:
            hi += 1
        return tuple(tuple(lsptext.to_pos(text, len(data[:x].decode("utf-8")))) for x in (lo, hi))

    def rng(r):
        return (pos(r[0]), pos(r[1]))

    def s(t):
        return t.encode("latin-1").decode("utf-8", "replace")
    out = []
    for d in rep["diags"]:
        if d["s"] in suppress:
            continue
        n = len(d["fixes"])
        msg = d["msg"] + (" (fix available)" if n == 1 else " (%d fixes available)" % n if n else "")
        related = [{"location": {"uri": u, "range": rng(x["r"])}, "message": s(x["msg"])} for x in d["notes"]]
        out.append((rng(d["r"]), [1, 1, 2, 3, 4][d["sev"]], d["s"], "nixf", s(msg), sorted(1 if t == 0 else 2 for t in d["tags"]), related))
        for x in d["notes"]:
            out.append((rng(x["r"]), 4, x["s"], "nixf", s(x["msg"]), sorted(1 if t == 0 else 2 for t in x["tags"]),
                        [{"location": {"uri": u, "range": rng(d["r"])}, "message": "original diagnostic"}]))
    return out


def published(ds):
    def rng(r):
        return tuple((r[k]["line"], r[k]["character"]) for k in ("start", "end"))
    return [(rng(d["range"]), d.get("severity"), d.get("code"), d.get("source"), d["message"], sorted(d.get("tags") or []),
             [dict(x, location={"uri": x["location"]["uri"], "range": rng(x["location"]["range"])}) for x in d.get("relatedInformation") or []])
            for d in ds]


def samediags(got, want):
    """The differences between what was published and what lspdiags asks for."""
    def same(g, w):
        def r(a, b):
            return a[0] in b[0] and a[1] in b[1]
        return r(g[0], w[0]) and g[1:6] == w[1:6] and len(g[6]) == len(w[6]) and all(
            x["message"] == y["message"] and x["location"]["uri"] == y["location"]["uri"] and
            r(x["location"]["range"], y["location"]["range"]) for x, y in zip(g[6], w[6]))
    if len(got) == len(want) and all(same(g, w) for g, w in zip(got, want)):
        return None
    return json.dumps([g for g in got if not any(same(g, w) for w in want)][:3] + ["want"] +
                      [w for w in want if not any(same(g, w) for g in got)][:3] + ["%d/%d" % (len(got), len(want))], ensure_ascii=False)


class C23(Server):
    id = "C23"
    builds = (("asan", ("nixd-bin", "nixfprobe")),)
    rule = "a distinct text for which the published diagnostics were judged, and were not empty"
    quick = 2400
    thorough = 80000
    quick_cap = 60
    deterministic = False
    evaluation = "publications"
    assumptions = ("What the library reports for a text is judged by C08 to C12; here it is the reference.",)

    def init(self, ctx):
        self.probe = probe.Probe(ctx.paths["asan/nixfprobe"])

    def done(self, ctx):
        self.probe.stop()
        self.end(ctx)

    def options(self, ctx, r):
        return {"timeout": 60}

    def fixed(self):
        return ["let x = 1; in 1", "{ a = 1; a = 2; }", "with 1; 2", "\u00e9 \U0001f600 (", "let\r\n é = 1; in"]

    def judge(self, ctx, t):
        self.play(ctx, ctx.rng(0, t), [t, "1", t])

    def case(self, ctx, i):
        r = ctx.rng(i)
        ts = []
        for _ in range(r.choice([1, 2, 3])):
            ts.append(document(r)[1])
        self.play(ctx, r, ts)

    def want(self, t, u, sup):
        if t is None:
            return []
        return lspdiags(self.probe.ask(t.encode("utf-8"), 7), t, u, sup)

    def play(self, ctx, r, texts):
        """Texts one after the other, in up to three documents, by edits; configurations in between."""
        sent = []
        try:
            c = self.client(ctx, r)
            c.until(lambda: c.asked_config)     # the first configuration is none
            docs = {}       # name -> (text, version)
            sup = getattr(c, "sup", ())
            names = ["d%d-%d.nix" % (self.used, k) for k in range(r.choice([1, 1, 2, 3]))]
            version = r.randrange(1000)
            count = {}
            expect = {}     # name -> [(version, text)] of publications with a version, in order

            def note(n, t):
                expect.setdefault(n, []).append((version, t))
            for t in texts + [None] * r.choice([0, 1, 2]):
                n = r.choice(names)
                version += r.choice([1, 1, 5])
                cur = docs.get(n)
                k = r.random()
                if t is None and cur is not None and k < .3:
                    # an edit that is invalid: the document is given up
                    c.change(n, [{"range": {"start": {"line": cur.count("\n") + 5, "character": 0},
                                            "end": {"line": cur.count("\n") + 5, "character": 0}}, "text": "x"}], version)
                    sent.append(["bad change", n])
                    docs[n] = None
                    ctx.count("given up after an invalid change")
                    expect.setdefault(n, []).append((None, None))
                    continue
                if t is None:
                    if cur is None:
                        continue
                    t = cur
                    if k < .5:
                        es = r.choice([[], [{"text": t}], [{"text": "x"}, {"text": t}]])
                        c.change(n, es, version)
                        sent.append(["edits to the same", n, es])
                        ctx.count("changes that change nothing")
                        note(n, t)
                        continue
                    es = []
                    for _ in range(r.choice([1, 2, 3])):
                        a = r.randint(0, len(t))
                        b = min(len(t), a + r.choice([0, 0, 1, 4]))
                        new = r.choice(["", "x", ";", " ", "\n", "é", "😀", "(", "}", "inherit", "\""])
                        es.append({"range": {"start": dict(zip(("line", "character"), lsptext.to_pos(t, a))),
                                             "end": dict(zip(("line", "character"), lsptext.to_pos(t, b)))}, "text": new})
                        t = t[:a] + new + t[b:]
                    if "\r" in t and any(e["range"]["start"]["character"] for e in es):
                        es = [{"text": t}]
                    c.change(n, es, version)
                    sent.append(["edits", n, es])
                elif cur is None:
                    c.open(n, t, version)
                    sent.append(["open", n, t])
                else:
                    c.change(n, [{"text": t}], version)
                    sent.append(["change", n, t])
                docs[n] = t
                note(n, t)
                if r.random() < .12:
                    sup = tuple(r.sample(SNAMES, r.randint(0, 9)))
                    c.config = {"diagnostic": {"suppress": list(sup)}}
                    c.sup = sup
                    sent.append(["config", sup])
                    u = [c.uri(x) for x in docs if docs[x] is not None]
                    before = {x: sum("version" not in p or p["version"] is None for p in c.diags.get(x, [])) for x in u}
                    c.notify("workspace/didChangeConfiguration", {"settings": {}})
                    ctx.count("configurations")
                    # configurations that overtake each other are not judged: wait for this one
                    if not c.until(lambda: all(sum("version" not in p or p["version"] is None for p in c.diags.get(x, [])) > before[x] for x in u)):
                        raise lsp.Lost("no diagnostics after a change of the configuration")
            closed = r.random() < .5
            for n in docs:
                if docs[n] is not None and closed:
                    c.close(n)
                    expect[n].append((None, None))
                    ctx.count("closed")
            c.request("workspace/sync-nothing")
            for n in docs:
                u = c.uri(n)
                got = c.diags.get(u, [])
                # publications of texts come in order, each one once, with its version
                vs = [p["version"] for p in got if p.get("version") is not None]
                ws = [v for v, t in expect[n] if v is not None]
                if vs != ws:
                    ctx.violation("publications have versions %s, the texts have %s" % (vs, ws), {"sent": sent})
                    continue
                if not got:
                    ctx.violation("nothing was published for an opened document", {"sent": sent})
                    continue
                final = None if closed else docs[n]
                w = self.want(final, u, sup)
                g = published(got[-1]["diagnostics"])
                bad = samediags(g, w)
                if bad:
                    ctx.violation("the last publication does not agree with the text: %s" % bad, {"sent": sent, "text": final, "suppressed": sup})
                ctx.count("publications", len(got))
                if not sent_config(sent):
                    byv = dict((v, t) for v, t in expect[n] if v is not None)
                    for p in got:
                        if p.get("version") is not None:
                            t = byv[p["version"]]
                            w = self.want(t, u, sup)
                            bad = samediags(published(p["diagnostics"]), w)
                            if bad:
                                ctx.violation("the diagnostics of version %d do not agree with its text: %s" % (p["version"], bad),
                                              {"sent": sent, "text": t})
                            if w:
                                ctx.distinct(t)
                                ctx.count("diagnostics", len(w))
                elif w:
                    ctx.distinct((final, sup))
                if not closed and docs[n] is not None:
                    c.close(n)
            c.forget()
            ctx.sample({"sent": sent[:6]})
        except (rpc.Dead, lsp.Lost) as e:
            if self.c is None:
                raise
            self.died(ctx, e, {"sent": sent})
        except probe.Crash as e:
            ctx.count("the library crashes: judged by C01")


def sent_config(sent):
    return any(s[0] == "config" for s in sent)

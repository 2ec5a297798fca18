"""Threads of the server meeting each other."""
import random
import re

import lsp
import lsptext
import nixd
import perturb
import probe
import rpc
import shape
import world
from nixd import REQUESTS, Server, document, module, params


def reports(err):
    """The reports of ThreadSanitizer, by what they are about."""
    out = {}
    for m in re.finditer(r"WARNING: ThreadSanitizer: ([^\n(]*).*?(?=\n={10,})", err, re.S):
        t = m.group(0)
        fr = re.findall(r"^\s+#\d+ (\S[^\n]*)", t, re.M)
        own = [re.sub(r"\s*/\S*/|:\d+.*$|\(.*$", "", f) for f in fr if "nixd" in f or "nixf" in f or "lspserver" in f]
        out.setdefault((m.group(1).strip(), tuple(own[:2])), nixd.clean(t)[:4000])
    return out


class C24(Server):
    id = "C24"
    builds = (("tsan", ("nixd-bin",)),)
    cfg = "tsan"
    rule = "a distinct order in which the replies to overlapping requests arrived"
    quick = 240
    thorough = 6000
    quick_cap = 55
    deterministic = False
    evaluation = "requests"
    life = 6

    def options(self, ctx, r):
        self.seed = r.randrange(1, 1 << 30)
        db = {"exprs": {lsp.NIXPKGS: world.tree(r, 3, "info", wide=.3), lsp.NIXOS: world.tree(r, 3, "option", wide=.3),
                        "OTHER": world.tree(r, 2, "option", wide=.3)}}
        return {"db": db, "timeout": 120, "env": perturb.env(self.seed, r.choice([0, 20, 60, 200])),
                "caps": {"window": {"workDoneProgress": r.random() < .7}, "workspace": {"configuration": r.random() < .7},
                         "textDocument": {"completion": {"completionItem": {"snippetSupport": r.random() < .5}}}}}

    def text(self, r):
        return module(r) if r.random() < .5 else document(r)[1]

    def end(self, ctx):
        if self.c is None:
            return
        c, self.c = self.c, None
        try:
            r = random.Random(self.seed)
            if r.random() < .6:     # the end comes while there is work
                t = module(r)
                d = shape.Doc(c.uri("end.nix"), t)
                c.open("end.nix", t, 1)
                for _ in range(r.randint(3, 25)):
                    m = r.choice(["completion", "hover", "definition", "completion", "hover", "inlayHint", "formatting", "codeAction", None])
                    if m is None:
                        c.config = {"options": {"end%d" % r.randrange(3): {"expr": "OTHER"}}, "diagnostic": {"suppress": ["sema-unused-def-let"]}}
                        c.notify("workspace/didChangeConfiguration", {"settings": {}})
                        c.step(0)
                    else:
                        p = params(r, d, m, wild=.02)
                        if m == "formatting":
                            p["options"] = {"tabSize": 2, "insertSpaces": True}
                        c.post("textDocument/" + m, p)
                ctx.count("ends with work pending")
            code, err = c.finish(timeout=60)
        except (rpc.Dead, lsp.Lost) as e:
            _, err = c.kill()
            ctx.violation("the server does not end in order: %s %s" % (e, probe.summary(err)), {"stderr": nixd.evidence(err), "perturb": self.seed})
            return
        self.look(ctx, err)
        if code != 0 and "ThreadSanitizer" not in err:
            ctx.violation("the server ends with %s: %s" % (code, probe.summary(err)), {"stderr": nixd.evidence(err), "perturb": self.seed})
        for b in c.bad:
            ctx.violation(b)

    def look(self, ctx, err):
        for (what, where), t in reports(err + "\n=================="). items():
            ctx.violation("%s: %s" % (what, ", ".join(where)), {"report": t, "perturb": self.seed})

    def died(self, ctx, e, data):
        c, self.c = self.c, None
        _, err = c.kill()
        self.look(ctx, err)
        if "ThreadSanitizer: data race" not in err:
            ctx.violation("%s: %s" % (e, err[-300:]), dict(data, stderr=nixd.evidence(err), perturb=self.seed))

    def case(self, ctx, i):
        r = ctx.rng(i)
        steps = []
        try:
            c = self.client(ctx, r)
            docs = {}
            order = []
            pend = []
            take = c.take

            def took(ms):
                order.extend(m["id"] for m in ms if "id" in m and "method" not in m)
                take(ms)
            c.take = took
            first = c.n + 1
            for _ in range(r.choice([30, 60, 100])):
                k = r.random()
                n = "r%d-%d.nix" % (self.used, r.randrange(3))
                if n not in docs or k < .06:
                    if n in docs:
                        c.close(n)
                    t = self.text(r)
                    docs[n] = (shape.Doc(c.uri(n), t), 1)
                    c.open(n, t, 1)
                    steps.append("open")
                elif k < .24:
                    d, v = docs[n]
                    if r.random() < .5:
                        t = self.text(r)
                        c.change(n, [{"text": t}], v + 1)
                    else:
                        a = r.randint(0, len(d.text))
                        b = min(len(d.text), a + r.randint(0, 5))
                        s = r.choice(["x", " ", "{ }", "\n", "a.b", "é", ""])
                        if lsptext.to_index(d.text, *(lsptext.to_pos(d.text, a)), True) != a or lsptext.to_index(d.text, *(lsptext.to_pos(d.text, b)), True) != b:
                            continue
                        t = d.text[:a] + s + d.text[b:]
                        c.change(n, [{"range": d.rng(a, b), "text": s}], v + 1)
                    docs[n] = (shape.Doc(d.uri, t), v + 1)
                    steps.append("change")
                elif k < .28:
                    c.close(n)
                    del docs[n]
                    steps.append("close")
                elif k < .33:
                    c.config = r.choice([None, {}, {"diagnostic": {"suppress": ["sema-unused-def-let"]}}, *[{"options": {"o%d" % r.randrange(6): {"expr": "OTHER"}}}] * 4,
                                         {"nixpkgs": {"expr": "OTHER"}}, {"formatting": {"command": ["cat"]}}, {"options": {}}])
                    c.notify("workspace/didChangeConfiguration", {"settings": {}})
                    steps.append("configuration")
                elif k < .36:
                    c.step(r.choice([0, .002, .02]))
                elif k < .38:
                    c.notify("$/cancelRequest", {"id": c.n})
                else:
                    d, v = docs[n]
                    m = r.choice(REQUESTS + ["completion", "hover", "formatting"])
                    p = params(r, d, m, wild=.02)
                    if m == "formatting":
                        p["options"] = {"tabSize": 2, "insertSpaces": True}
                    pend.append(c.post("textDocument/" + m, p))
                    steps.append(m)
            items = []
            for j in pend:
                rep = c.wait(j)
                ctx.count("requests")
                if c.asked[j] == "textDocument/completion" and "result" in rep:
                    items += rep["result"]["items"][:1]
            for it in items[:5]:
                pend.append(c.post("completionItem/resolve", it))
            for j in pend:
                c.wait(j)
            for n in docs:
                c.close(n)
            late = sum(a > b for a, b in zip(order, order[1:]))
            ctx.count("replies overtaken", late)
            ctx.count("steps", len(steps))
            c.take = take
            c.forget()
            ctx.distinct(tuple(x - first for x in order))
            ctx.sample({"steps": steps[:30], "perturb": self.seed, "replies overtaken": late})
        except (rpc.Dead, lsp.Lost) as e:
            if self.c is None:
                raise
            self.died(ctx, e, {"steps": steps})

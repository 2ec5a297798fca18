"""What the workers know, as it reaches the editor."""
import json
import re
import types
import urllib.parse

import lsp
import modgen
import nixd
import nixval
import rpc
import sema
import shape
import world
from nixd import Server
from nixval import Fail

GLOBAL = sema.GLOBAL
IDENT = re.compile(r"[a-zA-Z_][a-zA-Z0-9_'-]*\Z")
KINDS = {"var": 6, "builtin": 14, "field": 5, "option": 4, "set": 7}
LIMIT = 30


def quote(name):
    if IDENT.match(name) and name not in modgen.KEYWORDS:
        return name
    return '"%s"' % name.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\r", "\\r").replace("\t", "\\t").replace("${", "\\${")


def frame(m):
    b = json.dumps(m)
    return "Content-Length: %d\r\n\r\n%s" % (len(b), b)


def at(tree, path):
    if isinstance(tree, Real):
        return tree.at(tuple(path))
    n = tree
    for p in path:
        n = (n.get("v") or {}).get(p)
        if n is None:
            return None
    return n


def strip(path):
    return path[1:] if len(path) > 1 and path[0] == "config" else path


def packagedoc(i):
    """The documentation of something in nixpkgs."""
    p, o = i["PackageDesc"], ""
    if p["Name"] is not None:
        o += "`%s`\n" % p["Name"]
    if p["Homepage"] is not None:
        o += "[homepage](%s)\n" % p["Homepage"]
    if p["Description"] is not None:
        o += "## Description\n\n%s\n\n" % p["Description"]
        if p["LongDescription"] is not None:
            o += "\n\n%s\n\n" % p["LongDescription"]
    v = i.get("ValueDesc")
    if v:
        if o:
            o += "\n"
        if v["doc"]:
            o += v["doc"] + "\n\n"
        if v["arity"]:
            o += "**Arity:** %d\n" % v["arity"]
        if v["args"]:
            o += "**Args:** " + ", ".join("`%s`" % a for a in v["args"]) + "\n"
    return o


def typedoc(d):
    t = d.get("Type")
    return "%s (%s)" % (t["Name"] or "", t["Description"] or "") if t else "? (missing type)"


def optiondoc(d):
    return typedoc(d) + ("" if d["Description"] is None else "\n\n" + d["Description"])


def loc(l):
    """Comparable."""
    return (urllib.parse.unquote(l["uri"]), l["range"]["start"]["line"], l["range"]["start"]["character"],
            l["range"]["end"]["line"], l["range"]["end"]["character"])


def packageloc(i):
    p = i["PackageDesc"]["Position"]
    if p is not None:
        f, n = p.rsplit(":", 1)
        n = int(n) - 1
        return [("file://" + f, n, 0, n, 0)]
    if i["Meta"].get("Location"):
        return [loc(i["Meta"]["Location"])]
    return []


class World:
    def __init__(self, r, wide=.3):
        self.pkgs = world.tree(r, 3, "info", wide=wide)
        self.options = {"nixos": world.tree(r, 3, "option", wide=wide)}
        for n in r.sample(["aaa", "home", "zzz", "é b"], r.choice([0, 1, 1, 2])):
            self.options[n] = world.tree(r, 3, "option", wide=wide)

    def db(self):
        return {"exprs": dict({lsp.NIXPKGS: self.pkgs, lsp.NIXOS: self.options["nixos"]},
                              **{"EXPR " + k: v for k, v in self.options.items() if k != "nixos"})}

    def config(self):
        return {"options": {k: {"expr": "EXPR " + k} for k in self.options if k != "nixos"}}


class Real:
    """What the real evaluator should say of a value."""

    def __init__(self, value, kind):
        self.value, self.kind = value, kind
        self.eval = nixval.Eval(value)
        self.known = {}

    def at(self, path):
        if path not in self.known:
            self.known[path] = self.options(list(path)) if self.kind == "option" else self.package(list(path))
        return self.known[path]

    def maybe(self, f, *a):
        try:
            return f(*a)
        except Fail:
            return None

    def package(self, path):
        n = {}
        i = self.maybe(self.eval.info, path)
        if i is not None:
            if i["Meta"]["Location"]:
                i["Meta"]["Location"]["uri"] = "file://" + i["Meta"]["Location"]["uri"]
            n["info"] = i
        v = self.maybe(self.eval.names, path, "")
        if v is not None:
            n["v"] = {k: None for k in v}
        return n

    def described(self, o):
        for d in o["Declarations"]:
            d["uri"] = "file://" + d["uri"]
        return o

    def options(self, path):
        n = {}
        o = self.maybe(self.eval.optioninfo, path)
        if o is not None:
            n["option"] = self.described(o)
        v = self.maybe(self.eval.optionnames, path, "")
        if v is not None:
            n["v"] = {k: {"option": self.described(self.eval.option(x))} if self.eval.isoption(x) else {} for k, x in v}
        return n


class RealWorld:
    """Values, for evaluators that are no stand-ins."""

    def __init__(self, r):
        self.pkgs = Real(nixval.Gen(r, hostile=0, wide=r.choice([0, .3])).tree(3), "info")
        self.options = {}
        for n in ["nixos"] + r.sample(["aaa", "home", "zzz", "é b"], r.choice([0, 1, 1])):
            g = nixval.Gen(r, hostile=0, wide=r.choice([0, .3]), terse=True)
            self.options[n] = Real(g.optiontree(2), "option")

    def files(self):
        return dict({lsp.NIXPKGS: self.pkgs.value}, **{lsp.NIXOS if k == "nixos" else "EXPR " + k: v.value for k, v in self.options.items()})

    config = World.config


def rngok(doc, r, lo, hi):
    return r == doc.rng(lo, hi)


class Content(Server):
    """A server whose workers know a random world."""
    life = 12
    snippets = True
    real = 0        # how many of the servers have the real evaluator

    def options(self, ctx, r):
        self.world = RealWorld(r) if r.random() < self.real and "asan/nixd-attrset-eval" in ctx.paths else World(r)
        self.snippets = r.random() < .6
        self.ready = False
        real = isinstance(self.world, RealWorld)
        ctx.count("servers with the real evaluator" if real else "servers with evaluators that are stand-ins")
        how = {"files": self.world.files(), "worker": ctx.paths["asan/nixd-attrset-eval"]} if real else {"db": self.world.db()}
        return {**how, "config": self.world.config(), "timeout": 60,
                "caps": {"window": {"workDoneProgress": True}, "workspace": {"configuration": True},
                         "textDocument": {"completion": {"completionItem": {"snippetSupport": self.snippets}}}}}

    def settle(self, c):
        """All workers have evaluated what they were asked for."""
        n = 1 + len(self.world.options)
        if not c.until(lambda: sum(k == "end" for k, _ in c.progress) >= n):
            raise lsp.Lost("the workers do not start: %s" % c.progress)
        self.ready = True


class C38(Content):
    id = "C38"
    assumptions = ("Workers are a stand-in, or the real evaluator on harness/fakenix (Nix's own libraries are not installed here).",)
    rule = "a distinct (question, non-empty answer) that was compared with what the workers know"
    quick = 2400
    thorough = 80000
    quick_cap = 55
    deterministic = False
    evaluation = "questions"
    real = .4
    builds = (("asan", ("nixd-bin",)),)
    optional = (("asan", ("nixd-attrset-eval",)),)    # C39 needs it, here it is one of two

    def case(self, ctx, i):
        r = ctx.rng(i)
        t, marks = modgen.module(r, GLOBAL)
        self.tell = {"text": t}
        try:
            c = self.client(ctx, r)
            if not self.ready:
                self.settle(c)
            name = "m%d.nix" % self.used
            self.tell["world"] = self.used
            u, _ = c.opened(name, t)
            doc = shape.Doc(u, t)
            r.shuffle(marks)
            asked = []

            def ask(m, p, f, *a):
                p = dict({"textDocument": {"uri": doc.uri}}, **p)
                asked.append((c.post("textDocument/" + m, p), m, p, f, a))
            marks = [m for m in marks if m.kind not in ("attr", "hole") or m.path[:1] != ["let"]]
            for m in marks[:14]:
                e = m.hi
                safe = e < len(t) and (t[e] in ";)]}\n ")
                inner = r.randrange(m.lo, m.hi)
                P = lambda x: {"position": doc.at(x)}
                if m.kind == "var":
                    if safe:
                        ask("completion", P(e), self.var, m)
                    ask("hover", P(inner), self.hovervar, m)
                    ask("definition", P(inner), self.defvar, m)
                elif m.kind == "sel" and m.plain:
                    if safe or t[e] == ".":
                        ask("completion", P(e), self.sel, m)
                    if t[m.lo - 1] == ".":
                        ask("completion", P(m.lo), self.startsel, m)
                    ask("hover", P(inner), self.hoversel, m)
                    ask("definition", P(inner), self.defsel, m)
                elif m.kind == "attr" and m.plain:
                    if safe or t[e] == ".":
                        ask("completion", P(e), self.attr, m)
                    ask("hover", P(inner), self.hoverattr, m)
                    ask("definition", P(inner), self.defattr, m)
                elif m.kind == "hole":
                    ask("completion", P(e), self.hole, m)
                elif m.kind == "inherit":
                    ask("hover", P(inner), self.nothing, m)
                    ask("completion", P(e), self.nothing, m)
            ask("inlayHint", {"range": doc.rng(0, len(t))}, self.inlay, marks)
            a, b = sorted([r.randint(0, len(t)), r.randint(0, len(t))])
            ask("inlayHint", {"range": doc.rng(a, b)}, self.inlay, marks, a, b)
            self.collect(ctx, r, c, doc, asked)
            # a dot that was just typed
            for m in marks:
                if m.kind == "attr" and m.plain and m.last and r.random() < .4:
                    pass
                elif m.kind == "sel" and m.hi == m.whole[1] and re.match(r"\s*[;)\]}]", t[m.hi:]) and r.random() < .4:
                    pass
                else:
                    continue
                nt = t[:m.hi] + "." + t[m.hi:]
                self.tell = {"text": nt}
                name = "n%d.nix" % self.used
                doc = shape.Doc(c.uri(name), nt)
                c.open(name, nt)
                asked = []
                ask("completion", {"position": doc.at(m.hi + 1)}, self.dotattr if m.kind == "attr" else self.dotsel, m)
                self.collect(ctx, r, c, doc, asked)
                c.close(name)
                break
            c.close("m%d.nix" % self.used)
            if r.random() < .3:
                self.crowd(ctx, r, c)
            c.forget()
        except (rpc.Dead, lsp.Lost) as e:
            self.died(ctx, e, {"text": t})

    def crowd(self, ctx, r, c):
        """A variable of which there are about as many as are shown."""
        path = r.choice([[], [], ["lib"], ["a"], ["x"]])
        names = list((at(self.world.pkgs, path) or {}).get("v") or {})
        heads = [x for x in {n[:k] for n in names for k in (1, 2)} if IDENT.match(x) and sum(n.startswith(x) for n in names) >= LIMIT - 2]
        if not heads:
            return
        head = r.choice(sorted(heads))
        t = "{ pkgs, ... }: with %s; %s" % (".".join(["pkgs"] + path), head)
        m = types.SimpleNamespace(env=modgen.Env(modgen.Env(None, ["pkgs"]), sel=path, isw=True, pkgs=True), name=head, lo=len(t) - len(head), hi=len(t))
        self.tell = {"text": t}
        name = "k%d.nix" % self.used
        doc = shape.Doc(c.uri(name), t + "\n")
        c.open(name, t + "\n")
        ctx.count("crowded scopes")
        q = {"textDocument": {"uri": doc.uri}, "position": doc.at(m.hi)}
        self.collect(ctx, r, c, doc, [(c.post("textDocument/completion", q), "completion", q, self.var, (m,))])
        c.close(name)

    def collect(self, ctx, r, c, doc, asked):
        items = []
        for j, m, p, f, a in asked:
            rep = c.wait(j)
            ctx.count("questions")
            if "error" in rep:
                res = lsp.Err(rep["error"])
            else:
                res = rep["result"]
            try:
                bad = f(ctx, doc, res, *a)
            except (KeyError, TypeError, AttributeError) as e:
                bad = "not understood (%s %s)" % (type(e).__name__, e)
            if bad:
                key = None
                if isinstance(bad, tuple):
                    key, bad = bad
                ctx.violation("%s of %s: %s" % (m, f.__name__, bad), dict(self.tell, params=p, reply=rep), key=key)
            if m == "completion" and not isinstance(res, lsp.Err):
                items += [it for it in res["items"] if it.get("data")]
        for it in r.sample(items, min(3, len(items))):
            res = c.request("completionItem/resolve", it)
            ctx.count("items resolved")
            d = json.loads(it["data"])
            n = at(self.world.pkgs, d["Scope"] + [it["label"]])
            if isinstance(res, lsp.Err):
                ctx.violation("resolving an item fails: %s" % res, dict(self.tell, item=it))
                continue
            p = (n or {}).get("info", {}).get("PackageDesc") or {}
            want = dict(it, detail="?" if p.get("Version") is None else p["Version"],
                        documentation={"kind": "markdown", "value": (p.get("Description") or "") + "\n\n" + (p.get("LongDescription") or "")})
            if norm(res) != norm(want):
                ctx.violation("resolving gives another item", dict(self.tell, got=res, want=want))

    # ---- completion
    def judge_items(self, ctx, doc, res, want, may=(), more=False):
        """more: there are more than the workers were asked for."""
        if isinstance(res, lsp.Err):
            return "fails: %s" % res
        more = more or len(want) > LIMIT
        if more and not res.get("isIncomplete"):
            return "the list is said to be complete, with %d items" % len(res["items"])
        got = sorted(json.dumps(norm(x), sort_keys=True) for x in res["items"])
        want = sorted(json.dumps(norm(x), sort_keys=True) for x in want)
        may = [json.dumps(norm(x), sort_keys=True) for x in may]
        if res.get("isIncomplete"):
            if not more and len(want) + len(may) <= LIMIT:
                return "incomplete with %d items, of %d" % (len(got), len(want))
            ctx.count("incomplete lists")
        else:
            left = list(got)
            for w in want:
                if w not in left:
                    return "an item is missing: %s, among %s" % (w, got[:40])
                left.remove(w)
            if len(got) > LIMIT:
                return "%d items" % len(got)
        left = list(got)
        for w in want + may:
            if w in left:
                left.remove(w)
        if left:
            return "an item that should not be there: %s; wanted %s" % (left[0], want[:5])
        if got:
            ctx.distinct(("c", got))
        return None

    def fields(self, doc, scope, prefix, edit, variable=False):
        n = at(self.world.pkgs, scope)
        out = []
        for k in sorted(k for k in (n or {}).get("v") or {} if k.startswith(prefix)):
            if variable and quote(k) != k:
                continue
            out.append({"label": k, "kind": KINDS["field"], "textEdit": {"range": edit, "newText": quote(k)},
                        "data": {"Scope": scope, "Prefix": prefix}})
        return out

    def var(self, ctx, doc, res, m):
        want, may = [], []
        bound = set()
        for e in m.env.chain():
            for x in e.names:
                if x.startswith(m.name) and not x.startswith("__"):
                    (may if x in bound else want).append({"label": x, "kind": KINDS["var"]})
                    bound.add(x)
        for x in GLOBAL:
            if x.startswith(m.name) and not x.startswith("__"):
                (may if x in bound else want).append({"label": x, "kind": KINDS["builtin"]})
        s = modgen.selector(m.env, m.name, GLOBAL)
        if s:
            want += self.fields(doc, s[:-1], s[-1], doc.rng(m.lo, m.hi), True)
        n = s and at(self.world.pkgs, s[:-1])
        return self.judge_items(ctx, doc, res, want, may, sum(k.startswith(m.name) for k in (n or {}).get("v") or {}) > LIMIT)

    def sel(self, ctx, doc, res, m):
        if m.base is None or None in m.names[:m.i]:
            return self.judge_items(ctx, doc, res, [])
        return self.judge_items(ctx, doc, res, self.fields(doc, m.base + m.names[:m.i], m.names[m.i], doc.rng(m.lo, m.hi)))

    def startsel(self, ctx, doc, res, m):
        """At the start of a name, after the dot: either of them is completed."""
        if m.base is None or None in m.names[:m.i]:
            return self.judge_items(ctx, doc, res, [])
        e = self.judge_items(ctx, doc, res, self.fields(doc, m.base + m.names[:m.i], "", doc.rng(m.lo, m.lo)))
        return e and self.sel(ctx, doc, res, m) and e

    def dotsel(self, ctx, doc, res, m):
        if m.base is None or None in m.names:
            return self.judge_items(ctx, doc, res, [])
        return self.judge_items(ctx, doc, res, self.fields(doc, m.base + m.names, "", doc.rng(m.hi + 1, m.hi + 1)))

    def optionitems(self, doc, path, edit):
        if None in path:
            return []
        path = strip(path)
        scope, prefix = path[:-1], path[-1]
        out = []
        for w in sorted(self.world.options):
            n = at(self.world.options[w], scope)
            for k in sorted(k for k in (n or {}).get("v") or {} if k.startswith(prefix)):
                d = n["v"][k].get("option")

                def edited(it, text):
                    if edit and prefix:
                        it["textEdit"] = {"range": edit, "newText": text}
                    return it
                if d is None:
                    it = {"label": k, "kind": KINDS["set"], "detail": w}
                    if quote(k) != k:
                        it["insertText"] = quote(k)
                    out.append(edited(it, quote(k)))
                    continue
                base = {"label": k, "kind": KINDS["option"], "detail": w + " | " + typedoc(d),
                        "documentation": {"kind": "markdown", "value": d["Description"] or ""},
                        "insertTextFormat": 2 if self.snippets else 1}

                def text(v):
                    if not self.snippets:
                        return quote(k) + " = " + v + ";"
                    return re.sub(r"([\\$}])", r"\\\1", quote(k)) + " = ${1:" + re.sub(r"([\\$}])", r"\\\1", v) + "};"
                vs = []
                if d["Example"] is not None:
                    vs.append((d["Example"], "example", "0"))
                if d["Default"] is not None and d["Default"] != d["Example"]:
                    vs.append((d["Default"], "default", "1"))
                for v, src, srt in vs:
                    out.append(edited(dict(base, label="%s (%s)" % (k, src) if len(vs) == 2 else k, sortText=srt + k, filterText=k,
                                           insertText=text(v)), text(v)))
                if not vs:
                    out.append(edited(dict(base, insertText=text("")), text("")))
        return out

    def attr(self, ctx, doc, res, m):
        return self.judge_items(ctx, doc, res, self.optionitems(doc, m.path, doc.rng(m.lo, m.hi)))

    def dotattr(self, ctx, doc, res, m):
        return self.judge_items(ctx, doc, res, self.optionitems(doc, m.path + [""], None))

    def hole(self, ctx, doc, res, m):
        return self.judge_items(ctx, doc, res, self.optionitems(doc, m.path + [""], None))

    def nothing(self, ctx, doc, res, m):
        if res is None or res == {"isIncomplete": False, "items": []}:
            return None
        return "%s" % res

    # ---- hover
    def judge_hover(self, ctx, doc, res, wants):
        """wants: the possible (markdown, lo, hi), or None"""
        if isinstance(res, lsp.Err):
            return "fails: %s" % res
        if res is None:
            return None if None in wants else "nothing, instead of %s" % (wants[0],)
        for w in wants:
            if w and res["contents"] == {"kind": "markdown", "value": w[0]} and rngok(doc, res["range"], w[1], w[2]):
                ctx.distinct(("h", w[0]))
                return None
        return "%s, instead of %s" % (json.dumps(res), wants)

    def doc(self, s, lo, hi):
        n = None if s is None else at(self.world.pkgs, s)
        if not n or "info" not in n:
            return None
        d = packagedoc(n["info"])
        return (d, lo, hi) if d else None

    def hovervar(self, ctx, doc, res, m):
        return self.judge_hover(ctx, doc, res, [self.doc(modgen.selector(m.env, m.name, GLOBAL), m.lo, m.hi)])

    def hoversel(self, ctx, doc, res, m):
        ok = m.base is not None
        w = [self.doc(m.base + m.names if ok and m.static else None, *m.whole)]
        if ok and None not in m.names[:m.i + 1]:
            w.append(self.doc(m.base + m.names[:m.i + 1], m.whole[0], m.hi))
            if m.i == len(m.names) - 1:
                w.append(w[-1] and (w[-1][0],) + m.whole)
        elif not ok:
            w = [None]
        if res is None and m.i < len(m.names) - 1:
            return None if None in w else "nothing"
        return self.judge_hover(ctx, doc, res, w if m.i < len(m.names) - 1 else w[:1])

    def hoverattr(self, ctx, doc, res, m):
        w = None
        if None not in m.path:
            for k in sorted(self.world.options):
                n = at(self.world.options[k], strip(m.path))
                if n and "option" in n:
                    w = (optiondoc(n["option"]), m.lo, m.hi)
                    break
        return self.judge_hover(ctx, doc, res, [w])

    # ---- definition
    def locs(self, res):
        return [] if res is None else [loc(l) for l in (res if isinstance(res, list) else [res])]

    def packagelocs(self, s):
        n = None if s is None else at(self.world.pkgs, s)
        return packageloc(n["info"]) if n and "info" in n else []

    def lineoff(self, got, want):
        """The known finding: lines that are counted from 1 and from 0."""
        return ("position-line", "%s instead of %s" % (got, want)) if sorted(got) == sorted((u, a + 1, b, c + 1, d) for u, a, b, c, d in want) and want else None

    def defvar(self, ctx, doc, res, m):
        if isinstance(res, lsp.Err):
            return "fails: %s" % res
        k = m.env.resolve(m.name)
        if m.name in GLOBAL and k[0] != "bound" or k[0] == "free":
            return None if self.locs(res) == [] else "%s for what is not defined here" % res
        got = self.locs(res)
        mine = [g for g in got if g[0] == urllib.parse.unquote(doc.uri)]
        rest = [g for g in got if g not in mine]
        want = self.packagelocs(modgen.selector(m.env, m.name, GLOBAL))
        if len(mine) != 1:
            return "%d definitions in the document" % len(mine)
        return self.judge_locs(ctx, rest, [want])

    def judge_locs(self, ctx, got, wants):
        for w in wants:
            if sorted(got) == sorted(w):
                if got:
                    ctx.distinct(("d", got))
                return None
        for w in wants:
            f = self.lineoff(got, w)
            if f:
                return f
        return "%s instead of %s" % (got, wants[0])

    def defsel(self, ctx, doc, res, m):
        if isinstance(res, lsp.Err):
            return "fails: %s" % res
        w = [self.packagelocs(m.base + m.names if m.base is not None and m.static else None)]
        if m.base is not None and None not in m.names[:m.i + 1]:
            w.append(self.packagelocs(m.base + m.names[:m.i + 1]))
        return self.judge_locs(ctx, self.locs(res), w)

    def defattr(self, ctx, doc, res, m):
        if isinstance(res, lsp.Err):
            return "fails: %s" % res
        want = []
        if None not in m.path:
            for k in self.world.options:
                n = at(self.world.options[k], strip(m.path))
                if n and "option" in n:
                    want += [loc(l) for l in n["option"]["Declarations"]]
        return self.judge_locs(ctx, self.locs(res), [want])

    # ---- inlay hints
    def inlay(self, ctx, doc, res, marks, a=None, b=None):
        if isinstance(res, lsp.Err):
            return "fails: %s" % res
        must, may = [], []
        for m in marks:
            if m.kind != "var" or not any(e.pkgs for e in m.env.chain()):
                continue
            n = at(self.world.pkgs, [m.name])
            v = n and "info" in n and n["info"]["PackageDesc"]["Version"]
            if v is None or not n or "info" not in n:
                continue
            h = {"position": doc.at(m.hi), "label": ": " + v, "range": doc.rng(m.lo, m.hi)}
            k = m.env.resolve(m.name)
            if k[0] == "with" and m.name not in GLOBAL and k[1][0].pkgs and (a is None or a <= m.lo and m.hi <= b):
                must.append(h)
            elif a is None or a <= m.hi and m.lo <= b:
                may.append(h)
        for x in re.finditer(r'\$\{(?:"x" \+ )?([\w\'-]+)\}', doc.text, re.A):
            n = at(self.world.pkgs, [x.group(1)])
            if n and "info" in n and n["info"]["PackageDesc"]["Version"] is not None:
                may.append({"position": doc.at(x.end() - 1), "label": ": " + n["info"]["PackageDesc"]["Version"]})
        # the set of a with may, or may not, be in its own scope
        for m in marks:
            if m.kind == "var" and m.name == "pkgs":
                n = at(self.world.pkgs, ["pkgs"])
                if n and "info" in n and n["info"]["PackageDesc"]["Version"] is not None:
                    may.append({"position": doc.at(m.hi), "label": ": " + n["info"]["PackageDesc"]["Version"], "range": doc.rng(m.lo, m.hi)})
        got = [{k: x[k] for k in ("position", "label", "range") if k in x} for x in res]
        for g, x in zip(got, res):
            g.setdefault("range", x.get("range"))
        for g in got:
            g0 = {k: g[k] for k in ("position", "label")}
            if not any(g0 == {k: w[k] for k in ("position", "label")} for w in must + may):
                return "a hint that should not be there: %s" % g
            if got.count(g) > 1:
                return "a hint is there twice: %s" % g
        for w in must:
            if not any(g["position"] == w["position"] and g["label"] == w["label"] for g in got):
                return "a hint is missing: %s" % w
        if got:
            ctx.distinct(("i", json.dumps(got, sort_keys=True)))
        return None


def norm(it):
    """An item, without the fields that are as if they were not there."""
    it = {k: v for k, v in it.items() if v not in (None, "", [], {}) and k != "score"}
    if "textEdit" in it:        # that is what is inserted, then
        it.pop("insertText", None)
    if isinstance(it.get("data"), str):
        it["data"] = json.loads(it["data"])
    if it.get("documentation", {}) == {"kind": "markdown", "value": ""}:
        del it["documentation"]
    if it.get("insertTextFormat") == 1 and "insertText" not in it:
        del it["insertTextFormat"]
    return it


INFO = {"attrset/attrpathInfo": [None, 3, "x", [], [1], True, {"PackageDesc": 3}], "attrset/optionInfo": [None, 3, "x", [], [1], False, {"Type": 3}],
        "attrset/attrpathComplete": [None, 3, "x", {}, [1], [None], [[]]], "attrset/optionComplete": [None, 3, "x", {}, [1], [None], [{"Name": 3}]]}
JUNK = ["x\n", "Content-Length: 2\r\n\r\n{}", "Content-Length: 5\r\n\r\n{abc}", "Content-Length: 99999999999999\r\n\r\n", "X-Other: 3\r\n",
        frame({"jsonrpc": "2.0", "id": 987654, "result": []}), frame({"jsonrpc": "2.0", "id": "é", "result": []}), frame({"jsonrpc": "1.0", "id": 1, "result": 3}),
        frame({"jsonrpc": "2.0", "id": 1, "method": "workspace/symbol", "params": {}}), frame({"jsonrpc": "2.0", "method": "exit"}),
        frame({"jsonrpc": "2.0", "id": None, "error": {"code": -32700, "message": "?"}}), frame([1, 2]), frame({"jsonrpc": "2.0"})]
BROKEN = {"error": list(INFO) + ["attrset/evalExpr"]}


class C32(Server):
    id = "C32"
    rule = "a distinct (question, way in which workers are broken) whose answer was compared with the one of the workers that are left"
    quick = 240
    thorough = 8000
    quick_cap = 60
    deterministic = False
    evaluation = "questions"

    def broken(self, r):
        """(behaviour, whether it is broken from its first query on, what it is called)"""
        k = r.random()
        if k < .15:
            return {"die": 0}, True, "not there"
        if k < .3:
            return {r.choice(["die", "abort"]): r.choice([1, 2, 3, 5, 9])}, False, "dies"
        if k < .45:
            return {"junk": [r.choice([0, 1, 2, 4]), r.choice(JUNK)]}, False, "junk"
        if k < .75:
            return {"raw": {m: r.choice(v) for m, v in INFO.items()}}, True, "garbage"
        if k < .85:
            return {"raw": {m: r.choice(v) for m, v in INFO.items()}, "error": ["attrset/evalExpr"]}, True, "garbage"
        return BROKEN, True, "errors"

    def start(self, ctx, r, w, modes, expr, worker=None):
        db = w.db()
        db["exprs"]["SECOND"] = expr
        db["modes"] = modes
        c = lsp.Client(ctx.paths["asan/nixd-bin"], db=db, config=w.config(), timeout=60, worker=worker,
                       caps={"window": {"workDoneProgress": True}, "workspace": {"configuration": True},
                             "textDocument": {"completion": {"completionItem": {"snippetSupport": True}}}})
        self.all.append(c)
        return c

    def settle(self, c, alive):
        """The workers that are alive have evaluated, and nothing is under way."""
        def there():
            seen = [q[1] for qs in c.queries().values() for q in qs if q[0] == "attrset/evalExpr"]
            return all(x in seen for x in alive) and sum(k == "begin" for k, _ in c.progress) == sum(k == "end" for k, _ in c.progress)
        if not c.until(there):
            raise lsp.Lost("the workers do not start: %s %s" % (c.progress, c.queries()))

    def case(self, ctx, i):
        r = ctx.rng(i)
        self.all = []
        w = World(r, wide=.1)
        names = {"NIXPKGS": lsp.NIXPKGS, **{k: lsp.NIXOS if k == "nixos" else "EXPR " + k for k in w.options}}
        bad = r.sample(sorted(names), r.randint(1, len(names)))
        worker = None
        modes, later, called = {}, None, []
        for n in bad:
            b, now, what = self.broken(r)
            while later is not None and not now:
                b, now, what = self.broken(r)
            modes[names[n]] = b
            called.append(what)
            if not now:
                later = names[n]
        alive = [x for x in names.values() if x not in modes]
        for x in alive:
            if r.random() < .3:
                modes[x] = {"delay": r.choice([.005, .03])}
        if not alive and r.random() < .5:
            worker = r.choice(["/nonexistent/worker", "/bin/false", "/bin/true", "/"])
            later = None
        tell = {"modes": modes, "worker": worker}
        try:
            second = world.tree(r, 2, "option", wide=.2)
            want = {x: BROKEN for x in modes if x not in alive}
            cs = [self.start(ctx, r, w, modes, second, worker), self.start(ctx, r, w, want, second)]
            if later:
                cs.append(self.start(ctx, r, w, {k: v for k, v in want.items() if k != later}, second))
            for c in cs:
                self.settle(c, alive if c is cs[0] else names.values())
            self.round(ctx, r, cs, "a", tell, called)
            # workers that are alive still take a new configuration
            live = [k for k in w.options if names[k] in alive]
            if live and r.random() < .7:
                cfg = {"options": {k: dict(expr="SECOND" if k in live else "EXPR " + k) for k in r.sample(live, r.randint(1, len(live)))}}
                for c in cs:
                    c.config = cfg
                    n = c.asked_config
                    c.notify("workspace/didChangeConfiguration", {"settings": {}})
                    if not c.until(lambda: c.asked_config > n):
                        raise lsp.Lost("the configuration is not asked for")
                    self.settle(c, ["SECOND"])
                ctx.count("configurations")
                self.round(ctx, r, cs, "b", dict(tell, config=cfg), called)
            for c in cs:
                self.c = c
                self.end(ctx)
                self.all.remove(c)
        except (rpc.Dead, lsp.Lost) as e:
            self.c = c = self.all.pop(0)
            self.died(ctx, e, tell)
        finally:
            self.c = None
            for c in self.all:
                c.kill()

    def round(self, ctx, r, cs, name, tell, called):
        t, marks = modgen.module(r, GLOBAL)
        tell = dict(tell, text=t)
        docs = []
        diags = []
        for c in cs:
            u, d = c.opened(name + ".nix", t)
            docs.append(shape.Doc(u, t))
            diags.append(self.plain(c, d))
        if any(d != diags[0] for d in diags):
            ctx.violation("the diagnostics differ", dict(tell, diagnostics=diags))
        d = docs[0]
        asked = []
        r.shuffle(marks)
        for m in marks[:12]:
            asked.append(("textDocument/completion", {"position": d.at(m.hi)}))
            asked.append((r.choice(["textDocument/hover", "textDocument/definition"]), {"position": d.at(r.randint(m.lo, m.hi - 1) if m.hi > m.lo else m.hi)}))
        asked.append(("textDocument/inlayHint", {"range": d.rng(0, len(t))}))
        for _ in range(4):
            q = r.choice(["documentSymbol", "references", "foldingRange", "codeAction", "documentHighlight", "semanticTokens/full", "documentLink", "rename"])
            p = nixd.params(r, d, q, wild=0)
            p.pop("textDocument")
            asked.append(("textDocument/" + q, p))
        for s in r.sample(["hello", "lib", "a", "python3Packages"], 2):
            asked.append(("completionItem/resolve", {"label": s, "kind": 5, "data": json.dumps({"Scope": [], "Prefix": s[:1]})}))
        r.shuffle(asked)
        pace = r.random() < .5
        ids = [[] for _ in cs]
        for m, p in asked:
            for c, x, js in zip(cs, docs, ids):
                q = dict(p) if m == "completionItem/resolve" else dict(p, textDocument={"uri": x.uri})
                js.append(c.post(m, q))
                if pace:
                    c.wait(js[-1])
        for k, (m, p) in enumerate(asked):
            got = [self.plain(c, c.wait(js[k])) for c, js in zip(cs, ids)]
            got = [self.answer(g, p) for g in got]
            ctx.count("questions")
            if got[0] not in got[1:]:
                ctx.violation("%s with workers that %s: %s" % (m.split("/")[1], ", ".join(called), self.differ(got)), dict(tell, question=[m, p], got=got))
            elif got[0] is not None:
                ctx.distinct((m, json.dumps(got[0], sort_keys=True), called))
                ctx.count("answers to " + m.split("/")[1])
            if len(got) > 2 and got[1] != got[2]:
                ctx.count("answers that depend on the broken worker")
        if any(c.bad for c in cs):
            ctx.violation(next(c.bad for c in cs if c.bad)[0], tell)
        ctx.sample({"modes": tell["modes"], "text": t[:120]})
        for c in cs:
            c.close(name + ".nix")

    def differ(self, got):
        return "%s instead of %s" % (json.dumps(got[0])[:150], json.dumps(got[1])[:150])

    def plain(self, c, x):
        return json.loads(json.dumps(x).replace(json.dumps(c.dir)[1:-1], "DIR"))

    def answer(self, m, p):
        """The content of a reply, None if there is none."""
        if "error" in m:
            return None
        x = m["result"]
        if isinstance(x, dict) and "items" in x:
            x = dict(x, items=sorted(x["items"], key=lambda y: json.dumps(y, sort_keys=True)))
            if not x["items"]:
                return None
        if isinstance(x, dict) and "label" in x:      # an item about which nothing is known
            x = {k: v for k, v in x.items() if (k, v) != ("detail", "?") and not (k == "documentation" and not v["value"].strip())}
        if isinstance(x, list):
            x = sorted(x, key=lambda y: json.dumps(y, sort_keys=True))
        return x or None

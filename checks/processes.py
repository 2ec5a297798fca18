"""The server and the processes around it: formatters, workers, the editor."""
import ctypes
import json
import os
import random
import select
import shutil
import signal
import subprocess
import time

import lsp
import lsptext
import nixd
import probe
import rpc
import shape
import world
from nixd import Server, document, params, sanitizers

LIB = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib")


def children(pid):
    """{pid: state} of the children of a process that we started."""
    out = {}
    try:
        for t in os.listdir("/proc/%d/task" % pid):
            for c in open("/proc/%d/task/%s/children" % (pid, t)).read().split():
                try:
                    out[int(c)] = open("/proc/%s/stat" % c).read().rsplit(")", 1)[1].split()[0]
                except OSError:
                    pass
    except OSError:
        pass
    return out


def descriptors(pid):
    out = {}
    for f in os.listdir("/proc/%d/fd" % pid):
        try:
            out[int(f)] = os.readlink("/proc/%d/fd/%s" % (pid, f))
        except OSError:
            pass
    return out


def configure(c, config, uris):
    """Change the configuration and wait until it is in use."""
    count = lambda u: sum(p.get("version") is None for p in c.diags.get(u, []))
    before = {u: count(u) for u in uris}
    c.config = config
    c.notify("workspace/didChangeConfiguration", {"settings": {}})
    if not c.until(lambda: all(count(u) > before[u] for u in uris)):
        raise lsp.Lost("no diagnostics after a change of the configuration")


class C34(Server):
    id = "C34"
    rule = "a distinct (formatter, text) whose formatting was compared with what the formatter writes"
    quick = 1200
    thorough = 30000
    quick_cap = 55
    deterministic = False
    evaluation = "formattings"
    life = 40

    def options(self, ctx, r):
        return {"timeout": 60}

    def client(self, ctx, r=None):
        old = self.c
        c = Server.client(self, ctx, r)
        if c is not old:
            self.base = None
        return c

    def end(self, ctx):
        self.hygiene(ctx)
        Server.end(self, ctx)

    def hygiene(self, ctx):
        """No formatter and no pipe is left."""
        if self.c is None or self.base is None:
            return
        pid = self.c.s.p.pid
        for _ in range(40):
            fds, ch = descriptors(pid), children(pid)
            more = {k: v for k, v in fds.items() if k not in self.base[0]}
            kids = {k: v for k, v in ch.items() if k not in self.base[1]}
            if not more and not kids:
                break
            time.sleep(.05)
        else:
            if more:
                ctx.violation("descriptors are left after formatting: %s" % sorted(more.values())[:5])
            if kids:
                ctx.violation("processes are left after formatting: %s" % sorted(kids.values()))
        ctx.count("leaks looked for")

    def command(self, ctx, r):
        """(command, kind, function of the text: expected text, or None for an error)"""
        f = self.c.dir + "/fmt"
        if not os.path.exists(f):
            shutil.copy(LIB + "/fakefmt.py", f)
            os.chmod(f, 0o755)
            open(self.c.dir + "/plain", "w").write("#!/bin/sh\ncat\n")
        n = r.choice([1, 100, 20000, 100000])
        odd = [r.choice(["", "a b", "--x=y", "$HOME", "'", "\"", "é😀", "*", "a\nb", "\\", ";true"]) for _ in range(r.randint(0, 4))]
        some = [([f, "cat"], lambda t: t), ([f, "upper"], upper), ([f, "stream"], lambda t: t.replace("a", "aa")),
                ([f, "first", str(n)], lambda t: "# " + "x" * n + "\n" + t), ([f, "noread", str(n)], lambda t: "{ }\n" * n),
                ([f, "closein"], lambda t: "closed\n"), ([f, "half"], None), ([f, "empty"], lambda t: ""),
                ([f, "stderr", str(n)], lambda t: t.replace(" ", "  ")), ([f, "closeerr"], lambda t: t + "\n"),
                ([f, "slow"], lambda t: t + "#slow\n"), ([f, "args"] + odd, lambda t: "\n".join(repr(a) for a in odd)),
                ([f, "exit", r.choice(["1", "2", "127", "255"])], "fail"), ([f, "exitearly", "3"], "fail"), ([f, "exitearly", "0"], lambda t: ""),
                ([f, "die", r.choice(["9", "15", "6"])], "fail"), ([f, "closeout"], lambda t: t + "#\n"),
                ([self.c.dir + "/nothing"], "fail"), (["no-such-formatter-anywhere"], "fail"), ([self.c.dir], "fail"), ([self.c.dir + "/plain"], "fail"),
                ([], "fail"), ("cat", lambda t: t), (["cat", "-"], lambda t: t), (["tr", "a-z", "b-za"], rot), (["sed", "s/x/y/g"], None),
                ("true", lambda t: ""), ("false", "fail"), ([""], "fail")]
        return r.choice(some)

    def case(self, ctx, i):
        r = ctx.rng(i)
        sent = []
        try:
            c = self.client(ctx, r)
            name = "d%d.nix" % self.used
            _, t = document(r)
            if r.random() < .2:
                t = r.choice(["# é a\n", "  \n", "/* x 😀 */\r\n"]) * r.choice([20, 500, 9000]) + t
            t = t.replace("\0", "")[:200000]
            u, _ = c.opened(name, t)
            cmd, want = self.command(ctx, r)
            if self.base is None:
                configure(c, {"formatting": {"command": ["cat"]}}, [u])
                c.request("textDocument/formatting", {"textDocument": {"uri": u}, "options": {}})
                c.request("workspace/none")
                time.sleep(.1)
                self.base = (descriptors(c.s.p.pid), children(c.s.p.pid))
            form = r.choice(["object", "object", "string"]) if isinstance(cmd, str) else "object"
            if form == "string":
                cfg = {"formatting": cmd}
            else:
                cfg = {"formatting": {"command": [cmd] if isinstance(cmd, str) else cmd}}
            configure(c, cfg, [u])
            sent.append(cfg)
            texts = [t]
            jobs = []
            for _ in range(r.choice([1, 1, 2, 6])):
                jobs.append((len(texts) - 1, c.post("textDocument/formatting", {"textDocument": {"uri": u}, "options": {"tabSize": 2, "insertSpaces": True}})))
                if r.random() < .25:
                    t = t + r.choice([" ", "\n# é", "a"])
                    c.change(name, [{"text": t}], len(texts) + 1)
                    texts.append(t)
            other = c.post("textDocument/formatting", {"textDocument": {"uri": c.uri("other.nix")}, "options": {}}) if r.random() < .1 else None
            hover = c.post("textDocument/documentSymbol", {"textDocument": {"uri": u}})
            for first, j in jobs:
                rep = c.wait(j)
                ctx.count("formattings")
                bad = self.compare(r, cmd, want, texts[first:], rep)
                if bad:
                    ctx.violation("%s: %s" % (cmd if isinstance(cmd, str) else [os.path.basename(cmd[0])] + cmd[1:] if cmd else [], bad),
                                  {"config": cfg, "text": texts[0][:2000], "texts": len(texts)})
                elif "error" in rep:
                    ctx.count("errors reported")
                elif not rep["result"]:
                    ctx.count("nothing to change")
                else:
                    ctx.count("texts replaced")
            if other is not None and "error" not in c.wait(other):
                ctx.violation("a document that is not open is formatted: %s" % c.wait(other))
            c.wait(hover)
            c.close(name)
            c.forget()
            ctx.distinct((json.dumps(cmd), texts[0]))
            ctx.sample({"command": ([os.path.basename(cmd[0])] + cmd[1:] if cmd else []) if not isinstance(cmd, str) else cmd, "text": texts[0][:80], "formattings": len(jobs)})
        except (rpc.Dead, lsp.Lost) as e:
            if self.c is None:
                raise
            self.died(ctx, e, {"sent": sent})

    def compare(self, r, cmd, want, texts, rep):
        if want == "fail":
            return None if "error" in rep else "the formatter fails, and the reply is %s" % json.dumps(rep)[:300]
        if want is None:      # as the formatter itself does
            def want(t):
                p = subprocess.run(cmd, input=t.encode(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
                try:
                    return p.stdout.decode("utf-8")
                except UnicodeDecodeError:
                    return None
        if "error" in rep:
            # what is not UTF-8 cannot be put into the document
            if any(want(t) is None for t in texts):
                return None
            return "the formatter succeeds, and the reply is %s" % json.dumps(rep)[:300]
        es = rep["result"]
        for t in texts:
            w = want(t)
            if not es:
                if w == t:
                    return None
                continue
            if len(es) == 1:
                e = es[0]
                s, x = e["range"]["start"], e["range"]["end"]
                lines = t.count("\n") + 1
                if (s["line"], s["character"]) == (0, 0) and x["line"] >= lines and e["newText"] == w and w != t:
                    return None
                if (s["line"], s["character"]) == (0, 0) and e["newText"] == w and w != t and (x["line"], x["character"]) == lsptext.to_pos(t, len(t)):
                    return None
        return "the edits are %s, want the document to become %r" % (json.dumps(es)[:400], want(texts[0])[:200])


def upper(t):
    """ASCII letters only, as bytes.upper does."""
    return "".join(c.upper() if "a" <= c <= "z" else c for c in t)


def rot(t):
    return "".join(chr((ord(c) - 96) % 26 + 97) if "a" <= c <= "z" else c for c in t)


SUPPRESS = ["sema-unused-def-let", "sema-undefined-variable"]
PROBE = "let unused = 1; in { o = undefinedName; q = pkgs.n; }"


class C33(Server):
    id = "C33"
    rule = "a distinct history of configurations after which the server's behaviour was compared with the last one"
    quick = 1000
    thorough = 20000
    quick_cap = 55
    deterministic = False
    evaluation = "configurations"

    def case(self, ctx, i):
        r = ctx.rng(i)
        exprs = {}
        for k in range(5):
            exprs["O%d" % k] = {"k": "set", "v": {"o%d" % k: {"k": "set", "v": {}}, "oo%d" % k: {"k": "set", "v": {}}}}
            exprs["N%d" % k] = {"k": "set", "v": {"n%d" % k: {"k": "set", "v": {}}}}
        exprs[lsp.NIXOS] = {"k": "set", "v": {"odefault": {"k": "set", "v": {}}}}
        exprs[lsp.NIXPKGS] = {"k": "set", "v": {"ndefault": {"k": "set", "v": {}}}}
        state = {"sets": {"nixos": lsp.NIXOS}, "nixpkgs": lsp.NIXPKGS, "format": None, "suppress": []}
        hist = []
        args = []
        cap = r.random() < .85
        if r.random() < .4:
            cli, ok = self.config(r, valid=1)
            args.append("--config=" + json.dumps(cli))
            self.apply(state, cli)
            hist.append(["initial", cli])
        try:
            self.c = c = lsp.Client(ctx.paths["asan/nixd-bin"], db={"exprs": exprs}, args=args, configuration=cap, timeout=60, start=False,
                                    config=False if not cap else None,
                                    caps={"workspace": {"configuration": cap}})
            first, ok = self.config(r)
            if cap:
                c.config = first
                if ok:
                    self.apply(state, first)
                hist.append(["first", first])
            c.request("initialize", {"processId": None, "rootUri": None, "capabilities": c.caps})
            c.notify("initialized", {})
            c.request("workspace/none")
            self.check(ctx, c, state, hist)
            for _ in range(r.choice([1, 2, 4]) if cap else 0):
                if r.random() < .6:
                    cfg, ok = self.config(r)
                    hist.append(cfg)
                    n = c.asked_config
                    if r.random() < .15:
                        # what is not a configuration
                        bad = r.choice(["error", [], {}, None, "x", [[]], 3])
                        hist[-1] = ["reply", bad]
                        c.hold = {"workspace/configuration"}
                        k = len(c.calls)
                        c.notify("workspace/didChangeConfiguration", {"settings": {}})
                        if not c.until(lambda: len(c.calls) > k):
                            raise lsp.Lost("the configuration is not asked for")
                        c.hold = set()
                        m = {"jsonrpc": "2.0", "id": c.calls[-1]["id"]}
                        if bad == "error":
                            m["error"] = {"code": -32603, "message": "no"}
                        else:
                            m["result"] = bad
                        c.s.send(m)
                    else:
                        c.config = cfg
                        if ok:
                            self.apply(state, cfg)
                        c.notify("workspace/didChangeConfiguration", {"settings": {}})
                        if not c.until(lambda: c.asked_config > n):
                            raise lsp.Lost("the configuration is not asked for")
                    ctx.count("configurations")
                else:
                    # several at once, replied in any order: the one asked for last counts
                    cs = [self.config(r, valid=1) for _ in range(r.choice([2, 3, 5]))]
                    if r.random() < .5:
                        k = len(c.calls)
                        c.hold = {"workspace/configuration"}
                        for _ in cs:
                            c.notify("workspace/didChangeConfiguration", {"settings": {}})
                        if not c.until(lambda: len(c.calls) >= k + len(cs)):
                            raise lsp.Lost("the configuration is not asked for")
                        c.hold = set()
                        calls = list(zip(c.calls[k:], cs))
                        if r.random() < .4:
                            r.shuffle(calls)
                            ctx.count("replied out of order")
                        for call, (cfg, ok) in calls:
                            c.s.send({"jsonrpc": "2.0", "id": call["id"], "result": [cfg]})
                        if calls[-1][1] is not cs[-1]:
                            # sets of outdated configurations may or may not have been there for a while
                            for cfg, ok in cs[:-1]:
                                for s in cfg.get("options", {}):
                                    state["sets"][s] = None
                                if cfg.get("nixpkgs", {}).get("expr"):
                                    state["nixpkgs"] = None
                        else:
                            for cfg, ok in cs[:-1]:
                                self.maybe(state, cfg)
                        hist.append(["at once", [x for _, (x, _) in calls]])
                    else:
                        for cfg, ok in cs:
                            n = c.asked_config
                            c.config = cfg
                            c.notify("workspace/didChangeConfiguration", {"settings": {}})
                            if not c.until(lambda: c.asked_config > n):
                                raise lsp.Lost("the configuration is not asked for")
                        for cfg, ok in cs[:-1]:
                            self.maybe(state, cfg)
                        hist.append(["in a row", [x for x, _ in cs]])
                    self.apply(state, cs[-1][0])
                    ctx.count("configurations", len(cs))
                    ctx.count("overlapping")
                self.check(ctx, c, state, hist)
            ctx.distinct(json.dumps(hist))
            ctx.sample(hist)
            ctx.count("servers")
            self.end(ctx)
        except (rpc.Dead, lsp.Lost) as e:
            self.died(ctx, e, {"history": hist})

    def maybe(self, state, cfg):
        """A configuration that may be overtaken before it is used."""
        for s in cfg.get("options", {}):
            state["sets"][s] = None
        if cfg.get("nixpkgs", {}).get("expr"):
            state["nixpkgs"] = None

    def config(self, r, valid=.8):
        """(configuration, whether it is one)"""
        c = {}
        if r.random() < .6:
            w = "w%d" % r.randrange(9)
            c["formatting"] = {"command": r.choice([["printf", "%s", w], ["sh", "-c", "echo " + w]])} if r.random() < .8 else "true"
        if r.random() < .6:
            c["diagnostic"] = {"suppress": r.sample(SUPPRESS + ["no-such-diagnostic", ""], r.randint(0, 3))}
        if r.random() < .6:
            c["options"] = {n: {"expr": "O%d" % r.randrange(6)} for n in r.sample(["nixos", "home-manager", "flake-parts", "é x"], r.randint(0, 3))}
        if r.random() < .5:
            c["nixpkgs"] = {"expr": "N%d" % r.randrange(6)}
        if r.random() < .2:
            c["unknown"] = r.choice([1, {"a": 2}, None])
        if r.random() < valid:
            return c, True
        return r.choice([None, 3, "x", [], dict(c, formatting=3), dict(c, formatting={"command": 3}), dict(c, formatting={"command": [1]}),
                         dict(c, diagnostic=[]), dict(c, diagnostic={"suppress": "x"}), dict(c, options=3), dict(c, options={"a": 3}), dict(c, options={"a": {"expr": 3}}),
                         dict(c, nixpkgs="x"), dict(c, nixpkgs={"expr": []})]), False

    def apply(self, state, c):
        state["format"] = None
        f = c.get("formatting")
        if f is not None:
            state["format"] = "" if f == "true" else f["command"][2] if f["command"][0] == "printf" else f["command"][2][5:] + "\n"
        state["suppress"] = c.get("diagnostic", {}).get("suppress", [])
        for n, o in c.get("options", {}).items():
            state["sets"][n] = o["expr"]
        if c.get("nixpkgs", {}).get("expr"):
            state["nixpkgs"] = c["nixpkgs"]["expr"]

    def want(self, state):
        w = {"suppress": [k for k in SUPPRESS if k not in state["suppress"]]}
        if state["format"] is not None:
            w["format"] = state["format"]
        for n, e in state["sets"].items():
            if e is not None:
                w["options " + n] = [] if e == "O5" else ["odefault"] if e == lsp.NIXOS else ["o" + e[1:], "oo" + e[1:]]
        e = state["nixpkgs"]
        if e is not None:
            w["nixpkgs"] = [] if e == "N5" else ["ndefault"] if e == lsp.NIXPKGS else ["n" + e[1:]]
        return w

    def check(self, ctx, c, state, hist):
        self.n = getattr(self, "n", 0) + 1
        name = "p%d.nix" % self.n
        want = self.want(state)
        u, _ = c.opened(name, PROBE)
        again = False
        end = time.time() + 8
        bad = None
        while time.time() < end:
            got = self.probe(c, u)
            bad = {k: (got.get(k, []), v) for k, v in want.items() if got.get(k, []) != v}
            extra = [k for k in got if k.startswith("options ") and k[8:] not in state["sets"]]
            if extra:
                bad["extra"] = (extra, [])
            if not bad and again:
                break
            if not bad:
                again = True
                c.step(.02)
                continue
            if again:
                break
            c.step(.05)
        if bad:
            for k, (g, w) in bad.items():
                ctx.violation("%s %s%s after the configurations" % (k, "is %s, want %s" % (g, w), " (it was right before)" if again else ""), {"history": hist})
        ctx.count("behaviours judged", len(want))
        c.close(name)
        c.forget()

    def probe(self, c, u):
        """What can be seen of the configuration."""
        at = lambda n: {"textDocument": {"uri": u}, "position": {"line": 0, "character": n}}
        f = c.post("textDocument/formatting", {"textDocument": {"uri": u}, "options": {}})
        o = c.post("textDocument/completion", at(PROBE.index("o =") + 1))
        n = c.post("textDocument/completion", at(PROBE.index("pkgs.n") + 6))
        c.wait(f), c.wait(o), c.wait(n)
        out = {}
        f, o, n = c.replies[f], c.replies[o], c.replies[n]
        if "result" in f:
            out["format"] = f["result"][0]["newText"] if f["result"] else None
        else:
            out["format"] = "error"
        for it in (o.get("result") or {}).get("items", []):
            out.setdefault("options " + it.get("detail", "?"), []).append(it["label"])
        out["nixpkgs"] = [it["label"] for it in (n.get("result") or {}).get("items", [])]
        out["suppress"] = sorted({d["code"] for d in c.diags[u][-1]["diagnostics"]}, reverse=True)
        return out


EVAL = ["attrset/attrpathInfo", "attrset/attrpathComplete", "attrset/optionInfo", "attrset/optionComplete"]
ENDS = ["shutdown, exit", "shutdown, exit, end of input", "exit", "end of input", "shutdown, end of input", "broken message", "broken header",
        "editor dies", "output closed", "message after exit"]


class C35(Server):
    id = "C35"
    rule = "a distinct (way of ending, what was under way) after which the server had ended and left nothing"
    quick = 480
    thorough = 12000
    quick_cap = 60
    deterministic = False
    evaluation = "ends"

    def init(self, ctx):
        ctypes.CDLL(None).prctl(36, 1, 0, 0, 0)      # processes that the server leaves become ours
        self.known = set(children(os.getpid()))

    def mode(self, r):
        """(behaviour of a worker, whether it ends once nobody talks to it)"""
        k = r.random()
        if k < .3:
            return {}, True
        if k < .45:
            return {"silent": r.choice([EVAL, EVAL + ["attrset/evalExpr"], ["attrset/evalExpr"], EVAL[:1], EVAL[2:]])}, True
        if k < .55:
            return {"delay": r.choice([.02, .2, .6])}, True
        if k < .65:
            return {"die": r.choice([0, 1, 2, 5])}, True
        if k < .75:
            return {"abort": r.choice([0, 1, 3])}, True
        if k < .85:
            return {r.choice(["hang", "stuck"]): r.choice([0, 1, 2, 4])}, False
        if k < .95:
            return {"junk": [r.choice([0, 1, 3]), r.choice(["x\n", "Content-Length: 5\r\n\r\n{}", "Content-Length: 3\r\n\r\n{\"a", "\r\n\r\n", "\0",
                                                               "Content-Length: 40\r\n\r\n{\"jsonrpc\":\"2.0\"", "Content-Length: 9999999999999\r\n\r\n"])]}, True
        return {"error": EVAL + ["attrset/evalExpr"]}, True

    def case(self, ctx, i):
        r = ctx.rng(i)
        modes, names = {}, [lsp.NIXPKGS, lsp.NIXOS, "OTHER"]
        polite = True
        for n in names:
            modes[n], p = self.mode(r)
            polite = polite and p
        db = {"exprs": {lsp.NIXPKGS: world.tree(r, 2, "info", wide=.3), lsp.NIXOS: world.tree(r, 2, "option", wide=.3),
                        "OTHER": world.tree(r, 2, "option", wide=.3)}, "modes": modes}
        args = []
        helper = None
        end = r.choice(ENDS)
        if end == "editor dies" or r.random() < .15:
            helper = subprocess.Popen(["sleep", "1000"])
            args.append("--clientProcessId=%d" % helper.pid)
        worker = r.choice(["/nonexistent/worker", "/bin/false", "/bin/true", "/", "/bin/cat"]) if r.random() < .15 else None
        what = {"end": end, "modes": modes, "worker": worker, "requests": [], "helper": helper is not None}
        c = None
        try:
            self.c = c = lsp.Client(ctx.paths["asan/nixd-bin"], db=db, args=args, timeout=60, worker=worker, progress=r.random() < .7,
                                    configuration=r.random() < .8)
            shutil.copy(LIB + "/fakefmt.py", c.dir + "/fmt")
            os.chmod(c.dir + "/fmt", 0o755)
            slow = r.random() < .3
            c.config = {"options": {k: {"expr": "OTHER"} for k in r.sample(["a", "b", "nixos", "c"], r.randint(0, 3))}}
            if slow:
                c.config["formatting"] = {"command": ["sh", "-c", r.choice(["cat; sleep .4", "sleep .3; cat", "exec sleep .5", "sleep .2; kill -9 $$"])]}
            if c.caps["workspace"]["configuration"] and r.random() < .7:
                c.notify("workspace/didChangeConfiguration", {"settings": {}})
                c.until(lambda: c.asked_config >= 1)
                if r.random() < .5:
                    c.request("workspace/none")
            docs = []
            for k in range(r.randint(0, 2)):
                t = nixd.module(r) if r.random() < .7 else document(r)[1]
                t = t[:3000]
                docs.append(shape.Doc(c.uri("e%d.nix" % k), t))
                c.open("e%d.nix" % k, t, 1)
            if r.random() < .3:
                c.hold = {r.choice(["workspace/configuration", "window/workDoneProgress/create"])}
            ids = []
            for _ in range(r.choice([0, 1, 5, 25, 120])):
                m = r.choice(["completion", "hover", "definition", "completion", "hover", "inlayHint", "formatting" if slow else "completion",
                              "documentSymbol", "codeAction", "rename", "config", "change"])
                what["requests"].append(m)
                if m == "config":
                    c.notify("workspace/didChangeConfiguration", {"settings": {}})
                    c.step(0)
                    continue
                if not docs:
                    ids.append(c.post(r.choice(["workspace/none", "textDocument/hover", "shutdowm"]), {}))
                    continue
                d = r.choice(docs)
                if m == "change":
                    k = docs.index(d)
                    t = r.choice([d.text + " ", "{ }", d.text[:len(d.text) // 2]])
                    docs[k] = shape.Doc(d.uri, t)
                    c.change("e%d.nix" % k, [{"text": t}], len(what["requests"]) + 1)
                    continue
                p = params(r, d, m, wild=.05)
                if m == "formatting":
                    p["options"] = {"tabSize": 2, "insertSpaces": True}
                ids.append(c.post("textDocument/" + m, p))
            if r.random() < .06:      # a long run of queries
                t = "{ %s }: with pkgs; [ %s ]" % (", ".join("a%d" % k for k in range(50)), " ".join("flood-%d-%s" % (k, "x" * 60) for k in range(1500)))
                f = shape.Doc(c.uri("flood.nix"), t)
                c.open("flood.nix", t, 1)
                for _ in range(r.randint(1, 3)):
                    ids.append(c.post("textDocument/inlayHint", {"textDocument": {"uri": f.uri}, "range": f.rng(0, len(t))}))
                what["requests"].append("flood")
                ctx.count("floods")
            if r.random() < .3:
                c.step(r.choice([0, .01, .1, .4]))
            ctx.count("requests under way", sum(x not in c.replies for x in ids))
            kids = children(c.s.p.pid)
            code, err, replied = self.bring(ctx, r, c, end, helper, ids)
            ctx.count("ends")
            ctx.count("ends: " + end)
            if code == "nothing: it hangs":
                ctx.violation("the server does not end (%s)" % end, what)
            elif sanitizers(err):
                ctx.violation("%s: %s" % (end, probe.summary(err)), dict(what, stderr=nixd.evidence(err)))
            elif code is None or code < 0 or code > 1 or end.startswith("shutdown") and code != 0:
                ctx.violation("the server ends with %s (%s): %s" % (code, end, err[-300:]), what)
            if replied is not None:
                lost = [(x, c.asked[x]) for x in ids if x not in replied]
                if lost:
                    ctx.violation("requests are not replied before the end (%s): %d of %d, %s" % (end, len(lost), len(ids), lost[:3]), what)
                ctx.count("requests replied at the end", len(ids))
            for b in c.bad:
                ctx.violation(b, what)
            self.orphans(ctx, polite or worker is not None, kids, what)
            ctx.distinct((end, json.dumps(modes), json.dumps(what["requests"])))
            ctx.sample(what)
        except (rpc.Dead, lsp.Lost) as e:
            self.died(ctx, e, what)
        finally:
            self.c = None
            if helper is not None:
                helper.kill()
                helper.wait()
            if c is not None:
                c.clean()

    def bring(self, ctx, r, c, end, helper, ids):
        """Bring about the end: (code, stderr, ids that are replied, or None if nobody can know)."""
        s = c.s
        down = None
        if end.startswith("shutdown"):
            down = c.post("shutdown")
            if r.random() < .5:
                c.wait(down)
        if "exit" in end:
            c.notify("exit")
        if end == "message after exit":
            for _ in range(r.choice([1, 30])):
                c.post("textDocument/hover", {"textDocument": {"uri": c.uri("e0.nix")}, "position": {"line": 0, "character": 0}})
        if end == "broken message":
            s.out += b'Content-Length: 100\r\n\r\n{"jsonrpc": "2.0", "id": 9'
        if end == "broken header":
            s.out += r.choice([b"Content-Len", b"Content-Length: 10", b"Content-Length: 10\r\n", b"\r", b"Content-Length: 99999999999999\r\n\r\n", b"\xff\xfe"])
        close = end in ("end of input", "shutdown, end of input", "broken message", "broken header", "shutdown, exit, end of input")
        if end == "output closed":
            s.pump(.05)
            s.queue, q = [], s.queue
            c.take(q)
            s.p.stdout.close()
            s.eof = True
            close = True
        limit = time.time() + 45
        if close:
            while s.out and time.time() < limit:
                if end == "output closed":
                    try:
                        s.out = s.out[os.write(s.p.stdin.fileno(), s.out[:65536]):]
                    except BlockingIOError:
                        time.sleep(.01)
                    except BrokenPipeError:
                        break
                else:
                    s.pump(.1)
            s.p.stdin.close()
        elif end == "editor dies":
            if r.random() < .5:
                s.pump(.05)
            helper.kill()
            helper.wait()
        # what it still sends, until it closes its output
        while not s.eof and time.time() < limit:
            try:
                if close:
                    if select.select([s.p.stdout], [], [], .1)[0]:
                        b = os.read(s.p.stdout.fileno(), 1 << 18)
                        s.eof = not b
                        s.buf += b
                        s.split()
                else:
                    s.pump(.1)
            except rpc.Dead as e:
                if "read any more" not in str(e):
                    raise
                s.out = b""
            s.queue, q = [], s.queue
            self.take(c, q)
        try:
            code = s.p.wait(max(.1, limit - time.time()))
        except subprocess.TimeoutExpired:
            code = "nothing: it hangs"
            s.p.kill()
            s.p.wait()
        s.err.seek(0)
        err = s.err.read()[-30000:].decode(errors="replace")
        replied = None if end in ("editor dies", "output closed") else set(c.replies)
        if replied is not None and down is not None and down not in replied:
            ctx.violation("shutdown is not replied")
        return code, err, replied

    def take(self, c, q):
        """As lsp.Client.take, but nothing is answered any more."""
        for m in q:
            if "method" in m and "id" in m:
                c.calls.append(m)
            else:
                c.take([m])

    def orphans(self, ctx, polite, kids, what):
        end = time.time() + (8 if polite else 0)
        while True:
            left = {}
            for p, st in children(os.getpid()).items():
                if p in self.known or p not in kids and self.ours(p):
                    continue
                if st == "Z":
                    try:
                        os.waitpid(p, os.WNOHANG)
                    except ChildProcessError:
                        pass
                else:
                    left[p] = st
            if not left or time.time() > end:
                break
            time.sleep(.02)
        ctx.count("processes that had to end", len(kids))
        if left and polite:
            ctx.violation("processes are left: %s" % [open("/proc/%d/cmdline" % p).read().replace("\0", " ") for p in left][:4], what)
        for p in left:
            os.kill(p, signal.SIGKILL)
            os.waitpid(p, 0)

    def ours(self, pid):
        """Not what the server left, but what we run (nothing, between cases, besides the helper)."""
        try:
            return open("/proc/%d/cmdline" % pid).read().startswith("sleep\0001000")
        except OSError:
            return True

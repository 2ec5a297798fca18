"""The evaluator, on a stand-in for Nix's libraries."""
import json
import time

import lsp
import nixval
import rpc
import run
from nixval import Fail

LIMIT = 30      # how many items nixd shows: to know that there are more it has to be given more


class Worker:
    """A session with nixd-attrset-eval."""

    def __init__(self, path):
        self.s = rpc.Session(path, ["--log=error"])
        self.n = 0
        self.replies = {}
        self.asked = set()

    def post(self, method, params):
        self.n += 1
        self.asked.add(self.n)
        self.s.send({"jsonrpc": "2.0", "id": self.n, "method": "attrset/" + method, "params": params})
        return self.n

    def wait(self, i):
        end = time.time() + 60
        while i not in self.replies:
            if time.time() > end:
                raise lsp.Lost("no reply")
            for m in self.s.recv(1):
                if m.get("id") not in self.asked or m["id"] in self.replies or ("result" in m) == ("error" in m):
                    raise lsp.Lost("an unexpected message: %s" % json.dumps(m)[:300])
                self.replies[m["id"]] = m
        return self.replies.pop(i)


class C39(run.Check):
    id = "C39"
    level = "exploration"
    rule = "a distinct (question, answer that is no error) that was compared with what the expression evaluates to"
    builds = (("asan", ("nixd-attrset-eval",)),)
    quick = 3000
    thorough = 100000
    quick_cap = 60
    evaluation = "questions"
    assumptions = ("Nix's own libraries are not installed here: the evaluator runs on harness/fakenix, which makes values from JSON and "
                   "is lazy, fails and aborts as Nix does.",)

    def init(self, ctx):
        self.binary = ctx.paths["asan/nixd-attrset-eval"]

    def world(self, r):
        g = nixval.Gen(r, hostile=r.choice([0, 0, .03, .15]), wide=r.choice([0, .3]))
        k = r.random()
        if k < .35:
            v = g.tree(3)
        elif k < .95:
            v = g.optiontree(3, [])
        else:
            v = r.choice([nixval.simple(r), nixval.broken(r, []), nixval.function(r), {"t": "list", "v": []}])
        return v, g

    def path(self, r, ev, depth=5, steps=()):
        """Attribute names that lead somewhere, mostly."""
        p, v = [], ev.root
        for _ in range(r.randint(0, depth)):
            try:
                t = ev.submodule(v)
                if t is not None and r.random() < .9:
                    v = ev.below(t)
                elif ev.isoption(v) and r.random() < .8:
                    e = ev.select(v, ["type", "nestedTypes", "elemType"])
                    if ev.field(e, "name") == "submodule":
                        p.append(r.choice(["alice", "<name>", "*"]))
                        v = ev.below(e)
                        continue
                v = ev.force(v)
                if v["t"] != "set" or not v["v"]:
                    break
                n, v = r.choice(v["v"])
                p.append(n)
            except Fail:
                break
        if r.random() < .1:
            p.insert(r.randint(0, len(p)), r.choice(["nope", "", "a", "type", "meta"]))
        return p

    def prefix(self, r, names):
        k = r.random()
        if k < .4 or not names:
            return ""
        n = r.choice(names)
        if k < .9:
            return n[:r.randint(0, len(n))]
        return r.choice([n + "x", "zzz", n.upper()])

    def answer(self, ev, q):
        m, p = q
        if m == "attrpathInfo":
            return ev.info(p)
        if m == "attrpathComplete":
            return ev.names(p["Scope"], p["Prefix"])
        if m == "optionInfo":
            return ev.optioninfo(p)
        return ev.optionnames(p["Scope"], p["Prefix"])

    def judge_reply(self, ctx, ev, q, rep):
        """None, or what is wrong."""
        m, p = q
        try:
            want = self.answer(ev, q)
        except Fail as e:
            if m == "optionInfo" and "result" in rep:
                return self.halfway(ev, p, rep["result"])
            return None if "error" in rep else "an answer, %s, although it fails: %s" % (json.dumps(rep["result"])[:300], e)
        if m == "optionComplete":
            return self.judge_options(ctx, ev, want, rep)
        if "error" in rep:
            if m == "optionInfo" and not self.real(ev, p):
                return None
            return "an error: %s" % rep["error"]["message"]
        got = nixval.plain(rep["result"])
        if m == "attrpathComplete":
            bad = self.judge_names(want, got)
            if bad:
                return bad
            if len(want) > LIMIT:
                ctx.count("lists that are cut")
        elif not nixval.same(want, got):
            if m == "optionInfo" and not self.real(ev, p):
                return None
            return "%s instead of %s" % (json.dumps(got), json.dumps(want, default=str))
        ctx.distinct((m, json.dumps(got, sort_keys=True)))
        return None

    def real(self, ev, p):
        try:
            return ev.isoption(ev.options(ev.root, p))
        except Fail:
            return False

    def halfway(self, ev, p, got):
        """A description of an option some parts of which fail."""
        try:
            if not self.real(ev, p):
                ev.options(ev.root, p)
        except Fail as e:
            return "an answer, although it fails: %s" % e
        return None

    def judge_names(self, want, got):
        if got != want[:len(got)]:
            return "the names %s instead of %s" % (got, want[:40])
        if len(got) < min(len(want), LIMIT + 1):
            return "only %d names of %d" % (len(got), len(want))
        return None

    def judge_options(self, ctx, ev, want, rep):
        failing = False
        descs = {}
        for n, v in want:
            try:
                descs[n] = ev.option(v) if ev.isoption(v) else None
            except Fail:
                failing = True
                descs[n] = ...
        if "error" in rep:
            return None if failing else "an error: %s" % rep["error"]["message"]
        got = rep["result"]
        names = [n for n, _ in want]
        if failing:
            names = [n for n in names if descs[n] is not ... or any(g["Name"] == n for g in got)]
        bad = self.judge_names(names, [g["Name"] for g in got])
        if bad:
            return bad
        for g in got:
            w = descs[g["Name"]]
            if w is not ... and not nixval.same(w, nixval.plain(g["Description"])):
                return "of %s: %s instead of %s" % (g["Name"], json.dumps(g["Description"]), json.dumps(w, default=str))
        if len(names) > LIMIT:
            ctx.count("lists that are cut")
        ctx.distinct(("optionComplete", json.dumps(got, sort_keys=True)))
        return None

    def case(self, ctx, i):
        r = ctx.rng(i)
        tell = {}
        w = Worker(self.binary)
        history = []
        try:
            ev = None
            if r.random() < .1:
                for m, p in (("attrpathInfo", ["a"]), ("attrpathComplete", {"Scope": [], "Prefix": ""}), ("optionInfo", ["a"]),
                             ("optionComplete", {"Scope": [], "Prefix": ""})):
                    history.append([m, p])
                    if "error" not in w.wait(w.post(m, p)):
                        ctx.violation("%s answers before anything was evaluated" % m, history)
                    ctx.count("questions before the evaluation")
            for _ in range(r.choice([1, 1, 2, 3])):
                v, g = self.world(r)
                e = json.dumps(v)
                broken = r.random() < .1
                if broken:
                    e = r.choice(["{", "", "nope", '{"t": "what"}', json.dumps({"t": "throw", "v": "no such thing"}), "\"x\""])
                history.append(["evalExpr", e])
                rep = w.wait(w.post("evalExpr", e))
                nv = nixval.Eval(v)
                fails = broken
                try:
                    nv.force(v)
                except Fail as f:
                    fails = True
                    if not broken and nixval.REPLACED.sub("?", f.args[0]) not in nixval.REPLACED.sub("?", rep.get("error", {}).get("message", "")):
                        ctx.violation("the error does not say what failed (%s): %s" % (f, rep), history)
                if ("error" in rep) != fails:
                    ctx.violation("evaluation %s: %s" % ("fails" if fails else "succeeds", json.dumps(rep)), history)
                    break
                ctx.count("expressions")
                if fails:
                    ctx.count("failed evaluations")
                    if ev is None:
                        q = ("attrpathComplete", {"Scope": [], "Prefix": ""})
                        history.append(q)
                        if "error" not in w.wait(w.post(*q)):
                            ctx.violation("an answer after an evaluation that failed", history)
                        continue
                else:
                    ev = nv
                qs = []
                for _ in range(r.randint(5, 25)):
                    if qs and r.random() < .2:
                        qs.append(r.choice(qs))
                        continue
                    p = r.choice(g.paths)[:] if g.paths and r.random() < .3 else self.path(r, ev)
                    m = r.choice(["attrpathInfo", "attrpathComplete", "optionInfo", "optionComplete"])
                    if m.endswith("Complete"):
                        try:
                            names = [n for n, _ in ev.optionscope(p)["v"]] if m[0] == "o" else ev.names(p, "")
                        except Fail:
                            names = p
                        p = {"Scope": p, "Prefix": self.prefix(r, names)}
                    qs.append((m, p))
                history += qs
                together = r.random() < .5
                posted = [(q, w.post(*q)) for q in qs] if together else [(q, None) for q in qs]
                for q, j in posted:
                    rep = w.wait(w.post(*q) if j is None else j)
                    ctx.count("questions")
                    ctx.count(q[0])
                    if "error" in rep:
                        ctx.count("errors")
                    bad = self.judge_reply(ctx, ev, q, rep)
                    if bad:
                        ctx.violation("%s: %s" % (q[0], bad), {"question": q, "history": history})
                        return
        except (rpc.Dead, lsp.Lost) as e:
            code, err = w.s.finish(close=False)
            w = None
            ctx.violation("the evaluator is lost: %s; %s" % (e, err[-1500:]), history)
        finally:
            if w:
                code, err = w.s.finish()
                if code != 0 or lsp.SAN.search(err):
                    ctx.violation("the evaluator ends with %s: %s" % (code, err[-1500:]), history)

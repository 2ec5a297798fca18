"""An editor, and the world of workers around it, for the real nixd."""
import json
import os
import re
import shutil
import tempfile
import time

import lsptext
import probe
import rpc

HERE = os.path.dirname(os.path.abspath(__file__))
NIXPKGS, NIXOS = "NIXPKGS", "NIXOS"     # what the workers are asked to evaluate by default


class Lost(Exception):
    """A request was not replied in time."""


class Client:
    def __init__(self, binary, db=None, config=None, args=(), progress=True, configuration=True, timeout=30, caps=None,
                 worker=None, tokens=True, start=True, env=None, files=None):
        self.dir = tempfile.mkdtemp(prefix="nixd-check-")
        self.timeout = timeout
        self.config = config
        self.setdb(db or {})
        for k, v in (files or {}).items():      # for the real evaluator
            with open(os.path.join(self.dir, k + ".json"), "w") as f:
                json.dump(v, f)
        w = worker or os.path.join(self.dir, "worker")
        if not worker:
            shutil.copy(os.path.join(HERE, "fakeworker.py"), w)
            os.chmod(w, 0o755)
        a = ["--log=error", "--nixpkgs-expr=" + NIXPKGS, "--nixos-options-expr=" + NIXOS]
        if tokens:
            a.append("--semantic-tokens=true")
        e = {"NIXD_ATTRSET_EVAL": w, "NIXD_FAKE_DIR": self.dir}
        e.update(env or {})
        self.s = rpc.Session(binary, a + list(args), **e)
        self.n = 0
        self.replies = {}
        self.asked = {}
        self.notes = []          # notifications of the server, in order
        self.diags = {}          # uri -> published parameters, in order
        self.asked_config = 0
        self.calls = []          # requests of the server
        self.bad = []
        self.progress = []       # ("create"|"begin"|"end"..., token)
        self.hold = set()        # methods of the server's requests that are not replied
        self.caps = caps if caps is not None else {
            "window": {"workDoneProgress": progress}, "workspace": {"configuration": configuration},
            "textDocument": {"documentSymbol": {"hierarchicalDocumentSymbolSupport": True}}}
        if start:
            self.init = self.request("initialize", {"processId": None, "rootUri": None, "capabilities": self.caps})
            self.notify("initialized", {})

    def setdb(self, db):
        db = dict(db)
        db.setdefault("exprs", {})
        for k in (NIXPKGS, NIXOS):
            db["exprs"].setdefault(k, {"k": "set", "v": {}})
        p = os.path.join(self.dir, "db.json")
        with open(p + ".new", "w") as f:
            json.dump(db, f)
        os.rename(p + ".new", p)

    # ---- messages
    def post(self, method, params=None):
        self.n += 1
        m = {"jsonrpc": "2.0", "id": self.n, "method": method}
        if params is not None:
            m["params"] = params
        self.asked[self.n] = method
        self.s.send(m)
        return self.n

    def notify(self, method, params=None):
        m = {"jsonrpc": "2.0", "method": method}
        if params is not None:
            m["params"] = params
        self.s.send(m)

    def take(self, ms):
        for m in ms:
            if "method" in m and "id" in m:
                self.calls.append(m)
                if m["method"] == "window/workDoneProgress/create":
                    self.progress.append(("create", m["params"]["token"]))
                if m["method"] in self.hold:
                    continue
                if m["method"] == "window/workDoneProgress/create":
                    self.s.send({"jsonrpc": "2.0", "id": m["id"], "result": None})
                elif m["method"] == "workspace/configuration":
                    self.asked_config += 1
                    self.s.send({"jsonrpc": "2.0", "id": m["id"], "result": [self.config]})
                else:
                    self.s.send({"jsonrpc": "2.0", "id": m["id"], "error": {"code": -32601, "message": "no"}})
            elif "method" in m:
                self.notes.append(m)
                p = m.get("params")
                if m["method"] == "textDocument/publishDiagnostics":
                    self.diags.setdefault(p["uri"], []).append(p)
                elif m["method"] == "$/progress":
                    self.progress.append((p["value"].get("kind"), p["token"]))
            elif "id" in m:
                i = m["id"]
                if i in self.replies or i not in self.asked:
                    self.bad.append("an unexpected reply: %s" % json.dumps(m)[:300])
                elif ("result" in m) == ("error" in m):
                    self.bad.append("a reply with neither or both of result and error: %s" % json.dumps(m)[:300])
                else:
                    self.replies[i] = m
            else:
                self.bad.append("neither request nor reply: %s" % json.dumps(m)[:300])

    def step(self, wait=.05):
        self.take(self.s.recv(wait))

    def wait(self, i, timeout=None):
        end = time.time() + (timeout or self.timeout)
        while i not in self.replies:
            if time.time() > end:
                raise Lost("no reply to %s" % self.asked[i])
            self.step(min(.5, max(.01, end - time.time())))
        return self.replies[i]

    def request(self, method, params=None, timeout=None):
        """The result; an error is returned as an Err."""
        m = self.wait(self.post(method, params), timeout)
        return Err(m["error"]) if "error" in m else m["result"]

    def until(self, f, timeout=None):
        end = time.time() + (timeout or self.timeout)
        while not f():
            if time.time() > end:
                return False
            self.step(.05)
        return True

    # ---- documents
    def uri(self, name):
        return "file://" + self.dir + "/" + name

    def open(self, name, text, version=1):
        u = self.uri(name)
        n = len(self.diags.get(u, []))
        self.notify("textDocument/didOpen", {"textDocument": {"uri": u, "languageId": "nix", "version": version, "text": text}})
        return u, n

    def opened(self, name, text, version=1):
        """Open it, wait for its diagnostics, return (uri, diagnostics)."""
        u, n = self.open(name, text, version)
        if not self.until(lambda: len(self.diags.get(u, [])) > n):
            raise Lost("no diagnostics after didOpen")
        return u, self.diags[u][-1]["diagnostics"]

    def change(self, name, changes, version):
        u = self.uri(name)
        self.notify("textDocument/didChange", {"textDocument": {"uri": u, "version": version}, "contentChanges": changes})
        return u

    def close(self, name):
        self.notify("textDocument/didClose", {"textDocument": {"uri": self.uri(name)}})

    def forget(self):
        self.replies, self.asked, self.notes, self.diags = {}, {}, [], {}

    # ---- the end
    def finish(self, shutdown=True, exit_=True, timeout=30):
        """(exit code, stderr); raises Dead, Lost."""
        try:
            if shutdown:
                self.request("shutdown")
            if exit_:
                self.notify("exit")
            return self.s.finish(close=True, timeout=timeout)
        finally:
            self.clean()

    def kill(self):
        try:
            return self.s.finish(close=False)
        finally:
            self.clean()

    def clean(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def queries(self):
        """What the workers were asked: {pid: [[method, params]...]}"""
        out = {}
        for f in os.listdir(self.dir):
            if f.endswith(".log"):
                with open(os.path.join(self.dir, f)) as h:
                    out[int(f[:-4])] = [json.loads(l) if l != "eof\n" else ["eof", None] for l in h]
        return out


class Err:
    def __init__(self, e):
        self.code, self.message = e.get("code"), e.get("message")

    def __repr__(self):
        return "error %s %s" % (self.code, self.message)


SAN = re.compile(r"AddressSanitizer|ThreadSanitizer|runtime error:|Assertion `|LeakSanitizer")


def pos(text, i):
    l, c = lsptext.to_pos(text, i)
    return {"line": l, "character": c}


def rng(text, lo, hi):
    return {"start": pos(text, lo), "end": pos(text, hi)}


def b2c(text, data, b):
    """Byte offset of the UTF-8 data -> index in the text."""
    return len(data[:b].decode("utf-8", "ignore"))

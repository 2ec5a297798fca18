"""What the server announces when it is initialized, and what it does then."""
import json
import re

import lsp
import rpc
import shape
import world
from nixd import Server

UNKNOWN = ["textDocument/declaration", "textDocument/typeDefinition", "textDocument/implementation", "textDocument/signatureHelp",
           "textDocument/codeLens", "codeLens/resolve", "documentLink/resolve", "inlayHint/resolve", "textDocument/documentColor",
           "textDocument/rangeFormatting", "textDocument/onTypeFormatting", "textDocument/selectionRange", "textDocument/linkedEditingRange",
           "textDocument/prepareCallHierarchy", "textDocument/moniker", "textDocument/diagnostic", "textDocument/semanticTokens/range",
           "textDocument/semanticTokens/full/delta", "workspace/symbol", "workspace/executeCommand", "workspace/willRenameFiles",
           "workspace/diagnostic", "x/unknown", "", "textDocument/Hover", "textdocument/hover", "initialized", "textDocument/didOpen", "$/progress"]
IGNORED = ["$/setTrace", "$/cancelRequest", "textDocument/didSave", "textDocument/willSave", "workspace/didChangeWatchedFiles",
           "workspace/didChangeWorkspaceFolders", "x/unknown", "", "textDocument/hover", "shutdown", "window/workDoneProgress/cancel",
           "notebookDocument/didOpen", "$/x"]
# what is announced -> the requests that are answered then
FEATURES = {"definitionProvider": "textDocument/definition", "documentLinkProvider": "textDocument/documentLink",
            "documentSymbolProvider": "textDocument/documentSymbol", "foldingRangeProvider": "textDocument/foldingRange",
            "inlayHintProvider": "textDocument/inlayHint", "completionProvider": "textDocument/completion",
            "referencesProvider": "textDocument/references", "documentHighlightProvider": "textDocument/documentHighlight",
            "hoverProvider": "textDocument/hover", "documentFormattingProvider": "textDocument/formatting",
            "renameProvider": "textDocument/rename", "codeActionProvider": "textDocument/codeAction",
            "semanticTokensProvider": "textDocument/semanticTokens/full",
            # not announced today, but then they would have to be answered
            "declarationProvider": "textDocument/declaration", "typeDefinitionProvider": "textDocument/typeDefinition",
            "implementationProvider": "textDocument/implementation", "signatureHelpProvider": "textDocument/signatureHelp",
            "codeLensProvider": "textDocument/codeLens", "colorProvider": "textDocument/documentColor",
            "documentRangeFormattingProvider": "textDocument/rangeFormatting", "selectionRangeProvider": "textDocument/selectionRange",
            "documentOnTypeFormattingProvider": "textDocument/onTypeFormatting", "linkedEditingRangeProvider": "textDocument/linkedEditingRange",
            "callHierarchyProvider": "textDocument/prepareCallHierarchy", "monikerProvider": "textDocument/moniker",
            "diagnosticProvider": "textDocument/diagnostic", "workspaceSymbolProvider": "workspace/symbol",
            "executeCommandProvider": "workspace/executeCommand"}
# what users of an editor rely on
BASIC = ["textDocumentSync", "definitionProvider", "documentLinkProvider", "documentSymbolProvider", "foldingRangeProvider", "inlayHintProvider",
         "completionProvider", "referencesProvider", "documentHighlightProvider", "hoverProvider", "documentFormattingProvider", "renameProvider",
         "codeActionProvider"]
# and methods of them that have to be announced separately
RESOLVE = {"completionProvider": ("resolveProvider", "completionItem/resolve"), "codeActionProvider": ("resolveProvider", "codeAction/resolve"),
           "renameProvider": ("prepareProvider", "textDocument/prepareRename"), "documentLinkProvider": ("resolveProvider", "documentLink/resolve"),
           "inlayHintProvider": ("resolveProvider", "inlayHint/resolve")}
NOTFOUND = -32601


def some(r, d):
    return {k: v for k, v in d.items() if r.random() < .75}


def capabilities(r):
    """What a client may say that it can do: anything of it may be missing."""
    b = lambda: r.random() < .5
    dyn = lambda **k: some(r, dict({"dynamicRegistration": b()}, **k))
    kinds = lambda n: {"valueSet": r.sample(range(1, n + 1), r.randint(0, n)) + ([n + 3] if r.random() < .25 else [])}
    item = some(r, {"snippetSupport": b(), "commitCharactersSupport": b(), "documentationFormat": r.choice([[], ["markdown"], ["plaintext", "markdown"], ["html"]]),
                    "deprecatedSupport": b(), "preselectSupport": b(), "tagSupport": {"valueSet": [1]}, "insertReplaceSupport": b(),
                    "resolveSupport": {"properties": r.sample(["documentation", "detail", "additionalTextEdits"], r.randint(0, 3))},
                    "insertTextModeSupport": {"valueSet": [1, 2]}, "labelDetailsSupport": b()})
    text = some(r, {
        "synchronization": dyn(willSave=b(), willSaveWaitUntil=b(), didSave=b()),
        "completion": dyn(completionItem=item, completionItemKind=some(r, kinds(25)), contextSupport=b(), insertTextMode=1, editsNearCursor=b()),
        "hover": dyn(contentFormat=r.choice([[], ["markdown"], ["plaintext", "markdown"], ["x"]])),
        "signatureHelp": dyn(signatureInformation={"documentationFormat": ["markdown"], "parameterInformation": {"labelOffsetSupport": b()}}),
        "definition": dyn(linkSupport=b()), "references": dyn(container=b()), "documentHighlight": dyn(),
        "documentSymbol": dyn(symbolKind=kinds(26), hierarchicalDocumentSymbolSupport=b(), tagSupport={"valueSet": [1]}, labelSupport=b()),
        "codeAction": dyn(isPreferredSupport=b(), dataSupport=b(), resolveSupport={"properties": ["edit"]},
                          codeActionLiteralSupport={"codeActionKind": {"valueSet": ["", "quickfix", "refactor", "source"]}}),
        "formatting": dyn(), "rename": dyn(prepareSupport=b(), prepareSupportDefaultBehavior=1), "documentLink": dyn(tooltipSupport=b()),
        "foldingRange": dyn(lineFoldingOnly=b(), rangeLimit=r.choice([0, 1, 5000]), foldingRangeKind={"valueSet": ["comment"]}),
        "publishDiagnostics": some(r, {"relatedInformation": b(), "tagSupport": {"valueSet": [1, 2]}, "versionSupport": b(), "codeActionsInline": b(),
                                       "categorySupport": b()}),
        "semanticTokens": dyn(requests={"range": b(), "full": {"delta": b()}}, tokenTypes=["variable"], tokenModifiers=[], formats=["relative"]),
        "inlayHint": dyn(resolveSupport={"properties": []}), "semanticHighlightingCapabilities": {"semanticHighlighting": b()},
        "inactiveRegionsCapabilities": {"inactiveRegions": b()}})
    ws = some(r, {"applyEdit": b(), "workspaceEdit": some(r, {"documentChanges": b(), "resourceOperations": ["create"], "changeAnnotationSupport": {}}),
                  "configuration": b(), "didChangeConfiguration": dyn(), "symbol": dyn(symbolKind=kinds(26)), "workspaceFolders": b(),
                  "semanticTokens": {"refreshSupport": b()}, "didChangeWatchedFiles": dyn()})
    win = some(r, {"workDoneProgress": b(), "showMessage": {}, "showDocument": {"support": b()}, "implicitWorkDoneProgressCreate": b()})
    return some(r, {"textDocument": text, "workspace": ws, "window": win, "experimental": r.choice([None, {"x": 1}, True]),
                    "general": some(r, {"staleRequestSupport": {"cancel": b(), "retryOnContentModified": []}, "positionEncodings": ["utf-16"],
                                        "regularExpressions": {"engine": "ECMAScript"}}), "offsetEncoding": ["utf-16"]})


class C40(Server):
    id = "C40"
    level = "exploration"
    rule = "a distinct (capabilities of the client, flags) with which the server was initialized and asked"
    quick = 260
    thorough = 20000
    quick_cap = 60
    life = 0
    deterministic = False
    evaluation = "requests"

    def case(self, ctx, i):
        r = ctx.rng(i)
        caps = capabilities(r)
        flags = {k: r.choice([None, True, False]) for k in ("semantic-tokens", "inlay-hints")}
        db = {"exprs": {lsp.NIXPKGS: world.tree(r, 2, "info", wide=0), lsp.NIXOS: world.tree(r, 2, "option", wide=0)}}
        known = db["exprs"][lsp.NIXPKGS]
        known["v"]["versioned"] = {"k": "set", "v": {}, "info": dict(world.info(r), PackageDesc=dict(world.package(r), Version="1.0"))}
        db["exprs"][lsp.NIXOS]["v"]["opted"] = {"k": "set", "v": {}, "option": dict(world.option(r), Example="e x")}
        tell = {"capabilities": caps, "flags": flags}
        c = self.c = lsp.Client(ctx.paths["asan/nixd-bin"], db=db, timeout=60, start=False, tokens=False, caps=caps,
                                args=["--%s=%s" % (k, str(v).lower()) for k, v in flags.items() if v is not None])
        ctx.count("servers")
        try:
            for w in self.session(ctx, r, c, caps, flags, db):
                ctx.violation(w, tell)
            for b in c.bad:
                ctx.violation(b, tell)
            ctx.distinct((caps, flags))
        except (rpc.Dead, lsp.Lost) as e:
            self.died(ctx, e, tell)
            return
        self.end(ctx)

    def session(self, ctx, r, c, caps, flags, db):
        p = {"processId": r.choice([None, None, 1]), "rootUri": r.choice([None, "file:///tmp", "file:///a%20b", "vscode-remote://x/y"]), "capabilities": caps}
        p.update(some(r, {"rootPath": r.choice([None, "/tmp"]), "trace": r.choice(["off", "messages", "verbose"]), "locale": "en",
                          "clientInfo": {"name": "x", "version": "1"}, "initializationOptions": r.choice([None, {}, {"a": [1]}, 3]),
                          "workspaceFolders": r.choice([None, [], [{"uri": "file:///tmp", "name": "tmp"}]]), "workDoneToken": r.choice([1, "x"])}))
        if p["processId"] == 1 or r.random() < .1:
            del p["processId"]      # nixd would watch that process
        rep = c.wait(c.post("initialize", p))
        ctx.count("requests")
        if "error" in rep:
            yield "initialize fails: %s" % rep["error"]
            return
        c.notify("initialized", {})
        S = rep["result"].get("capabilities")
        if not isinstance(S, dict):
            yield "no capabilities: %s" % rep["result"]
            return
        for k in BASIC:
            if not self.has(S, k):
                yield "%s is not announced" % k
        if self.has(S, "semanticTokensProvider") != (flags["semantic-tokens"] is True):
            yield "--semantic-tokens is %s, and %s is announced" % (flags["semantic-tokens"], S.get("semanticTokensProvider"))
        if S.get("positionEncoding", "utf-16") != "utf-16":
            yield "positions are announced to be in %s" % S["positionEncoding"]
        window, ws = caps.get("window") or {}, caps.get("workspace") or {}
        if window.get("workDoneProgress"):
            if not c.until(lambda: sum(k == "end" for k, _ in c.progress) >= 2):
                yield "progress is not reported"

        # ---- documents, synchronized as announced
        sync = S.get("textDocumentSync")
        change = sync if isinstance(sync, int) else (sync or {}).get("change")
        if isinstance(sync, dict) and not sync.get("openClose"):
            yield "it is not announced that documents should be opened"
        if change not in (1, 2):
            yield "changes are not announced: %s" % change
        t = "{ pkgs, lib, ... }: with pkgs; [ versioned 1 ./. \"x\" ] "
        name = "d.nix"
        u, _ = c.opened(name, t)
        t2 = "{ pkgs, lib, ... }: let x = 1; y.a = 1; in with pkgs; [ x versioned pkgs.versioned lib.foo undefinedHere 1 ./. \"x\" ]\n"
        if change == 2:
            a = shape.Doc(u, t)
            i = next(k for k in range(len(t)) if t[k] != t2[k])
            c.change(name, [{"range": a.rng(i, len(t)), "text": t2[i:]}], 2)
        else:
            c.change(name, [{"text": t2}], 2)
        doc = shape.Doc(u, t2)
        if r.random() < .7:
            c.notify(r.choice(IGNORED), r.choice([{}, {"textDocument": {"uri": u}}, {"value": "off"}, {"id": 77}, None, [1]]))
            ctx.count("notifications to ignore")
        if r.random() < .3:
            # one that cannot be understood says nothing
            c.notify(r.choice(["textDocument/didOpen", "textDocument/didChange", "textDocument/didClose"]), r.choice([{}, None, [1], {"textDocument": 3}]))
        ms = c.opened("m.nix", "{ config, ... }: { opte }\n")[0]
        mod = shape.Doc(ms, "{ config, ... }: { opte }\n")

        # ---- what is announced is answered
        asked = []

        def ask(m, p, d=doc):
            asked.append((c.post(m, p), m, p, d))
        q = {"textDocument": {"uri": u}}
        whole = doc.rng(0, len(t2))
        at = lambda s: {"position": doc.at(t2.index(s) + 1)}
        full = {"textDocument/definition": at("x versioned"), "textDocument/references": dict(at("x versioned"), context={"includeDeclaration": True}),
                "textDocument/documentHighlight": at("x versioned"), "textDocument/hover": at("versioned pkgs"),
                "textDocument/completion": {"position": doc.at(t2.index("lib.foo") + 7)}, "textDocument/rename": dict(at("x versioned"), newName="z"),
                "textDocument/prepareRename": at("x versioned"), "textDocument/inlayHint": {"range": whole},
                "textDocument/formatting": {"options": {"tabSize": 2, "insertSpaces": True}}}
        for f, m in sorted(FEATURES.items()):
            if not self.has(S, f):
                continue
            if m == "textDocument/codeAction":
                for s in ("x = 1", "y.a", "pkgs.versioned", "undefinedHere", "\"x\"", "with", "[ x"):
                    k = t2.index(s)
                    ask(m, dict(q, range=doc.rng(k, k + r.choice([0, 1])), context={"diagnostics": []}))
            else:
                ask(m, dict(q, **full.get(m, {})))
        ask("textDocument/completion", {"textDocument": {"uri": ms}, "position": mod.at(mod.text.index("opte") + 4)}, mod)
        if isinstance(S.get("renameProvider"), dict) and S["renameProvider"].get("prepareProvider"):
            ask("textDocument/prepareRename", dict(q, **at("x versioned")))
        announced = {FEATURES[f] for f in FEATURES if self.has(S, f)}
        announced |= {m for f, (k, m) in RESOLVE.items() if isinstance(S.get(f), dict) and S[f].get(k)}
        for m in r.sample(UNKNOWN, 5):
            if m not in announced:
                ask(m, r.choice([dict(q, position={"line": 0, "character": 0}), {}, None, [1]]))
        r.shuffle(asked)
        got = {}
        for i, m, p, d in asked:
            rep = c.wait(i)
            ctx.count("requests")
            if m in announced:
                if "error" in rep and rep["error"].get("code") in (NOTFOUND, -32600, -32602):
                    yield "%s is announced, and refused: %s" % (m, rep["error"])
                    continue
                if "error" not in rep:
                    for b in shape.reply(d, m, rep["result"], p):
                        yield "%s: %s" % (m, b)
                    got.setdefault(m, []).append(rep["result"])
                elif m != "textDocument/formatting":
                    yield "%s fails: %s" % (m, rep["error"])
            elif "error" not in rep or rep["error"].get("code") != NOTFOUND:
                yield "%r is not announced, and not refused: %s" % (m, json.dumps(rep)[:200])
            else:
                ctx.count("refused")

        # ---- in the form that was announced
        kinds = (S.get("codeActionProvider") or {}).get("codeActionKinds") if isinstance(S.get("codeActionProvider"), dict) else None
        acts = [a for l in got.get("textDocument/codeAction", []) for a in l]
        for a in acts:
            ctx.count("code actions")
            if kinds is not None and not any(a.get("kind", "") == k or a.get("kind", "").startswith(k + ".") for k in kinds):
                yield "an action of kind %s, and %s are announced" % (a.get("kind"), kinds)
        if self.has(S, "codeActionProvider") and len({a.get("kind") for a in acts}) < 2:
            yield "there are hardly any actions: %s" % acts
        tok = S.get("semanticTokensProvider")
        for res in got.get("textDocument/semanticTokens/full", []):
            L = tok["legend"]
            d = (res or {}).get("data") or []
            if not d:
                yield "no tokens"
            for k in range(0, len(d), 5):
                if not 0 <= d[k + 3] < len(L["tokenTypes"]) or d[k + 4] >> len(L["tokenModifiers"]):
                    yield "a token of type %d with modifiers %d, for the legend %s" % (d[k + 3], d[k + 4], L)
            ctx.count("tokens", len(d) // 5)
        for res in got.get("textDocument/inlayHint", []):
            if flags["inlay-hints"] is False and res:
                yield "hints, which are turned off"
            if flags["inlay-hints"] is not False and not res:
                yield "no hints"
        items = [it for l in got.get("textDocument/completion", []) for it in l["items"]]
        snip = ((caps.get("textDocument") or {}).get("completion") or {}).get("completionItem", {}).get("snippetSupport", False)
        for it in items:
            s = (it.get("insertText") or "") + ((it.get("textEdit") or {}).get("newText") or "")
            if not snip and (it.get("insertTextFormat") == 2 or re.search(r"\$\{\d", s)):
                yield "a snippet for a client that knows none: %s" % json.dumps(it)
            if it.get("insertTextFormat") == 2:
                ctx.count("snippets")
        cp = S.get("completionProvider")
        if isinstance(cp, dict) and cp.get("resolveProvider"):
            for it in r.sample(items, min(2, len(items))):
                yield from self.resolved(ctx, c, "completionItem/resolve", it)
        ap = S.get("codeActionProvider")
        if isinstance(ap, dict) and ap.get("resolveProvider"):
            for a in acts[:1]:
                yield from self.resolved(ctx, c, "codeAction/resolve", a)

        # ---- and the server asks only for what the client can do
        for m in c.calls:
            w = m["method"]
            ctx.count("calls of the server")
            if w == "workspace/configuration" and not ws.get("configuration") or w == "window/workDoneProgress/create" and not window.get("workDoneProgress"):
                yield "%s is sent to a client that does not support it" % w
            elif w not in ("workspace/configuration", "window/workDoneProgress/create", "window/showDocument"):
                yield "the unexpected request %s" % w
        if ws.get("configuration") and not any(m["method"] == "workspace/configuration" for m in c.calls):
            yield "the client is not asked for the configuration"
        if not window.get("workDoneProgress") and c.progress:
            yield "progress is reported to a client that does not support it"
        for n in c.notes:
            if n["method"] not in ("textDocument/publishDiagnostics", "$/progress"):
                yield "the unexpected notification %s" % n["method"]

    def has(self, S, k):
        return S.get(k) not in (None, False)

    def resolved(self, ctx, c, m, it):
        rep = c.wait(c.post(m, it))
        ctx.count("requests")
        if "error" in rep or not isinstance(rep["result"], dict):
            yield "%s is announced, and fails: %s" % (m, json.dumps(rep)[:300])

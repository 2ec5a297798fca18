"""Messages of the LSP, with what has to be left of them after decoding and
encoding: item(rng) -> (type, value, expected | BAD | ANY)."""
import lsptext

BAD = "<must be rejected>"
ANY = "<anything but a crash>"


class Opt:
    def __init__(self, t, null=True, empty=True):
        self.t, self.null, self.empty = t, null, empty


def word(r):
    return r.choice(["x", "foo", "é", "a b", "😀", "\"\\", "\u0000", "quickfix", "long " * 20, "\n\t"])


def name(r):
    return "".join(r.choice("abcdefgh") for _ in range(r.randint(1, 6)))


def path(r):
    return "/" + "/".join(name(r) for _ in range(r.randint(1, 3)))


def junk(r, depth=0):
    k = r.randrange(9)
    if k < 2:
        return r.choice([None, True, False])
    if k < 4:
        return r.choice([0, 1, -1, 5, 2 ** 31, -2 ** 63, 2 ** 63, 1.5, 1e300])
    if k < 6:
        return word(r)
    if k < 7 or depth > 2:
        return []
    if k < 8:
        return [junk(r, depth + 1) for _ in range(r.randint(1, 3))]
    return {r.choice(["uri", "range", "kind", "x", "start", "line", "title", "label"]): junk(r, depth + 1) for _ in range(r.randint(0, 3))}


# Each generator returns (value, expected after a round trip).

def uri(r):
    p = path(r)
    if r.random() < .3:
        p += r.choice(["/%20b", "/a%2Bb", "/%E6%BC%A2"])
    return "file://" + p, "file://" + p


def nat(r):
    v = r.choice([0, 0, 1, 2, 7, 80, 12345, 2 ** 31 - 1])
    return v, v


def position(r):
    v = {"line": nat(r)[0], "character": nat(r)[0]}
    return v, dict(v)


def rangeof(r):
    v = {"start": position(r)[0], "end": position(r)[0]}
    return v, v


def obj(r, req, opt=(), extra=True):
    """req/opt: (key, generator[, when-empty-dropped])."""
    v, e = {}, {}
    for k, g in req:
        v[k], e[k] = g(r)
    for k, g in opt:
        if r.random() < .5:
            v[k], w = g(r)
            if w is not None:
                e[k] = w
    if extra and r.random() < .3:
        v["_" + name(r)] = junk(r)
    return v, e


def s(r):
    v = r.choice(["", "a", word(r), word(r)])
    return v, v


def s1(r):
    v = word(r)
    return v, v


def sdrop(r):
    """A string that is left out when it is empty."""
    v = r.choice(["", word(r)])
    return v, (v or None)


def b(r):
    v = r.random() < .5
    return v, v


def arr(g, lo=0, hi=3):
    def f(r):
        xs = [g(r) for _ in range(r.randint(lo, hi))]
        return [x[0] for x in xs], [x[1] for x in xs]
    return f


def tdi(r):
    return obj(r, [("uri", uri)])


def vtdi(r):
    v, e = obj(r, [("uri", uri)])
    k = r.random()
    if k < .7:
        v["version"] = e["version"] = r.choice([0, 1, 5, -3, 2 ** 53, 2 ** 63 - 1])
    else:
        e["version"] = None
        if k < .85:
            v["version"] = None
    return v, e


def location(r):
    return obj(r, [("uri", uri), ("range", rangeof)])


def textedit(r):
    return obj(r, [("range", rangeof), ("newText", s)], [("annotationId", sdrop)])


def annotation(r):
    return obj(r, [("label", s)], [("needsConfirmation", b), ("description", sdrop)])


def tde(r):
    return obj(r, [("textDocument", vtdi), ("edits", arr(textedit))])


def options(keys):
    def f(r):
        return obj(r, [], [(k, b) for k in keys], extra=False)
    return f


def docchange(r):
    k = r.randrange(4)
    if k == 0:
        return tde(r)
    kind = ["", "create", "rename", "delete"][k]
    v, e = obj(r, [("uri", uri)] if k != 2 else [("oldUri", uri), ("newUri", uri)],
               [("options", options([["overwrite", "ignoreIfExists"], ["overwrite", "ignoreIfExists"], ["recursive", "ignoreIfNotExists"]][k - 1])),
                ("annotationId", s1)])
    v["kind"] = e["kind"] = kind
    return v, e


def diagnostic(r):
    v, e = obj(r, [("range", rangeof), ("message", s)], [("code", sdrop), ("source", sdrop), ("category", s)])
    if r.random() < .7:
        v["severity"] = r.choice([1, 2, 3, 4])
    e["severity"] = v.get("severity", 0)
    if r.random() < .3:
        v["data"] = {name(r): 1}
        e["data"] = v["data"]
    return v, e


def wedit(r):
    v, e = {}, {}
    if r.random() < .6:
        v["changes"], e["changes"] = {}, {}
        for _ in range(r.randint(0, 3)):
            u = uri(r)[0]
            v["changes"][u], e["changes"][u] = arr(textedit)(r)
    if r.random() < .4:
        v["documentChanges"], e["documentChanges"] = arr(docchange)(r)
    if r.random() < .3:
        k = name(r)
        x = annotation(r)
        v["changeAnnotations"], e["changeAnnotations"] = {k: x[0]}, {k: x[1]}
    return v, e


def command(r):
    v = {"title": s(r)[0], "command": s(r)[0]}
    return v, v


def anydata(r):
    v = junk(r)
    return v, v


def codeaction(r):
    v, e = obj(r, [("title", s)], [("kind", s), ("diagnostics", arr(diagnostic)), ("edit", wedit)], extra=True)
    if r.random() < .3:
        v["isPreferred"] = r.random() < .5
        if v["isPreferred"]:
            e["isPreferred"] = True
    if r.random() < .4:
        v["data"] = junk(r)
        e["data"] = v["data"]
    return v, e


def markup(r):
    v = {"kind": r.choice(["plaintext", "markdown"]), "value": r.choice(["", word(r)])}
    return v, (dict(v) if v["value"] else NULL)


NULL = "<null>"


def completionitem(r):
    v, e = obj(r, [("label", s1)], [("kind", lambda r: (lambda k: (k, k))(r.randint(1, 25))), ("detail", sdrop),
                                   ("documentation", markup), ("sortText", sdrop), ("filterText", sdrop), ("insertText", sdrop),
                                   ("insertTextFormat", lambda r: (lambda k: (k, k))(r.randint(1, 2))), ("textEdit", textedit)])
    if r.random() < .3:
        v["additionalTextEdits"], x = arr(textedit)(r)
        if x:
            e["additionalTextEdits"] = x
    v["data"] = e["data"] = s(r)[0]
    if r.random() < .2:
        del v["data"]
        e["data"] = ""
    e["score"] = 0
    return v, e


def didopen(r):
    v, e = obj(r, [("uri", uri), ("languageId", s), ("text", lambda r: (lambda t: (t, t))(lsptext.text(r, r.randint(0, 20))))],
               [("version", lambda r: (lambda k: (k, k))(r.choice([0, 1, -1, 2 ** 40])))])
    return {"textDocument": v}, {"textDocument": e}


def change(r):
    return obj(r, [("text", lambda r: (lambda t: (t, t))(lsptext.text(r, r.randint(0, 8))))],
               [("range", rangeof), ("rangeLength", nat)])


def didchange(r):
    v, e = obj(r, [("textDocument", vtdi), ("contentChanges", arr(change, 0, 4))], [("wantDiagnostics", b)])
    e["forceRebuild"] = False
    if r.random() < .2:
        v["forceRebuild"] = True
        e["forceRebuild"] = True
    return v, e


def doconly(r):
    return obj(r, [("textDocument", tdi)])


def tdp(r):
    return obj(r, [("textDocument", tdi), ("position", position)])


def completion(r):
    v, e = tdp(r)
    e.update(trigger=1, char="", limit=None)
    if r.random() < .7:
        c = {"triggerKind": r.choice([1, 2, 3])}
        if r.random() < .6:
            c["triggerCharacter"] = r.choice([".", "", None])
        v["context"] = c
        e["trigger"] = c["triggerKind"]
        e["char"] = c.get("triggerCharacter") or ""
    if r.random() < .3:
        v["limit"] = r.choice([None, 3])
        e["limit"] = v["limit"]
    return v, e


def rename(r):
    return obj(r, [("textDocument", tdi), ("position", position), ("newName", s)])


def reference(r):
    v, e = tdp(r)
    e["includeDeclaration"] = False
    if r.random() < .8:
        v["context"] = {"includeDeclaration": r.random() < .5}
        e["includeDeclaration"] = v["context"]["includeDeclaration"]
    return v, e


def codeactionparams(r):
    v, e = obj(r, [("textDocument", tdi), ("range", rangeof)])
    ds = arr(diagnostic)(r)
    v["context"] = {"diagnostics": ds[0]}
    e["diagnostics"], e["only"] = ds[1], []
    if r.random() < .5:
        v["context"]["only"] = e["only"] = [s(r)[0] for _ in range(r.randint(0, 3))]
    if r.random() < .3:
        v["context"]["triggerKind"] = 1
    return v, e


def inlay(r):
    return obj(r, [("textDocument", tdi)], [("range", rangeof)])


def showresult(r):
    return obj(r, [("success", b)])


def initialize(r):
    caps = {"textDocument": {}, "workspace": {}, "window": {}}
    e = dict.fromkeys(["documentChanges", "configuration", "progress", "implicit", "snippets", "related", "hierarchical",
                       "prepare", "tokens", "annotation", "lineFoldingOnly"], False)

    def flag(where, keys, out):
        if r.random() < .5:
            d = caps[where]
            for k in keys[:-1]:
                d = d.setdefault(k, {})
            d[keys[-1]] = r.random() < .6
            e[out] = d[keys[-1]]
    flag("workspace", ["workspaceEdit", "documentChanges"], "documentChanges")
    flag("workspace", ["configuration"], "configuration")
    flag("window", ["workDoneProgress"], "progress")
    flag("window", ["implicitWorkDoneProgressCreate"], "implicit")
    flag("textDocument", ["completion", "completionItem", "snippetSupport"], "snippets")
    flag("textDocument", ["publishDiagnostics", "relatedInformation"], "related")
    flag("textDocument", ["documentSymbol", "hierarchicalDocumentSymbolSupport"], "hierarchical")
    flag("textDocument", ["rename", "prepareSupport"], "prepare")
    flag("textDocument", ["foldingRange", "lineFoldingOnly"], "lineFoldingOnly")
    if r.random() < .3:
        caps["textDocument"]["semanticTokens"] = {"requests": {}}
        e["tokens"] = True
    if r.random() < .3:
        caps["workspace"].setdefault("workspaceEdit", {})["changeAnnotationSupport"] = {}
        e["annotation"] = True
    for k in list(caps):
        if not caps[k] and r.random() < .5:
            del caps[k]
    v, w = obj(r, [("capabilities", lambda r: (caps, None))], [("processId", lambda r: (lambda p: (p, p))(r.choice([None, 1, 4711]))),
                                                               ("rootUri", uri), ("rootPath", lambda r: (lambda p: (p, p))(path(r)))])
    if r.random() < .3:
        v["rootUri"] = None
        w.pop("rootUri", None)
    if r.random() < .3:
        v["initializationOptions"] = junk(r)
    if r.random() < .3:
        v["trace"] = r.choice(["off", "verbose", "x", 3])
    w.pop("capabilities", None)
    w.setdefault("processId", None)
    w["caps"], w["raw"] = e, caps
    return v, w


def symbol(r, depth=0):
    v = {"name": word(r), "detail": r.choice(["", "d"]), "kind": r.randint(1, 26), "deprecated": r.random() < .2,
         "range": rangeof(r)[0], "selectionRange": rangeof(r)[0]}
    cs = [symbol(r, depth + 1) for _ in range(r.randint(0, 2) if depth < 3 else 0)]
    v["children"] = [c[0] for c in cs]
    e = {k: v[k] for k in ("name", "kind", "range", "selectionRange")}
    if v["detail"]:
        e["detail"] = v["detail"]
    if v["deprecated"]:
        e["deprecated"] = True
    if cs:
        e["children"] = [c[1] for c in cs]
    return v, e


def e_folding(r):
    v = {"startLine": nat(r)[0], "startCharacter": nat(r)[0], "endLine": nat(r)[0], "endCharacter": nat(r)[0], "kind": r.choice(["", "region", "comment"])}
    e = {k: x for k, x in v.items() if x != ""}
    return v, e


def e_publish(r):
    ds, es = [], []
    for _ in range(r.randint(0, 3)):
        d = {"range": rangeof(r)[0], "severity": r.randint(1, 4), "code": r.choice(["", "sema-x"]), "source": r.choice(["", "nixf"]),
             "message": word(r), "tags": r.choice([[], [1], [2], [1, 2]])}
        e = {k: x for k, x in d.items() if x not in ("", [])}
        if r.random() < .5:
            n = [(path(r), rangeof(r)[0], word(r)) for _ in range(r.randint(0, 2))]
            d["related"] = [{"file": a, "range": c, "message": m} for a, c, m in n]
            e["relatedInformation"] = [{"location": {"uri": "file://" + a, "range": c}, "message": m} for a, c, m in n]
        ds.append(d)
        es.append(e)
    f = path(r)
    v = {"file": f, "diagnostics": ds}
    e = {"uri": "file://" + f, "diagnostics": es}
    if r.random() < .6:
        v["version"] = e["version"] = r.choice([0, 1, 9, 2 ** 40])
    return v, e


def e_hover(r):
    v = {"kind": r.randrange(2), "value": word(r)}
    e = {"contents": {"kind": ["plaintext", "markdown"][v["kind"]], "value": v["value"]}}
    if r.random() < .5:
        v["range"] = e["range"] = rangeof(r)[0]
    return v, e


def e_inlay(r):
    v = {"position": position(r)[0], "label": word(r), "kind": r.choice([1, 2, 3]), "paddingLeft": b(r)[0], "paddingRight": b(r)[0]}
    e = dict(v)
    if v["kind"] == 3:
        del e["kind"]
    return v, e


def e_highlight(r):
    v = {"range": rangeof(r)[0], "kind": r.choice([1, 2, 3])}
    return v, v


def e_link(r):
    f = path(r)
    x = rangeof(r)[0]
    return {"range": x, "file": f}, {"range": x, "target": "file://" + f}


def e_tokens(r):
    t = [[nat(r)[0] for _ in range(5)] for _ in range(r.randint(0, 5))]
    i = s(r)[0]
    return {"resultId": i, "tokens": t}, {"resultId": i, "data": [x for k in t for x in k]}


def e_show(r):
    v, e = {}, {}
    if r.random() < .5:
        v["external_uri"] = e["uri"] = "https://noogle.dev/q?term=%s" % name(r)
    else:
        f = path(r)
        v["file"], e["uri"] = f, "file://" + f
    for k in ("external", "takeFocus"):
        if r.random() < .5:
            v[k] = e[k] = r.random() < .5
    if r.random() < .5:
        v["selection"] = e["selection"] = rangeof(r)[0]
    return v, e


def e_config(r):
    v, e = [], []
    for _ in range(r.randint(0, 3)):
        a, c = {}, {}
        if r.random() < .6:
            a["section"] = c["section"] = name(r)
        if r.random() < .4:
            f = path(r)
            a["scope"], c["scopeUri"] = f, "file://" + f
        v.append(a)
        e.append(c)
    return {"items": v}, {"items": e}


TYPES = {
    "URIForFile": uri, "TextDocumentIdentifier": tdi, "VersionedTextDocumentIdentifier": vtdi, "Position": position,
    "Range": rangeof, "Location": location, "TextEdit": textedit, "ChangeAnnotation": annotation, "TextDocumentEdit": tde,
    "DocumentChange": docchange, "Diagnostic": diagnostic, "WorkspaceEdit": wedit, "CodeAction": codeaction,
    "CompletionItem": completionitem, "MarkupContent": markup, "DidOpen": didopen, "DidChange": didchange, "DidClose": doconly,
    "TextDocumentPosition": tdp, "Completion": completion, "Rename": rename, "Reference": reference,
    "CodeActionParams": codeactionparams, "InlayHints": inlay, "DocumentSymbolParams": doconly, "SemanticTokensParams": doconly,
    "DocumentFormatting": doconly, "FoldingRangeParams": doconly, "DocumentLinkParams": doconly, "ShowDocumentResult": showresult,
    "Initialize": initialize,
}
ENC = {"FoldingRange": e_folding, "DocumentSymbol": symbol, "PublishDiagnostics": e_publish, "Hover": e_hover, "InlayHint": e_inlay,
       "DocumentHighlight": e_highlight, "DocumentLink": e_link, "SemanticTokens": e_tokens, "ShowDocument": e_show,
       "Configuration": e_config}
# the members without which a message has no meaning
REQUIRED = {
    "TextDocumentIdentifier": ["uri"], "VersionedTextDocumentIdentifier": ["uri"], "Position": ["line", "character"],
    "Range": ["start", "end"], "Location": ["uri", "range"], "TextEdit": ["range", "newText"],
    "TextDocumentEdit": ["textDocument", "edits"], "Diagnostic": ["range", "message"], "CodeAction": ["title"],
    "CompletionItem": ["label"], "DidOpen": ["textDocument"], "DidChange": ["textDocument", "contentChanges"],
    "DidClose": ["textDocument"], "TextDocumentPosition": ["textDocument", "position"], "Completion": ["textDocument", "position"],
    "Rename": ["textDocument", "position", "newName"], "Reference": ["textDocument", "position"],
    "CodeActionParams": ["textDocument", "range", "context"], "InlayHints": ["textDocument"],
    "DocumentSymbolParams": ["textDocument"], "SemanticTokensParams": ["textDocument"], "DocumentFormatting": ["textDocument"],
    "FoldingRangeParams": ["textDocument"], "DocumentLinkParams": ["textDocument"], "ShowDocumentResult": ["success"],
}


def damage(r, v):
    """Replace something somewhere."""
    if not isinstance(v, (dict, list)) or not v or r.random() < .25:
        return junk(r)
    if isinstance(v, dict):
        k = r.choice(sorted(v))
        v = dict(v)
        if r.random() < .2:
            del v[k]
        else:
            v[k] = damage(r, v[k])
        return v
    v = list(v)
    k = r.randrange(len(v))
    v[k] = damage(r, v[k])
    return v


def item(r):
    k = r.random()
    if k < .25:
        t = r.choice(sorted(ENC))
        v, e = ENC[t](r)
        return "enc:" + t, v, e
    t = r.choice(sorted(TYPES))
    v, e = TYPES[t](r)
    if k < .70:
        return t, v, e
    if k < .80 and t in REQUIRED:
        f = r.choice(REQUIRED[t])
        v = dict(v)
        if r.random() < .5:
            del v[f]
        else:
            v[f] = r.choice([True, [[]], 1.5] if f != "success" else [[[]], 1.5])
        return t, v, BAD
    if k < .84 and t not in ("Initialize",):
        return t, r.choice([None, 3.5, True, [], [1]]), (BAD if t in REQUIRED or t == "URIForFile" else ANY)
    return t, damage(r, v), ANY


def diff(w, g, at=""):
    """Where two values differ, or None."""
    if w is NULL or w == NULL:
        w = None
    if isinstance(w, dict) and isinstance(g, dict):
        for k in sorted(set(w) | set(g)):
            if k not in w:
                return "%s.%s appears: %r" % (at, k, g[k])
            if k not in g:
                return "%s.%s is lost: %r" % (at, k, w[k])
            d = diff(w[k], g[k], at + "." + k)
            if d:
                return d
        return None
    if isinstance(w, list) and isinstance(g, list):
        if len(w) != len(g):
            return "%s has %d elements instead of %d" % (at, len(g), len(w))
        for i, (a, c) in enumerate(zip(w, g)):
            d = diff(a, c, "%s[%d]" % (at, i))
            if d:
                return d
        return None
    if type(w) is bool or type(g) is bool:
        return None if w is g else "%s is %r instead of %r" % (at, g, w)
    if w != g:
        return "%s is %r instead of %r" % (at, g, w)
    return None

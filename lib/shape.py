"""What any well-formed reply of a language server looks like: ranges that lie in
the document, edits that can be applied, symbols that nest. Complaints are strings."""
import json

import lsptext


class Doc:
    def __init__(self, uri, text):
        self.uri, self.text = uri, text
        self.starts = lsptext.line_starts(text)

    def index(self, p):
        i = lsptext.to_index(self.text, p["line"], p["character"], True, self.starts)
        return i if isinstance(i, int) else None

    def span(self, r):
        """(lo, hi) or None."""
        try:
            a, b = self.index(r["start"]), self.index(r["end"])
        except (TypeError, KeyError):
            return None
        return None if a is None or b is None or a > b else (a, b)

    def at(self, i):
        l, c = lsptext.to_pos(self.text, i)
        return {"line": l, "character": c}

    def rng(self, lo, hi):
        return {"start": self.at(lo), "end": self.at(hi)}


def rangebad(doc, r, what):
    if not isinstance(r, dict) or set(r) != {"start", "end"}:
        return ["%s is not a range: %s" % (what, json.dumps(r)[:100])]
    if doc.span(r) is None:
        return ["%s is not a range of the document: %s" % (what, json.dumps(r))]
    return []


def editsbad(doc, we, what, other=True):
    """A WorkspaceEdit: applicable to the document."""
    bad = []
    for u, es in (we.get("changes") or {}).items():
        if u == doc.uri:
            if lsptext.apply_edits(doc.text, es) is None:
                bad.append("%s cannot be applied: %s" % (what, json.dumps(es)[:300]))
        elif not other:
            bad.append("%s changes another document: %s" % (what, u))
    for d in we.get("documentChanges") or []:
        if "kind" in d:
            if d["kind"] not in ("create", "rename", "delete"):
                bad.append("%s has a change of kind %s" % (what, d["kind"]))
            continue
        if d["textDocument"]["uri"] == doc.uri and lsptext.apply_edits(doc.text, d["edits"]) is None:
            bad.append("%s cannot be applied: %s" % (what, json.dumps(d["edits"])[:300]))
    return bad


def locbad(doc, l, what):
    if not isinstance(l, dict) or not isinstance(l.get("uri"), str):
        return ["%s is not a location" % what]
    if l["uri"] == doc.uri:
        return rangebad(doc, l["range"], what)
    return []


def diagnostics(doc, ds):
    bad = []
    for d in ds:
        bad += rangebad(doc, d.get("range"), "the range of a diagnostic")
        if d.get("severity") not in (1, 2, 3, 4) or not isinstance(d.get("message"), str):
            bad.append("a diagnostic is malformed: %s" % json.dumps(d)[:200])
        for x in d.get("relatedInformation") or []:
            bad += locbad(doc, x.get("location"), "the location of a note")
    return bad


def symbols(doc, ss, up=None, depth=0):
    bad = []
    for s in ss:
        n = "the symbol %r" % s.get("name")
        if not isinstance(s.get("name"), str) or not isinstance(s.get("kind"), int) or not 1 <= s["kind"] <= 26:
            bad.append("%s is malformed" % n)
            continue
        bad += rangebad(doc, s.get("range"), "the range of " + n) + rangebad(doc, s.get("selectionRange"), "the selection of " + n)
        r, q = doc.span(s["range"]), doc.span(s["selectionRange"])
        if r and q and not (r[0] <= q[0] and q[1] <= r[1]):
            bad.append("the selection of %s is not within its range" % n)
        bad += symbols(doc, s.get("children") or [], r, depth + 1)
    return bad


def folding(doc, fs):
    bad = []
    lines = len(doc.starts)
    for f in fs:
        a, b = f.get("startLine"), f.get("endLine")
        if not isinstance(a, int) or not isinstance(b, int) or not 0 <= a <= b < lines:
            bad.append("a folding range is not in the document: %s" % json.dumps(f))
            continue
        for k, l in (("startCharacter", a), ("endCharacter", b)):
            if k in f and doc.index({"line": l, "character": f[k]}) is None:
                bad.append("a folding range is not in the document: %s" % json.dumps(f))
    return bad


def tokens(doc, r, types=13, mods=3):
    """(complaints, [(lo, hi, type, modifiers)])"""
    d = r.get("data")
    bad, out = [], []
    if not isinstance(d, list) or len(d) % 5 or not all(isinstance(x, int) and x >= 0 for x in d):
        return ["semantic tokens are malformed: %s" % json.dumps(r)[:200]], []
    l = c = 0
    last = 0
    for i in range(0, len(d), 5):
        dl, dc, n, t, m = d[i:i + 5]
        l, c = (l + dl, dc) if dl else (l, c + dc)
        a = doc.index({"line": l, "character": c})
        b = doc.index({"line": l, "character": c + n})
        if a is None or b is None:
            bad.append("a semantic token is not in the document: line %d, character %d, length %d" % (l, c, n))
            continue
        if a < last:
            bad.append("semantic tokens overlap at line %d, character %d" % (l, c))
        last = b
        if t >= types or m >= 1 << mods:
            bad.append("a semantic token has type %d, modifiers %d" % (t, m))
        out.append((a, b, t, m))
    return bad, out


def reply(doc, method, res, params=None):
    """Complaints about the result of a request about a document."""
    m = method.split("/", 1)[1] if "/" in method else method
    bad = []
    try:
        if m == "hover":
            if res is not None:
                if not isinstance(res["contents"]["value"], str) or res["contents"]["kind"] not in ("markdown", "plaintext"):
                    bad.append("hover has no contents")
                if "range" in res:
                    bad += rangebad(doc, res["range"], "the range of hover")
        elif m == "definition":
            for l in ([] if res is None else res if isinstance(res, list) else [res]):
                bad += locbad(doc, l, "a definition")
        elif m == "references":
            for l in res or []:
                bad += locbad(doc, l, "a reference")
        elif m == "documentHighlight":
            for h in res or []:
                bad += rangebad(doc, h["range"], "a highlight")
                if h.get("kind", 1) not in (1, 2, 3):
                    bad.append("a highlight has kind %s" % h["kind"])
        elif m == "documentSymbol":
            bad += symbols(doc, res or [])
        elif m == "foldingRange":
            bad += folding(doc, res or [])
        elif m == "semanticTokens/full":
            bad += tokens(doc, res)[0] if res is not None else []
        elif m == "documentLink":
            for l in res or []:
                bad += rangebad(doc, l["range"], "a link")
        elif m == "inlayHint":
            for h in res or []:
                if doc.index(h["position"]) is None:
                    bad.append("an inlay hint is not in the document: %s" % json.dumps(h["position"]))
        elif m == "completion":
            items = res if isinstance(res, list) else res["items"] if res is not None else []
            for it in items:
                if not isinstance(it["label"], str):
                    bad.append("a completion item has no label")
                if "textEdit" in it:
                    r = it["textEdit"]["range"]
                    bad += rangebad(doc, r, "the edit of a completion item")
                    if r["start"]["line"] != r["end"]["line"]:
                        bad.append("the edit of a completion item covers several lines: %s" % json.dumps(r))
                    elif params and doc.span(r) is not None:
                        a, b = doc.span(r)
                        p = doc.index(params["position"])
                        if p is not None and not a <= p <= b:
                            bad.append("the edit of a completion item is not at the cursor: %s" % json.dumps(r))
        elif m == "codeAction":
            for a in res or []:
                if not isinstance(a["title"], str):
                    bad.append("a code action has no title")
                if "edit" in a:
                    bad += editsbad(doc, a["edit"], "the code action %r" % a["title"])
        elif m == "formatting":
            pass
        elif m == "rename":
            if res is not None:
                bad += editsbad(doc, res, "the rename", other=False)
        elif m == "prepareRename":
            if res is not None:
                bad += rangebad(doc, res if "start" in res else res["range"], "the range of prepareRename")
    except (KeyError, TypeError, AttributeError, IndexError) as e:
        bad.append("the result of %s is malformed (%r): %s" % (m, e, json.dumps(res)[:300]))
    return bad

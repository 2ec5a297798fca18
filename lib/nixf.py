"""Reads what nixfprobe reports, and compares it with reference trees."""
from nixparse import N

KIND = {"Var": "ExprVar", "Int": "ExprInt", "Float": "ExprFloat", "Str": "ExprString", "Uri": "ExprString",
        "Path": "ExprPath", "SPath": "ExprSPath", "Paren": "ExprParen", "List": "ExprList",
        "Attrs": "ExprAttrs", "Let": "ExprLet", "LegacyLet": "ExprLegacyLet", "With": "ExprWith",
        "If": "ExprIf", "Assert": "ExprAssert", "Lambda": "ExprLambda", "Select": "ExprSelect",
        "HasAttr": "ExprOpHasAttr", "Call": "ExprCall", "Bin": "ExprBinOp", "Un": "ExprUnaryOp",
        "Interp": "Interpolation", "Formal": "Formal", "AName": "AttrName", "Name": "Identifier",
        "Bind": "Binding", "Inherit": "Inherit"}


class Mismatch(Exception):
    pass


class Tree:
    """Comparison of nixf's tree with a reference one; maps reference nodes to nixf ids."""

    def __init__(self, rep, spans=True, values=True):
        self.nodes = rep["nodes"]
        self.spans = spans
        self.values = values
        self.map = {}       # id(ref node) -> nixf id
        self.errs = []
        self.count = 0

    def bad(self, msg, ref):
        if len(self.errs) < 5:
            self.errs.append("%s [%s %s..%s]" % (msg, ref.k, ref.lo, ref.hi))

    def parts(self, got, ref):
        merged = []
        for p in got:
            if isinstance(p, str):
                if merged and isinstance(merged[-1], str):
                    merged[-1] += p
                else:
                    merged.append(p)
            else:
                merged.append(p)
        merged = [p for p in merged if p != ""]
        want = ref.parts
        if len(merged) != len(want) or any(isinstance(a, str) != isinstance(b, str) for a, b in zip(merged, want)):
            self.bad("parts differ: got %r want %r" % (merged, [w if isinstance(w, str) else "${}" for w in want]), ref)
            return
        for a, b in zip(merged, want):
            if isinstance(a, str):
                if a != b and self.values:
                    self.bad("string content differs: got %r want %r" % (a, b), ref)
            else:
                self.cmp(a, b)

    def cmp(self, i, ref):
        if ref is None:
            if i not in (None, -1):
                self.errs.append("unexpected node %s" % self.nodes[i]["k"])
            return
        if i is None or i < 0:
            self.bad("node is missing", ref)
            return
        n = self.nodes[i]
        self.count += 1
        k = ref.k
        if n["k"] != KIND[k]:
            self.bad("is a %s" % n["k"], ref)
            return
        self.map[id(ref)] = i
        if self.spans and (n["r"][0] != ref.lo or n["r"][1] != ref.hi):
            self.bad("spans %d..%d instead" % (n["r"][0], n["r"][1]), ref)
        c = self.cmp
        if k in ("Var", "Name"):
            if n["name"] != ref.name:
                self.bad("name %r want %r" % (n["name"], ref.name), ref)
        elif k == "Int":
            if n["int"] != ref.v:
                self.bad("value %r want %r" % (n["int"], ref.v), ref)
        elif k == "Float":
            if self.values and float.fromhex(n["float"]) != ref.v:
                self.bad("value %r want %r" % (float.fromhex(n["float"]), ref.v), ref)
        elif k in ("Str", "Path"):
            self.parts(n["parts"], ref)
        elif k == "Uri":
            if n["parts"] != [ref.v]:
                self.bad("content %r" % (n["parts"],), ref)
        elif k == "SPath":
            if n["text"] != ref.v:
                self.bad("text %r" % n["text"], ref)
        elif k == "Paren":
            c(n["expr"], ref.e)
            if n["lparen"] is None or n["rparen"] is None:
                self.bad("parentheses missing", ref)
            elif self.spans and (self.nodes[n["lparen"]]["r"][0] != ref.lo or self.nodes[n["rparen"]]["r"][1] != ref.hi):
                self.bad("parentheses misplaced", ref)
        elif k == "List":
            self.seq(n["elements"], ref.es, ref)
        elif k == "Attrs":
            if (n["rec"] is not None) != ref.rec:
                self.bad("rec flag", ref)
            self.binds(n["binds"], ref.binds, ref)
        elif k == "Let":
            if n["attrs"] is None:
                if ref.binds:
                    self.bad("bindings missing", ref)
            else:
                self.binds(self.nodes[n["attrs"]]["binds"], ref.binds, ref)
            c(n["expr"], ref.body)
        elif k == "LegacyLet":
            if n["attrs"] is None:
                self.bad("attrs missing", ref)
            else:
                self.binds(self.nodes[n["attrs"]]["binds"], ref.binds, ref)
        elif k == "With":
            c(n["with"], ref.with_)
            c(n["expr"], ref.body)
        elif k == "If":
            c(n["cond"], ref.cond)
            c(n["then"], ref.then)
            c(n["else"], ref.els)
        elif k == "Assert":
            c(n["cond"], ref.cond)
            c(n["value"], ref.value)
        elif k == "Select":
            if n["from"] is not None:
                self.bad("claims to be desugared", ref)
            c(n["expr"], ref.e)
            self.path(n["path"], ref.path, ref)
            c(n["default"], ref.default)
        elif k == "HasAttr":
            c(n["expr"], ref.e)
            self.path(n["path"], ref.path, ref)
        elif k == "Call":
            c(n["fn"], ref.fn)
            self.seq(n["args"], ref.args, ref)
        elif k == "Bin":
            if n["op"] != ref.op:
                self.bad("operator %s want %s" % (n["op"], ref.op), ref)
            if self.spans and self.nodes[n["opnode"]]["r"][0] != ref.oplo:
                self.bad("operator misplaced", ref)
            c(n["lhs"], ref.l)
            c(n["rhs"], ref.r)
        elif k == "Un":
            if n["op"] != ref.op:
                self.bad("operator %s want %s" % (n["op"], ref.op), ref)
            c(n["expr"], ref.e)
        elif k == "Interp":
            c(n["expr"], ref.e)
        elif k == "Lambda":
            a = self.nodes[n["arg"]]
            c(a["id"], ref.arg)
            if (a["formals"] is None) != (ref.formals is None):
                self.bad("formals", ref)
            elif ref.formals is not None:
                fs = self.nodes[a["formals"]]["members"]
                got = [f for f in fs if self.nodes[f]["id"] is not None]
                ell = any(self.nodes[f]["ellipsis"] for f in fs)
                if ell != ref.ell:
                    self.bad("ellipsis", ref)
                if len(got) != len(ref.formals):
                    self.bad("%d formals want %d" % (len(got), len(ref.formals)), ref)
                else:
                    for g, w in zip(got, ref.formals):
                        self.formal(g, w)
            c(n["body"], ref.body)
        elif k == "AName":
            self.aname(n, ref)

    def formal(self, i, ref):
        n = self.nodes[i]
        self.count += 1
        self.map[id(ref)] = i
        # nixf's formal includes the comma before it
        if self.spans and (n["r"][0] > ref.lo or n["r"][1] != ref.hi):
            self.bad("spans %s instead" % n["r"][:2], ref)
        self.cmp(n["id"], ref.name)
        self.cmp(n["default"], ref.default)

    def aname(self, n, ref):
        kinds = {"id": 0, "str": 1, "dstr": 1, "interp": 2}
        if n["ank"] != kinds[ref.kind]:
            self.bad("attribute name kind", ref)
            return
        if ref.kind in ("id", "str"):
            if "name" not in n:
                self.bad("not static", ref)
            elif n["name"] != ref.name and self.values:
                self.bad("static name %r want %r" % (n["name"], ref.name), ref)
        elif "name" in n:
            self.bad("static", ref)
        elif ref.kind == "dstr":
            self.cmp(n["c"][0], ref.s)
        else:
            self.cmp(self.nodes[n["c"][0]]["expr"], ref.e)

    def path(self, i, ref, owner):
        if i is None:
            self.bad("attribute path missing", owner)
            return
        n = self.nodes[i]
        if self.spans and (n["r"][0] != ref[0].lo or n["r"][1] != ref[-1].hi):
            self.bad("path spans %s, not %s..%s" % (n["r"][:2], ref[0].lo, ref[-1].hi), owner)
        self.seq(n["names"], ref, owner)

    def seq(self, got, ref, owner):
        if len(got) != len(ref):
            self.bad("%d items, want %d" % (len(got), len(ref)), owner)
            return
        for g, r in zip(got, ref):
            self.cmp(g, r)

    def binds(self, i, ref, owner):
        if i is None:
            if ref:
                self.bad("bindings missing", owner)
            return
        b = self.nodes[i]["bindings"]
        if len(b) != len(ref):
            self.bad("%d bindings, want %d" % (len(b), len(ref)), owner)
            return
        if ref and self.spans and (self.nodes[i]["r"][0] != ref[0].lo or self.nodes[i]["r"][1] != ref[-1].hi):
            self.bad("bindings span %s" % self.nodes[i]["r"][:2], owner)
        for g, r in zip(b, ref):
            n = self.nodes[g]
            self.count += 1
            if n["k"] != KIND[r.k]:
                self.bad("is a " + n["k"], r)
                continue
            self.map[id(r)] = g
            if self.spans and (n["r"][0] != r.lo or n["r"][1] != r.hi):
                self.bad("spans %d..%d instead" % (n["r"][0], n["r"][1]), r)
            if r.k == "Bind":
                self.path(n["path"], r.path, r)
                self.cmp(n["value"], r.value)
            else:
                self.cmp(n["expr"], r.frm)
                self.seq(n["names"], r.names, r)


def compare(rep, ref, **kw):
    t = Tree(rep, **kw)
    if rep["root"] is None:
        t.errs.append("no tree")
    else:
        t.cmp(0, ref)
    return t


def errors(rep, sema=False):
    ds = rep["diags"] if sema else rep["diags"][:rep["nparse"]]
    return [d for d in ds if d["sev"] <= 1]

"""Reference model of attribute sets (merging, duplicates) and of name
resolution, written from the Nix manual, over the trees of nixparse/nixgen."""
import os
import re

from nixparse import N

HERE = os.path.dirname(os.path.abspath(__file__))
_ops = open(os.path.join(HERE, "..", "harness", "PrimOpsInfo.cpp")).read()
PRIMOPS, INTERNAL = set(), set()
for _m in re.finditer(r"""^\s*(?:\{|P\()\s*"([A-Za-z_0-9']+)"([^\n]*)""", _ops, re.M):
    (INTERNAL if "true" in _m.group(2) else PRIMOPS).add(_m.group(1))
CONSTANTS = {"true", "false", "null", "__currentTime", "__currentSystem", "__nixVersion", "__storeDir",
             "__langVersion", "__importNative", "__traceVerbose", "__nixPath", "derivation"}
GLOBAL = PRIMOPS | CONSTANTS | {"builtins", "__curPos"}


class Attr:
    """kind: plain | inherit | from. value: syntax node, a nested Set, or None."""

    def __init__(self, name, key, value, kind, nested=None):
        self.name, self.key, self.value, self.kind, self.nested = name, key, value, kind, nested


class Set:
    def __init__(self, rec, node=None):
        self.rec, self.node = rec, node
        self.static = {}
        self.dynamic = []   # (AName node, Attr)
        self.froms = []     # expressions of inherit (e)
        self.gone = False   # merged into another set


class Model:
    def __init__(self):
        self.dups = []      # (range of the duplicate, name, range of the first)
        self.dyninherit = []
        self.diffrec = []   # ranges of "rec" modifiers, whether the first set has it
        self.sets = {}      # id(Attrs/Let/LegacyLet node) -> Set

    def build(self, node):
        """Set of an Attrs, Let or LegacyLet node."""
        s = Set(True if node.k != "Attrs" else node.rec, node)
        self.sets[id(node)] = s
        for b in node.binds:
            if b.k == "Inherit":
                if b.frm is not None:
                    s.froms.append(b.frm)
                for a in b.names:
                    self.inherit(s, a, b)
            else:
                self.add(s, b.path, b.value)
        return s

    def inherit(self, s, a, b):
        if a.kind not in ("id", "str"):
            self.dyninherit.append((a.lo, a.hi))
            return
        if a.name in s.static:
            self.dup(a, s.static[a.name])
            return
        s.static[a.name] = Attr(a.name, a, b.frm, "inherit" if b.frm is None else "from")

    def dup(self, a, prev):
        self.dups.append(((a.lo, a.hi), a.name, (prev.key.lo, prev.key.hi)))

    def add(self, s, path, value):
        for a in path[:-1]:
            if a.kind in ("id", "str"):
                old = s.static.get(a.name)
                if old is None:
                    n = Set(False)
                    s.static[a.name] = Attr(a.name, a, None, "plain", n)
                    s = n
                elif old.kind != "plain" or old.nested is None:
                    self.dup(a, old)
                    return
                else:
                    s = old.nested
            else:
                n = Set(False)
                s.dynamic.append((a, Attr(None, a, None, "plain", n)))
                s = n
        a = path[-1]
        nested = None
        if value.k == "Attrs":
            nested = self.sets.get(id(value)) or self.build(value)
        if a.kind not in ("id", "str"):
            s.dynamic.append((a, Attr(None, a, value, "plain", nested)))
            return
        old = s.static.get(a.name)
        if old is None:
            s.static[a.name] = Attr(a.name, a, value, "plain", nested)
        elif old.nested is not None and nested is not None and old.kind == "plain":
            if old.nested.rec != nested.rec:
                n = old.nested.node if old.nested.rec else nested.node
                self.diffrec.append(((n.lo, n.lo + 3), bool(old.nested.rec)))
            nested.gone = True
            for k, v in nested.static.items():
                if k in old.nested.static:
                    self.dup(v.key, old.nested.static[k])
                else:
                    old.nested.static[k] = v
            old.nested.dynamic += nested.dynamic
            old.nested.froms += nested.froms
        else:
            self.dup(a, old)


class Def:
    def __init__(self, name, kind, key, owner):
        self.name, self.kind, self.key, self.owner, self.uses = name, kind, key, owner, []

    @property
    def range(self):
        return (self.key.lo, self.key.hi) if self.key is not None else None


class Env:
    def __init__(self, up, defs=None, with_=None, node=None):
        self.up, self.defs, self.with_, self.node = up, defs or {}, with_, node


class Resolver:
    """vars: {(lo, hi): ("def", Def) | ("with", [With nodes]) | ("undef",)}"""

    def __init__(self, root, builtins=GLOBAL):
        self.vars = {}
        self.names = {}
        self.defs = []
        self.withs = {}      # id(With) -> number of uses
        self.withnodes = []
        self.recs = []       # (Attrs node, Env)
        self.envs = {}       # id(node) -> Env
        self.model = Model()
        self.top = Env(None, {b: Def(b, "builtin", None, None) for b in builtins})
        self.go(root, self.top)

    def ref(self, name, rng, env):
        if rng in self.vars:
            return
        ws = []
        e = env
        while e:
            if name in e.defs:
                d = e.defs[name]
                d.uses.append(rng)
                self.vars[rng] = ("def", d)
                self.names[rng] = name
                return
            if e.with_ is not None:
                ws.append(e.with_)
            e = e.up
        self.names[rng] = name
        if ws:
            for w in ws:
                self.withs[id(w)] += 1
            self.vars[rng] = ("with", ws)
        else:
            self.vars[rng] = ("undef",)

    def path(self, p, env):
        for a in p:
            if a.kind == "dstr":
                self.go(a.s, env)
            elif a.kind == "interp":
                self.go(a.e, env)

    def parts(self, n, env):
        for p in n.parts:
            if not isinstance(p, str):
                self.go(p.e, env)

    def attrs(self, s, env, node, kind):
        e = env
        if s.rec:
            defs = {}
            for name, a in s.static.items():
                d = Def(name, kind, a.key, node)
                if a.kind == "from" and a.value.k == "Var" and a.value.name == "builtins":
                    d.frombuiltins = True
                defs[name] = d
                self.defs.append(d)
            e = Env(env, defs, node=node)
        for name, a in s.static.items():
            if a.kind == "inherit":
                self.ref(name, (a.key.lo, a.key.hi), env)
            elif a.kind == "from":
                self.go(a.value, e)
            elif a.nested is not None:
                self.nested(a, e)
            else:
                self.go(a.value, e)
        for f in s.froms:
            self.go(f, e)
        for k, a in s.dynamic:
            self.path([k], e)
            if a.nested is not None:
                self.nested(a, e)
            else:
                self.go(a.value, e)
        return e

    def nested(self, a, env):
        s = a.nested
        if a.value is not None:
            self.envs[id(a.value)] = env
        e = self.attrs(s, env, s.node, "rec")
        if s.rec:
            self.recs.append((s.node, e))

    def go(self, n, env):
        if n is None or id(n) in self.envs:
            return
        self.envs[id(n)] = env
        k = n.k
        if k == "Var":
            self.ref(n.name, (n.lo, n.hi), env)
        elif k in ("Str", "Path"):
            self.parts(n, env)
        elif k in ("Int", "Float", "Uri", "SPath"):
            pass
        elif k == "Paren":
            self.go(n.e, env)
        elif k == "List":
            for x in n.es:
                self.go(x, env)
        elif k in ("Attrs", "LegacyLet"):
            s = self.model.sets.get(id(n)) or self.model.build(n)
            e = self.attrs(s, env, n, "rec")
            if s.rec:
                self.recs.append((n, e))
        elif k == "Let":
            s = self.model.build(n)
            e = self.attrs(s, env, n, "let")
            self.go(n.body, e)
        elif k == "With":
            self.withs[id(n)] = 0
            self.withnodes.append(n)
            self.go(n.with_, env)
            self.go(n.body, Env(env, {}, with_=n, node=n))
        elif k == "If":
            self.go(n.cond, env)
            self.go(n.then, env)
            self.go(n.els, env)
        elif k == "Assert":
            self.go(n.cond, env)
            self.go(n.value, env)
        elif k == "Lambda":
            defs = {}
            if n.arg is not None:
                kind = "arg" if n.formals is None else "arg@"
                if n.formals is None or all(f.name.name != n.arg.name for f in n.formals):
                    d = Def(n.arg.name, kind, n.arg, n)
                    defs[n.arg.name] = d
                    self.defs.append(d)
            for f in n.formals or []:
                if f.name.name in defs:
                    continue
                d = Def(f.name.name, "formal@" if n.arg is not None else "formal", f.name, n)
                defs[f.name.name] = d
                self.defs.append(d)
            e = Env(env, defs, node=n)
            for f in n.formals or []:
                self.go(f.default, e)
            self.go(n.body, e)
        elif k == "Select":
            self.go(n.e, env)
            self.path(n.path, env)
            self.go(n.default, env)
        elif k == "HasAttr":
            self.go(n.e, env)
            self.path(n.path, env)
        elif k == "Call":
            self.go(n.fn, env)
            for a in n.args:
                self.go(a, env)
        elif k == "Bin":
            self.go(n.l, env)
            self.go(n.r, env)
        elif k == "Un":
            self.go(n.e, env)
        elif k == "Interp":
            self.go(n.e, env)
        else:
            raise AssertionError(k)

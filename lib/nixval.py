"""Values of Nix, as the stand-in for Nix's libraries (harness/fakenix) makes
them from JSON, and what a worker should say about them.

{"t": "int"|"float"|"bool"|"string"|"path", "v": ...}, {"t": "null"|"external"},
{"t": "list", "v": [value]}, {"t": "set", "v": [[name, value]], "pos": [file, line, column]},
{"t": "lambda", "doc", "pos", "ret": value}, {"t": "primop", "arity", "args", "doc"},
{"t": "throw"|"std", "v": message}, {"t": "ref", "v": [path from the root]};
"z": a thunk although simple; "l": the characters are bytes, not all of them UTF-8.
"""
import re
import urllib.parse

import world

TYPE = {"int": 2, "float": 3, "bool": 4, "string": 5, "path": 6, "null": 7, "set": 8, "list": 9, "lambda": 10, "primop": 10, "external": 11}


class Fail(Exception):
    pass


class Eval:
    def __init__(self, root):
        self.root = root
        self.busy = set()

    def force(self, v):
        t = v["t"]
        if t in ("throw", "std"):
            raise Fail(v["v"])
        if t == "ref":
            if id(v) in self.busy:
                raise Fail("infinite recursion")
            self.busy.add(id(v))
            try:
                return self.force(self.select(self.root, v["v"]))
            finally:
                self.busy.discard(id(v))
        return v

    def get(self, v, name):
        """The attribute of a set, or None."""
        v = self.force(v)
        if v["t"] != "set":
            return None
        for n, x in v["v"]:
            if n == name:
                return x
        return None

    def select(self, v, path):
        for p in path:
            x = self.get(v, p)
            if x is None:
                raise Fail("no attribute " + p)
            v = x
        return v

    def string(self, v, path):
        """The string there, or None, whatever goes wrong."""
        try:
            x = self.force(self.select(v, path))
        except Fail:
            return None
        return x["v"] if x["t"] == "string" else None

    def field(self, v, name):
        x = self.get(v, name)
        if x is None:
            return None
        x = self.force(x)
        return x["v"] if x["t"] == "string" else None

    # ---- attribute paths
    def info(self, path):
        if not path:
            raise Fail("empty")
        v = self.force(self.select(self.root, path))
        s = lambda *p: self.string(v, p)
        desc = None
        if v["t"] == "primop":
            desc = {"doc": v.get("doc", ""), "arity": v["arity"], "args": v["args"]}
        elif v["t"] == "lambda" and "doc" in v:
            desc = {"doc": v["doc"], "arity": 0, "args": []}
        return {"Meta": {"Type": TYPE[v["t"]], "Location": loc(v.get("pos"))},
                "PackageDesc": {"Name": s("name"), "PName": s("pname"), "Version": s("version"), "Description": s("meta", "description"),
                                "LongDescription": s("meta", "longDescription"), "Position": s("meta", "position"),
                                "Homepage": s("meta", "homepage")},
                "ValueDesc": desc}

    def names(self, scope, prefix):
        v = self.force(self.select(self.root, scope))
        if v["t"] != "set":
            raise Fail("not a set")
        return sorted((n for n, _ in v["v"] if n.startswith(prefix)), key=lambda n: n.encode())

    # ---- options
    def isoption(self, v):
        return self.field(v, "_type") == "option"

    def submodule(self, v):
        """Its type, if that is the one of a submodule."""
        v = self.force(v)
        t = self.get(v, "type")
        return t if t is not None and self.field(t, "name") == "submodule" else None

    def below(self, t):
        f = self.get(t, "getSubOptions")
        if f is None:
            raise Fail("no getSubOptions")
        f = self.force(f)
        if f["t"] != "lambda" or "ret" not in f:
            raise Fail("not a function, or it failed")
        return self.force(f["ret"])

    def options(self, v, path):
        """What is at the path, where submodules are stepped into."""
        for k, p in enumerate(path):
            t = self.submodule(v)
            if t is not None:
                v = self.below(t)
            if self.isoption(v):
                t = self.get(v, "type")
                if t is None:
                    raise Fail("no type")
                if self.field(t, "name") == "attrsOf":
                    e = self.get(t, "nestedTypes")
                    e = self.get(e, "elemType") if e is not None else None
                    if e is None:
                        raise Fail("no type of the elements")
                    if self.field(e, "name") == "submodule":
                        v = self.below(e)
                        continue
            v = self.select(v, [p])
        return v

    def option(self, v):
        """The description of an option. Raises Fail if it does not evaluate."""
        v = self.force(v)
        o = {"Description": self.string(v, ["description"]), "Declarations": [], "Definitions": [], "Example": None, "Default": None,
             "Type": None}
        d = self.get(v, "declarationPositions")
        if d is not None:
            d = self.force(d)
            if d["t"] == "list":
                for x in d["v"]:
                    f, l, c = (self.force(self.select(x, [k])) for k in ("file", "line", "column"))
                    if f["t"] != "string" or l["t"] != "int" or c["t"] != "int" or not f["v"].startswith("/"):
                        raise Fail("no position")
                    o["Declarations"].append(loc([f["v"], l["v"], c["v"]]))
        t = self.get(v, "type")
        if t is not None:
            o["Type"] = {"Description": self.string(t, ["description"]), "Name": self.string(t, ["name"])}
        e = self.get(v, "example")
        if e is not None:
            o["Example"] = self.render(e, True)
        for k in ("defaultText", "default"):
            e = self.get(v, k)
            if e is not None:
                o["Default"] = self.render(e, False)
                break
        return o

    def render(self, v, complex):
        """None, a text, or ... for the text of a value with parts."""
        try:
            v = self.force(v)
            if self.field(v, "_type") == "literalExpression":
                return self.field(v, "text")
        except Fail:
            return None
        t = v["t"]
        if t == "string":
            s = v["v"].replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\r", "\\r").replace("\t", "\\t")
            return '"' + s.replace("${", "\\${") + '"'
        if t in ("int", "path"):
            return str(v["v"])
        if t == "float":
            return "%g" % v["v"]
        if t == "bool":
            return "true" if v["v"] else "false"
        if t == "null":
            return "null"
        return ... if complex else None

    def optioninfo(self, path):
        if not path:
            raise Fail("empty")
        return self.option(self.options(self.root, path))

    def optionscope(self, scope):
        v = self.options(self.root, scope)
        t = self.submodule(v)
        if t is not None:
            v = self.below(t)
        v = self.force(v)
        if v["t"] != "set":
            raise Fail("not a set")
        if self.isoption(v):
            raise Fail("an option")
        return v

    def optionnames(self, scope, prefix):
        """[(name, value)]"""
        v = self.optionscope(scope)
        return sorted(((n, x) for n, x in v["v"] if n.startswith(prefix)), key=lambda n: n[0].encode())


def loc(pos):
    if not pos or not pos[0].startswith("/"):
        return None
    p = {"line": pos[1] - 1, "character": pos[2] - 1}
    return {"uri": pos[0], "range": {"start": p, "end": p}}


def plain(x):
    """A reply of a worker, in the terms of the above."""
    if isinstance(x, dict):
        return {k: urllib.parse.unquote(v)[len("file://"):] if k == "uri" else plain(v) for k, v in x.items()}
    if isinstance(x, list):
        return [plain(v) for v in x]
    return x


def same(want, got):
    if want is ...:
        return isinstance(got, str)
    if isinstance(want, str) and want != got:
        # what is no text is somehow replaced
        return "\xff" in want and isinstance(got, str) and REPLACED.sub("?", want) == REPLACED.sub("?", got)
    if isinstance(want, dict):
        return isinstance(got, dict) and want.keys() == got.keys() and all(same(v, got[k]) for k, v in want.items())
    if isinstance(want, list):
        return isinstance(got, list) and len(want) == len(got) and all(map(same, want, got))
    return want == got and type(want) == type(got)


REPLACED = re.compile("[\x80-\xff\ufffd]+")


# ---- random values
def s(x):
    return {"t": "string", "v": x}


def text(r):
    return r.choice(["", "word", "a line\nand another", "\"q\" \\ ${x} $", "é 😀", "</b>", "x" * 300, "a\tb"])


FILES = ["/nix/store/x/default.nix", "/a b/é.nix", "/n.nix", "<string>", "<stdin>", ""]


def pos(r):
    return [r.choice(FILES), r.randint(1, 50), r.randint(1, 50)]


def simple(r):
    t = r.choice(["int", "float", "bool", "null", "string", "path"])
    v = {"int": r.choice([0, 1, -7, 1 << 53, -(1 << 62)]), "float": r.choice([1.5, .25, -2.5]), "bool": r.random() < .5, "null": 0,
         "string": text(r), "path": r.choice(["/x/y", "/"])}[t]
    o = {"t": t, "v": v}
    if t == "null":
        del o["v"]
    if r.random() < .4:
        o["z"] = 1
    return o


def broken(r, paths):
    if paths and r.random() < .4:
        return {"t": "ref", "v": r.choice(paths)}
    if r.random() < .1:
        return {"t": "throw", "v": "not \xfftext", "l": 1}
    return {"t": r.choice(["throw", "throw", "std"]), "v": r.choice(["it is broken", "assertion 'a b' failed: é", ""])}


def function(r):
    if r.random() < .5:
        o = {"t": "primop", "arity": r.randint(0, 3), "args": [r.choice(["x", "f", "list"]) for _ in range(r.randint(0, 3))]}
    else:
        o = {"t": "lambda"}
        if r.random() < .6:
            o["pos"] = pos(r)
    if r.random() < .6:
        o["doc"] = text(r)
    return o


class Gen:
    def __init__(self, r, hostile=.05, wide=.1, terse=False):
        self.r, self.hostile, self.wide = r, hostile, wide
        self.terse = terse      # no values that are printed at length
        self.paths = []
        self.budget = 150       # of named values

    def set(self, attrs):
        r = self.r
        items = list(attrs.items())
        r.shuffle(items)
        o = {"t": "set", "v": [[k, v] for k, v in items]}
        if r.random() < .7:
            o["pos"] = pos(r)
        return o

    def some(self, v, p=.7):
        """The value, or something unexpected, or nothing."""
        r = self.r
        if r.random() < self.hostile:
            return r.choice([simple(r), broken(r, self.paths), function(r), self.set({})])
        return v if r.random() < p else None

    def attrs(self, **kw):
        return {k: v for k, v in kw.items() if v is not None}

    def str(self, x=None):
        o = s(text(self.r) if x is None else x)
        if self.r.random() < self.hostile * .5 and x is None:
            o["v"] = self.r.choice(["latin \xe9\xff", "\xff\xfe", "x\x80y\xff"])
            o["l"] = 1
        if self.r.random() < .4:
            o["z"] = 1
        return o

    def package(self, path):
        r = self.r
        meta = self.attrs(description=self.some(self.str()), longDescription=self.some(self.str(), .3),
                          position=self.some(self.str("/nix/a.nix:3")), homepage=self.some(self.str("https://example.org")))
        a = self.attrs(name=self.some(self.str("hello-1.0")), pname=self.some(self.str("hello")), version=self.some(self.str("1.0")),
                       type=self.some(self.str("derivation")), meta=self.some(self.set(meta)))
        if r.random() < .3:
            a["override"] = function(r)
        return self.set(a)

    def names(self):
        r = self.r
        ns = r.sample(world.NAMES, r.randint(0, 8) if self.budget > 0 else 0)
        if r.random() < self.wide and self.budget > 0:
            ns += ["%s%d" % (r.choice("abcfx"), i) for i in range(r.choice([22, 25, 29, 30, 31, 32, 33, 45, 70]))]
            if r.random() < .5:
                c = r.choice("abfx")
                ns += ["%s-%02d%s" % (c, i, " y" if r.random() < .03 else "") for i in range(r.choice([29, 30, 31, 32, 40]))]
        ns = list(dict.fromkeys(ns))
        self.budget -= len(ns)
        return ns

    def tree(self, depth, path=()):
        """Like nixpkgs."""
        r = self.r
        a = {}
        for n in self.names():
            p = list(path) + [n]
            k = r.random()
            if k < .3 and depth:
                a[n] = self.tree(depth - 1, p)
            elif k < .6:
                a[n] = self.package(p)
            elif k < .75:
                a[n] = function(r)
            elif k < .9:
                a[n] = simple(r) if r.random() < .7 else {"t": "list", "v": [simple(r)]}
            else:
                a[n] = broken(r, self.paths)
                continue
            self.paths.append(p)
        return self.set(a)

    def position(self):
        r = self.r
        p = {"file": self.str(r.choice(FILES[:3])), "line": {"t": "int", "v": r.randint(1, 99)}, "column": {"t": "int", "v": r.randint(1, 99)}}
        if r.random() < self.hostile:
            p[r.choice(list(p))] = r.choice([simple(r), broken(r, []), s("<unknown-file>")])
        if r.random() < self.hostile:
            del p[r.choice(list(p))]
        return self.set(p)

    def submodule(self, depth):
        t = {"name": self.str("submodule"), "description": self.str("submodule"),
             "getSubOptions": self.some({"t": "lambda", "ret": self.optiontree(depth - 1)}, 1)}
        if self.r.random() < self.hostile:
            t["getSubOptions"] = {"t": "lambda"}
        return self.set({k: v for k, v in t.items() if v is not None})

    def type(self, depth):
        r = self.r
        k = r.random()
        if k < .25 and depth:
            return self.submodule(depth)
        if k < .5 and depth:
            e = self.submodule(depth) if r.random() < .8 else self.type(0)
            return self.set(self.attrs(name=self.str("attrsOf"), description=self.str("attribute set of (submodule)"),
                                       nestedTypes=self.some(self.set(self.attrs(elemType=self.some(e, 1))), 1)))
        return self.set(self.attrs(name=self.some(self.str(r.choice(["bool", "str", "listOf", "attrs"])), .9),
                                   description=self.some(self.str(r.choice(["boolean", "list of string"])))))

    def rendered(self):
        r = self.r
        k = r.random() * (.75 if self.terse else 1)
        if k < .4:
            return self.set(self.attrs(_type=self.str("literalExpression" if self.terse else r.choice(["literalExpression", "literalExpression", "literalMD"])),
                                       text=self.some(self.str("pkgs.hello"), .95)))
        if k < .75:
            return simple(r)
        if k < .9:
            return r.choice([self.set({"a": simple(r)}), {"t": "list", "v": [simple(r)]}, function(r)])
        return broken(r, self.paths)

    def opt(self, depth):
        r = self.r
        return self.set(self.attrs(
            _type=s("option"), description=self.some(self.str(), .8), type=self.some(self.type(depth), .97),
            declarationPositions=self.some({"t": "list", "v": [self.position() for _ in range(r.choice([0, 1, 1, 2]))]}, .8),
            example=self.rendered() if r.random() < .4 else None, default=self.rendered() if r.random() < .5 else None,
            defaultText=self.rendered() if r.random() < .3 else None))

    def optiontree(self, depth, path=None):
        r = self.r
        a = {}
        for n in self.names():
            p = None if path is None else path + [n]
            if depth > 0 and r.random() < .4:
                a[n] = self.optiontree(depth - 1, p)
            elif r.random() < self.hostile * .5:
                a[n] = r.choice([simple(r), broken(r, self.paths), function(r)])
            else:
                a[n] = self.opt(depth)
            if p is not None:
                self.paths.append(p)
        return self.set(a)

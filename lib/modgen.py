"""Programs whose names lead to the workers, written along with what each of
their names is: a variable, a selection from it, or a (nested) attribute."""
import re

import world

NAMES = [n for n in world.NAMES if re.fullmatch(r"[a-zA-Z_][\w'-]*", n, re.A)]
KEYWORDS = {"if", "then", "else", "assert", "with", "let", "in", "rec", "inherit", "or"}
SEP = [" ", " ", " ", "  ", "\n  ", "\t", " # é\n ", " /* 😀 */ ", "\r\n "]


class Mark:
    """A name in the text: var | sel | attr | hole | inherit | path."""

    def __init__(self, kind, lo, hi, **k):
        self.kind, self.lo, self.hi = kind, lo, hi
        self.__dict__.update(k)

    def __repr__(self):
        return "%s@%d-%d %s" % (self.kind, self.lo, self.hi, {k: v for k, v in self.__dict__.items() if k not in ("kind", "lo", "hi", "env")})


class Env:
    """A scope: the names it binds, or the selector of a with (False if that is no idiom)."""

    def __init__(self, up, names=(), sel=None, isw=False, pkgs=False):
        self.up, self.names, self.sel, self.isw, self.pkgs = up, set(names), sel, isw, pkgs

    def chain(self):
        e = self
        while e:
            yield e
            e = e.up

    def resolve(self, name):
        """("bound", env) | ("with", [withs, the innermost first]) | ("free",)"""
        ws = []
        for e in self.chain():
            if name in e.names:
                return ("bound", e)
            if e.isw:
                ws.append(e)
        return ("with", ws) if ws else ("free",)


def selector(env, name, builtins):
    """The path in nixpkgs that a variable stands for, or None."""
    r = env.resolve(name)
    if r[0] == "with" and name not in builtins:
        s = r[1][0].sel
        return None if s is None else s + [name]
    return [] if name == "pkgs" else ["lib"] if name == "lib" else None


class Writer:
    def __init__(self, r, builtins):
        self.r, self.builtins = r, builtins
        self.t = []
        self.n = 0
        self.marks = []

    def put(self, s):
        lo = self.n
        self.t.append(s)
        self.n += len(s)
        return lo, self.n

    def sp(self):
        self.put(self.r.choice(SEP))

    def name(self):
        return self.r.choice(NAMES)

    # ---- expressions
    def var(self, env, name=None):
        x = name or (self.r.choice(["pkgs", "lib", "lib"]) if self.r.random() < .25 else self.r.choice(["builtins", "map", "toString", "isAttrs"]) if self.r.random() < .1 else self.name())
        lo, hi = self.put(x)
        self.marks.append(Mark("var", lo, hi, name=x, env=env))
        return selector(env, x, self.builtins)

    def attrname(self):
        """(text, name or None)"""
        r = self.r
        k = r.random()
        if k < .86:
            x = self.name()
            return x, x, True
        if k < .95:
            x = r.choice(world.NAMES + ["a b", "x.y", "if"])
            return '"%s"' % x.replace("\\", "\\\\").replace('"', '\\"'), x, False
        return '"${%s}"' % self.name() if r.random() < .5 else "${\"x\" + y}", None, False

    def sel(self, env, depth):
        """A selection from a variable."""
        r = self.r
        whole = len(self.marks)
        lo = self.n
        base = self.var(env, r.choice(["pkgs", "lib"]) if r.random() < .75 else None)
        names = []
        static = True
        ms = []
        for _ in range(r.choice([1, 1, 2, 3])):
            d = self.put(r.choice([".", ".", ".", " . ", ".\n "]))
            t, x, plain = self.attrname()
            a = self.put(t)
            if "${" in t:
                static = False
            names.append(x)
            ms.append(Mark("sel", a[0], a[1], i=len(names) - 1, dot=d, plain=plain))
        hi = self.n
        if r.random() < .1:
            self.put(" or 1")
            self.t.append("")
            hi = self.n
        for m in ms:
            m.base, m.names, m.static, m.whole, m.env = base, names, static, (lo, hi), env
        self.marks += ms
        return None if base is None or not static else base + names

    def expr(self, env, depth, path=None):
        """path: where a set that stands here is, if it is the value of an attribute of a set."""
        r = self.r
        k = r.random()
        if depth <= 0:
            k = k * .4
        if k < .16:
            self.sel(env, depth)
        elif k < .3:
            self.var(env)
        elif k < .4:
            self.put(r.choice(["1", "true", "\"s\"", "./x", "null", "[ ]", "''\n  a\n''", "1.5"]))
        elif k < .62:
            self.attrs(env, depth, path)
        elif k < .75:
            self.put("with")
            self.sp()
            w = r.random()
            pk = False
            if w < .45:
                n = r.choice(["pkgs", "pkgs", "lib", None])
                s = self.var(env, n)
                pk = self.marks[-1].name == "pkgs"
            elif w < .8:
                s = self.sel(env, 0)
            elif w < .9:
                self.put("(")
                self.var(env, "pkgs")
                self.put(")")
                s = None
            else:
                self.put("{ a = 1; }")
                s = None
            self.put(";")
            self.sp()
            self.expr(Env(env, sel=s, isw=True, pkgs=pk), depth - 1)
        elif k < .83:
            self.put("[")
            self.sp()
            for _ in range(r.randint(0, 4)):
                if r.random() < .7:
                    self.var(env) if r.random() < .6 else self.sel(env, 0)
                else:
                    self.put("(")
                    self.expr(env, depth - 1)
                    self.put(" )")
                self.sp()
            self.put("]")
        elif k < .88:
            self.put("let")
            self.sp()
            ns = [self.name() for _ in range(r.randint(1, 3))]
            ns = list(dict.fromkeys(ns))
            e = Env(env, ns)
            for n in ns:
                self.put(n + " = ")
                self.expr(e, depth - 1, ["let"])     # not a path of an option
                self.put(" ;\n")
            self.put("in ")
            self.expr(e, depth - 1)
        elif k < .93:
            if r.random() < .5:
                n = self.name()
                self.put(n + ": ")
                self.expr(Env(env, [n]), depth - 1)
            else:
                ns = list(dict.fromkeys(self.name() for _ in range(r.randint(0, 3))))
                self.put("{ %s }: " % ", ".join(ns + ["..."]))
                self.expr(Env(env, ns), depth - 1)
        elif k < .97:
            self.put("(")
            self.expr(env, depth - 1)
            self.put(" )")
        else:
            self.put("if ")
            self.expr(env, 0)
            self.put(" then ")
            self.expr(env, depth - 1)
            self.put(" else ")
            self.expr(env, depth - 1)

    def attrs(self, env, depth, path=None):
        r = self.r
        path = [] if path is None else path
        rec = r.random() < .2
        first = {}       # names that are taken
        binds = []
        for _ in range(r.randint(0, 4)):
            if r.random() < .12:
                ns = [x for x in dict.fromkeys(self.name() for _ in range(r.randint(1, 2))) if x not in first]
                for x in ns:
                    first[x] = 1
                if ns:
                    binds.append(("inherit", ns))
            else:
                ap = [self.attrname() for _ in range(r.choice([1, 1, 2, 3]))]
                x = ap[0][1]
                if x is None or x in KEYWORDS:
                    continue
                if x in first:
                    if rec or len(ap) == 1 or ap[1][1] is None or first[x] == 1 or ap[1][1] in first[x]:
                        continue
                    first[x].add(ap[1][1])
                else:
                    first[x] = {ap[1][1]} if len(ap) > 1 and ap[1][1] is not None else 1
                binds.append(("bind", ap))
        e = Env(env, first) if rec else env
        lo, _ = self.put("rec {" if rec else "{")
        hole = self.put(" ")
        if not binds:
            self.marks.append(Mark("hole", hole[0], hole[0] + 1, path=path, env=env))
        self.sp()
        for b in binds:
            if b[0] == "inherit":
                self.put("inherit ")
                for x in b[1]:
                    lo, hi = self.put(x)
                    self.marks.append(Mark("inherit", lo, hi, name=x, env=env))
                    self.put(" ")
            else:
                here = path if path is not None and None not in path else [None]
                for j, (t, x, plain) in enumerate(b[1]):
                    if j:
                        self.put(r.choice([".", ".", " . "]))
                    lo, hi = self.put(t)
                    here = here + [None if "${" in t else x]
                    self.marks.append(Mark("attr", lo, hi, path=here, plain=plain, env=e, last=j == len(b[1]) - 1))
                self.put(" = ")
                self.expr(e, depth - 1, here)
                self.put(" ")
            self.put(";")
            self.sp()
        self.put("}")


def module(r, builtins, depth=3):
    """(text, marks)"""
    w = Writer(r, builtins)
    env = None
    k = r.random()
    if k < .7:
        fs = [x for x in ("config", "pkgs", "lib") if r.random() < .8]
        w.put("{ %s }:\n" % ", ".join(fs + ["..."]))
        env = Env(None, fs)
    else:
        env = Env(None)
    if r.random() < .6:
        w.attrs(env, depth)
    else:
        w.expr(env, depth)
    w.put("\n")
    return "".join(w.t), w.marks

"""An independent parser of the Nix language (grammar of the Nix manual and the
regular expressions of Nix's lexer), the reference that /repo is compared with.

Texts are Python strings in which every character is one byte (latin-1), so
that offsets are byte offsets.
"""
import re

KEYWORDS = {"if", "then", "else", "assert", "with", "let", "in", "rec", "inherit", "or"}

RE_ID = re.compile(r"[a-zA-Z_][a-zA-Z0-9_'\-]*")
RE_INT = re.compile(r"[0-9]+")
RE_FLOAT = re.compile(r"(([1-9][0-9]*\.[0-9]*)|(0?\.[0-9]+))([Ee][+-]?[0-9]+)?")
RE_PATH = re.compile(r"[a-zA-Z0-9._\-+]*(/[a-zA-Z0-9._\-+]+)+/?")
RE_PATH_SEG = re.compile(r"[a-zA-Z0-9._\-+]*/")
RE_HPATH = re.compile(r"~(/[a-zA-Z0-9._\-+]+)+/?")
RE_HPATH_START = re.compile(r"~/")
RE_SPATH = re.compile(r"<[a-zA-Z0-9._\-+]+(/[a-zA-Z0-9._\-+]+)*>")
RE_URI = re.compile(r"[a-zA-Z][a-zA-Z0-9+\-.]*:[a-zA-Z0-9%/?:@&=+$,\-_.!~*']+")
RE_WS = re.compile(r"[ \t\r\n]+")
RE_LCOMMENT = re.compile(r"#[^\r\n]*")
RE_BCOMMENT = re.compile(r"/\*(?:[^*]|\*+[^*/])*\*+/")
RE_PATHCH = re.compile(r"[a-zA-Z0-9._\-+]+")
OPS = sorted(["...", "==", "!=", "<=", ">=", "&&", "||", "->", "//", "++", "|>", "<|",
              "{", "}", "(", ")", "[", "]", ";", ":", ",", ".", "@", "?", "=",
              "+", "-", "*", "/", "!", "<", ">"], key=len, reverse=True)


class NixError(Exception):
    def __init__(self, msg, pos):
        Exception.__init__(self, "%s at %d" % (msg, pos))
        self.msg, self.pos = msg, pos


class N:
    """A syntax node: kind, [lo, hi) and fields."""
    __slots__ = ("k", "lo", "hi", "f")

    def __init__(self, k, lo=None, hi=None, **f):
        self.k, self.lo, self.hi, self.f = k, lo, hi, f

    def __getattr__(self, a):
        try:
            return self.f[a]
        except KeyError:
            raise AttributeError(a)

    def __repr__(self):
        return "N(%s,%s-%s,%r)" % (self.k, self.lo, self.hi, self.f)

    # pickling needs these because of __getattr__
    def __getstate__(self):
        return (self.k, self.lo, self.hi, self.f)

    def __setstate__(self, s):
        self.k, self.lo, self.hi, self.f = s


def kids(n):
    """The nodes directly below n, in source order."""
    out = []

    def add(v):
        if isinstance(v, N):
            out.append(v)
        elif isinstance(v, (list, tuple)):
            for x in v:
                add(x)
    for f, v in n.f.items():
        if f != "raw":
            add(v)
    return out


def walk(n):
    stack = [n]
    while stack:
        x = stack.pop()
        yield x
        stack.extend(reversed(kids(x)))


class Tok:
    __slots__ = ("k", "lo", "hi", "v")

    def __init__(self, k, lo, hi, v=None):
        self.k, self.lo, self.hi, self.v = k, lo, hi, v

    def __repr__(self):
        return "%s@%d" % (self.k, self.lo)


# precedence (higher binds tighter), associativity: the table in the Nix manual
BIN = {
    "++": (13, "r"), "*": (12, "l"), "/": (12, "l"), "+": (11, "l"), "-": (11, "l"),
    "//": (9, "r"), "<": (8, "n"), "<=": (8, "n"), ">": (8, "n"), ">=": (8, "n"),
    "==": (7, "n"), "!=": (7, "n"), "&&": (6, "l"), "||": (5, "l"), "->": (4, "r"),
    "|>": (3, "l"), "<|": (2, "r"),
}
NEG, HAS, NOT = 15, 14, 10


class Parser:
    def __init__(self, text):
        self.t = text
        self.pos = 0
        self.buf = []
        self.toks = []

    # ---- lexer
    def skip(self):
        t = self.t
        while True:
            for r in (RE_WS, RE_LCOMMENT, RE_BCOMMENT):
                m = r.match(t, self.pos)
                if m and m.end() > self.pos:
                    self.pos = m.end()
                    break
            else:
                if t.startswith("/*", self.pos):
                    raise NixError("unterminated comment", self.pos)
                return

    def lex(self):
        self.skip()
        t, p = self.t, self.pos
        if p >= len(t):
            return Tok("eof", p, p)
        # longest match, first rule wins
        best, bk, bestlen = 0, None, 0

        def cand(k, r):
            nonlocal best, bk, bestlen
            m = r.match(t, p)
            if m and m.end() - p > bestlen:
                best, bk = m.end() - p, k
                bestlen = best
        cand("id", RE_ID)
        cand("int", RE_INT)
        cand("float", RE_FLOAT)
        for o in OPS:
            if t.startswith(o, p):
                if len(o) > best:
                    best, bk, bestlen = len(o), o, len(o)
                break
        if t.startswith("${", p) and best < 2:
            best, bk, bestlen = 2, "${", 2
        if t.startswith('"', p):
            best, bk, bestlen = 1, '"', 1
        if t.startswith("''", p):
            best, bk, bestlen = 2, "''", 2
        cand("path", RE_PATH)
        cand("hpath", RE_HPATH)
        # PATH_SEG followed by ${ starts a path too (and the ${ counts)
        bestlen = best
        for k, r in (("path", RE_PATH_SEG), ("hpath", RE_HPATH_START)):
            m = r.match(t, p)
            if m and t.startswith("${", m.end()) and m.end() + 2 - p > bestlen:
                best, bk = m.end() - p, k
                bestlen = best + 2
        cand("spath", RE_SPATH)
        cand("uri", RE_URI)
        if not bk:
            raise NixError("invalid character", p)
        v = t[p:p + best]
        if bk == "id" and v in KEYWORDS:
            bk = v
        self.pos = p + best
        return Tok(bk, p, self.pos, v)

    def peek(self, n=0):
        while len(self.buf) <= n:
            k = self.lex()
            self.buf.append(k)
            # a token that switches the lexer's mode: never lex beyond it
            if k.k in ('"', "''", "path", "hpath", "${", "eof"):
                while len(self.buf) <= n:
                    self.buf.append(Tok("?", k.hi, k.hi))
        return self.buf[n]

    def next(self):
        k = self.peek()
        self.buf.pop(0)
        self.last = k
        if not self.buf:
            self.pos = k.hi
        elif k.k in ('"', "''", "path", "hpath", "${"):
            self.buf = []
            self.pos = k.hi
        return k

    def drop(self):
        """Forget look-ahead: continue lexing at the end of the last token."""
        self.buf = []

    def expect(self, k):
        x = self.peek()
        if x.k != k:
            raise NixError("expected %s, found %s" % (k, x.k), x.lo)
        return self.next()

    # ---- grammar
    def parse(self):
        e = self.expr()
        x = self.peek()
        if x.k != "eof":
            raise NixError("unexpected " + x.k, x.lo)
        return e

    def expr(self):
        a = self.peek()
        k = a.k
        if k == "id":
            b = self.peek(1).k
            if b in (":", "@"):
                return self.lambda_()
        elif k == "{":
            b = self.peek(1).k
            if b == "...":
                return self.lambda_()
            if b == "id" and self.peek(2).k in (",", "?", ):
                return self.lambda_()
            if b == "id" and self.peek(2).k == "}" and self.peek(3).k in (":", "@"):
                return self.lambda_()
            if b == "}" and self.peek(2).k in (":", "@"):
                return self.lambda_()
        elif k == "if":
            t = self.next()
            c = self.expr()
            self.expect("then")
            x = self.expr()
            self.expect("else")
            y = self.expr()
            return N("If", t.lo, y.hi, cond=c, then=x, els=y)
        elif k == "assert":
            t = self.next()
            c = self.expr()
            self.expect(";")
            x = self.expr()
            return N("Assert", t.lo, x.hi, cond=c, value=x)
        elif k == "with":
            t = self.next()
            c = self.expr()
            self.expect(";")
            x = self.expr()
            return N("With", t.lo, x.hi, with_=c, body=x)
        elif k == "let" and self.peek(1).k != "{":
            t = self.next()
            b = self.binds(let=True)
            self.expect("in")
            x = self.expr()
            return N("Let", t.lo, x.hi, binds=b, body=x)
        return self.op(0)

    def lambda_(self):
        lo = self.peek().lo
        arg = formals = None
        ell = False
        if self.peek().k == "id":
            i = self.next()
            arg = N("Name", i.lo, i.hi, name=i.v)
            if self.peek().k == "@":
                self.next()
                formals, ell = self.formals()
        else:
            formals, ell = self.formals()
            if self.peek().k == "@":
                self.next()
                i = self.expect("id")
                arg = N("Name", i.lo, i.hi, name=i.v)
        if formals is not None:
            seen = set()
            for f in formals:
                if f.name.name in seen:
                    raise NixError("duplicate formal", f.lo)
                seen.add(f.name.name)
            if arg is not None and arg.name in seen:
                raise NixError("duplicate formal function argument", arg.lo)
        self.expect(":")
        b = self.expr()
        fs = [arg, formals] if arg is None or formals is None or arg.lo < lo + 1 else [formals, arg]
        return N("Lambda", lo, b.hi, arg=arg, formals=formals, ell=ell, body=b)

    def formals(self):
        self.expect("{")
        out = []
        while True:
            t = self.peek()
            if t.k == "}":
                self.next()
                return out, False
            if t.k == "...":
                self.next()
                self.expect("}")
                return out, True
            i = self.expect("id")
            d = None
            if self.peek().k == "?":
                self.next()
                d = self.expr()
            out.append(N("Formal", i.lo, d.hi if d else i.hi,
                         name=N("Name", i.lo, i.hi, name=i.v), default=d))
            if self.peek().k == ",":
                self.next()
            elif self.peek().k != "}":
                raise NixError("expected , or }", self.peek().lo)

    def op(self, minp):
        t = self.peek()
        if t.k == "!":
            self.next()
            e = self.op(NOT)
            left = N("Un", t.lo, e.hi, op="!", e=e)
            lp = NOT
        elif t.k == "-":
            self.next()
            e = self.op(NEG)
            left = N("Un", t.lo, e.hi, op="-", e=e)
            lp = NEG
        else:
            left = self.app()
            lp = 99
        nonassoc = None
        while True:
            t = self.peek()
            if t.k == "?":
                if minp > HAS:
                    return left
                if nonassoc == HAS:
                    raise NixError("? is not associative", t.lo)
                self.next()
                p = self.attrpath()
                left = N("HasAttr", left.lo, self.last_hi, e=left, path=p)
                nonassoc = HAS
                continue
            if t.k not in BIN:
                return left
            p, a = BIN[t.k]
            if p < minp:
                return left
            if nonassoc == p:
                raise NixError("operator is not associative", t.lo)
            if p in (2, 3):
                if nonassoc in (2, 3) and nonassoc != p:
                    raise NixError("mixed pipes", t.lo)
            self.next()
            rp = p + 1 if a in ("l", "n") else p
            if p == 3:
                rp = 4
            r = self.op(rp)
            if p in (2, 3) and r.k == "Bin" and r.op in ("|>", "<|") and r.op != t.k:
                raise NixError("mixed pipes", t.lo)
            left = N("Bin", left.lo, r.hi, op=t.k, oplo=t.lo, l=left, r=r)
            nonassoc = p if a == "n" or p in (2, 3) and False else None
            if p in (2, 3):
                if self.peek().k in ("|>", "<|") and self.peek().k != t.k:
                    raise NixError("mixed pipes", self.peek().lo)

    def app(self):
        f = self.select()
        args = []
        while self.starts_simple():
            args.append(self.select())
        if not args:
            return f
        return N("Call", f.lo, args[-1].hi, fn=f, args=args)

    def starts_simple(self):
        k = self.peek().k
        return k in ("id", "int", "float", '"', "''", "path", "hpath", "spath", "uri",
                     "(", "{", "[", "rec") or (k == "let" and self.peek(1).k == "{")

    def select(self):
        e = self.simple()
        t = self.peek()
        if t.k == ".":
            self.next()
            p = self.attrpath()
            d = None
            hi = self.last_hi
            if self.peek().k == "or":
                self.next()
                d = self.select()
                hi = d.hi
            return N("Select", e.lo, hi, e=e, path=p, default=d)
        if t.k == "or":
            raise NixError("`or` used as an argument (legacy)", t.lo)
        return e

    def attrpath(self):
        out = [self.attrname()]
        while self.peek().k == ".":
            self.next()
            out.append(self.attrname())
        self.last_hi = out[-1].hi
        return out

    def attrname(self):
        t = self.peek()
        if t.k == "id" or t.k == "or":
            self.next()
            return N("AName", t.lo, t.hi, kind="id", name=t.v)
        if t.k == '"':
            s = self.string()
            if all(isinstance(x, str) for x in s.parts):
                return N("AName", s.lo, s.hi, kind="str", name="".join(s.parts), s=s)
            return N("AName", s.lo, s.hi, kind="dstr", s=s)
        if t.k == "${":
            i = self.interp()
            return N("AName", i.lo, i.hi, kind="interp", e=i.e)
        raise NixError("expected an attribute name, found " + t.k, t.lo)

    def interp(self):
        t = self.expect("${")
        self.drop()
        self.pos = t.hi
        e = self.expr()
        c = self.expect("}")
        self.drop()
        self.pos = c.hi
        return N("Interp", t.lo, c.hi, e=e)

    def binds(self, let=False):
        out = []
        while True:
            t = self.peek()
            if t.k == "inherit":
                self.next()
                frm = None
                if self.peek().k == "(":
                    self.next()
                    frm = self.expr()
                    self.expect(")")
                names = []
                while self.peek().k in ("id", "or", '"', "${"):
                    a = self.attrname()
                    if a.kind in ("dstr", "interp"):
                        raise NixError("dynamic attributes not allowed in inherit", a.lo)
                    names.append(a)
                e = self.expect(";")
                out.append(N("Inherit", t.lo, e.hi, frm=frm, names=names))
            elif t.k in ("id", "or", '"', "${"):
                p = self.attrpath()
                q = self.expect("=")
                v = self.expr()
                e = self.expect(";")
                out.append(N("Bind", p[0].lo, e.hi, path=p, eqlo=q.lo, value=v))
            else:
                return out

    def attrs(self):
        t = self.peek()
        rec = None
        if t.k == "rec":
            rec = self.next()
        self.expect("{")
        b = self.binds()
        e = self.expect("}")
        return N("Attrs", t.lo, e.hi, rec=bool(rec), binds=b)

    def simple(self):
        t = self.peek()
        k = t.k
        if k == "id":
            self.next()
            return N("Var", t.lo, t.hi, name=t.v)
        if k == "int":
            self.next()
            v = int(t.v)
            if v > 0x7fffffffffffffff:
                raise NixError("invalid integer", t.lo)
            return N("Int", t.lo, t.hi, v=v)
        if k == "float":
            self.next()
            return N("Float", t.lo, t.hi, v=float(t.v))
        if k in ('"', "''"):
            return self.string()
        if k in ("path", "hpath"):
            return self.path()
        if k == "spath":
            self.next()
            return N("SPath", t.lo, t.hi, v=t.v[1:-1])
        if k == "uri":
            self.next()
            return N("Uri", t.lo, t.hi, v=t.v)
        if k == "(":
            self.next()
            e = self.expr()
            c = self.expect(")")
            return N("Paren", t.lo, c.hi, e=e)
        if k == "let" and self.peek(1).k == "{":
            self.next()
            self.next()
            b = self.binds()
            c = self.expect("}")
            return N("LegacyLet", t.lo, c.hi, binds=b)
        if k in ("{", "rec"):
            return self.attrs()
        if k == "[":
            self.next()
            es = []
            while self.peek().k != "]":
                es.append(self.select())
            c = self.next()
            return N("List", t.lo, c.hi, es=es)
        raise NixError("unexpected " + k, t.lo)

    def path(self):
        t = self.next()
        self.drop()
        self.pos = t.hi
        parts = [t.v]
        while True:
            # the lexer states INPATH and INPATH_SLASH
            if self.t.startswith("${", self.pos):
                parts.append(self.interp())
                continue
            ms = [r.match(self.t, self.pos) for r in (RE_PATH, RE_PATH_SEG, RE_PATHCH)]
            best = max((m.end() for m in ms if m), default=self.pos)
            if best > self.pos:
                v = self.t[self.pos:best]
                self.pos = best
                if isinstance(parts[-1], str):
                    parts[-1] += v
                else:
                    parts.append(v)
                continue
            if isinstance(parts[-1], str) and parts[-1].endswith("/"):
                raise NixError("path has a trailing slash", t.lo)
            return N("Path", t.lo, self.pos, parts=parts)

    def string(self):
        t = self.next()
        self.drop()
        p = t.hi
        T = self.t
        parts = []
        cur = []
        ind = t.k == "''"

        def flush():
            if cur:
                parts.append("".join(cur))
                cur.clear()
        while True:
            if p >= len(T):
                raise NixError("unterminated string", t.lo)
            c = T[p]
            if not ind:
                if c == '"':
                    p += 1
                    break
                if c == "\\":
                    if p + 1 >= len(T):
                        raise NixError("unterminated string", t.lo)
                    x = T[p + 1]
                    cur.append({"n": "\n", "r": "\r", "t": "\t"}.get(x, x))
                    p += 2
                    continue
            else:
                if c == "'" and T.startswith("''", p):
                    x = T[p + 2:p + 3]
                    if x == "$":
                        cur.append("$")
                        p += 3
                        continue
                    if x == "'":
                        cur.append("''")
                        p += 3
                        continue
                    if x == "\\":
                        if p + 3 >= len(T):
                            raise NixError("unterminated string", t.lo)
                        y = T[p + 3]
                        cur.append({"n": "\n", "r": "\r", "t": "\t"}.get(y, y))
                        p += 4
                        continue
                    p += 2
                    break
            if c == "$":
                if T.startswith("$$", p):
                    cur.append("$$")
                    p += 2
                    continue
                if T.startswith("${", p):
                    flush()
                    self.pos = p
                    i = self.interp()
                    parts.append(i)
                    p = self.pos
                    continue
            cur.append(c)
            p += 1
        flush()
        self.pos = p
        self.drop()
        return N("Str", t.lo, p, parts=parts, ind=ind)


def parse(text):
    return Parser(text).parse()


SKIP = {"s", "raw", "at", "flo", "fhi", "text", "oplo", "eqlo"}


def canon(n):
    """Structure without positions, for comparisons. Parens are kept."""
    if isinstance(n, N):
        k = n.k
        if k == "Lambda":
            return (k, canon(n.arg), canon(n.formals), n.ell, canon(n.body))
        if k == "Formal":
            return (k, n.name.name, canon(n.default))
        if k == "Name":
            return n.name
        if k == "AName":
            if n.kind == "id" or n.kind == "str":
                return ("AName", n.kind, n.name)
            if n.kind == "dstr":
                return ("AName", "dstr", canon(n.s))
            return ("AName", "interp", canon(n.e))
        if k == "Uri":
            return ("Str", False, (n.v,))
        if k == "Str":
            return ("Str", n.ind, tuple(canon(x) for x in n.parts))
        return (k,) + tuple((a, canon(v)) for a, v in sorted(n.f.items())
                            if a not in SKIP)
    if isinstance(n, (list, tuple)):
        return tuple(canon(x) for x in n)
    if isinstance(n, float):
        return n.hex()
    return n

"""A valid program as the server sees it (text, UTF-16 positions) and as the
reference model sees it (bytes, tree, bindings)."""
import functools

import lsptext
import nixgen
import nixparse
import sema


class Prog:
    def __init__(self, data, tree=None):
        """data: the program as latin-1 text, one character for each byte."""
        self.data = data
        self.tree = tree if tree is not None else nixparse.parse(data)
        self.bytes = data.encode("latin-1")
        self.text = self.bytes.decode("utf-8")
        self.starts = lsptext.line_starts(self.text)
        self.b2i = None

    @functools.cached_property
    def R(self):
        return sema.Resolver(self.tree)

    def index(self, b):
        """Byte offset -> index into the text."""
        if len(self.text) == len(self.bytes):
            return b
        if self.b2i is None:
            self.b2i, k = {}, 0
            for i, c in enumerate(self.text):
                self.b2i[k] = i
                k += len(c.encode("utf-8"))
            self.b2i[k] = len(self.text)
        return self.b2i[b]

    def pos(self, b):
        l, c = lsptext.to_pos(self.text, self.index(b))
        return {"line": l, "character": c}

    def rng(self, lo, hi):
        return {"start": self.pos(lo), "end": self.pos(hi)}


def generate(r, **kw):
    t, n = nixgen.program("%d" % r.randrange(1 << 40), **kw)
    return Prog(t, n)


def key(rng):
    return (rng["start"]["line"], rng["start"]["character"], rng["end"]["line"], rng["end"]["character"])

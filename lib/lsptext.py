"""A model of the LSP text protocol: positions in UTF-16 code units, incremental
changes, workspace edits. Texts are Python strings."""
import random


def units(s):
    return len(s.encode("utf-16-le")) // 2


def u16(s):
    return s.encode("utf-16-le", "surrogatepass")


def line_starts(s):
    out = [0]
    for i, c in enumerate(s):
        if c == "\n":
            out.append(i + 1)
    return out


def to_index(s, line, char, strict=True, starts=None):
    """Index of a position in s, or None if it is invalid; 'mid' within a surrogate pair."""
    if line < 0 or char < 0:
        return None
    st = starts if starts is not None else line_starts(s)
    if line >= len(st):
        return None
    i = st[line]
    end = st[line + 1] - 1 if line + 1 < len(st) else len(s)
    n = 0
    while i < end and n < char:
        n += 2 if ord(s[i]) > 0xFFFF else 1
        i += 1
    if n > char:
        return "mid"
    if n < char:
        return None if strict else i
    return i


def to_pos(s, i):
    """[line, character] of an index."""
    b = s.rfind("\n", 0, i) + 1
    return [s.count("\n", 0, i), units(s[b:i])]


def byte_of(s, i):
    return len(s[:i].encode("utf-8", "surrogatepass"))


def apply_edits(s, edits):
    """LSP semantics of a list of TextEdits: all refer to the original text and
    do not overlap. Returns None if an edit is invalid or overlaps."""
    st = line_starts(s)
    es = []
    for k, e in enumerate(edits):
        r = e["range"]
        a = to_index(s, r["start"]["line"], r["start"]["character"], True, st)
        b = to_index(s, r["end"]["line"], r["end"]["character"], True, st)
        if not isinstance(a, int) or not isinstance(b, int) or a > b:
            return None
        es.append((a, b, k, e["newText"]))
    es.sort(key=lambda x: (x[0], x[1], x[2]))
    out, last = [], 0
    for a, b, _, t in es:
        if a < last:
            return None
        out.append(s[last:a])
        out.append(t)
        last = b
    out.append(s[last:])
    return "".join(out)


CHARS = ["a", "b", "z", "0", " ", "\t", ";", "{", "}", "é", "ß", "Ω", "я", "漢", "語", "€", "\u200b", "\ufeff", "\uffff",
         "😀", "🦀", "𝔸", "\U0010ffff", "\U00010000", "\r", "\x00", "\x7f", "\u0080", "\u07ff", "\u0800"]


def text(rng, n, newline=.12, plain=.5):
    out = []
    for _ in range(n):
        r = rng.random()
        if r < newline:
            out.append(rng.choice(["\n", "\n", "\r\n"]))
        elif r < newline + plain:
            out.append(rng.choice("abcxyz01 ;="))
        else:
            out.append(rng.choice(CHARS))
    return "".join(out)


def rng(*key):
    return random.Random("/".join(map(str, key)))

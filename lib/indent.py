"""The value of an indented string, as the lexer and parser of Nix compute it."""
import re

RUN = re.compile(r"(?:[^$']|\$[^{']|'[^'$])+", re.S)


def pieces(t, lo, hi, interps):
    """t[lo:hi] is the literal with its quotes; interps: the interpolations in order.
    -> [(text, indentation) or an interpolation]"""
    p = lo + 2
    m = re.match(r" *\n", t[p:hi])
    if m:
        p += m.end()
    end = hi - 2
    out = []
    it = iter(interps)
    while p < end:
        if t.startswith("''$", p):
            out.append(("$", False))
            p += 3
        elif t.startswith("'''", p):
            out.append(("''", False))
            p += 3
        elif t.startswith("''\\", p):
            c = t[p + 3]
            out.append(({"n": "\n", "r": "\r", "t": "\t"}.get(c, c), False))
            p += 4
        elif t.startswith("${", p):
            i = next(it)
            out.append(i)
            p = i.hi
        else:
            m = RUN.match(t, p, end + 2)
            if m and m.end() > p:
                e = m.end()
                if e > end:
                    # only the closing quotes can end a run early
                    e = end
                out.append((t[p:e], True))
                p = e
            else:
                out.append((t[p], False))
                p += 1
    return out


def strip(ps):
    """-> [text or interpolation]"""
    start, least, cur = True, 10 ** 9, 0
    for x in ps:
        if not isinstance(x, tuple) or not x[1]:
            if start:
                start = False
                least = min(least, cur)
            continue
        for c in x[0]:
            if start:
                if c == " ":
                    cur += 1
                elif c == "\n":
                    cur = 0
                else:
                    start = False
                    least = min(least, cur)
            elif c == "\n":
                start, cur = True, 0
    out = []
    start, dropped = True, 0
    for k, x in enumerate(ps):
        if not isinstance(x, tuple):
            start, dropped = False, 0
            out.append(x)
            continue
        s = ""
        for c in x[0]:
            if start:
                if c == " ":
                    if dropped >= least:
                        s += c
                    dropped += 1
                elif c == "\n":
                    dropped = 0
                    s += c
                else:
                    start, dropped = False, 0
                    s += c
            else:
                s += c
                if c == "\n":
                    start = True
        if k == len(ps) - 1:
            p = s.rfind("\n")
            if p >= 0 and s[p + 1:].strip(" ") == "":
                s = s[:p + 1]
        out.append(s)
    return out


def value(t, n):
    """Parts of an indented string literal n of the text t."""
    return strip(pieces(t, n.lo, n.hi, [p for p in n.parts if not isinstance(p, str)]))

"""Text edits as diagnostics carry them."""


class Bad(Exception):
    pass


def check(edits, text):
    """[(lo, hi, new)] sorted; raises Bad for edits that cannot be applied."""
    out = []
    for r, new in edits:
        lo, hi = r[0], r[1]
        if not (0 <= lo <= hi <= len(text)):
            raise Bad("edit %d..%d is outside of the document (%d bytes)" % (lo, hi, len(text)))
        if lo == hi and new == "":
            raise Bad("edit at %d does nothing" % lo)
        out.append((lo, hi, new))
    out = sorted(out, key=lambda e: (e[0], e[1]))
    for a, b in zip(out, out[1:]):
        if b[0] < a[1]:
            raise Bad("edits %d..%d and %d..%d overlap" % (a[0], a[1], b[0], b[1]))
    return out


def apply(text, edits):
    es = check(edits, text)
    out, p = [], 0
    for lo, hi, new in es:
        out.append(text[p:lo])
        out.append(new)
        p = hi
    out.append(text[p:])
    return "".join(out)

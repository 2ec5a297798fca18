"""Mutants of programs, and which texts the grammar checks leave undecided."""
import re

import nixparse

TOK = re.compile(r"[a-zA-Z_][a-zA-Z0-9_'\-]*|[0-9]+|\s+|\.\.\.|==|!=|<=|>=|&&|\|\||->|//|\+\+|\|>|<\||''|\$\{|.", re.S)
VOC = ("{ } ( ) [ ] ; : , . @ ? = + - * / ! < > == != <= >= && || -> // ++ |> <| ... ${ '' \" a b 1 1.5 .5 "
       "if then else assert with let in rec inherit or x y ./a <a> a:b $ \\ # /* */ & | ~ ~/a ''$ ''\\ $$ ^ % ` -- "
       ).split()
LITERALS = {"Int", "Float", "Str", "Path", "SPath", "Uri", "Attrs", "List"}


def mutate(rng, s, n=None):
    tk = TOK.findall(s)
    for _ in range(n or rng.choice([1, 1, 1, 2, 3])):
        if not tk:
            break
        j = rng.randrange(len(tk))
        o = rng.random()
        if o < .3:
            del tk[j]
        elif o < .45:
            tk.insert(j, tk[j])
        elif o < .65:
            tk[j] = rng.choice(VOC)
        elif o < .85:
            tk.insert(j, rng.choice(VOC))
        elif o < .9:
            k = rng.randrange(len(tk))
            tk[j], tk[k] = tk[k], tk[j]
        elif o < .95:
            tk = tk[:j]
        else:
            k = rng.randrange(len(tk))
            a, b = min(j, k), max(j, k)
            if b - a < 12:
                del tk[a:b]
            else:
                tk[j:j] = [rng.choice(VOC)]
    return "".join(tk)


def undecided(text, ref=None):
    """A reason why a text is outside of what C02/C03 decide, or None.

    nixf deliberately extends or restricts Nix here, with diagnostics of its
    own (see DESIGN.md)."""
    if not strip(text):
        return "empty document"
    if re.search(r"(?<![1-9.])0[0-9]*\.(?![0-9]*/)", text) or re.search(r"0\.(?![0-9])", text):
        return "float with leading zeros"
    if re.search(r"[0-9.][eE](?![+-]?[0-9])", text):
        return "float without exponent"
    if re.search(r"[\v\f\0]", text) or re.search(r"\r(?!\n)", text):
        return "white space"
    if ref is None:
        return None
    for n in nixparse.walk(ref):
        if n.k == "Call" and n.fn.k in LITERALS:
            return "literal called"
        if n.k == "LegacyLet":
            return "legacy let"
    return None


def strip(text):
    """Text without comments and white space at its start (enough to tell an
    empty document)."""
    p = nixparse.Parser(text)
    try:
        p.skip()
    except nixparse.NixError:
        return text
    return text[p.pos:]

"""Random worlds: what the nixpkgs worker and the option workers know."""
NAMES = ["a", "b", "c", "x", "y", "f", "lib", "pkgs", "foo-bar", "x'", "_z", "self", "hello", "héllo", "foo bar", "a.b",
         "python3Packages", "enable", "services", "config", "0day"]
TYPES = ["boolean", "string", "submodule", "attribute set of string", "t`y$p}e\\"]


def text(r):
    return "".join(r.choice(["word ", "$x ", "${y} ", "\\", "}", "{", "\"q\" ", "\n", "é", "😀", "`c` ", "1", ";", "<b>"])
                   for _ in range(r.randint(0, 6)))


def maybe(r, v, p=.6):
    return v if r.random() < p else None


def location(r, odd=False):
    p = {"line": r.randint(0, 40), "character": r.randint(0, 40)}
    return {"uri": "file:///nix/store/%s.nix" % r.choice(["x", "a b", "pkgs/top-level", "é"]).replace(" ", "%20").replace("é", "%C3%A9"),
            "range": {"start": p, "end": p}}


def package(r):
    return {"Name": maybe(r, r.choice(NAMES) + "-1.0"), "PName": maybe(r, r.choice(NAMES)),
            "Version": maybe(r, r.choice(["1.2.3", "", "2024-01-01", "v`1`", "1.0-é", "0"])),
            "Description": maybe(r, text(r)), "LongDescription": maybe(r, text(r), .4),
            "Position": maybe(r, r.choice(["/nix/store/x/default.nix:12", "/a.nix:1", "/nix/a b.nix:77", "/nix/a:b/c:1.nix:30"])),
            "Homepage": maybe(r, "https://example.org/" + r.choice(["", "a b", "é"]))}


def info(r):
    m = {"Type": r.randint(0, 9)}
    if r.random() < .3:
        m["Location"] = location(r)
    i = {"Meta": m, "PackageDesc": package(r)}
    if r.random() < .3:
        i["ValueDesc"] = {"arity": r.randint(0, 3), "doc": text(r), "args": [r.choice(NAMES) for _ in range(r.randint(0, 3))]}
    return i


def option(r):
    d = {"Description": maybe(r, text(r)), "Declarations": [location(r) for _ in range(r.choice([0, 1, 1, 2]))],
         "Definitions": [location(r) for _ in range(r.choice([0, 0, 1]))],
         "Example": maybe(r, text(r), .4), "Default": maybe(r, text(r), .4)}
    if d["Example"] is not None and r.random() < .15:
        d["Default"] = d["Example"]
    if r.random() < .8:
        d["Type"] = {"Name": maybe(r, r.choice(TYPES), .8), "Description": maybe(r, r.choice(TYPES), .8)}
    return d


def tree(r, depth, kind, names=NAMES, wide=.0):
    """kind: info | option"""
    n = {"k": "set", "v": {}}
    if r.random() < .8:
        n[kind] = info(r) if kind == "info" else option(r)
    if depth > 0:
        ns = r.sample(names, r.randint(0, min(len(names), 9)))
        if r.random() < wide:
            c = r.choice(["a", "b", "c", "f", "x", "abcfx"])
            ns += [r.choice(c) + str(i) + (" y" if r.random() < .03 else "") for i in range(r.choice([r.randint(25, 45), 30, 31, 32]))]
        for x in ns:
            n["v"][x] = tree(r, depth - 1 if r.random() < .7 else 0, kind, names, wide)
    return n

"""Compares what nixf's semantic analyses report with the reference model."""
import collections

import sema
from nixparse import walk

DEFSRC = {"let": 1, "arg": 2, "formal": 3, "arg@": 4, "formal@": 5, "rec": 6, "builtin": 7}


def rng(rep, i):
    return tuple(rep["nodes"][i]["r"][:2])


def resolver(ref):
    return sema.Resolver(ref)


def variables(rep, ref, R):
    """C09: every variable is bound to what the language says."""
    errs = []
    seen = {}
    nd = rep["nodes"]
    for i, kind, d, withs in rep["vars"]:
        seen.setdefault(rng(rep, i), []).append((i, kind, d, withs))
    for r, want in R.vars.items():
        got = seen.get(r)
        name = R.names[r]
        if not got:
            errs.append("variable %s at %s is not looked up" % (name, r))
            continue
        for i, kind, d, withs in got:
            if nd[i]["name"] != name:
                errs.append("variable at %s is called %r, not %r" % (r, nd[i]["name"], name))
            if kind == 3:
                errs.append("variable %s at %s was never visited" % (name, r))
            elif want[0] == "undef":
                if kind != 0:
                    errs.append("%s at %s is undefined, yet resolved (kind %d)" % (name, r, kind))
            elif want[0] == "with":
                if kind != 1:
                    errs.append("%s at %s comes from with, reported kind %d" % (name, r, kind))
                else:
                    a = sorted(rng(rep, w) for w in withs)
                    b = sorted((w.lo, w.hi) for w in want[1])
                    if a != b:
                        errs.append("%s at %s: with scopes %s, want %s" % (name, r, a, b))
            else:
                D = want[1]
                if kind != 2:
                    errs.append("%s at %s is bound by a %s at %s, reported kind %d" % (name, r, D.kind, D.range, kind))
                elif d is None:
                    errs.append("%s at %s: no definition" % (name, r))
                elif D.kind == "builtin":
                    if d[0] != 7:
                        errs.append("%s at %s is a builtin, reported source %d" % (name, r, d[0]))
                elif d[0] == 7 or rng(rep, d[1]) != D.range:
                    errs.append("%s at %s is bound at %s (%s), reported %s" % (
                        name, r, D.range, D.kind, "builtin" if d[0] == 7 else rng(rep, d[1])))
                elif d[0] != DEFSRC[D.kind]:
                    errs.append("%s at %s is bound by a %s, reported source %d" % (name, r, D.kind, d[0]))
    # variables that the program does not have
    for r, got in seen.items():
        if r not in R.vars:
            for i, kind, d, withs in got:
                if kind != 3:
                    errs.append("variable %r at %s should not exist" % (nd[i]["name"], r))
    # uses of every definition
    got = {}
    for i, d in rep["defs"]:
        if d[0] == 0:
            continue
        got[rng(rep, i)] = d
    for D in R.defs:
        d = got.pop(D.range, None)
        if d is None:
            errs.append("definition of %s at %s is not known" % (D.name, D.range))
            continue
        a = sorted(set(rng(rep, u) for u in d[2]))
        b = sorted(set(D.uses))
        if a != b:
            errs.append("definition of %s at %s has uses %s, want %s" % (D.name, D.range, a, b))
        if len(d[2]) != len(set(d[2])):
            errs.append("definition of %s at %s lists a use twice" % (D.name, D.range))
    for r in got:
        errs.append("definition at %s does not exist" % (r,))
    return errs


def bag(ds, kinds):
    return collections.Counter((d["s"], tuple(d["r"][:2])) + ((d["args"][0],) if d["args"] else ())
                               for d in ds if d["s"] in kinds)


def diff(got, want, what):
    errs = []
    for k in (want - got):
        errs.append("missing diagnostic %s" % (k,))
    for k in (got - want):
        errs.append("unexpected diagnostic %s" % (k,))
    return errs


def undefined(rep, ref, R):
    """sema-undefined-variable and sema-primop-needs-prefix."""
    want = collections.Counter()
    for r, v in R.vars.items():
        if v[0] == "undef":
            n = R.names[r]
            if "__" + n in sema.PRIMOPS:
                want[("sema-primop-needs-prefix", r)] += 1
            else:
                want[("sema-undefined-variable", r, n)] += 1
    return diff(bag(rep["diags"], ("sema-undefined-variable", "sema-primop-needs-prefix")), want, "undefined")


LIVE = {"let": "sema-unused-def-let", "formal": "sema-unused-def-lambda-noarg-formal",
        "formal@": "sema-unused-def-lambda-witharg-formal", "arg@": "sema-unused-def-lambda-witharg-arg"}


def liveness(rep, ref, R):
    want = collections.Counter()
    for D in R.defs:
        if D.kind in LIVE and not D.uses:
            want[(LIVE[D.kind], D.range, D.name)] += 1
    for w in R.withnodes:
        if not R.withs[id(w)]:
            want[("sema-extra-with", (w.lo, w.lo + 4))] += 1
    for n, e in R.recs:
        if n is not None and n.k == "Attrs" and not any(d.uses for d in e.defs.values()):
            want[("sema-extra-rec", (n.lo, n.lo + 3))] += 1
    return diff(bag(rep["diags"], tuple(LIVE.values()) + ("sema-extra-with", "sema-extra-rec")), want, "liveness")


def builtins(rep, ref, R):
    """Diagnostics about builtins. Programs that bind `builtins` themselves are
    only judged for the references."""
    want = collections.Counter()
    rebound = any(D.name == "builtins" for D in R.defs)

    def globally(name, env):
        while env:
            if name in env.defs:
                return env.defs[name].kind == "builtin"
            env = env.up
        return False
    for D in R.defs:
        if D.name in sema.PRIMOPS and not (getattr(D, "frombuiltins", False)):
            want[("sema-primop-overridden", D.range, D.name)] += 1
        if D.name in sema.CONSTANTS:
            want[("sema-constant-overridden", D.range, D.name)] += 1
    for n in walk(ref):
        if n.k == "Select" and n.e.k == "Var" and n.e.name == "builtins" and len(n.path) == 1 and id(n) in R.envs:
            a = n.path[0]
            if a.kind not in ("id", "str"):
                continue
            env = R.envs[id(n)]
            if not globally("builtins", env):
                continue
            if a.name in sema.PRIMOPS:
                if globally(a.name, env):
                    want[("sema-primop-removed-prefix", (n.e.lo, n.e.hi))] += 1
            elif "__" + a.name not in sema.PRIMOPS:
                c = not a.name.startswith("_") and (a.name in sema.CONSTANTS or "__" + a.name in sema.CONSTANTS)
                if not c and a.name != "builtins":
                    want[("sema-primop-unknown", (a.lo, a.hi), a.name)] += 1
    for D in R.defs:
        if D.kind == "let" and getattr(D, "frombuiltins", False) and D.name in sema.PRIMOPS:
            env = R.envs[id(D.owner)]
            if globally(D.name, env) and not rebound:
                want[("sema-primop-removed-prefix", D.range)] += 1
    if rebound:
        return []
    return diff(bag(rep["diags"], ("sema-primop-overridden", "sema-constant-overridden", "sema-primop-removed-prefix",
                                   "sema-primop-unknown")), want, "builtins")


def attrsets(rep, ref, R, cmp):
    """C06: desugared attribute sets, duplicates."""
    errs = []
    nd = rep["nodes"]
    M = R.model
    judged = 0

    def value(v, a, where):
        if v is None:
            errs.append("%s: no value" % where)
            return
        if a.nested is not None:
            if nd[v]["k"] != "ExprAttrs":
                errs.append("%s: is a %s, not an attribute set" % (where, nd[v]["k"]))
            else:
                attrs(v, a.nested, where)
        elif rng(rep, v) != (a.value.lo, a.value.hi):
            errs.append("%s: value spans %s, want %s" % (where, rng(rep, v), (a.value.lo, a.value.hi)))

    def attrs(i, s, where):
        nonlocal judged
        judged += 1
        n = nd[i]
        if bool(n["semarec"]) != bool(s.rec):
            errs.append("%s: recursive %s, want %s" % (where, n["semarec"], s.rec))
        got = dict(n["static"])
        if set(got) != set(s.static):
            errs.append("%s: attributes %s, want %s" % (where, sorted(got), sorted(s.static)))
            return
        for name, a in s.static.items():
            key, v, kind = got[name]
            w = where + "." + name
            if rng(rep, key) != (a.key.lo, a.key.hi):
                errs.append("%s: key at %s, want %s" % (w, rng(rep, key), (a.key.lo, a.key.hi)))
            if kind != {"plain": 0, "inherit": 1, "from": 2}[a.kind]:
                errs.append("%s: kind %s, want %s" % (w, kind, a.kind))
                continue
            if a.kind == "plain":
                value(v, a, w)
            elif a.kind == "inherit":
                if v is None or nd[v]["k"] != "ExprVar" or nd[v]["name"] != name:
                    errs.append("%s: inherit is not desugared to a variable" % w)
            else:
                if v is None or nd[v]["k"] != "ExprSelect":
                    errs.append("%s: inherit (e) is not desugared to a selection" % w)
                    continue
                names = [nd[x].get("name") for x in nd[nd[v]["path"]]["names"]]
                if rng(rep, nd[v]["expr"]) != (a.value.lo, a.value.hi) or names != [name]:
                    errs.append("%s: inherit (e) is desugared to %s of %s" % (w, names, rng(rep, nd[v]["expr"])))
        if len(n["dynamic"]) != len(s.dynamic):
            errs.append("%s: %d dynamic attributes, want %d" % (where, len(n["dynamic"]), len(s.dynamic)))
            return
        for (key, v, kind), (k, a) in zip(n["dynamic"], s.dynamic):
            if rng(rep, key) != (k.lo, k.hi):
                errs.append("%s: dynamic key at %s, want %s" % (where, rng(rep, key), (k.lo, k.hi)))
            else:
                value(v, a, where + ".${}")
    for n in walk(ref):   # those in values that were dropped as duplicates
        if n.k in ("Attrs", "Let", "LegacyLet") and id(n) not in M.sets:
            M.build(n)
    for n in walk(ref):
        if n.k in ("Attrs", "Let", "LegacyLet") and id(n) in cmp.map:
            s = M.sets[id(n)]
            if s.gone:
                continue
            i = cmp.map[id(n)]
            if n.k != "Attrs":
                i = nd[i]["attrs"]
                if i is None:
                    if s.static or s.dynamic:
                        errs.append("%s at %d: no attributes" % (n.k, n.lo))
                    continue
            attrs(i, s, "%s@%d" % (n.k, n.lo))
    want = collections.Counter()
    for r, name, prev in M.dups:
        want[("sema-duplicated-attrname", r, name)] += 1
    for r in M.dyninherit:
        want[("sema-dynamic-inherit", r)] += 1
    words = {}
    for r, first in M.diffrec:
        want[("merge-diff-rec", r)] += 1
        words.setdefault(r, set()).add(("",) + ("non-", "") if first else ("non-",) + ("", "non-"))
    errs += diff(bag(rep["diags"], ("sema-duplicated-attrname", "sema-dynamic-inherit", "merge-diff-rec")), want, "attrs")
    prevs = {}
    for d in rep["diags"]:
        if d["s"] == "merge-diff-rec" and tuple(d["r"][:2]) in words:
            a = tuple(x for n in d["notes"] for x in n["args"])
            if a not in words[tuple(d["r"][:2])] or len(d["notes"]) != 2:
                errs.append("the notes of merge-diff-rec at %s say %s, want %s" % (d["r"][:2], a, words[tuple(d["r"][:2])]))
        if d["s"] == "sema-duplicated-attrname":
            prevs.setdefault(tuple(d["r"][:2]), set()).update(tuple(n["r"][:2]) for n in d["notes"])
    for r, name, prev in M.dups:
        if r in prevs and prev not in prevs[r]:
            errs.append("duplicate %s at %s refers to %s, want %s" % (name, r, prevs[r], prev))
    return errs, judged

"""Checks of lspserver: positions, edits, drafts, URIs, codecs (lspprobe), and
ports and server (portprobe), under ASan+UBSan and TSan."""
import json
import os
import re
import time

import codec
import lsptext
import probe
import run


class Lsp(run.Check):
    builds = (("asan", ["lspprobe"]),)
    quick_cap = 40

    def init(self, ctx):
        ctx.p = {k: probe.Probe(v, timeout=30) for k, v in ctx.paths.items()}

    def done(self, ctx):
        for p in ctx.p.values():
            if "tsan" in p.path and p.p is not None:
                self.races(ctx, p, None)
            p.stop()

    def races(self, ctx, p, data):
        """Reports of ThreadSanitizer since the last call."""
        p.err.seek(0, 2)
        end = p.err.tell()
        off = getattr(p, "seen", 0) if getattr(p, "seen_err", None) is p.err else 0
        p.seen, p.seen_err = end, p.err
        p.err.seek(off)
        t = p.err.read().decode(errors="replace")
        p.err.seek(0, 2)
        if "WARNING: ThreadSanitizer" in t:
            ctx.violation("data race: " + re.sub(r"\(pid=\d+\)|0x[0-9a-f]+", "", t)[:1500], data or t[:3000], key="race")

    def ask(self, ctx, q, which=None, key=None):
        p = ctx.p[which or next(iter(ctx.p))]
        try:
            # raw UTF-8: LLVM misreads escapes of some surrogate pairs
            return p.ask(json.dumps(q, ensure_ascii=False).encode())
        except probe.Crash as c:
            ctx.violation("the server %s: %s" % ("hangs" if c.kind == "hang" else "dies", c.detail.splitlines()[0]),
                          {"request": q, "detail": c.detail[:2000]}, key=key or json.dumps(q)[:300])
            return None


class C14(Lsp):
    id = "C14"
    quick = 20000
    thorough = 150000
    rule = "texts that contain at least one character outside of ASCII, with every offset and random positions judged"

    def fixed(self):
        return ["", "a", "é", "😀", "a😀b\né\n", "\n\n", "a\r\nb", "😀😀", "\U0010ffff", "x" * 300]

    def case(self, ctx, i):
        r = ctx.rng(i)
        self.judge(ctx, lsptext.text(r, r.choice([0, 1, 2, 3, 8, 20, 60]), newline=r.choice([.05, .2])))

    def judge(self, ctx, s):
        r = lsptext.rng(self.id, s)
        starts = lsptext.line_starts(s)
        qs = []
        for l in range(len(starts) + 1):
            end = starts[l + 1] - 1 if l + 1 < len(starts) else len(s)
            n = lsptext.units(s[starts[l]:end]) if l < len(starts) else 2
            qs += [[l, c] for c in range(min(n + 3, 90))]
        qs += [[-1, 0], [0, -1], [-5, -5], [0, 2147483647], [2147483647, 0], [len(starts), 0], [r.randrange(len(starts)), 1 << 20]]
        b = s.encode()
        rep = self.ask(ctx, {"op": "pos", "hex": b.hex(), "queries": qs})
        if rep is None:
            return
        off = {}
        o = 0
        for k, c in enumerate(s):
            off[k] = o
            o += len(c.encode())
        off[len(s)] = o
        for k in range(len(s) + 1):
            want = lsptext.to_pos(s, k)
            ctx.count("offsets")
            if rep["pos"][off[k]] != want:
                ctx.violation("offset %d of the text is at %s, not at %s" % (off[k], want, rep["pos"][off[k]]), s)
                return
            if rep["len"][off[k]] != lsptext.units(s[k:]):
                ctx.violation("%r has %d UTF-16 code units, not %d" % (s[k:], lsptext.units(s[k:]), rep["len"][off[k]]), s)
                return
        for (l, c), st, lx in zip(qs, rep["strict"], rep["lax"]):
            ctx.count("positions")
            want = lsptext.to_index(s, l, c, True, starts)
            if want == "mid":
                ctx.count("positions in surrogate pairs")
                k = lsptext.to_index(s, l, c - 1, True, starts)
                if st is not None:
                    ctx.violation("position %d:%d splits a surrogate pair, but is accepted" % (l, c), s)
                if lx is None or not off[k] <= lx <= off[k + 1]:
                    ctx.violation("position %d:%d in a surrogate pair is taken for offset %s" % (l, c, lx), s)
                continue
            if st != (None if want is None else off[want]):
                ctx.violation("position %d:%d is offset %s, not %s (strictly)" % (l, c, None if want is None else off[want], st), s)
                return
            want = lsptext.to_index(s, l, c, False, starts)
            if lx != (None if want is None else off[want]):
                ctx.violation("position %d:%d is offset %s, not %s" % (l, c, None if want is None else off[want], lx), s)
                return
        if any(ord(c) > 127 for c in s):
            ctx.distinct(s)
            ctx.sample(s[:60])
        # damaged UTF-8 must not lead outside of the text
        bad = bytearray(b)
        for _ in range(r.randint(1, 4)):
            k = r.randrange(len(bad) + 1)
            bad[k:k + r.choice([0, 1])] = bytes([r.choice([0x80, 0xbf, 0xc0, 0xc3, 0xe2, 0xf0, 0xf4, 0xf8, 0xff])])
        rep = self.ask(ctx, {"op": "pos", "hex": bytes(bad).hex(), "queries": qs})
        if rep is None:
            return
        ctx.count("damaged texts")
        for v in rep["strict"] + rep["lax"]:
            if v is not None and not 0 <= v <= len(bad):
                ctx.violation("an offset lies outside of the text: %s" % v, bytes(bad).hex())
                return


class C15(Lsp):
    id = "C15"
    quick = 30000
    thorough = 120000
    rule = "sequences of changes in which at least one change applied and altered the text"

    def change(self, r, s):
        """(change, expected: ('ok', text) | ('error', None))"""
        starts = lsptext.line_starts(s)
        k = r.random()
        new = lsptext.text(r, r.choice([0, 0, 1, 1, 2, 5, 12]))
        if k < .08:
            return {"text": new}, ("ok", new)
        a, b = sorted((r.randint(0, len(s)), r.randint(0, len(s))))
        if r.random() < .5:
            b = min(b, a + r.choice([0, 1, 2, 3]))
        pa, pb = lsptext.to_pos(s, a), lsptext.to_pos(s, b)
        want = ("ok", s[:a] + new + s[b:])
        length = lsptext.units(s[a:b])
        t = s
        if k < .14 and a != b:
            pa, pb = pb, pa
            want = ("error", None)
        elif k < .20:
            w = r.choice(["char", "line", "neg"])
            p = pa if r.random() < .5 else pb
            if w == "char":
                l = p[0]
                end = starts[l + 1] - 1 if l + 1 < len(starts) else len(s)
                p[1] = lsptext.units(s[starts[l]:end]) + r.randint(1, 5)
            elif w == "line":
                p[0] = len(starts) + r.randint(1, 4)
            else:
                p[r.randrange(2)] = -r.randint(1, 3)
            want = ("error", None)
        elif k < .26:
            # the editor thinks that the last line ends in a newline
            if not s.endswith("\n"):
                pb = [len(starts), 0]
                if r.random() < .3:
                    pa = list(pb)
                    a = len(s) + 1
                t = s + "\n"
                want = ("ok", t[:a] + new)
                length = lsptext.units(t[a:])
        elif k < .32:
            mids = [x for x in range(len(s)) if ord(s[x]) > 0xFFFF]
            if mids:
                m = lsptext.to_pos(s, r.choice(mids))
                m[1] += 1
                if r.random() < .5:
                    pa, pb = m, (m if r.random() < .5 else max(m, pb))
                else:
                    pa, pb = min(pa, m), m
                want = ("error", None)
        c = {"range": {"start": {"line": pa[0], "character": pa[1]}, "end": {"line": pb[0], "character": pb[1]}}, "text": new}
        if r.random() < .5:
            c["rangeLength"] = length
            if r.random() < .2:
                c["rangeLength"] += r.choice([-1, 1, 2, 7])
                want = ("error", None)
        return c, want

    def case(self, ctx, i):
        r = ctx.rng(i)
        s = lsptext.text(r, r.choice([0, 1, 3, 10, 30]), newline=r.choice([.05, .2]))
        cs, wants, cur = [], [], s
        for _ in range(r.randint(1, 12)):
            c, w = self.change(r, cur)
            cs.append(c)
            wants.append(w)
            if w[0] == "ok":
                cur = w[1]
            elif not cur.endswith("\n"):
                # a rejected change may infer the final newline: see DESIGN.md; give it none to infer
                pass
        self.judge(ctx, [s, cs, wants])

    def judge(self, ctx, data):
        s, cs, wants = data
        rep = self.ask(ctx, {"op": "changes", "text": s, "changes": cs})
        if rep is None:
            return
        cur = s
        alters = 0
        for c, w, (st, got) in zip(cs, wants, rep["out"]):
            ctx.count("changes")
            if st != w[0]:
                ctx.violation("a change that is %s is reported as %s: %s on %r" %
                              ("valid" if w[0] == "ok" else "invalid", st, json.dumps(c), cur), data)
                return
            want = w[1] if w[0] == "ok" else cur
            ctx.count("applied" if w[0] == "ok" else "rejected")
            if got != want:
                if w[0] == "error" and got == cur + "\n":
                    ctx.count("newline inferred by a rejected change")
                    return
                ctx.violation("after %s, %r becomes %r instead of %r" % (json.dumps(c), cur, got, want), data)
                return
            alters += cur != want
            cur = want
        if alters:
            ctx.distinct([s, cs])
            ctx.sample([s[:40], cs[:2]])


def numeric(v):
    return re.fullmatch(r"-?\d+", v) is not None


class C16(Lsp):
    id = "C16"
    builds = (("asan", ["lspprobe"]), ("tsan", ["lspprobe"]))
    quick = 8000
    thorough = 100000
    quick_cap = 45
    deterministic = False
    rule = "sequential histories of a draft store, and concurrent ones in which operations of different threads overlapped"
    FILES = ["/a.nix", "/b.nix", "/dir/c d.nix", "/é.nix"]

    def op(self, r, files, tag, n, auto=True):
        f = r.choice(files)
        k = r.random()
        if k < .4:
            v = "" if auto and r.random() < .3 else str(r.randint(-2, 30))
            return ["add", f, v, "%s.%d %s" % (tag, n, lsptext.text(r, 3).replace("\x00", ""))]
        if k < .55:
            return ["remove", f]
        if k < .85:
            return ["get", f]
        if k < .93:
            return ["files"]
        return ["vfs", f]

    def case(self, ctx, i):
        r = ctx.rng(i)
        if i % 3:
            ops = [self.op(r, self.FILES[:r.randint(1, 4)], "s", n) for n in range(r.randint(1, 30))]
            ops += [["enc", r.choice([None, 0, 1, -1, 2 ** 31, -2 ** 63, 2 ** 63 - 1, r.randint(-9 ** 9, 9 ** 9)])],
                    ["dec", r.choice(["", "0", "7", "-3", "9223372036854775807", "x", "1x", "12345"])]]
            texts = []      # what was there may come again
            for o in ops:
                if o[0] == "add":
                    if texts and r.random() < .3:
                        o[3] = r.choice(texts[-3:])
                    texts.append(o[3])
            self.sequential(ctx, ops)
        else:
            files = self.FILES[:r.choice([1, 1, 2, 3])]
            ths = [[self.op(r, files, "t%d" % t, n, auto=False) for n in range(r.randint(2, 7))] for t in range(r.randint(2, 5))]
            self.concurrent(ctx, ths, "tsan/lspprobe" if i % 2 else "asan/lspprobe")

    def step(self, st, op):
        """(new state, result) of one operation; a version of None: any number above the previous."""
        k = op[0]
        if k == "add":
            return {**st, op[1]: (op[2], op[3])}, op[2]
        if k == "remove":
            st = dict(st)
            st.pop(op[1], None)
            return st, None
        if k == "get":
            return st, list(st[op[1]]) if op[1] in st else None
        if k == "files":
            return st, sorted(st, key=lambda f: f.encode())
        if k == "vfs":
            return st, st[op[1]][1] if op[1] in st else None

    def sequential(self, ctx, ops):
        rep = self.ask(ctx, {"op": "draft", "ops": ops}, "asan/lspprobe")
        if rep is None:
            return
        st, held = {}, []
        for op, got in zip(ops, rep["out"]):
            ctx.count("operations")
            if op[0] == "enc":
                want = "" if op[1] is None else str(op[1])
            elif op[0] == "dec":
                want = int(op[1]) if numeric(op[1]) else None
            elif op[0] == "add" and op[2] == "":
                old = st[op[1]][0] if op[1] in st else None
                ctx.count("versions assigned")
                if not numeric(got) or (old is not None and old.isdigit() and not int(got) > int(old)):
                    ctx.violation("the version after %s is %s" % (old, got), ops)
                    return
                st, _ = self.step(st, ["add", op[1], got, op[3]])
                continue
            else:
                st, want = self.step(st, op)
            if got != want:
                ctx.violation("%s gives %r instead of %r" % (json.dumps(op), got, want), ops)
                return
            if op[0] == "get":
                held.append(want)
        if held != rep["held"]:
            ctx.violation("a draft that was handed out changed later on", ops)
        ctx.distinct(ops)
        ctx.sample(ops[:4])

    def concurrent(self, ctx, ths, which):
        rep = self.ask(ctx, {"op": "draftmt", "threads": ths}, which)
        if rep is None:
            return
        if which.startswith("tsan"):
            self.races(ctx, ctx.p[which], ths)
            ctx.count("histories under TSan")
        evs = []
        for t, (ops, log) in enumerate(zip(ths, rep["logs"])):
            for n, (op, (a, b, res)) in enumerate(zip(ops, log)):
                evs.append((a, b, t, n, op, res))
        over = sum(1 for x in evs for y in evs if x[2] < y[2] and x[0] <= y[1] and y[0] <= x[1])
        ctx.count("concurrent operations", len(evs))
        ctx.count("overlapping pairs", over)
        if not self.linear(ths, rep["logs"]):
            ctx.violation("the history is not linearizable: " + json.dumps([[e[0], e[1], e[2], e[4], e[5]] for e in sorted(evs)]),
                          ["mt", ths, rep["logs"]])
            return
        if over:
            order = sorted(range(len(evs)), key=lambda k: evs[k][0])
            ctx.distinct([ths, [(evs[k][2], evs[k][3]) for k in order]])

    def linear(self, ths, logs):
        """Wing & Gong with memoization."""
        n = len(ths)
        seen = set()

        def key(pos, st):
            return (pos, tuple(sorted(st.items())))
        stack = [((0,) * n, {})]
        while stack:
            pos, st = stack.pop()
            if all(pos[t] == len(ths[t]) for t in range(n)):
                return True
            first = min(logs[t][pos[t]][1] for t in range(n) if pos[t] < len(ths[t]))
            for t in range(n):
                if pos[t] < len(ths[t]) and logs[t][pos[t]][0] <= first:
                    st2, want = self.step(st, ths[t][pos[t]])
                    if want != logs[t][pos[t]][2]:
                        continue
                    p2 = pos[:t] + (pos[t] + 1,) + pos[t + 1:]
                    k = key(p2, st2)
                    if k not in seen:
                        seen.add(k)
                        stack.append((p2, st2))
        return False

    def judge(self, ctx, data):
        if data and data[0] == "mt":
            for _ in range(200):
                self.concurrent(ctx, data[1], "asan/lspprobe")
        else:
            self.sequential(ctx, data)


UNRESERVED = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.~"


def pdecode(b):
    out, i = bytearray(), 0
    while i < len(b):
        if b[i] == 0x25 and re.match(rb"[0-9A-Fa-f]{2}", b[i + 1:i + 3]):
            out.append(int(b[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(b[i])
            i += 1
    return bytes(out)


class C17(Lsp):
    id = "C17"
    quick = 20000
    thorough = 400000
    rule = "paths and URIs with at least one character that has to be escaped"

    def path(self, r):
        out = b""
        for _ in range(r.randint(1, 5)):
            out += b"/"
            for _ in range(r.choice([0, 1, 1, 3, 8])):
                k = r.random()
                if k < .5:
                    out += bytes([r.choice(b"abcXYZ019-_.~")])
                elif k < .8:
                    out += bytes([r.choice(b" %#?&=+:@!$'()*,;[]{}|\\^`\"<>\t\n\x01\x7f")])
                elif k < .9:
                    out += r.choice(lsptext.CHARS).replace("\x00", "x").encode()
                elif k < .95:
                    out += b"%" + r.choice([b"41", b"2f", b"2F", b"zz", b"4", b"", b"25"])
                else:
                    out += bytes([r.randint(128, 255)])
        return out

    def uri(self, r):
        s = r.choice([b"file", b"file", b"file", b"untitled", b"FILE", b"git+x", b"a.b-c", b"vscode-remote", b"", b"1a", b"f%69le", b"ht tp"])
        auth = r.choice([b"//", b"//", b"//", b"//host", b"//u@h:80", b"//a%20b", b""])
        body = b"".join(r.choice([b"/", b"a", b"b c", b"%20", b"%2F", b"%e6%bc%a2", b"%zz", b"%4", b"%", "é".encode(), b"?q=1", b"#f", b".", b"..", b":"])
                        for _ in range(r.randint(0, 7)))
        if r.random() < .7:
            body = b"/" + body
        return r.choice([b"", b":"]).join([s, b""]) + (b":" if r.random() < .95 and not s.endswith(b":") else b"") + auth + body

    def fixed(self):
        return [["//server", "//server/share/x", "///x", "/", "/C:", "//", "/c:/x", "/a:b"], []]

    def case(self, ctx, i):
        r = ctx.rng(i)
        ps = [self.path(r).decode("latin1") for _ in range(12)]
        us = [self.uri(r).decode("latin1") for _ in range(12)]
        self.run1(ctx, ps, us)

    def judge(self, ctx, data):
        if data and isinstance(data[0], list):
            self.run1(ctx, data[0], data[1])
        else:
            self.run1(ctx, data, [])

    def run1(self, ctx, ps, us):
        pb = [p.encode("latin1") for p in ps]
        ub = [u.encode("latin1") for u in us]
        files = []
        for u in ub:
            try:
                files.append(u.decode())
            except UnicodeDecodeError:
                files.append("")
        rep = self.ask(ctx, {"op": "uri", "paths": [p.hex() for p in pb], "uris": [u.hex() for u in ub], "files": files})
        if rep is None:
            return
        for p, r in zip(pb, rep["paths"]):
            ctx.count("paths")
            u = bytes.fromhex(r["uri"])
            if not re.fullmatch(rb"file://(?:[A-Za-z0-9._~!$&'()*+,;=:@/-]|%[0-9A-Fa-f]{2})*", u):
                ctx.violation("the URI of path %r is malformed: %r" % (p, u), [[p.decode("latin1")], []])
                continue
            # the root of a network (POSIX leaves the meaning of two slashes open)
            network = re.match(rb"//[^/]", p)
            if not network and (not u.startswith(b"file:///") or pdecode(u[7:]) != p):
                ctx.violation("the URI of path %r is %r" % (p, u), [[p.decode("latin1")], []])
                continue
            if network and p.count(b"/") == 2:
                ctx.count("network roots")
                continue
            for k in ("resolve", "resolve2", "canonical"):
                if r.get(k) != p.hex():
                    ctx.violation("the URI %r of path %r resolves to %r (%s)" % (u, p, bytes.fromhex(r.get(k) or ""), k), [[p.decode("latin1")], []])
                    break
            if r["canonicaluri"] != r["uri"]:
                ctx.violation("path %r has two URIs: %r, %r" % (p, u, bytes.fromhex(r["canonicaluri"])), [[p.decode("latin1")], []])
            if any(c not in UNRESERVED + b"/" for c in p):
                ctx.distinct(p)
                ctx.sample(repr(p))
        for u, r, f, rf in zip(ub, rep["uris"], files, rep["files"]):
            ctx.count("URIs")
            i = u.find(b":")
            want = None
            if i >= 0 and re.fullmatch(rb"[A-Za-z][A-Za-z0-9+.-]*", pdecode(u[:i])):
                rest = u[i + 1:]
                auth = b""
                if rest.startswith(b"//"):
                    j = rest.find(b"/", 2)
                    j = len(rest) if j < 0 else j
                    auth, rest = rest[2:j], rest[j:]
                want = [pdecode(u[:i]), pdecode(auth), pdecode(rest)]
            got = None if r is None else [bytes.fromhex(r[k]) for k in ("scheme", "authority", "body")]
            if want != got:
                ctx.violation("the URI %r is parsed as %s, not as %s" % (u, got, want), [[], [u.decode("latin1")]])
                continue
            if b"%" in u:
                ctx.distinct(u)
            if f == "":
                continue
            ctx.count("file URIs")
            ok = want is not None and want[0] == b"file" and want[2].startswith(b"/")
            if not ok:
                if rf is not None:
                    ctx.violation("the URI %r is taken for the file %r" % (u, bytes.fromhex(rf["file"])), [[], [u.decode("latin1")]])
                continue
            path = want[2]
            if want[1]:
                path = b"//" + want[1] + path
            if re.fullmatch(rb"//[^/]+", path):
                ctx.count("network roots")
                if rf is not None:
                    ctx.violation("the URI %r is taken for the relative file %r" % (u, bytes.fromhex(rf["file"])), [[], [u.decode("latin1")]])
                continue
            if rf is None or bytes.fromhex(rf["file"]) != path:
                ctx.violation("the URI %r is not the file %r" % (u, path), [[], [u.decode("latin1")]])


class C21(Lsp):
    id = "C21"
    quick = 40000
    thorough = 600000
    rule = "messages decoded and encoded again with all fields compared, and damaged messages"

    def case(self, ctx, i):
        r = ctx.rng(i)
        items, wants = [], []
        for _ in range(8):
            t, v, w = codec.item(r)
            items.append([t, v])
            wants.append(w)
        self.run1(ctx, items, wants)

    def judge(self, ctx, data):
        self.run1(ctx, [data[0]], [data[1]])

    def fixed(self):
        return [[["CodeAction", {"title": "x", "edit": {"documentChanges": [{"kind": "create", "uri": "file:///a"}]}}],
                 {"title": "x", "edit": {"documentChanges": [{"kind": "create", "uri": "file:///a"}]}}],
                [["CompletionItem", {"label": "x", "kind": 5}], {"label": "x", "kind": 5, "score": 0, "data": ""}],
                [["CompletionItem", {"label": "x"}], {"label": "x", "score": 0, "data": ""}],
                [["CompletionItem", {"label": "x", "documentation": "text"}], codec.ANY],
                [["CompletionItem", 3], codec.BAD], [["MarkupContent", {"kind": "html", "value": "x"}], codec.ANY],
                [["MarkupContent", None], codec.ANY],
                [["enc:FoldingRange", {"startLine": 1, "startCharacter": 0, "endLine": 3, "endCharacter": 0, "kind": "region"}],
                 {"startLine": 1, "startCharacter": 0, "endLine": 3, "endCharacter": 0, "kind": "region"}]]

    def run1(self, ctx, items, wants):
        rep = self.ask(ctx, {"op": "codec", "items": items})
        if rep is None:
            return
        for it, w, got in zip(items, wants, rep["out"]):
            ctx.count(it[0])
            if w == codec.ANY:
                ctx.count("only required to be survived")
                continue
            if w == codec.BAD:
                if got.get("ok", True):
                    ctx.violation("a malformed %s is accepted: %s" % (it[0], json.dumps(it[1])), [it, w])
                else:
                    ctx.count("rejected")
                continue
            if not got.get("ok", True):
                ctx.violation("a valid %s is rejected: %s" % (it[0], json.dumps(it[1])), [it, w])
                continue
            d = codec.diff(w, got["enc"])
            if d and it[0] == "enc:FoldingRange":
                short = {k: x for k, x in w.items() if not (k in ("startCharacter", "endCharacter") and x == 0)}
                if not codec.diff(short, got["enc"]):
                    ctx.violation("%s %s: %s" % (it[0], json.dumps(it[1]), d), [it, w], key="folding-zero")
                    continue
            if d:
                ctx.violation("%s %s: %s" % (it[0], json.dumps(it[1]), d), [it, w])
                continue
            ctx.distinct(it)
            ctx.sample(it)


# --- ports -------------------------------------------------------------------

def jval(r, depth=0):
    k = r.random()
    if k < .25 and depth < 3:
        return {r.choice(["a", "b", "line", "é", "", "x y"]) + str(n): jval(r, depth + 1) for n in range(r.randint(0, 4))}
    if k < .4 and depth < 3:
        return [jval(r, depth + 1) for _ in range(r.randint(0, 4))]
    if k < .55:
        return r.choice([0, 1, -1, 2 ** 31, -2 ** 63, 2 ** 63 - 1, r.randint(-9 ** 15, 9 ** 15)])
    if k < .62:
        return r.choice([0.5, -1.25, 1e300, 3.0e-5])
    if k < .72:
        return r.choice([True, False, None])
    return lsptext.text(r, r.choice([0, 1, 5, 30])) if k < .95 else "x" * r.choice([1000, 5000, 70000])


def same(a, b):
    """Equal as JSON values."""
    if type(a) is bool or type(b) is bool or a is None or b is None:
        return a is b
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(map(same, a, b))
    return type(a) in (int, float) and type(b) in (int, float) and a == b or type(a) is type(b) and a == b


METHODS = ["textDocument/hover", "initialize", "$/cancelRequest", "x", "", "a b", "é"]


class C18(Lsp):
    id = "C18"
    builds = (("asan", ["portprobe"]),)
    quick = 12000
    thorough = 250000
    deterministic = False
    rule = "streams of at least two messages that were delivered in at least two pieces, or in pieces with junk in between"

    def message(self, r):
        """(message, event)"""
        k = r.random()
        i = r.choice([r.randint(0, 99), r.randint(-5, 2 ** 40), "s%d" % r.randint(0, 9), "", 1.5])
        m = r.choice(METHODS)
        v = {"jsonrpc": "2.0"}
        p = None
        if r.random() < .85:
            p = v["params"] = jval(r)
        if k < .35:
            v["method"] = m
            return v, ["notify", m, p]
        if k < .7:
            v.update(method=m, id=i)
            return v, ["call", m, p, i]
        v.pop("params", None)
        v["id"] = i
        if k < .85:
            res = None
            if r.random() < .9:
                res = v["result"] = jval(r)
            return v, ["reply", i, res]
        e = {"message": lsptext.text(r, 5)}
        if r.random() < .8:
            e["code"] = r.choice([-32601, -32602, 0, 7, -32800])
        v["error"] = e
        return v, ["error", i, e["message"], e.get("code")]

    def encode(self, r, v):
        if r.random() < .2:
            items = list(v.items())
            r.shuffle(items)
            v = dict(items)
        t = json.dumps(v, ensure_ascii=False, indent=r.choice([None, None, 2]))
        if r.random() < .2 and not re.search("[\U00010000-\U0010ffff]", t):
            t = json.dumps(v)
        return r.choice(["", "", "", " ", "\n"]) .encode() + t.encode() + r.choice(["", "", "\n", " \r\n"]).encode()

    def frame(self, r, b, n=None):
        eol = b"\r\n" if r.random() < .9 else b"\n"
        h = [b"Content-Length: " + (b"00" if r.random() < .05 else b"") + str(len(b) if n is None else n).encode() + (b" " if r.random() < .05 else b"")]
        if r.random() < .2:
            h.insert(r.randint(0, 1), r.choice([b"Content-Type: application/vscode-jsonrpc; charset=utf-8", b"X: y", b"X-Long: " + b"z" * r.choice([100, 500, 5000])]))
        return eol.join(h) + eol * 2 + b

    def standard(self, r, clean):
        """(bytes, events, stops): stops: the stream may end after that many events."""
        out, evs, stops = b"", [], None
        for _ in range(r.choice([1, 2, 3, 6, 15])):
            k = r.random()
            if k < .86:
                v, e = self.message(r)
                out += self.frame(r, self.encode(r, v))
                evs.append(e)
            elif k < .96:
                v, _ = self.message(r)
                b = self.encode(r, v)
                bad = r.choice([b"", b"{", b.rstrip()[:-1], b"nope", b"\xff\xfe" + b, b + b"}", b'{"jsonrpc":"2.0",}', b"[" * 400])
                out += self.frame(r, bad)
            elif stops is None:
                v, _ = self.message(r)
                w = r.choice([[v], {**v, "jsonrpc": "1.0"}, {k: x for k, x in v.items() if k != "jsonrpc"}, 3, "x", None,
                              {"jsonrpc": "2.0"}, {"jsonrpc": 2.0, "method": "x"}])
                out += self.frame(r, json.dumps(w, ensure_ascii=False).encode())
                stops = len(evs)
        k = 1 if clean else r.random()
        if k < .25:
            v, _ = self.message(r)
            f = self.frame(r, self.encode(r, v).rstrip())
            out += f[:r.randrange(len(f))]
        elif k < .3:
            out += b"Content-Length: %d\r\n\r\n" % r.choice([2 ** 40, 2 ** 64 - 1, 2 ** 31, 2 ** 63]) + b"{}"
        return out, evs, stops

    def lit(self, r, clean):
        out, evs = [], []
        for _ in range(r.randint(1, 6)):
            out += [r.choice(["", "prose", "# RUN: x", "<-- initialize(0)", "   indented", "CHECK: `x`", "``"]) for _ in range(r.randint(0, 3))]
            if r.random() < .6:
                v, e = self.message(r)
                ls = json.dumps(v, indent=r.choice([None, 1, 3])).split("\n") if not re.search("[\U00010000-\U0010ffff]", json.dumps(v, ensure_ascii=False)) \
                    else json.dumps(v, ensure_ascii=False, indent=2).split("\n")
                for _ in range(r.choice([0, 0, 1, 2])):
                    ls.insert(r.randint(0, len(ls)), r.choice(["# comment", "  # {", ""]))
                if r.random() < .1:
                    ls.append("}")
                    e = None
                out += [r.choice(["```json", "```json lines", "  ```json"])] + ls + [r.choice(["```", "   ```"])]
                if e:
                    evs.append(e)
            else:
                u = r.choice(["file:///a.nix", "file:///b%20c.nix"])
                ls = [r.choice(["let", "  x = 1;", "in x", "", "\ty", "#c", "'' a ''", "é", "`"]) for _ in range(r.randint(0, 5))]
                out += ["```nix " + u] + ls + ["```"]
                evs.append(["notify", "textDocument/didOpen",
                            {"textDocument": {"uri": u, "languageId": "nix", "version": 1, "text": "".join(l + "\n" for l in ls).rstrip(" \t\n\v\f\r")}}])
        if r.random() < .2 and not clean:
            out += ["```json", '{"jsonrpc": "2.0", "method": "unfinished"}']
        return "".join(l + "\n" for l in out).encode(), evs, None

    def chunks(self, r, b):
        k = r.random()
        if k < .2:
            cuts = []
        elif k < .3 and len(b) < 2000:
            cuts = list(range(1, len(b)))
        else:
            cuts = sorted(r.randrange(len(b) + 1) for _ in range(r.randint(1, 12)))
        out, last = [], 0
        slow = r.random() < .4
        sig = r.random() < .3
        for c in cuts + [len(b)]:
            x = [b[last:c].hex(), r.choice([0, 0, 100, 600]) if slow and len(cuts) < 40 else 0]
            if sig and r.random() < .5 and len(cuts) < 40:
                x.append(r.randint(1, 3))
            out.append(x)
            last = c
        return out

    def case(self, ctx, i):
        r = ctx.rng(i)
        style = "lit" if i % 5 == 4 else "standard"
        hold = i % 97 == 5      # (a body that never comes is waited for)
        b, evs, stops = getattr(self, style)(r, hold)
        q = {"op": "inbound", "style": style, "chunks": self.chunks(r, b)}
        if r.random() < .3:
            q["capacity"] = 4096
        if evs and r.random() < .1:
            q["stop"] = r.randint(1, len(evs))
        elif hold and stops is None:
            q["hold"] = True
        self.run1(ctx, q, evs, stops)

    def judge(self, ctx, data):
        for _ in range(5):
            self.run1(ctx, *data)

    def run1(self, ctx, q, evs, stops):
        rep = self.ask(ctx, q, key=json.dumps(q)[:200])
        if rep is None:
            return
        got = rep["events"]
        for g, w in zip(got, evs):
            # an error without a code is malformed: its message may be decorated
            if g[0] == w[0] == "error" and w[3] is None and g[2].endswith(w[2]):
                g[2] = w[2]
        data = [q, evs, stops]
        ctx.count("streams")
        ctx.count("events", len(got))
        ctx.count("pieces", len(q["chunks"]))
        ctx.count("interruptions", sum(x[2] for x in q["chunks"] if len(x) > 2))
        wants = [evs]
        if "stop" in q:
            wants = [evs[:q["stop"]]]
            ctx.count("stopped by the handler")
        if stops is not None and ("stop" not in q or stops < q["stop"]):
            wants.append(evs[:stops])
        if q.get("hold"):
            ctx.count("closed by the server")
            # whatever arrives after closing is not read
            ok = same(got, evs[:len(got)])
        else:
            ok = any(same(got, w) for w in wants)
        if not ok:
            k = next((k for k in range(min(len(got), len(wants[0]))) if not same(got[k], wants[0][k])), min(len(got), len(wants[0])))
            ctx.violation("%d messages were sent, %d are delivered; message %d is %s instead of %s" %
                          (len(wants[0]), len(got), k, json.dumps(got[k:k + 1])[:300], json.dumps(wants[0][k:k + 1])[:300]), data)
            return
        if len(evs) > 1 and len(q["chunks"]) > 1:
            ctx.distinct([q["style"], q["chunks"]])
            ctx.sample([q["style"], len(q["chunks"]), evs[:2]] if len(json.dumps(evs[:2])) < 400 else [q["style"], len(q["chunks"])])


class C19(Lsp):
    id = "C19"
    builds = (("asan", ["portprobe"]), ("tsan", ["portprobe"]))
    quick = 3000
    thorough = 60000
    deterministic = False
    rule = "streams written by at least two threads in which messages of different threads interleave"

    def case(self, ctx, i):
        r = ctx.rng(i)
        ths = []
        for t in range(r.choice([1, 2, 3, 4, 8])):
            ops = []
            for n in range(r.choice([1, 5, 20])):
                p = {"t": t, "n": n, "v": jval(r)}
                k = r.random()
                if k < .4:
                    ops.append(["notify", r.choice(METHODS), p])
                elif k < .6:
                    ops.append(["call", r.choice(METHODS), p, r.choice([n, str(n), 2 ** 40])])
                elif k < .8:
                    ops.append(["reply", r.choice([n, "id", None]), p])
                elif k < .9:
                    ops.append(["lsperror", [t, n], lsptext.text(r, 6), r.choice([-32601, -32602, 1])])
                else:
                    ops.append(["error", [t, n], "failure %d" % n])
            ths.append(ops)
        q = {"op": "outbound", "threads": ths, "pretty": r.random() < .2, "unbuffered": r.random() < .3,
             "read": r.choice([1, 100, 4096, 65536])}
        if r.random() < .4:
            q["capacity"] = 4096
        if q["read"] == 1 and sum(len(json.dumps(o)) for t in ths for o in t) > 50000:
            q["read"] = 100
        self.run1(ctx, q, "tsan/portprobe" if i % 3 == 0 else "asan/portprobe")

    def judge(self, ctx, data):
        for w in ("asan", "tsan"):
            for _ in range(20):
                self.run1(ctx, data, w + "/portprobe")

    def expect(self, op):
        k, m = op[0], {"jsonrpc": "2.0"}
        if k == "notify":
            m.update(method=op[1], params=op[2])
        elif k == "call":
            m.update(method=op[1], params=op[2], id=op[3])
        elif k == "reply":
            m.update(id=op[1], result=op[2])
        elif k == "lsperror":
            m.update(id=op[1], error={"message": op[2], "code": op[3]})
        else:
            m.update(id=op[1], error={"message": op[2]})
        return m

    def run1(self, ctx, q, which):
        rep = self.ask(ctx, q, which, key=json.dumps(q)[:200])
        if rep is None:
            return
        if which.startswith("tsan"):
            self.races(ctx, ctx.p[which], q)
        b = bytes.fromhex(rep["hex"])
        pos, order = 0, []
        nxt = [0] * len(q["threads"])
        while pos < len(b):
            m = re.compile(rb"Content-Length: ([0-9]+)\r\n\r\n").match(b, pos)
            if not m or m.end() + int(m.group(1)) > len(b):
                ctx.violation("the stream is not framed at byte %d: %r" % (pos, b[pos:pos + 80]), q)
                return
            body = b[m.end():m.end() + int(m.group(1))]
            pos = m.end() + int(m.group(1))
            try:
                v = json.loads(body.decode())
            except ValueError as e:
                ctx.violation("a message is not JSON (%s): %r" % (e, body[:200]), q)
                return
            ctx.count("messages")
            try:
                t, n = v["id"] if "error" in v else [(v["params"] if "method" in v else v["result"])[k] for k in "tn"]
            except (KeyError, TypeError, ValueError):
                ctx.violation("a message was not sent by anybody: %r" % body[:300], q)
                return
            order.append(t)
            if n != nxt[t] or n >= len(q["threads"][t]):
                ctx.violation("message %s of thread %s comes after %s messages of that thread" % (n, t, nxt[t]), q)
                return
            nxt[t] += 1
            w = self.expect(q["threads"][t][n])
            if q["threads"][t][n][0] == "error" and "code" in v["error"]:
                v["error"].pop("code")
            if not same(v, w):
                ctx.violation("the message %s is sent as %r" % (json.dumps(w)[:300], body[:300]), q)
                return
        if nxt != [len(t) for t in q["threads"]]:
            ctx.violation("messages are lost: %s of %s arrived" % (nxt, [len(t) for t in q["threads"]]), q)
            return
        ctx.count("streams")
        ctx.count("bytes", len(b))
        ctx.count("changes of thread", sum(1 for a, c in zip(order, order[1:]) if a != c))
        # threads that alternate: not written one after the other
        if sum(1 for a, c in zip(order, order[1:]) if a != c) >= len(q["threads"]) > 1:
            ctx.distinct(order)
            ctx.sample(order[:40])


class C20(run.Check):
    id = "C20"
    builds = (("asan", ["portprobe"]), ("tsan", ["portprobe"]))
    quick = 1500
    thorough = 40000
    quick_cap = 60
    deterministic = False
    rule = "sessions with requests in both directions, in which every reply and every callback was accounted for"

    def case(self, ctx, i):
        cfg = "tsan" if i % 3 == 0 else "asan"
        self.session(ctx, i, ctx.rng(i), cfg, threaded=i % 2 == 1)

    def judge(self, ctx, data):
        for n in range(4):
            self.session(ctx, data["case"], ctx.rng(data["case"]), data["cfg"], data["threaded"])

    def session(self, ctx, i, r, cfg, threaded):
        import rpc
        data = {"case": i, "cfg": cfg, "threaded": threaded}
        bad = []

        def fail(what):
            bad.append(what)
            ctx.violation(what, data, key=what)
        s = rpc.Session(ctx.paths[cfg + "/portprobe"], ["server"])
        asked = {}      # token -> ("value", v) | ("error", code, msg)
        pend = []       # tokens whose calls are open, in order of their calls (not threaded)
        known = {}      # token -> id of the call
        calls = {}      # id -> (token, method)
        expect = {}     # id of a request -> predicate on the reply
        relays = {}
        replied = {}    # id -> reply
        table = {}      # token -> list of outcomes
        notes = []
        forgotten = set()
        nid = [0]
        total = 0

        def newid():
            nid[0] += 1
            return r.choice([nid[0], "q%d" % nid[0]])

        def evict():
            while len(pend) > 100:
                t = pend.pop(0)
                forgotten.add(t)
                if t in relays:
                    expect[relays[t]] = ("error", None, "fail")
                else:
                    table[t] = ["failed"]

        def drain(wait):
            for m in s.recv(wait):
                if "method" in m and "id" in m:
                    t = (m["params"] or {}).get("token")
                    if m["method"] not in ("client/ask", "client/asktyped") or t is None or t not in asked or m["id"] in calls:
                        fail("the server sends an unexpected call %s" % json.dumps(m)[:300])
                        continue
                    if t in known:
                        fail("the call of %s is sent twice" % t)
                    known[t] = m["id"]
                    calls[m["id"]] = t
                    if m["params"] != asked[t]:
                        fail("the parameters of a call are %s instead of %s" % (json.dumps(m["params"]), json.dumps(asked[t])))
                elif "method" in m:
                    fail("unexpected notification %s" % m["method"])
                else:
                    if m.get("id") in replied:
                        fail("the request %r gets two replies" % m.get("id"))
                    elif m.get("id") not in expect:
                        fail("a reply to %r, which was not requested" % m.get("id"))
                    replied[m.get("id")] = m

        def reply(t, again=True):
            """Answer the call of token t."""
            a = asked[t]
            k = r.random()
            m = {"jsonrpc": "2.0", "id": known[t]}
            typed = a.get("typed")
            if k < .2:
                m["error"] = {"code": r.choice([-32603, 5, -32800]), "message": "E" + t}
                out = "lsp:%d:E%s" % (m["error"]["code"], t)
            elif typed and k < .4:
                m["result"] = r.choice([{"line": 1}, [], "x", None])
                out = "failed"
            elif typed:
                m["result"] = {"line": r.randint(0, 99), "character": r.randint(0, 99)}
                out = m["result"]
            else:
                m["result"] = jval(r)
                out = [m["result"]]
            s.send(m)
            ctx.count("replies sent")
            if t in pend or (threaded and t not in forgotten and t not in table and t not in done):
                if t in pend:
                    pend.remove(t)
                done.add(t)
                if t in relays:
                    expect[relays[t]] = ("error", m["error"]["code"], m["error"]["message"]) if "error" in m else ("value", m["result"])
                else:
                    table[t] = [out]
                    if a.get("again", 0) > 0 and isinstance(out, list) and "error" not in m:
                        t2 = t + "+"
                        asked[t2] = {"token": t2, "again": a["again"] - 1}
                        pend.append(t2)
                        evict()
                return True
            ctx.count("late or duplicate replies")
            return False

        done = set()
        burst = r.random() < .3 and not threaded     # more than 100 open calls
        try:
            for n in range(r.choice([10, 40, 120]) + (130 if burst else 0)):
                k = r.random()
                if burst and k < .6:
                    k = .55
                if k < .10:
                    q = newid()
                    v = jval(r)
                    expect[q] = ("value", v)
                    s.send({"jsonrpc": "2.0", "id": q, "method": "echo", "params": v})
                elif k < .16:
                    q = newid()
                    good = r.random() < .6
                    v = {"line": 3, "character": r.randint(0, 9), "x": 1} if good else r.choice([{}, [], "x", {"line": "a", "character": 2}, None])
                    expect[q] = ("value", {"line": 3, "character": v["character"]}) if good else ("error", -32602, None)
                    s.send({"jsonrpc": "2.0", "id": q, "method": "typed", "params": v})
                elif k < .20:
                    q = newid()
                    c = r.choice([-32000, -32803, 77])
                    expect[q] = ("error", c, "F%d" % n)
                    s.send({"jsonrpc": "2.0", "id": q, "method": "fail", "params": {"code": c, "message": "F%d" % n}})
                elif k < .27:
                    q = newid()
                    v = {"us": r.choice([0, 0, 200, 2000]), "n": n}
                    expect[q] = ("value", v)
                    s.send({"jsonrpc": "2.0", "id": q, "method": "defer", "params": v})
                elif k < .31:
                    q = newid()
                    expect[q] = ("error", -32601, None)
                    s.send({"jsonrpc": "2.0", "id": q, "method": r.choice(["nope", "", "textDocument/none", "ECHO"]), "params": jval(r)})
                elif k < .37:
                    v = jval(r)
                    notes.append(v)
                    s.send({"jsonrpc": "2.0", "method": "note", "params": v})
                elif k < .40:
                    if r.random() < .5:
                        notes.append({"line": n, "character": 0})
                        s.send({"jsonrpc": "2.0", "method": "typednote", "params": {"line": n, "character": 0}})
                    else:
                        s.send({"jsonrpc": "2.0", "method": r.choice(["typednote", "unknown/note"]), "params": ["x"]})
                elif k < .43:
                    s.send(r.choice([{"jsonrpc": "2.0", "id": x, "result": 1} for x in (999999, -4, 0, "none", None, 2 ** 40, 2 ** 32 + 1)] +
                                    [{"jsonrpc": "2.0", "id": "zzz", "error": {"code": 1, "message": "x"}}]))
                    ctx.count("unknown replies")
                elif k < .62 and total < (400 if not threaded else 90):
                    t = "t%d" % n
                    total += 1
                    a = {"token": t, "v": jval(r)}
                    if r.random() < .3:
                        a["typed"] = True
                    elif r.random() < .3 and not threaded:
                        a["again"] = r.randint(1, 3)
                        total += a["again"]
                    if threaded and r.random() < .7:
                        a["thread"] = True
                    asked[t] = a
                    q = newid()
                    expect[q] = ("value", None)
                    s.send({"jsonrpc": "2.0", "id": q, "method": "ask", "params": a})
                    if not threaded:
                        pend.append(t)
                        evict()
                elif k < .68 and total < (400 if not threaded else 90):
                    t = "r%d" % n
                    total += 1
                    asked[t] = {"token": t}
                    q = newid()
                    relays[t] = q
                    expect[q] = None
                    s.send({"jsonrpc": "2.0", "id": q, "method": "relay", "params": asked[t]})
                    if not threaded:
                        pend.append(t)
                        evict()
                else:
                    drain(0 if r.random() < .5 else .002)
                    # reply to some of the calls: in any order, late, or twice
                    for t in r.sample(sorted(known), min(len(known), r.choice([0, 1, 2, 5]))):
                        if burst and t not in done and r.random() < .8:
                            continue
                        reply(t)
            end = time.time() + 20
            # wait for every call, then reply to most
            while time.time() < end and [t for t in asked if t not in known]:
                drain(.05)
            lost = [t for t in asked if t not in known]
            if lost:
                fail("calls are not sent: %s" % lost[:5])
            keep = set(r.sample(sorted(known), min(len(known), r.choice([0, 0, 3]))))
            for t in sorted(known):
                if t not in keep and t not in done:
                    reply(t)
            while time.time() < end and [t for t in asked if t not in known]:
                drain(.05)
            for t in list(keep):
                if t in relays and t not in done and t not in forgotten:
                    reply(t)
            q1, q2 = "table", "notes"
            want = {q for q in expect}
            while time.time() < end and not want <= set(replied):
                drain(.05)
            missing = [q for q in expect if q not in replied]
            if missing:
                fail("requests are not replied: %s" % missing[:5])
            expect[q1] = expect[q2] = "special"
            s.send({"jsonrpc": "2.0", "id": q1, "method": "table"})
            s.send({"jsonrpc": "2.0", "id": q2, "method": "notes"})
            while time.time() < end and not (q1 in replied and q2 in replied):
                drain(.05)
            if q1 not in replied or q2 not in replied:
                fail("the server does not reply any more")
            if r.random() < .5:
                s.send({"jsonrpc": "2.0", "method": "exit"})
                ctx.count("exit notifications")
            code, err = s.finish(close=True)
            for m in s.rest:
                fail("a message after the end: %s" % json.dumps(m)[:200])
        except rpc.Dead as d:
            code, err = s.finish(close=False)
            fail("the server dies: %s %s" % (d, probe.summary(err)))
            return
        if "ThreadSanitizer" in err or "Sanitizer" in err or "runtime error" in err:
            fail("a sanitizer reports: " + re.sub(r"\(pid=\d+\)|0x[0-9a-f]+", "", err)[:1500])
        if code != 0:
            fail("the server exits with %s: %s" % (code, err[-300:]))
        if bad:
            return
        for q, e in expect.items():
            if e == "special" or e is None:
                continue
            m = replied[q]
            ctx.count("replies")
            if e[0] == "value":
                if "error" in m or not same(m.get("result"), e[1]):
                    fail("the reply to %r is %s instead of %s" % (q, json.dumps(m)[:300], json.dumps(e[1])[:300]))
            else:
                x = m.get("error") or {}
                if "result" in m or not isinstance(x.get("code"), int) or not isinstance(x.get("message"), str) or \
                        (e[1] is not None and x["code"] != e[1]) or (e[2] is not None and e[2] not in x["message"]):
                    fail("the reply to %r is %s instead of the error %s" % (q, json.dumps(m)[:300], e[1:]))
        got = replied[q1]["result"]
        for t in sorted(set(got) | set(table)):
            ctx.count("callbacks")
            a, w = got.get(t), table.get(t)
            if w == ["failed"]:
                ok = a is not None and len(a) == 1 and isinstance(a[0], str)
                ctx.count("failed callbacks")
            else:
                ok = a is not None and w is not None and same(a, w)
            if not ok:
                fail("the callback of %s sees %s instead of %s" % (t, json.dumps(a)[:300], json.dumps(w)[:300]))
        if not same(replied[q2]["result"], notes):
            fail("notifications are handled as %s instead of %s" % (json.dumps(replied[q2]["result"])[:400], json.dumps(notes)[:400]))
        ctx.count("sessions")
        ctx.count("forgotten calls", len(forgotten))
        ctx.count("sessions with TSan" if cfg == "tsan" else "sessions with ASan")
        if calls and len(expect) > 3:
            ctx.distinct([i, cfg, len(calls), len(expect), len(forgotten)])
            ctx.sample({"requests": len(expect), "calls": len(calls), "forgotten": len(forgotten)})

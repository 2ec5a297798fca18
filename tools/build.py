#!/usr/bin/env python3
"""Builds /repo's current sources (plus the harnesses in /verif/harness) out of
tree with sanitizers.

    build.py CONFIG TARGET...        CONFIG: asan | tsan | plain

Everything is written below $VERIF_BUILD (default /verif/.build).  The lists of
sources are globbed afresh from /repo, so files that are added or renamed are
picked up.  What needs the Nix C++ libraries (not installed here) is built with
the stand-in in harness/fakenix (nixd/lib/Eval/AttrSetProvider.cpp, libnixt and
nixd-attrset-eval), or left out: libnixf/src/Basic/PrimOpsInfoGen.cpp.
The generated table of builtins is replaced with harness/PrimOpsInfo.cpp.
"""
import fcntl
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, ".build"))
HARNESS = os.path.join(HERE, "harness")

COMMON = [
    "-std=gnu++20", "-g1", "-fno-omit-frame-pointer", "-pthread", "-w",
    "-D_GLIBCXX_ASSERTIONS", "-DVERIF_HOOKS",
    "-I/usr/lib/llvm-18/include", "-D_GNU_SOURCE",
    "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS",
]
CONFIGS = {
    "asan": dict(
        cxx="clang++",
        flags=["-O1", "-fsanitize=address,undefined",
               "-fno-sanitize=vptr,function", "-fno-sanitize-recover=all",
               "-fsanitize-address-use-after-return=always"]),
    "tsan": dict(cxx="clang++", flags=["-O1", "-fsanitize=thread"]),
    "plain": dict(cxx="clang++", flags=["-O1"]),
}


def sources(sub, exclude=()):
    out = []
    for root, dirs, names in os.walk(os.path.join(REPO, sub)):
        dirs[:] = [d for d in dirs if d not in ("test", "tests")]
        for n in names:
            p = os.path.join(root, n)
            if n.endswith((".cpp", ".cc")) and n not in exclude:
                out.append(p)
    return sorted(out)


def plan(cfg):
    c = CONFIGS[cfg]
    out = os.path.join(BUILD, cfg)
    gen = os.path.join(BUILD, "gen")
    inc = [
        "-I" + gen,
        "-I" + os.path.join(HARNESS, "stubs"),
        "-I" + os.path.join(REPO, "libnixf/include"),
        "-I" + os.path.join(REPO, "libnixf/src"),
        "-I" + os.path.join(REPO, "libnixf/src/Parse"),
        "-I" + os.path.join(REPO, "nixd/include"),
        "-I" + os.path.join(REPO, "nixd/lspserver/include"),
    ]
    libs = {
        "nixf": sources("libnixf/src", ("PrimOpsInfoGen.cpp",))
        + [os.path.join(gen, "Diagnostic.cpp"), os.path.join(HARNESS, "PrimOpsInfo.cpp")],
        "lspserver": sources("nixd/lspserver/src"),
        "nixd": sources("nixd/lib", ("AttrSetProvider.cpp",)),
    }
    progs = {
        "nixf-tidy": ([os.path.join(REPO, "libnixf/tools/nixf-tidy.cpp")], ["nixf"]),
        # against the stand-in for Nix's libraries
        "nixd-attrset-eval": (sources("libnixt/lib") + [os.path.join(REPO, "nixd/lib/Eval/AttrSetProvider.cpp"),
                                                        os.path.join(REPO, "nixd/tools/nixd-attrset-eval.cpp")], ["nixd", "lspserver", "nixf"]),
        "nixd-bin": ([os.path.join(REPO, "nixd/tools/nixd.cpp")], ["nixd", "lspserver", "nixf"]),
    }
    deps = {
        "nixfprobe": ["nixf"],
        "lspprobe": ["lspserver"],
        "portprobe": ["lspserver"],
        "serverprobe": ["nixd", "lspserver", "nixf"],
        "posprobe": ["lspserver"],
        "protoprobe": ["nixd", "lspserver", "nixf"],
    }
    for p in glob.glob(os.path.join(HARNESS, "*.cpp")):
        name = os.path.basename(p)[:-4]
        if name == "PrimOpsInfo":
            continue
        progs[name] = ([p], deps.get(name, ["nixd", "lspserver", "nixf"]))
    return c, out, gen, inc, libs, progs


def esc(p):
    return p.replace("$", "$$").replace(" ", "$ ").replace(":", "$:")


def generate(cfg):
    c, out, gen, inc, libs, progs = plan(cfg)
    os.makedirs(out, exist_ok=True)
    os.makedirs(gen, exist_ok=True)
    flags = " ".join(COMMON + c["flags"] + inc)
    L = [
        "ninja_required_version = 1.5",
        "rule cxx",
        "  command = ccache %s -MD -MF $out.d %s -c $in -o $out" % (c["cxx"], flags),
        "  depfile = $out.d", "  deps = gcc", "  description = CXX $in",
        "rule cxxnix",
        "  command = ccache %s -MD -MF $out.d -I%s -I%s %s -c $in -o $out" % (
            c["cxx"], os.path.join(HARNESS, "fakenix"), os.path.join(REPO, "libnixt/include"), flags),
        "  depfile = $out.d", "  deps = gcc", "  description = CXX $in",
        "rule ar", "  command = rm -f $out && ar rcs $out $in",
        "rule link",
        "  command = %s %s $in -o $out -L/usr/lib/llvm-18/lib -lLLVM-18 "
        "-lboost_thread -lboost_system -lrt" % (c["cxx"], " ".join(COMMON[:4] + c["flags"])),
        "rule pygen", "  command = python3 -B $in $out",
    ]
    G = {
        "DiagnosticEnum.h": ("libnixf/src/Basic/DiagnosticEnum.h.py", ["diagnostic.py", "support.py"]),
        "Diagnostic.cpp": ("libnixf/src/Basic/Diagnostic.cpp.py", ["diagnostic.py", "support.py"]),
        "Tokens.h": ("libnixf/src/Parse/Tokens.h.py", ["tokens.py"]),
        "TokenKinds.inc": ("libnixf/src/Parse/TokenKinds.inc.py", ["tokens.py"]),
    }
    dests = {k: [k] for k in G}
    genfiles = []
    for k, (src, dep) in G.items():
        s = os.path.join(REPO, src)
        for dst in dests[k]:
            d = os.path.join(gen, dst)
            os.makedirs(os.path.dirname(d), exist_ok=True)
            genfiles.append(d)
            L.append("build %s: pygen %s | %s" % (
                esc(d), esc(s), " ".join(esc(os.path.join(os.path.dirname(s), x)) for x in dep)))
    cfgh = os.path.join(gen, "nixd-config.h")
    text = '#pragma once\n#define NIXD_VERSION "verif"\n#define NIXD_LIBEXEC "/nonexistent"\n#define NIXD_VCS_TAG "verif"\n'
    if not os.path.exists(cfgh) or open(cfgh).read() != text:
        open(cfgh, "w").write(text)
    order = " ".join(esc(g) for g in genfiles)

    # nixd's sources spend most of the time in the same headers
    pch = None
    ctl = os.path.join(REPO, "nixd/include/nixd/Controller/Controller.h")
    low = flags.replace("-O1", "-O0")
    if os.path.exists(ctl):
        pch = os.path.join(out, "obj", "nixd.pch")
        ph = os.path.join(gen, "pch.h")
        text = '#include "nixd/Controller/Controller.h"\n#include <boost/asio/post.hpp>\n'
        if not os.path.exists(ph) or open(ph).read() != text:
            open(ph, "w").write(text)
        L += ["rule pch",
              "  command = %s %s -x c++-header -fpch-instantiate-templates -MD -MF $out.d -o $out $in" % (c["cxx"], low),
              "  depfile = $out.d", "  deps = gcc", "  description = PCH $in",
              "rule cxxp",
              "  command = %s %s -include-pch %s -MD -MF $out.d -c $in -o $out" % (c["cxx"], low, pch),
              "  depfile = $out.d", "  deps = gcc", "  description = CXX $in",
              "build %s: pch %s || %s" % (esc(pch), esc(ph), order)]

    def obj(src, tag):
        rel = os.path.abspath(src).strip("/").replace("/", "__")
        o = os.path.join(out, "obj", tag, rel + ".o")
        if pch and tag == "nixd":
            L.append("build %s: cxxp %s | %s || %s" % (esc(o), esc(src), esc(pch), order))
        elif tag == "prog-nixd-attrset-eval":
            L.append("build %s: cxxnix %s || %s" % (esc(o), esc(src), order))
        else:
            L.append("build %s: cxx %s || %s" % (esc(o), esc(src), order))
        return o

    libfile = {}
    for name, srcs in libs.items():
        objs = [obj(s, name) for s in srcs]
        libfile[name] = os.path.join(out, "lib%s.a" % name)
        L.append("build %s: ar %s" % (esc(libfile[name]), " ".join(map(esc, objs))))
    for name, (srcs, dep) in progs.items():
        objs = [obj(s, "prog-" + name) for s in srcs]
        L.append("build %s: link %s %s" % (
            esc(os.path.join(out, name)), " ".join(map(esc, objs)),
            " ".join(esc(libfile[d]) for d in dep)))
        L.append("build %s: phony %s" % (esc(name + ".t"), esc(os.path.join(out, name))))
    nf = os.path.join(out, "build.ninja")
    text = "\n".join(L) + "\n"
    if not os.path.exists(nf) or open(nf).read() != text:
        open(nf, "w").write(text)
    return out


def refresh(out):
    """Ninja compares times; the sources may be swapped for others with older
    ones. Compare contents too, and drop the objects of what changed."""
    now = {}
    for sub in ("libnixf", "libnixt", "nixd"):
        for root, dirs, names in os.walk(os.path.join(REPO, sub)):
            for n in names:
                if n.endswith((".cpp", ".cc", ".h", ".hpp", ".inc", ".py", ".def")):
                    p = os.path.join(root, n)
                    now[p] = hashlib.sha1(open(p, "rb").read()).hexdigest()
    stamp = os.path.join(out, "contents.json")
    old = None
    if os.path.exists(stamp):
        try:
            old = json.load(open(stamp))
        except ValueError:
            pass
    if old is not None and old != now:
        changed = [p for p in set(old) | set(now) if old.get(p) != now.get(p)]
        if any(not p.endswith((".cpp", ".cc")) for p in changed):
            shutil.rmtree(os.path.join(out, "obj"), ignore_errors=True)
            for g in ("DiagnosticEnum.h", "Diagnostic.cpp", "Tokens.h", "TokenKinds.inc"):
                if os.path.exists(os.path.join(BUILD, "gen", g)):
                    os.unlink(os.path.join(BUILD, "gen", g))
        else:
            for p in changed:
                rel = os.path.abspath(p).strip("/").replace("/", "__") + ".o"
                for o in glob.glob(os.path.join(out, "obj", "*", rel)):
                    os.unlink(o)
    json.dump(now, open(stamp, "w"))


def build(cfg, targets, quiet=True):
    """Returns {target: path}. Raises on a build failure."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        out = generate(cfg)
        refresh(out)
        env = dict(os.environ, CCACHE_DIR=os.path.join(BUILD, "ccache"),
                   CCACHE_MAXSIZE="2G", CCACHE_NOHASHDIR="1", CCACHE_COMPILERCHECK="none",
                   PYTHONDONTWRITEBYTECODE="1", LANG="C.UTF-8")
        paths = {t: os.path.join(out, t) for t in targets}
        r = subprocess.run(["ninja", "-C", out] + list(paths.values()),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
        if r.returncode:
            sys.stderr.write(r.stdout.decode(errors="replace")[-6000:])
            raise SystemExit(3)
        if not quiet:
            sys.stderr.write(r.stdout.decode(errors="replace")[-2000:])
    return paths


if __name__ == "__main__":
    for k, v in build(sys.argv[1], sys.argv[2:], quiet=False).items():
        print(v)

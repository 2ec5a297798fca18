"""Runs a check: builds, spreads cases over the cores, gathers what the
monitors saw, judges violations against the known findings, writes evidence."""
import collections
import hashlib
import json
import multiprocessing
import os
import random
import re
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import build as builder  # noqa: E402

CORES = 8
FEW = int(os.environ.get("VERIF_FEW", "5"))    # a worker that has seen so many violations stops all others


def known(pid):
    """(key, what) of the findings listed for a property."""
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) key=("(?:[^"\\]|\\.)*") (.*)', l.strip())
            if m and m.group(1) == pid:
                out.append((json.loads(m.group(2)), m.group(3)))
    return out


class Ctx:
    """What a worker of a check uses."""

    def __init__(self, check, tier, seed, wid, paths):
        self.check, self.tier, self.seed, self.wid, self.paths = check, tier, seed, wid, paths
        self.counts = collections.Counter()
        self.keys = set()
        self.samples = []
        self.violations = []
        self.notes = collections.Counter()
        self.case = None

    def rng(self, i, salt=""):
        return random.Random("%s/%s/%s/%s" % (self.check.id, self.seed, i, salt))

    def count(self, k, n=1):
        self.counts[k] += n

    def distinct(self, key):
        """A distinct, non-trivial case was judged."""
        self.keys.add(hashlib.blake2b(repr(key).encode(), digest_size=8).digest())

    def sample(self, s, limit=3):
        if len(self.samples) < limit:
            self.samples.append(s)

    def note(self, what):
        self.notes[what] += 1

    def violation(self, what, data=None, key=None):
        d = data if isinstance(data, (str, dict, list)) else repr(data)
        k = key if key is not None else d
        self.violations.append({"what": what, "data": d, "key": k if isinstance(k, str) else json.dumps(k, sort_keys=True), "case": self.case})


class Check:
    id = "?"
    level = "exploration"
    rule = ""
    assumptions = ()
    builds = ()            # (config, [targets])
    optional = ()          # what a check can do without
    quick = 1000
    thorough = 50000
    quick_cap = 150        # seconds
    thorough_cap = 800
    deterministic = True   # a violation has to show again when its case is run again
    workers = CORES
    evaluation = "cases"   # the counter that is reported as "evaluations"

    def init(self, ctx):
        pass

    def done(self, ctx):
        pass

    def fixed(self):
        """Inputs that are always run first (regressions, known findings)."""
        return []

    def judge(self, ctx, data):
        """Judge one fixed input."""

    def case(self, ctx, i):
        raise NotImplementedError


def runcase(check, ctx, c):
    """False if the case could not be judged to its end."""
    ctx.case = c
    try:
        if isinstance(c, int):
            check.case(ctx, c)
        else:
            check.judge(ctx, c[1])
        return True
    except Exception as e:
        if isinstance(e, (OSError, MemoryError)) and not isinstance(e, ConnectionError):
            raise    # not for what is driven
        # What is driven has answered in a way that the oracles cannot even read.
        t = traceback.format_exc().strip().split("\n")
        ctx.violation("what was observed cannot be understood: %s" % "\n".join(t[-9:]), {"case": repr(c)[:3000]})
        return False


def worker(check, tier, seed, wid, total, deadline, paths, fixed, q, stop):
    try:
        ctx = Ctx(check, tier, seed, wid, paths)
        check.init(ctx)
        cases = [("fixed", d) for j, d in enumerate(fixed) if j % check.workers == wid]
        n = 0
        it = iter(cases)
        i = wid
        listed = {k for k, _ in known(check.id)}
        while True:
            c = next(it, None)
            if c is None:
                if i >= total or time.time() > deadline or stop.is_set():
                    break
                c = i
                i += check.workers
            before = len(ctx.violations)
            fine = runcase(check, ctx, c)
            n += 1
            new = ctx.violations[before:]
            if new and check.deterministic and any(v["key"] not in listed for v in new):
                ok = False
                for _ in range(2):
                    b2 = len(ctx.violations)
                    fine = runcase(check, ctx, c) and fine
                    again = ctx.violations[b2:]
                    del ctx.violations[b2:]
                    if again:
                        ok = True
                        break
                if not ok:
                    for v in new:
                        ctx.note("not reproduced: " + v["what"][:200])
                    del ctx.violations[before:]
            fresh = len([v for v in ctx.violations if v["key"] not in listed])
            if fresh >= FEW:
                stop.set()
            if fresh >= 5 or fresh and not fine:
                break
        check.done(ctx)
        q.put((wid, n, ctx.counts, ctx.keys, ctx.samples, ctx.violations, ctx.notes, None))
    except BaseException:
        q.put((wid, 0, {}, set(), [], [], {}, traceback.format_exc()))


def replay_path(check, v):
    d = os.path.join(VERIF, "replay", check.id)
    os.makedirs(d, exist_ok=True)
    h = hashlib.blake2b(json.dumps([v["what"], v["data"]], sort_keys=True).encode(), digest_size=6).hexdigest()
    p = os.path.join(d, h + ".json")
    json.dump(v, open(p, "w"), indent=1)
    return p


def main(check, argv):
    tier = argv[0] if argv else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    paths = {}
    for cfg, targets in check.builds:
        for k, v in builder.build(cfg, list(targets)).items():
            paths[cfg + "/" + k] = v
    for cfg, targets in check.optional:
        try:
            for k, v in builder.build(cfg, list(targets)).items():
                paths[cfg + "/" + k] = v
        except SystemExit:
            print("check %s does without %s" % (check.id, ", ".join(targets)))
    tb = time.time() - t0
    if tier == "replay":
        v = json.load(open(argv[1]))
        ctx = Ctx(check, "quick", seed, 0, paths)
        check.init(ctx)
        c = v["case"]
        runcase(check, ctx, c if isinstance(c, int) else tuple(c))
        check.done(ctx)
        for w in ctx.violations:
            print(w["what"])
        print("reproduced" if ctx.violations else "not reproduced")
        return 1 if ctx.violations else 0
    total = check.thorough if tier == "thorough" else check.quick
    if os.environ.get("VERIF_CASES"):
        total = int(os.environ["VERIF_CASES"])
    deadline = time.time() + (check.thorough_cap if tier == "thorough" else check.quick_cap)
    fixed = list(check.fixed())
    q = multiprocessing.Queue()
    stop = multiprocessing.Event()
    ps = [multiprocessing.Process(target=worker, args=(check, tier, seed, w, total, deadline, paths, fixed, q, stop))
          for w in range(check.workers)]
    for p in ps:
        p.start()
    counts, keys, samples, viol, notes = collections.Counter(), set(), [], [], collections.Counter()
    cases = 0
    for _ in ps:
        wid, n, c, k, s, v, nt, err = q.get()
        if err:
            for p in ps:
                p.terminate()
            print("check %s failed to run:\n%s" % (check.id, err))
            return 3
        cases += n
        counts.update(c)
        keys |= k
        samples += s
        viol += v
        notes.update(nt)
    for p in ps:
        p.join()
    extra = check.final(counts, viol) if hasattr(check, "final") else None
    listed = dict(known(check.id))
    shown, fresh = set(), []
    for v in viol:
        k = v["key"]
        if k in listed:
            shown.add(k)
        else:
            fresh.append(v)
    for k in shown:
        print("KNOWN-FINDING: property=%s %s" % (check.id, listed[k]))
    seen = collections.Counter()
    for v in fresh:
        cls = re.sub(r"\d+", "#", v["what"])[:80]
        seen[cls] += 1
        if seen[cls] > 2:
            continue
        p = replay_path(check, v)
        print("VIOLATION property=%s replay=%s" % (check.id, p))
        print("  " + v["what"][:1500].replace("\n", "\n  "))
        print("  on: " + json.dumps(v["data"], ensure_ascii=False)[:800])
    cov = {"evaluations": int(counts.get(check.evaluation, 0) or cases), "distinct_nontrivial": len(keys),
           "rule": check.rule, "samples": samples[:5], "cases": cases,
           "observed": {k: counts[k] for k in sorted(counts)}, "build_s": round(tb, 1)}
    if notes:
        cov["notes"] = dict(notes)
    if extra:
        cov.update(extra)
    ev = {"property": check.id, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed,
          "level": check.level, "coverage": cov, "assumptions": list(check.assumptions),
          "wall_s": round(time.time() - t0, 1), "violations": len(fresh)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", check.id + ".json"), "w"), indent=1)
    if not fresh and not keys:
        print("check %s judged nothing" % check.id)
        return 3
    print("%s: %d cases, %d distinct, %d violations, %.1fs (build %.1fs)" %
          (check.id, cases, len(keys), len(fresh), time.time() - t0, tb))
    if os.environ.get("VERIF_VERBOSE"):
        print(dict(counts), dict(notes))
    return 1 if fresh else 0

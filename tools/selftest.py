#!/usr/bin/env python3
"""Is the specification really bound to the traces?  selftest.py ID...

Runs a check's own machinery on the unchanged tree, but alters one recorded value of every trace line (or history
step) before TLC judges it, and lists the fields whose alteration the specification does not notice."""
import collections
import json
import os
import random
import re
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
import check  # noqa: E402
import checks  # noqa: E402

rng = random.Random(int(os.environ.get("VERIF_SEED", "1")))


def isfloat(x):
    return isinstance(x, list) and len(x) == 6 and all(isinstance(q, int) for q in x) and x[0] in (-1, 0, 1)


def isbig(x):
    return isinstance(x, list) and len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list)


def leaves(x, path=()):
    if isinstance(x, dict):
        for k, v in x.items():
            yield from leaves(v, path + (k,))
    elif isinstance(x, list) and not isfloat(x):
        for i, v in enumerate(x):
            yield from leaves(v, path + (i,))
    else:
        yield path, x


def alter(v):
    if isfloat(v):
        if v[0] == 0:
            return [1, 0, 1, 0, 0, 0]
        w = list(v)
        if rng.random() < .5:
            w[0] = -w[0]
        else:
            w[1] += rng.choice((-1, 1))
        return w
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return v + rng.choice((-1, 1))
    if isinstance(v, str):
        return v + "x" if v else "x"
    return v


def name(path):
    return ".".join(str(p) if isinstance(p, str) else "*" for p in path)


def put(x, path, v):
    for p in path[:-1]:
        x = x[p]
    x[path[-1]] = v


def judge(self, tag, module, cfg, traces, chunk=20, workers=None, env=None, timeout=600, retry=True, hist=False):
    lines, what = [], []
    for tr in traces:
        for l in open(tr, errors="replace"):
            e = json.loads(l)
            ls = list(leaves(e))
            by = collections.defaultdict(list)
            for p, v in ls:
                by[name(p)].append((p, v))
            for _ in range(20):
                p, v = rng.choice(by[rng.choice(sorted(by))])
                if v is None or (isinstance(p[-1], str) and p[-1] in ("k",)):
                    continue
                w = alter(v)
                break
            put(e, p, w)
            lines.append(json.dumps(e))
            what.append((name(p), v, w))
    keep = rng.sample(range(len(lines)), min(len(lines), int(os.environ.get("LINES", "1200"))))
    lines, what = [lines[i] for i in keep], [what[i] for i in keep]
    bad = set()
    todo = list(range(len(lines)))
    for rnd in range(900):           # a line outside of the vocabulary stops TLC: go on behind it
        cat = self.path("%s.%d.nd" % (tag, rnd))
        open(cat, "w").write("".join(lines[i] + "\n" for i in todo))
        rc, o, e, st, cmd = self.tlc(tag, module, cfg + ".cfg", dict(env or {}, TRACE=cat, CHUNK="1"), 1, timeout=timeout)
        rej = {todo[int(a) - 1] for a, b in re.findall(r'<<"REJECT", (\d+)(?:, (\d+))?>>', o)}
        bad |= rej
        if rc == 0 or "is violated" in o or "AllConsumed" in o and not re.search(r"Attempted to|evaluating|encountered|not in the domain|In applying", o):
            break
        m = re.findall(r"/\\ (?:l|h) = (\d+)", o)
        if not m:
            print(o[-1500:])
            break
        i = todo[int(m[-1]) - 1]
        bad.add(i)
        todo = [x for x in todo if x not in rej and x != i] if hist else [x for x in todo if x > i]
        if not todo:
            break
    cnt, acc, ex = collections.Counter(), collections.Counter(), {}
    for i, (n, v, w) in enumerate(what):
        cnt[n] += 1
        if i not in bad:
            acc[n] += 1
            ex.setdefault(n, (lines[i][:int(os.environ.get("WIDE", "160"))], v, w))
    with self.lock:
        print("%s %s: %d altered lines, %d rejected" % (tag, module, len(what), len(bad)))
        for n in sorted(acc):
            print("    accepted %d of %d: %s   e.g. %s -> %s in %s" % (acc[n], cnt[n], n, ex[n][1], ex[n][2], ex[n][0]))
    self.stats["events"] += len(lines)
    return cat


check.Ctx.judge = judge
check.Ctx.model = lambda self, module, cfg, env=None, workers=None, timeout=600, heap="3g", real=check.Ctx.model: real(self, module, cfg, env, workers, timeout, heap) if env else None
for pid in sys.argv[1:]:
    ctx = check.Ctx(pid, "quick", 1)
    print("==", pid)
    checks.CHECKS[pid](ctx)

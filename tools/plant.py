#!/usr/bin/env python3
"""Try planted changes:  plant.py [--all] ID...   (no ID: every folder of /verif/seeded)

Each is validated in /repo (applies, builds, stable tests pass, demonstration fails; undone straight afterwards),
then the check of its property (--all: every check) is run against a patched copy of the repository.
"""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(V, "seeded")


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def validate(i):
    d = os.path.join(SEED, i)
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    demo = tempfile.mkdtemp(prefix="demo")
    for f in os.listdir(d):
        if not f.endswith((".diff", ".patch")) and f != "meta.json":
            shutil.copy2(os.path.join(d, f), demo)
    if run(["git", "-C", "/repo", "status", "--porcelain"]).stdout.strip():
        return "repo not clean"
    c = run(["bash", os.path.join(demo, "demo.sh")], cwd="/repo")
    if c.returncode != 0:
        return "demo fails on the unchanged tree: " + c.stdout[-500:]
    a = run(["git", "-C", "/repo", "apply", os.path.join(d, "patch.diff")])
    if a.returncode != 0:
        return "does not apply: " + a.stdout
    try:
        t = run(["bash", "/opt/vp/test.sh", "/tmp/plant.json"])
        r = json.load(open("/tmp/plant.json"))
        lost = stable - set(r["passed"])
        if lost:
            return "tests lost: %s\n%s" % (sorted(lost)[:5], t.stdout[-1500:] if len(lost) > 60 else "")
        m = run(["bash", os.path.join(demo, "demo.sh")], cwd="/repo")
        if m.returncode == 0:
            return "demo passes with the change"
    finally:
        run(["git", "-C", "/repo", "checkout", "--", "."])
    return None


def check(i, pids):
    base = tempfile.mkdtemp(prefix="plant-%s-" % i)
    repo, ver = os.path.join(base, "repo"), os.path.join(base, "verif")
    run(["cp", "-a", "/repo", repo])
    run(["cp", "-a", V, ver])
    a = run(["git", "-C", repo, "apply", os.path.join(SEED, i, "patch.diff")])
    out = {}
    for p in pids:
        r = run(["python3", os.path.join(ver, "check.py"), p], env=dict(os.environ, VERIF_REPO=repo))
        out[p] = (r.returncode, a.stdout + r.stdout[-400:] if r.returncode not in (0, 1) else r.stdout.strip().splitlines()[0][:160])
    shutil.rmtree(base)
    return out


def main():
    args = sys.argv[1:]
    every = "--all" in args
    only = "--nocheck" in args
    ids = [a for a in args if not a.startswith("--")] or sorted(os.listdir(SEED))
    good = []
    for i in ids:
        w = validate(i)
        print("%-28s %s" % (i, w or "valid"), flush=True)
        if w is None:
            good.append(i)
    if only:
        return
    run(["bash", "/opt/vp/build.sh"])
    meta = {i: json.load(open(os.path.join(SEED, i, "meta.json"))) for i in good}
    pids = ["C%02d" % k for k in range(1, 23)]
    with cf.ThreadPoolExecutor(max_workers=2 if every else 3) as ex:
        for i, o in zip(good, ex.map(lambda i: check(i, pids if every else [meta[i]["property"]]), good)):
            own = o[meta[i]["property"]]
            print("%-28s %s %s" % (i, meta[i]["property"], {1: "CAUGHT", 0: "MISSED"}.get(own[0], "NO ANSWER")), own[1],
                  "| all: " + " ".join(p for p in o if o[p][0] == 1) + (" / no answer: " + " ".join(p for p in o if o[p][0] not in (0, 1)) if any(o[p][0] not in (0, 1) for p in o) else "") if every else "", flush=True)


main()

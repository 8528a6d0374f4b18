#!/usr/bin/env python3
"""Drives scripts/aggregateOrSplit.py over header trees and records what it did.

agg_driver.py SCRIPT TREES OUT       trees generated by the specification
agg_driver.py SCRIPT --real INCLUDE OUT KEEP   the library's own headers; KEEP gets the aggregate
Everything is written below a scratch directory; the script runs as an unprivileged user when possible.
"""
import concurrent.futures as cf
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile

INC = ['#include "%s"', '#include   "%s"  ', '#include "%s" // why', '  #include "%s"', '# include "%s"', '#include"%s"', '\t#\tinclude "%s"']
PRAGMA = ['#pragma once', '  #pragma once', '#pragma   once  ', '# pragma once']
TEXT = ['', 'int x;', '  // comment', '#include <vector>', '#define A( x ) \\', '// #include "x.hpp"', '  const char * s = "#include";', '/* ===== */', '#pragma omp parallel for',
        '  // ===== Start of q =====', '#if defined( X ) // "y.hpp"', '#endif', '\ttab\t', 'struct S { int once; };   ',
        'char const * p = "#pragma once";', '// == End of section ==', '//===== End of part =====', '  // ===== End of q =====', 'x // ===== Start of y =====', '// ===== Start of =====', '// ==== Start of z ====',
        '/* #include "y.hpp" */', '#include <x.hpp>', '/// ===== Start of w =====', 'int i; #pragma once', '// #pragma once', '#include NAME', '#error "include"', '// ===== start of v =====', '\\']
NOBODY = 65534


def demote():
    try:
        os.setgroups([])
        os.setgid(NOBODY)
        os.setuid(NOBODY)
    except OSError:
        pass


HUNG = []        # runs that had to be stopped; after a few of them, no more is started


def run(cmd, cwd):
    if len(HUNG) > 8:
        return -1000
    try:
        p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=20, preexec_fn=demote,
                           env=dict(PATH=os.environ.get("PATH", "/usr/bin:/bin"), LC_ALL="C.UTF-8", PYTHONDONTWRITEBYTECODE="1"))
        return p.returncode
    except subprocess.TimeoutExpired:
        HUNG.append(1)
        return -1000


def comps(p):
    return p.split("/")


def read(p):
    with open(p, newline="") as f:
        t = f.read()
    ls = t.split("\n")
    return ls[:-1] if ls and ls[-1] == "" else ls


def sections(path, root):
    """Sections of an aggregate, and whether anything but blank lines is outside of them."""
    secs, cur, junk = [], None, False
    for l in read(path):
        a, b = re.match(r"// ===== Start of (.+) =====$", l), re.match(r"// ===== End of (.+) =====$", l)
        if a:
            junk |= cur is not None
            cur = dict(name=a.group(1), lines=[])
        elif b:
            junk |= cur is None or cur["name"] != b.group(1)
            if cur:
                secs.append(cur)
            cur = None
        elif cur is not None:
            cur["lines"].append(l)
        elif l.strip():
            junk = True
    junk |= cur is not None
    for s in secs:
        n = s.pop("name")
        s["o"] = "emit"
        s["abs"] = os.path.isabs(n)
        s["p"] = comps(os.path.relpath(n, root)) if n.startswith(root + "/") else ["?"] + comps(n)
    return secs, junk


def snap(root, skip):
    out = {}
    for d, ds, fs in os.walk(root):
        ds[:] = [x for x in ds if os.path.join(d, x) != skip]
        for x in ds:
            out[os.path.join(d, x)] = None
        for x in fs:
            with open(os.path.join(d, x), "rb") as f:
                out[os.path.join(d, x)] = f.read()
    return out


def opened(d):
    os.makedirs(d, exist_ok=True)
    os.chmod(d, 0o777)


def openall(top, d):
    while len(d) >= len(top):
        os.chmod(d, 0o777)
        d = os.path.dirname(d)


def split(script, agg, base, tag, rel):
    """Runs split into a fresh directory deep below base; what it made there, and whether anything else changed."""
    deep = os.path.join(base, tag, "1", "2", "3", "4")
    os.makedirs(deep)
    openall(base, deep)
    out = os.path.join(deep, "out")
    before = snap(base, out)
    rc = run([sys.executable, script, "split", agg, "out" if rel else out], deep)
    after = snap(base, out)
    made = []
    if os.path.isdir(out):
        for d, _, fs in os.walk(out):
            for x in sorted(fs):
                q = os.path.join(d, x)
                made.append(dict(p=comps(os.path.relpath(q, out)), lines=read(q)))
    return dict(rc=rc, made=made, elsewhere=before != after)


def one(script, top, k, tree):
    base = os.path.join(top, str(k))
    root = os.path.join(base, "tree")
    opened(base)
    opened(root)
    for i in ("a", "a/b", "a/a", "c", "c/a"):
        opened(os.path.join(root, i))
    files = []
    for f in tree["files"]:
        ls = []
        for l in f["lines"]:
            if l["k"] == "inc":
                x = INC[l["f"] % len(INC)] % "/".join(l["n"])
            elif l["k"] == "pragma":
                x = PRAGMA[l["f"] % len(PRAGMA)]
            else:
                x = TEXT[(l["t"] - 1) % len(TEXT)]
            ls.append(dict(k=l["k"], n=l["n"], s=x))
        if ls and not f["nl"] and ls[-1]["s"] == "":
            ls[-1]["s"] = "int last;"
        with open(os.path.join(root, *f["p"]), "w") as o:
            o.write("\n".join(x["s"] for x in ls) + ("\n" if ls and f["nl"] else ""))
        files.append(dict(p=f["p"], lines=ls))
    cwd = root if not tree["incs"] or tree["form"] != 2 else base
    rel = tree["form"] in (1, 2, 3)

    def name(p):
        q = os.path.join(root, *p)
        q = os.path.relpath(q, cwd) if rel else q
        if tree["form"] == 3:
            q = "./" + os.path.join(os.path.dirname(q), ".", os.path.basename(q))
        return q
    agg = os.path.join(base, "agg.hpp")
    before = snap(base, agg)
    cmd = [sys.executable, script, "aggregate", *[name(tree["files"][r - 1]["p"]) for r in tree["roots"]], agg]
    if tree["incs"]:
        cmd += ["--include-paths", *[name(i) or "." for i in tree["incs"]]]
    rc = run(cmd, cwd)
    after = snap(base, agg)
    after.pop(agg, None)
    ops, junk = sections(agg, root) if os.path.exists(agg) else ([], True)
    nsec = len(ops)
    ops = [dict(x) for x in ops]
    ops.append(dict(o="end", rc=rc, junk=junk, elsewhere=before != after, n=nsec))
    if os.path.exists(agg):
        ops.append(dict(o="split", **split(script, agg, base, "s", k % 2 == 0)))
    # a hand-made aggregate with names of every form
    forms = ["s%d/x.hpp", "../s%d/x.hpp", base + "/abs/s%d/q/../x.hpp", "../../../s%d/../s%d/y.hpp", "./s%d/deep/er/x.hpp", "../../../../s%d/z.hpp", "s%d/a/../b c/x.hpp", base + "/tree/s%d.hpp", base + "/../../../../../../../s%d/x.hpp"]
    secs = []
    for i, f in enumerate(files):
        fm = forms[(i + k) % len(forms)]
        secs.append(dict(n=(fm % ((i,) * fm.count("%d"))), lines=[x["s"] for x in f["lines"]]))
    hand = os.path.join(base, "hand.hpp")
    with open(hand, "w") as o:
        o.write("// a line before\n\n")
        for s in secs:
            o.write("// ===== Start of %s =====\n" % s["n"] + "".join(x + "\n" for x in s["lines"]) + "// ===== End of %s =====\nint between;\n" % s["n"])
    os.chmod(hand, 0o644)
    r = split(script, hand, base, "h", k % 2 == 1)
    ops.append(dict(o="hand", secs=[dict(n=comps(s["n"]), lines=s["lines"]) for s in secs], **r))
    shutil.rmtree(base)
    return json.dumps(dict(k="tree", files=files, incs=tree["incs"] or [[]], roots=tree["roots"], ops=ops))


def real(script, include, top, seed, keep):
    root = os.path.join(top, "include")
    shutil.copytree(include, root)
    for d, ds, fs in os.walk(root):
        os.chmod(d, 0o777)
        for x in fs:
            os.chmod(os.path.join(d, x), 0o644)
    files = []
    for d, ds, fs in sorted(os.walk(root)):
        for x in sorted(fs):
            if x.endswith(".hpp") and "#error Documentation only" not in open(os.path.join(d, x)).read():
                ls = []
                for s in read(os.path.join(d, x)):
                    m = re.match(r'\s*#\s*include\s*"([^"]+)"', s)
                    p = re.match(r"\s*#\s*pragma\s+once", s)
                    ls.append(dict(k="inc" if m else "pragma" if p else "text", n=comps(m.group(1)) if m else [], s=s))
                files.append(dict(p=comps(os.path.relpath(os.path.join(d, x), root)), lines=ls))
    rng = random.Random(seed)
    out = []
    orders = [list(range(1, len(files) + 1)), list(range(len(files), 0, -1))]
    mix = orders[0][:]
    rng.shuffle(mix)
    orders.append(mix)
    orders += [[r] for r in orders[0] if files[r - 1]["p"][-1] in ("Shiva.hpp", "ParentElement.hpp", "JacobianTransforms.hpp")]
    for k, o in enumerate(orders):
        agg = os.path.join(top, "agg%d.hpp" % k)
        before = snap(top, agg)
        rc = run([sys.executable, script, "aggregate", *[os.path.join(root, *files[r - 1]["p"]) for r in o], agg, "--include-paths", root], top)
        after = snap(top, agg)
        after.pop(agg, None)
        ops, junk = sections(agg, root) if os.path.exists(agg) else ([], True)
        ops.append(dict(o="end", rc=rc, junk=junk, elsewhere=before != after, n=len(ops)))
        if os.path.exists(agg):
            shutil.copy(agg, "%s%d.hpp" % (keep, k))
        out.append(json.dumps(dict(k="tree", files=files, incs=[[]], roots=o, ops=ops)))
    return out


def main():
    top = tempfile.mkdtemp(prefix="vagg")
    try:
        os.chmod(top, 0o777)
        script = os.path.join(top, "aggregateOrSplit.py")
        shutil.copy(sys.argv[1], script)
        os.chmod(script, 0o644)
        if sys.argv[2] == "--real":
            out = real(script, sys.argv[3], top, int(os.environ.get("VERIF_SEED", "1")), sys.argv[5])
            dst = sys.argv[4]
        else:
            trees = [json.loads(x) for x in open(sys.argv[2])]
            with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
                out = list(ex.map(lambda a: one(script, top, *a), enumerate(trees)))
            dst = sys.argv[3]
        with open(dst, "w") as f:
            f.write("".join(x + "\n" for x in out))
    finally:
        shutil.rmtree(top, ignore_errors=True)


if __name__ == "__main__":
    main()

#!/usr/bin/env python3
"""Runner of the conformance checks:  check.py <property id>   (VERIF_TIER, VERIF_SEED in the environment)

For one property it (1) model-checks the specification modules the property is decided by, (2) builds the
harnesses from /repo's working tree, runs them (some on behaviours generated by TLC from the specification),
and (3) has TLC judge every line of the recorded traces against the specification.
Exit 0: held.  Exit 1 + "VIOLATION property=<id> replay=<path>": broken.  Exit 2: the check itself failed.
"""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import threading
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(ROOT, "spec")
TLA = "/opt/veriftools/tla"
CP = TLA + "/tla2tools.jar:" + TLA + "/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4


class CheckError(Exception):
    """The check could not give an answer."""


class Violation(Exception):
    def __init__(self, what, detail=None):
        super().__init__(what)
        self.what, self.detail = what, detail or {}


def sh(cmd, timeout, cwd=None, env=None, stdin=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=timeout)
        return p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        return "timeout", (e.stdout or b"").decode(errors="replace"), (e.stderr or b"").decode(errors="replace")


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.root, self.repo = ROOT, REPO
        self.dir = os.path.join(ROOT, "build", pid)
        if os.path.isdir(self.dir):
            shutil.rmtree(self.dir)
        os.makedirs(self.dir)
        self.thorough = tier == "thorough"
        self.deadline = time.time() + (3600 if self.thorough else 780)
        self.stats = dict(states=0, transitions=0, traces=0, events=0)
        self.parts, self.samples, self.notes = [], [], []
        self.lock = threading.Lock()
        self.tlc_sem = threading.Semaphore(3)
        self.env = dict(os.environ, VERIF_SEED=str(seed), VERIF_TIER=tier, LC_ALL="C")
        self._cfg, self._jc = {}, None
        self.count = 0

    def left(self, most):
        return max(5, min(most, self.deadline - time.time()))

    def path(self, *p):
        return os.path.join(self.dir, *p)

    # ---- toolchain pieces
    def overrides(self):
        with self.lock:
            if self._jc is None:
                d = self.path("jc")
                os.makedirs(d, exist_ok=True)
                rc, o, e = sh(["javac", "-nowarn", "-cp", CP, "-d", d, os.path.join(ROOT, "java", "VerifOverrides.java")], 120)
                if rc != 0:
                    raise CheckError("javac: " + o + e)
                self._jc = d
        return self._jc

    def config(self, bounds, more=()):
        """A ShivaConfig.hpp as cmake would generate it from the working tree's template."""
        with self.lock:
            key = (bounds, tuple(more))
            if key not in self._cfg:
                d = self.path("-".join(("cfg", "on" if bounds else "off") + key[1]))
                os.makedirs(os.path.join(d, "shiva"))
                t = open(os.path.join(REPO, "include/shiva/ShivaConfig.hpp.in")).read()
                on = set(more) | ({"SHIVA_ENABLE_BOUNDS_CHECK"} if bounds else set())

                def cmdef(m):
                    name, rest = m.group(2), m.group(3)
                    if m.group(1):
                        return "#define %s %d" % (name, name in on)
                    return ("#define %s%s" % (name, rest)) if name in on else "/* #undef %s */" % name
                t = re.sub(r"#\s*cmakedefine(01)?\s+(\w+)(.*)", cmdef, t)
                ver = {"SHIVA_VERSION_MAJOR": "0", "SHIVA_VERSION_MINOR": "1", "SHIVA_VERSION_PATCHLEVEL": "0"}
                t = re.sub(r"@(\w+)@", lambda m: ver.get(m.group(1), ""), t)
                open(os.path.join(d, "shiva", "ShivaConfig.hpp"), "w").write(t)
                self._cfg[key] = d
        return self._cfg[key]

    def compile(self, name, src, flags=(), cxx="g++", std="c++17", opt="-O0", bounds=False, timeout=420, required=True, own_includes=True, more=()):
        exe = self.path(name)
        cmd = [cxx, "-std=" + std, opt, "-w", "-I" + os.path.join(ROOT, "harness"), "-I" + self.config(bounds, more),
               *(["-I" + os.path.join(REPO, "include")] if own_includes else []), *flags, os.path.join(ROOT, "harness", src), "-o", exe]
        rc, o, e = sh(cmd, self.left(timeout))
        if rc == "timeout":
            raise CheckError("compilation of %s timed out" % name)
        if rc != 0:
            if not required:
                return None
            ctl = self.path("control_%s.cpp" % name)
            open(ctl, "w").write('#include "vh.hpp"\nint main(){return 0;}\n')
            r2, o2, e2 = sh([cxx, "-std=" + std, opt, "-w", "-I" + os.path.join(ROOT, "harness"), ctl, "-o", ctl + ".exe"], 120)
            if r2 != 0 or "Killed" in e or "internal compiler error" in e or "No space left" in e:
                raise CheckError("compiler failed: " + (e2 or e)[-2000:])
            raise Violation("a program that uses the public interface as the specification describes it no longer compiles",
                            dict(command=" ".join(cmd), diagnostics=e[:6000]))
        return exe

    def run(self, name, exe, args=(), timeout=120):
        """Runs a harness that writes its trace to the file it is given."""
        tr = self.path(name + ".nd")
        rc, o, e = sh([exe, tr, *args], self.left(timeout), cwd=self.dir, env=self.env)
        if rc == 3:
            raise CheckError("harness %s could not write its trace: %s" % (name, e))
        if rc != 0:
            tail = ""
            if os.path.exists(tr):
                with open(tr, errors="replace") as f:
                    tail = f.read()[-1500:]
            what = "does not terminate" if rc == "timeout" else "crashed (exit %s)" % rc
            raise Violation("the real code %s while driven through behaviours the specification allows" % what,
                            dict(command=" ".join([exe, tr, *args]), stderr=e[-3000:], end_of_trace=tail))
        return tr

    def tlc(self, tag, module, cfg, env=None, workers=None, extra=(), timeout=600, heap="3g"):
        jc = self.overrides()
        meta = self.path("tlc-" + tag)
        w = str(workers or max(1, NCPU // 2))
        cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap,
               "-Dtlc2.overrides.TLCOverrides=VerifOverrides:tlc2.overrides.TLCOverrides",
               "-cp", jc + ":" + CP, "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE", "-workers", w,
               "-config", cfg, *extra, module]
        with self.tlc_sem:
            rc, o, e = sh(cmd, self.left(timeout), cwd=SPEC, env=dict(self.env, **(env or {})))
        shutil.rmtree(meta, ignore_errors=True)
        open(self.path("tlc-" + tag + ".log"), "w").write(o + e)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", o)
        st = (int(m[-1][1]), int(m[-1][0])) if m else (0, 0)
        return rc, o, e, st, " ".join(cmd)

    # ---- the three kinds of work
    def model(self, module, cfg, env=None, workers=None, timeout=600, heap="3g"):
        rc, o, e, st, cmd = self.tlc(cfg, module, cfg + ".cfg", env, workers, timeout=timeout, heap=heap)
        if rc != 0:
            raise CheckError("model %s/%s: TLC exit %s\n%s" % (module, cfg, rc, (o + e)[-3000:]))
        with self.lock:
            self.stats["states"] += st[0]
            self.stats["transitions"] += st[1]
            self.parts.append(dict(kind="model", module=module, cfg=cfg, states=st[0], transitions=st[1]))

    def simulate(self, tag, module, cfg, out, num, depth, env=None, timeout=300, seed=0):
        """Behaviours of the specification, written by the specification itself to OUT (one JSON per line)."""
        if os.path.exists(out):
            os.remove(out)
        rc, o, e, st, cmd = self.tlc(tag, module, cfg + ".cfg", dict(env or {}, OUT=out), workers=1, timeout=timeout,
                                     extra=("-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(self.seed + 1000003 * seed)))
        if rc != 0 or not os.path.exists(out):
            raise CheckError("generator %s: TLC exit %s\n%s" % (module, rc, (o + e)[-3000:]))
        with self.lock:
            self.parts.append(dict(kind="behaviours generated from the specification", module=module, cfg=cfg, behaviours=sum(1 for _ in open(out))))

    def listing(self, module, cfg, name):
        """A finite set listed by the specification (one JSON per line)."""
        out = self.path(name)
        self.model(module, cfg, env=dict(OUT=out), workers=1)
        return [json.loads(x) for x in open(out)]

    def judge(self, tag, module, cfg, traces, chunk=20, workers=None, env=None, timeout=600, retry=True, hist=False):
        """TLC judges every line of the traces."""
        cat = self.path(tag + ".trace.nd")
        src = []
        with open(cat, "w") as f:
            for tr in traces:
                for i, line in enumerate(open(tr, errors="replace")):
                    f.write(line)
                    src.append((os.path.basename(tr), i + 1))
        if not src:
            raise CheckError("empty trace " + tag)
        rc, o, e, st, cmd = self.tlc(tag, module, cfg + ".cfg", dict(env or {}, TRACE=cat, CHUNK=str(chunk)), workers, timeout=timeout)
        rej = sorted(set((int(a), int(b or 0)) for a, b in re.findall(r'<<"REJECT", (\d+)(?:, (\d+))?>>', o)))
        lines = open(cat, errors="replace").read().splitlines()
        if rc != 0 and not rej:
            ev = re.search(r"(?s)(Error: .*)", o)
            if rc in (75, 76, 77) or (ev and re.search(r"Attempted to|evaluating|TLC encountered|was not in the domain|In applying|not an? ", o)):
                if retry:
                    return self.judge(tag, module, cfg, traces, chunk, workers, env, timeout, retry=False, hist=hist)
                raise Violation("the recorded trace has an event outside the specification's vocabulary",
                                dict(command=cmd, trace=cat, tlc=(ev.group(1) if ev else o)[:3000]))
            raise CheckError("TLC on %s: exit %s\n%s" % (tag, rc, (o + e)[-3000:]))
        if rej:
            if retry:
                return self.judge(tag, module, cfg, traces, chunk, workers, env, timeout, retry=False, hist=hist)
            bad = [dict(source=src[l - 1], step=b, event=json_or(lines[l - 1])) for l, b in rej[:20]]
            raise Violation("%d recorded events are not behaviours of the specification" % len(rej),
                            dict(command=cmd, trace=cat, rejected=bad))
        with self.lock:
            self.stats["states"] += st[0]
            self.stats["transitions"] += st[1]
            self.stats["events"] += len(src)
            self.stats["traces"] += len(src) if hist else (len(src) + chunk - 1) // chunk
            self.parts.append(dict(kind="trace validation", module=module, lines=len(src), states=st[0], transitions=st[1]))
            for i in sorted({0, len(lines) // 2}):
                s = lines[i]
                self.samples.append(json_or(s) if len(s) < 1500 else dict(excerpt=s[:1200], length=len(s)))
        return cat


def json_or(s):
    try:
        return json.loads(s)
    except ValueError:
        return s


def parallel(*fns):
    """Runs the functions concurrently; the first violation (else error) wins, after all have ended."""
    res, err = [], []
    with cf.ThreadPoolExecutor(max_workers=NCPU) as ex:
        futs = [ex.submit(f) for f in fns]
        for f in futs:
            try:
                res.append(f.result())
            except (Violation, CheckError) as e:
                err.append(e)
    for e in err:
        if isinstance(e, Violation):
            raise e
    if err:
        raise err[0]
    return res


def known_findings(pid):
    out = []
    p = os.path.join(ROOT, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\w+) (.*)", line)
            if m and m.group(1) == pid:
                out.append(m.group(2).strip())
    return out


def main():
    if len(sys.argv) != 2:
        print(__doc__)
        return 2
    pid = sys.argv[1]
    sys.path.insert(0, ROOT)
    sys.dont_write_bytecode = True
    import checks
    if pid == "setup":
        for c in (["java", "-version"], ["javac", "-version"], ["g++", "--version"], ["clang++", "--version"]):
            rc, o, e = sh(c, 60)
            if rc != 0:
                print("missing tool:", c[0])
                return 2
        print("toolchain present; each check builds what it needs from", REPO)
        return 0
    if pid not in checks.CHECKS:
        print("unknown property", pid)
        return 2
    tier = os.environ.get("VERIF_TIER", "quick")
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    ctx = Ctx(pid, tier, seed)
    code, viol = 0, 0
    for k in known_findings(pid):
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    try:
        checks.CHECKS[pid](ctx)
    except Violation as v:
        code, viol = 1, 1
        rdir = os.path.join(ROOT, "build", "replay")
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, pid + ".json")
        json.dump(dict(property=pid, tier=tier, seed=seed, what=v.what, detail=v.detail), open(rp, "w"), indent=1, default=str)
        print(v.what)
        print(json.dumps(v.detail, default=str)[:3000])
        print("VIOLATION property=%s replay=%s" % (pid, rp))
    except CheckError as e:
        print("CHECK ERROR %s: %s" % (pid, e))
        code = 2
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking",
              coverage=dict(states=ctx.stats["states"], transitions=ctx.stats["transitions"],
                            traces_validated_against_impl=ctx.stats["traces"], samples=ctx.samples[:12] or ["none: the run ended early"],
                            trace_lines_judged=ctx.stats["events"], parts=ctx.parts, notes=ctx.notes),
              assumptions=checks.ASSUMPTIONS, wall_s=round(time.time() - t0, 2), violations=viol)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", pid + ".json"), "w"), indent=1, default=str)
    if code == 0:
        print("OK property=%s states=%d traces=%d wall=%.1fs" % (pid, ctx.stats["states"], ctx.stats["traces"], time.time() - t0))
    return code


if __name__ == "__main__":
    sys.exit(main())

"""What each property's check does (see DESIGN.md)."""
import json
import os
import re

from check import ROOT, CheckError, Violation, parallel, sh  # noqa: F401

ASSUMPTIONS = [
    "TLC and the Java overrides of module Rat (cross-checked by RatSelf) evaluate the specification correctly",
    "g++/clang++ on x86-64 with IEEE arithmetic; CUDA and HIP builds only on the simulated device of harness/device (C25)",
]


# ---------------------------------------------------------------- finite-element ingredients
# Harnesses are built twice: as the test suite is built, and by the other compiler for the other standard,
# optimised (other branches of the headers), where they draw other random numbers.
BUILDS = (dict(), dict(cxx="clang++", std="c++20", opt="-O1"))


def build(c, name, src, flags, which):
    return c.compile(name + "_%d" % which, src, list(flags) + (["-DNDEBUG", "-DVH_SALT=1"] if which else []), **BUILDS[which])


def both(c, name, src, flags, args=(), **kw):
    """Jobs that build a harness in both ways and run it."""
    return [lambda q=q: c.run(name + "_%d" % q, build(c, name, src, flags, q), args, **kw) for q in (0, 1)]


def fe(models, parts, fields=False):
    """parts: [(PART macro, number of translation units)]"""
    def go(c):
        jobs = []
        for part, nsub in parts:
            for s in range(nsub):
                jobs += both(c, "fe_%s_%d" % (part, s), "h_fe.cpp", ["-DPART_" + part, "-DNSUB=%d" % nsub, "-DSUB=%d" % s])

        def field_histories():
            sc = c.path("fields.json")
            c.simulate("genfield", "FieldGen", "FieldGen", sc, 1500 if c.thorough else 100, 40)
            return parallel(*both(c, "fe_fields", "h_fe.cpp", ["-DPART_PEH"], [sc]))
        ms = [lambda m=m: c.model("FESpec", "FESpec_" + m, workers=2) for m in models]
        if fields:
            ms = [field_histories, lambda: c.model("FieldModel", "FieldModel_3" if c.thorough else "FieldModel", workers=3)] + ms
        out = parallel(*(jobs + ms))
        js = [lambda: c.judge("fe", "TraceFE", "TraceFE", out[:len(jobs)], chunk=10, workers=8)]
        if fields:
            js.append(lambda: c.judge("fields", "TraceField", "TraceField", out[len(jobs)], workers=6, hist=True))
        parallel(*js)
    return go


# ---------------------------------------------------------------- cells
LIN = ["1", "2", "3", "4", "5", "6", "7"]


def cells(chk, gen, mix, lin=True, scal=False, inv=False, models=()):
    """Histories of cells: generated by CellGen (and seeded random ones), executed, judged by TraceCell."""
    def go(c):
        num = 240 if c.thorough else 24
        env = {"CHK": chk}

        def one(part, cfg):
            def f():
                subs = LIN if part == "LIN" else ["0"]
                exes, scs = {}, [c.path("script_%s.json" % part), c.path("script2_%s.json" % part)]
                gens = [lambda: c.simulate("gen" + part, "CellGen", "CellGen_" + cfg, scs[0], num * (6 if part == "SCAL" else 1) * len(subs), 20),
                        lambda: c.simulate("gen2" + part, "CellGen", "CellGen_" + cfg, scs[1], num * len(subs) // 2, 20, seed=1)]
                comp = [lambda s=s, q=q: exes.__setitem__((s, q), build(c, "geom_%s%s" % (part, s), "h_geom.cpp", ["-DPART_" + part, "-DSUB=" + s], q)) for q in (1, 0) for s in subs]
                parallel(*(comp + gens))
                return [c.run("geom_%s%s_%d" % (part, s, q), exes[s, q], [scs[q], str(mix)]) for s in subs for q in (0, 1)]
            return f

        def invs():
            return parallel(*both(c, "geom_INV", "h_geom.cpp", ["-DPART_INV"]))
        jobs = ([one("LIN", gen)] if lin else []) + ([one("SCAL", "Scal")] if scal else []) + ([invs] if inv else [])
        ms = [lambda m=m: c.model(m[0], m[1], workers=2) for m in models]
        if c.thorough and chk == "inv":
            ms.append(lambda: c.model("GeomSpec", "GeomSpec_InvFull", workers=4))
        out = parallel(*(jobs + ms))[:len(jobs)]
        if inv:
            c.judge("inv", "TraceInv", "TraceInv", out.pop(), chunk=10, workers=8)
        tr = [t for ts in out for t in ts]
        c.judge("cells", "TraceCell", "TraceCell", tr, workers=8, env=env, hist=True)
    return go


def shape(parts, model):
    def go(c):
        jobs = [j for p in parts for j in both(c, "sh_" + p, "h_shape.cpp", ["-DPART_" + p])]
        out = parallel(*(jobs + [lambda: c.model(model, model, workers=2)]))
        c.judge("shape", "TraceShape", "TraceShape", out[:len(jobs)], chunk=20, workers=8)
    return go


def integrals(c):
    """Element integrals assembled from the parts, judged against the exact integrals."""
    jobs = [j for k in (3, 2, 1, 5, 4, 0) for j in both(c, "int%d" % k, "h_int.cpp", ["-DSUB=%d" % k])]
    out = parallel(*(jobs + [lambda: c.model("IntSpec", "IntSpec", workers=3)]))
    c.judge("int", "TraceInt", "TraceInt", out[:len(jobs)], chunk=2, workers=8)


def loops(events, hists):
    def go(c):
        def part(p):
            return lambda: parallel(*both(c, "it_" + p, "h_iter.cpp", ["-DPART_" + p]))
        ms = [lambda: c.model("IterSpec", "IterSpec", workers=3)]
        if c.thorough:
            ms.append(lambda: c.model("IterSpec", "IterSpec_Big", workers=4))
        out = parallel(part(events), part(hists), *ms)
        parallel(lambda: c.judge("idx", "TraceIdx", "TraceIdx", out[0], chunk=20, workers=3),
                 lambda: c.judge("loops", "TraceIter", "TraceIter", out[1], workers=4, hist=True))
    return go


def array_addresses(c, bounds=False):
    """Addresses by every path, for hand-picked shapes and for every small shape listed by the specification."""
    def two(n, flags, **kw):
        # (with bounds checking on, array_bounds has a second build of its own)
        if bounds:
            return [lambda: c.run(n, c.compile(n, "h_array.cpp", flags, bounds=True))]
        return both(c, n, "h_array.cpp", flags)
    jobs = [j for s in (2, 1, 4, 3, 0) for j in two("ar_ADDR%d" % s, ["-DPART_ADDR", "-DSUB=%d" % s])]

    def listed():
        shapes = c.listing("ShapeGen", "ShapeGen_Big" if c.thorough else "ShapeGen", "shapes.json")
        n = 8 if c.thorough else 4

        def one(k):
            os.makedirs(c.path("inc%d" % k))
            with open(c.path("inc%d" % k, "shapes.inc"), "w") as f:
                for i, s in enumerate(shapes[k::n]):
                    f.write("shape< %s, %s, %s >( false );\n" % (("int", "double", "float", "short")[i % 4], "true" if i % 3 == 0 else "false", ", ".join(map(str, s))))
            runs = two("ar_ADDR9_%d" % k, ["-DPART_ADDR", "-DSUB=9", "-I" + c.path("inc%d" % k)])
            return [r() for r in runs[:2 if c.thorough else 1]]
        return sum(parallel(*[lambda k=k: one(k) for k in range(n)]), [])
    out = parallel(listed, *jobs, lambda: c.model("IterSpec", "IterSpec", workers=2))
    c.judge("addr", "TraceAddr", "TraceAddr", out[0] + out[1:1 + len(jobs)], chunk=50, workers=8)


def array_histories(c):
    scs, exes, large = [c.path("arr0.json"), c.path("arr1.json")], {}, c.path("arr_large.json")
    parallel(*[lambda s=s, q=q: exes.__setitem__((s, q), build(c, "ar_HIST%d" % s, "h_array.cpp", ["-DPART_HIST", "-DSUB=%d" % s], q)) for q in (0, 1) for s in (0, 1, 2)],
             lambda: c.simulate("genarr_large", "ArrGen", "ArrGen_Large", large, 300 if c.thorough else 40, 20),
             *[lambda q=q: c.simulate("genarr%d" % q, "ArrGen", "ArrGen", scs[q], 4000 if c.thorough else 400 - 200 * q, 40, seed=q) for q in (0, 1)],
             lambda: c.model("ArrModel", "ArrModel", workers=3), lambda: c.model("ArrModel", "ArrModel_3", workers=1),
             *([lambda: c.model("ArrModel", "ArrModel_Big", workers=4, timeout=1800)] if c.thorough else []))
    c.judge("hist", "TraceArr", "TraceArr", [c.run("ar_HIST%d_%d" % (s, q), exes[s, q], [scs[q] if s < 2 else large]) for s in (0, 1, 2) for q in (0, 1)], workers=8, hist=True)


def array_bounds(c):
    jobs = []
    for cxx, opt in (("g++", "-O0"), ("clang++", "-O2")) + ((("g++", "-O3"), ("clang++", "-O0")) if c.thorough else ()):
        for s in (1, 0, 2):
            n = "ar_BND%d_%s%s" % (s, cxx[0], opt)
            jobs.append(lambda n=n, s=s, cxx=cxx, opt=opt: c.run(n, c.compile(n, "h_array.cpp", ["-DPART_BND", "-DSUB=%d" % s] + (["-DNDEBUG"] if opt != "-O0" else []), cxx=cxx, opt=opt, bounds=True), timeout=400))

    def listed():
        """Every shape listed by the specification, and others up to rank 5 whose extents and strides coincide in ways of their own."""
        shapes = c.listing("ShapeGen", "ShapeGen_Big" if c.thorough else "ShapeGen", "bshapes.json")
        shapes += [[4, 2, 2], [6, 3, 2], [2, 6], [4, 4], [8, 2, 4], [2, 2, 2, 2], [1, 1, 1, 1], [3, 2, 1, 3], [1, 4, 1, 4], [8, 2, 2, 2], [4, 2, 1, 2, 1], [1, 1, 2, 1, 1], [2, 1, 2, 1, 2, 1], [1, 2, 1, 1, 3, 1, 2], [2, 1, 1, 2, 1, 1, 1, 1, 2], [7, 1], [1, 9], [12]]
        n = 4
        for k in range(n):
            os.makedirs(c.path("binc%d" % k))
            with open(c.path("binc%d" % k, "bshapes.inc"), "w") as f:
                f.write("".join("bndEdges< %s >( g );\n" % ", ".join(map(str, s)) for s in shapes[k::n]))

        def one(k):
            def made(q):
                n = "ar_BND9_%d_%d" % (k, q)
                return c.run(n, c.compile(n, "h_array.cpp", ["-DPART_BND", "-DSUB=9", "-I" + c.path("binc%d" % k)] + (["-DNDEBUG", "-DVH_SALT=1"] if q else []), bounds=True, **BUILDS[q]), timeout=400)
            return [made(q) for q in ((0, 1) if c.thorough else (k % 2,))]
        return sum(parallel(*[lambda k=k: one(k) for k in range(n)]), [])
    out = parallel(*(jobs + [listed, lambda: c.model("BoundsSpec", "BoundsSpec", workers=3), lambda: array_addresses(c, bounds=True)]))
    c.judge("bnd", "TraceBnd", "TraceBnd", out[:len(jobs)] + out[len(jobs)], chunk=50, workers=8)


def assertions(c):
    sc, exe = c.path("programs.json"), []
    parallel(lambda: c.simulate("gen", "AssertGen", "AssertGen", sc, 6000 if c.thorough else 1200, 170),
             lambda: exe.append(c.compile("err", "h_err.cpp")), lambda: exe.append(c.compile("err_O2", "h_err.cpp", ["-DNDEBUG"], cxx="clang++", std="c++20", opt="-O2")),
             lambda: c.model("AssertModel", "AssertModel", workers=3))
    c.judge("err", "TraceErr", "TraceErr", parallel(*[lambda e=e: c.run(os.path.basename(e), e, [sc], timeout=300) for e in exe]), workers=8, hist=True)


def kernels(c):
    sc, exe = c.path("launches.json"), []
    parallel(lambda: c.simulate("gen", "KernelGen", "KernelGen", sc, 3000 if c.thorough else 300, 40),
             lambda: exe.append(c.compile("pmpl", "h_pmpl.cpp")), lambda: exe.append(c.compile("pmpl_O2", "h_pmpl.cpp", ["-DNDEBUG"], cxx="clang++", std="c++20", opt="-O2")),
             lambda: c.model("KernelModel", "KernelModel", workers=3))
    kern = [c.run("kern_" + os.path.basename(e), e, [sc]) for e in exe]
    tol = [c.run("tol_" + os.path.basename(e), e) for e in exe]
    parallel(lambda: c.judge("kern", "TraceKern", "TraceKern", kern, workers=4, hist=True),
             lambda: c.judge("tol", "TraceTol", "TraceTol", tol, chunk=200, workers=4))


def aggregation(c):
    drv, script, sc = os.path.join(c.root, "harness", "agg_driver.py"), os.path.join(c.repo, "scripts", "aggregateOrSplit.py"), c.path("trees.json")

    def drive(args, what):
        rc, o, e = sh(["python3", drv, script, *args], c.left(600), cwd=c.dir, env=c.env)
        if rc != 0:
            raise CheckError("%s: %s" % (what, e[-2000:]))

    def generated():
        c.simulate("gen", "AggGen", "AggGen", sc, 8000 if c.thorough else 1200, 40)
        large = c.path("trees_large.json")
        c.simulate("genlarge", "AggGen", "AggGen_Large", large, 400 if c.thorough else 60, 90)
        cyc = c.path("trees_cyclic.json")
        c.simulate("gencyclic", "AggGen", "AggGen_Cyclic", cyc, 4000 if c.thorough else 600, 40)
        c.listing("AggChain", "AggChain", "trees_chain.json")
        with open(sc, "a") as f:
            f.write(open(large).read() + open(cyc).read() + open(c.path("trees_chain.json")).read())
        drive([sc, c.path("trees.nd")], "driver")
        return c.path("trees.nd")

    def own():
        drive(["--real", os.path.join(c.repo, "include"), c.path("own.nd"), c.path("agg")], "driver on the library's headers")
        return c.path("own.nd")
    out = parallel(generated, own, lambda: c.model("AggModel", "AggModel", workers=1), lambda: c.model("AggModel", "AggModel_4", workers=4))
    c.judge("agg", "TraceAgg", "TraceAgg", out[:2], workers=8, hist=True)
    # the aggregate of the library's own headers is a header like any other
    for k in (0, 1, 2):
        c.compile("agg_tu%d" % k, "h_agg.cpp", ["-DAGG=\"%s\"" % c.path("agg%d.hpp" % k)], own_includes=False)


# ---------------------------------------------------------------- packages
def package(c):
    sc = c.path("histories.json")

    def histories():
        c.simulate("gen", "PkgGen", "PkgGen", sc, 1200 if c.thorough else 110, 40)
        rc, o, e = sh(["python3", os.path.join(c.root, "harness", "pkg_driver.py"), c.repo, sc, c.path("pkg.nd")], c.left(600), cwd=c.dir, env=c.env)
        if rc != 0:
            raise CheckError("driver: %s" % e[-2000:])
        return c.path("pkg.nd")
    out = parallel(histories, lambda: c.model("PkgModel", "PkgModel", workers=2), *([lambda: c.model("PkgModel", "PkgModel_4", workers=2)] if c.thorough else []))
    c.judge("pkg", "TracePkg", "TracePkg", [out[0]], workers=4, hist=True)


# ---------------------------------------------------------------- configurations
CAMP = ["-I" + os.path.join(ROOT, "harness", "camp")]        # (a stand-in: CAMP is not installed)


def configurations(thorough):
    """All combinations, or the half of them in which every three factors still take all their values."""
    out = []
    for cxx in ("g++", "clang++"):
        for std in ("c++17", "c++20"):
            for opt in (0, 1):
                for bnd in (0, 1):
                    if thorough or (cxx == "g++") ^ (std == "c++17") ^ opt ^ bnd:
                        out.append((cxx, std, ("-O2" if opt else "-O0"), bool(bnd)))
    out.append(("g++", "c++20", "-O0", False, "with CAMP"))
    return out + ([("g++", "c++17", "-O3", False), ("clang++", "c++20", "-O3", False), ("clang++", "c++17", "-Os", True)] if thorough else [])


def cfg_name(k):
    return "%s %s %s%s%s" % (k[0], k[1], k[2], " checked" if k[3] else "", " " + k[4] if len(k) > 4 else "")


def lockstep(c, cfgs=None, compile=None, endings=True):
    """One program run by every configuration; the lines of all runs are put side by side for TLC.
    (Without endings: less how assertions end a program, which differs on a device.)"""
    cfgs = cfgs or configurations(c.thorough)

    def one(k, part):
        n = "cfg%d_%d" % (part, cfgs.index(k))
        flags = ["-DPART=%d" % part] + (["-DNDEBUG"] if k[2] != "-O0" else [])
        kw = dict(cxx=k[0], std=k[1], opt=k[2], bounds=k[3])
        if not compile and len(k) > 4:
            flags, kw["more"] = flags + CAMP, ("SHIVA_ENABLE_CAMP",)
        return k, part, c.run(n, compile(n, flags, k) if compile else c.compile(n, "h_cfg.cpp", flags, **kw))
    order = [(k, p) for p in (1, 0, 4, 3, 2) for k in sorted(cfgs, key=lambda k: k[2], reverse=True)]
    runs = parallel(*[lambda k=k, p=p: one(k, p) for k, p in order])
    c.notes.append("configurations: " + "; ".join(map(cfg_name, cfgs)))
    out = c.path("side_by_side.nd")
    with open(out, "w") as f:
        for part in range(5):
            rows, when = {}, {}
            for k, p, tr in runs:
                if p != part:
                    continue
                seen = {}
                for x in open(tr):
                    e = json.loads(x)
                    if not endings and e["op"].startswith("ending "):
                        continue
                    key = (e["op"], json.dumps(e["in"]))
                    seen[key] = seen.get(key, 0) + 1
                    tag = "%s %s#%d" % (cfg_name(k), e["when"], seen[key])
                    when.setdefault(key, set()).add("%s#%d" % (e["when"], seen[key]))
                    o = {x: e[x] for x in ("op", "t", "u", "in", "v")}
                    rows.setdefault(key, {}).setdefault(json.dumps(o), (o, []))[1].append(tag)
            for key, outs in rows.items():
                every = ["%s %s" % (cfg_name(k), w) for k in cfgs for w in sorted(when[key])]
                f.write(json.dumps(dict(k="op", all=every, out=[dict(o, cfgs=tags) for o, tags in outs.values()])) + "\n")
    return out


def headers(c):
    """Every public header on its own, twice, all together in both orders, and in two linked translation units."""
    inc = os.path.join(c.repo, "include")
    hs = sorted(os.path.relpath(os.path.join(d, f), inc) for d, _, fs in os.walk(inc) for f in fs if f.endswith(".hpp") and f != "namespaceDocumentation.hpp")
    d = c.path("tu")
    os.makedirs(d)
    use = "int shiva_tu_%s() { return 0; }\n"

    def src(name, text):
        p = os.path.join(d, name + ".cpp")
        open(p, "w").write(text)
        return p
    units = [(h, src(h.replace("/", "_"), '#include "%s"\n' % h + use % "a"), "alone") for h in hs]
    units += [(h, src(h.replace("/", "_") + "2", ('#include "%s"\n' % h) * 2 + use % "a"), "twice") for h in hs] if c.thorough else []
    fw = src("forward", "".join('#include "%s"\n' % h for h in hs) + use % "f")
    bw = src("backward", "".join('#include "%s"\n' % h for h in hs[::-1] + hs) + "int shiva_tu_f();\nint main() { return shiva_tu_f(); }\n")
    ctl = src("control", "#include <vector>\nint main() { return 0; }\n")
    cfgs = [(x, s, b) for x in ("g++", "clang++") for s in ("c++17", "c++20") for b in (False, True)] + [("clang++", "c++17", False, "with CAMP")]

    def cc(k, args):
        return sh([k[0], "-std=" + k[1], "-w", "-I" + c.config(k[2], ("SHIVA_ENABLE_CAMP",) if k[3:] else ()), *(CAMP if k[3:] else []), "-I" + inc, *args], c.left(120))

    def one(u, k):
        rc, o, e = cc(k, ["-fsyntax-only", u[1]])
        return dict(k="tu", header=u[0], how=u[2], cfg=" ".join((k[0], k[1]) + (("checked",) if k[2] else ()) + k[3:]), rc=rc if isinstance(rc, int) else -1, diag=e[:600].encode("ascii", "replace").decode())

    def link(k):
        exe = os.path.join(d, "link-%d" % cfgs.index(k))
        rc, o, e = cc(k, [fw, bw, "-o", exe])
        if rc == 0:
            rc, o, e = sh([exe], 30)
        return dict(k="tu", header="all headers", how="two linked translation units", cfg=" ".join((k[0], k[1]) + (("checked",) if k[2] else ()) + k[3:]), rc=rc if isinstance(rc, int) else -1, diag=e[:600].encode("ascii", "replace").decode())
    for k in cfgs:
        if cc(k, ["-fsyntax-only", ctl])[0] != 0:
            raise CheckError("compiler %s %s does not work" % k[:2])
    ev = parallel(*[lambda k=k: link(k) for k in cfgs], *[lambda u=u, k=k: one(u, k) for u in units for k in cfgs])
    out = c.path("headers.nd")
    with open(out, "w") as f:
        for e in ev:
            f.write(json.dumps(e) + "\n")
    return out


def compile_ways(c):
    tus = headers(c)
    side, _ = parallel(lambda: lockstep(c), lambda: c.model("CfgModel", "CfgModel", workers=1))
    c.judge("cfg", "TraceCfg", "TraceCfg", [tus, side], chunk=20, workers=8)


# ---------------------------------------------------------------- device builds
def rewrite_launches(t):
    """kernel <<< grid, block >>> ( args )  ->  VH_LAUNCH( kernel, grid, block )( args );  comments are left alone."""
    plain = re.sub(r"//[^\n]*|/\*.*?\*/|\"(?:\\.|[^\"\\\n])*\"", lambda m: re.sub(r"[^\n]", " ", m.group(0)), t, flags=re.S)
    out, done = [], 0
    for m in re.finditer(r"<<<", plain):
        k = m.start()
        while k and plain[k - 1].isspace():
            k -= 1
        if k and plain[k - 1] == ">":
            depth = 0
            while k:
                k -= 1
                depth += (plain[k] == ">") - (plain[k] == "<")
                if depth == 0:
                    break
            while k and plain[k - 1].isspace():
                k -= 1
        e = k
        while k and (plain[k - 1].isalnum() or plain[k - 1] in "_:"):
            k -= 1
        end = plain.find(">>>", m.end())
        if k == e or end < 0 or k < done:
            raise ValueError("a kernel launch that the check cannot read: " + t[max(0, m.start() - 60):m.end() + 60])
        out += [t[done:k], "VH_LAUNCH( ( ", t[k:m.start()].strip(), " ), ", t[m.end():end], " )"]
        done = end + 3
    return "".join(out) + t[done:]


DEVICE = {"cuda": ("SHIVA_ENABLE_CUDA", ["-D__CUDACC__", "-include", "cuda_sim.hpp"], "-D__CUDA_ARCH__=700"),
          "hip": ("SHIVA_ENABLE_HIP", ["-D__HIPCC__"], "-D__HIP_DEVICE_COMPILE__=1")}


def device(c):
    """The CUDA and the HIP build of the library on a simulated device (there is neither a device nor its compiler here)."""
    inc, sim = c.path("dev-inc"), os.path.join(c.root, "harness", "device")
    for d, _, fs in os.walk(os.path.join(c.repo, "include")):
        to = os.path.join(inc, os.path.relpath(d, os.path.join(c.repo, "include")))
        os.makedirs(to, exist_ok=True)
        for f in fs:
            t = open(os.path.join(d, f), errors="surrogateescape").read()
            try:
                open(os.path.join(to, f), "w", errors="surrogateescape").write(rewrite_launches(t))
            except ValueError as e:
                print("note: device builds not decided: %s" % e)
                c.notes.append("device builds not decided: %s" % e)
                return
    unknown = []

    def flags(api, passes):
        return DEVICE[api][1] + ["-I" + inc, "-I" + sim] + ([DEVICE[api][2]] if passes == "device" else [])

    def known(diag, api):
        """False: the sources use a part of the device's interface which the simulated one lacks; nothing can be said then."""
        m = re.search(r"'?\b((?:%s)[A-Z_]\w*|cub?d?a?/[\w/.]+|hip/[\w/.]+|__[a-z]\w+)\b[^\n]{0,60}(?:not declared|undeclared|does not name|No such file|not found|not a member|no member)"
                      % api, diag) or re.search(r"(?:undeclared identifier|unknown type name|no member named|No such file[^\n]*|fatal error:) '?((?:%s)[A-Z_]\w*|cuda/[\w/.]+|hip/[\w/.]+|__[a-z]\w+)" % api, diag)
        if m:
            unknown.append("%s build: %s" % (api, m.group(1)))
        return not m

    def build(name, src, api, passes, more=(), **kw):
        try:
            return c.compile(name, src, list(more) + flags(api, passes), own_includes=False, more=(DEVICE[api][0],), **kw)
        except Violation as v:
            if known(v.data["diagnostics"], api):
                raise
            return None
    sc = c.path("launches.json")
    exe = {}

    def made(key, *a, **kw):
        exe[key] = build(*a, **kw)
    ways = [("cuda", "host", dict()), ("hip", "host", dict(cxx="clang++", std="c++20", opt="-O2"))] + ([("cuda", "host", dict(cxx="clang++", opt="-O1")), ("hip", "host", dict())] if c.thorough else [])
    jobs = [lambda q=q, a=a: made(("dev", q), "dev%d" % q, "h_device.cpp", a[0], a[1], **a[2]) for q, a in enumerate(ways)]
    jobs += [lambda q=q, a=a, b=b: made(("asrt", q, b), "asrt%d%d" % (q, b), "h_devassert.cpp", a, "device", bounds=bool(b), **kw)
             for q, (a, kw) in enumerate((("cuda", dict()), ("hip", dict(cxx="clang++", std="c++20", opt="-O1")))) for b in (0, 1)]
    # every header in both kinds of build and in both passes
    hs = sorted(os.path.relpath(os.path.join(d, f), inc) for d, _, fs in os.walk(inc) for f in fs if f.endswith(".hpp") and f != "namespaceDocumentation.hpp")
    tu = c.path("tu")
    os.makedirs(tu)
    tus = []

    def header(h, api, passes, cxx, std):
        p = os.path.join(tu, h.replace("/", "_") + ".cpp")
        open(p, "w").write('#include "%s"\nint shiva_tu() { return 0; }\n' % h)
        rc, o, e = sh([cxx, "-std=" + std, "-w", "-fsyntax-only", "-I" + c.config(False, (DEVICE[api][0],)), *flags(api, passes), p], c.left(120))
        if rc != 0 and not known(e, api):
            return
        tus.append(dict(k="tu", header=h, how="alone", cfg="%s %s, %s build, %s pass" % (cxx, std, api, passes), rc=rc if isinstance(rc, int) else -1, diag=e[:600].encode("ascii", "replace").decode()))
    jobs += [lambda h=h, a=a, p=p, x=x, s=s: header(h, a, p, x, s) for h in hs for a in DEVICE for p in ("host", "device") for x, s in ((("g++", "c++17"), ("clang++", "c++20")) if c.thorough else ((("g++", "c++17"),) if a == "cuda" else (("clang++", "c++20"),)))]
    parallel(lambda: c.simulate("gen", "DeviceGen", "DeviceGen", sc, 3000 if c.thorough else 300, 40), lambda: c.model("DeviceModel", "DeviceModel", workers=2), *jobs)
    ht = c.path("headers.nd")
    with open(ht, "w") as f:
        for e in sorted(tus, key=lambda e: (e["header"], e["cfg"])):
            f.write(json.dumps(e) + "\n")
    devs = [x for k, x in exe.items() if k[0] == "dev" and x]
    runs = [c.run("launch_" + os.path.basename(x), x, [sc]) for x in devs]
    rest = [ht] + [c.run("managed_" + os.path.basename(x), x) for x in devs] + [c.run("said_" + os.path.basename(x), x) for k, x in exe.items() if k[0] == "asrt" and x]

    # the library's operations in a host build and in both passes of the device builds
    cfgs = [("g++", "c++17", "-O0", False), ("g++", "c++17", "-O0", False, "cuda device"), ("clang++", "c++20", "-O0", False, "hip device")]
    cfgs += [("g++", "c++20", "-O0", True, "cuda host"), ("clang++", "c++17", "-O1", False, "hip host"), ("clang++", "c++17", "-O2", True, "cuda device")] if c.thorough else []

    def op(n, fl, k):
        kw = dict(cxx=k[0], std=k[1], opt=k[2], bounds=k[3])
        return build(n, "h_cfg.cpp", *k[4].split(), more=fl, **kw) if len(k) > 4 else c.compile(n, "h_cfg.cpp", fl, **kw)
    if not unknown:
        rest.append(lockstep(c, cfgs, op, endings=False))
    for u in sorted(set(unknown)):
        print("note: not decided, the simulated device lacks a part of the interface: " + u)
        c.notes.append("not decided, the simulated device lacks a part of the interface: " + u)
    parallel(lambda: c.judge("launch", "TraceDev", "TraceDev", runs, workers=4, hist=True),
             lambda: c.judge("rest", "TraceManaged", "TraceManaged", rest, chunk=20, workers=6))


# ---------------------------------------------------------------- histories and threads
RACE = r"""
#include <thread>
int shared;
int main( int n, char ** ) { int a = 0; std::thread t( [&] { RACY; } ); RACY; t.join(); return shared + a > 100; }
"""


def tsan(c):
    """Builds with the race detector, where it works here: it has to see a race and to stay silent where there is none."""
    cmd = ["clang++", "-std=c++17", "-O1", "-g", "-w", "-pthread", "-fsanitize=thread"]
    env = dict(c.env, TSAN_OPTIONS="exitcode=0:report_bugs=1:history_size=4")

    def reports(exe, args=(), timeout=200):
        rc, o, e = sh([exe, *args], c.left(timeout), cwd=c.dir, env=env)
        return rc, e.count("WARNING: ThreadSanitizer"), e
    for name, racy, want in (("racy", "shared += n", True), ("clean", "(void)n", False)):
        src = c.path("tsan_%s.cpp" % name)
        open(src, "w").write(RACE.replace("RACY", racy))
        rc, _, e = sh([*cmd, src, "-o", src + ".exe"], 120)
        if rc != 0:
            return None, e[-300:]
        rc, n, e = reports(src + ".exe", timeout=60)
        if rc != 0 or (n > 0) != want:
            return None, "exit %s, %d reports on the %s control" % (rc, n, name)
    return (cmd, reports), ""


def concurrency(c):
    """Programs of evaluations in one thread and in several, generated by ConcGen; race reports are part of the trace."""
    sc = c.path("conc.json")
    c.simulate("genconc", "ConcGen", "ConcGen", sc, 1500 if c.thorough else 400, 20)
    reps = "60" if c.thorough else "4"
    det, why = tsan(c)
    if det is None:
        c.notes.append("the race detector does not run here (%s): races are looked for in the outcomes only" % why)

    def raced(p):
        cmd, reports = det
        exe = c.path("tsan_%d" % p)
        rc, _, e = sh([*cmd, "-DPART=%d" % p, "-I" + os.path.join(c.root, "harness"), "-I" + c.config(False), "-I" + os.path.join(c.repo, "include"),
                       os.path.join(c.root, "harness", "h_conc.cpp"), "-o", exe], c.left(400))
        if rc != 0:
            raise CheckError("race-detector build of part %d: %s" % (p, e[-2000:]))
        tr = exe + ".nd"
        rc, n, e = reports(exe, [tr, sc, "6" if c.thorough else "1"], 400)
        if rc != 0:
            raise Violation("the real code crashed (exit %s) under concurrent evaluations" % rc, dict(stderr=e[-3000:]))
        with open(tr, "a") as f:
            f.write(json.dumps(dict(k="conc", how="race detector", threads=4, reports=e[:4000] if n else "", ops=[dict(o="race", reports=n)])) + "\n")
        return tr
    jobs = []
    for p in range(6):
        jobs += both(c, "conc%d" % p, "h_conc.cpp", ["-pthread", "-DPART=%d" % p], [sc, reps], timeout=400)
        if det:
            jobs.append(lambda p=p: raced(p))
    models = [lambda m=m: c.model("ConcModel", "ConcModel_" + m, workers=2) for m in ("own", "shared", "kept")]
    out = parallel(*jobs, *models)
    c.judge("conc", "TraceConc", "TraceConc", out[:len(jobs)], workers=8, hist=True)


# ---------------------------------------------------------------- what compiles
USE_HEADERS = dict(
    {f: ["common/CArray.hpp"] for f in ("index", "constant", "count", "deep", "extent", "list", "write", "bind", "data")},
    binom=["common/MathUtilities.hpp"], fact=["common/MathUtilities.hpp"], start=["common/MultiIndex.hpp"], lengths=["geometry/mapping/Scaling.hpp"],
    quad=["functions/quadrature/Quadrature.hpp"], **{f: ["geometry/shapes/NCube.hpp", "geometry/shapes/NSimplex.hpp"] for f in ("shape", "faces", "volume")},
    **{f: ["functions/bases/LagrangeBasis.hpp", "functions/bases/BasisProduct.hpp", "functions/spacing/Spacing.hpp", "functions/quadrature/Quadrature.hpp",
           "geometry/shapes/NCube.hpp", "geometry/shapes/InterpolatedShape.hpp", "geometry/mapping/LinearTransform.hpp",
           "discretizations/finiteElementMethod/parentElements/ParentElement.hpp"] for f in ("basis", "element", "point")})


def use(e):
    """A function body with the use that case e of UseOps describes."""
    def seq(v):
        return ", ".join(map(str, v))

    def zeros(n, v="0"):
        return seq([v] * n)
    f, D, n = e["f"], e.get("dims"), e.get("n")
    if D:
        d, size = seq(D), 1
        for q in D:
            size *= q

        def obj(kind, dd, sz, name="a"):
            b = "int b[%d] = {}; " % sz
            return {"own": "CArrayNd< int, %s > %s{};", "constown": "CArrayNd< int, %s > const %s{};", "view": b + "CArrayViewNd< int, %s > %s( b );",
                    "constview": b + "CArrayViewNd< int, %s > const %s( b );", "viewconst": b + "CArrayViewNd< int const, %s > %s( b );"}[kind] % (dd, name)
    if f == "index":
        return obj(e["kind"], d, size) + " int volatile v = a.operator()< %s >();" % seq(e["ix"])
    if f == "constant":
        acc = {"call": "( %s )" % seq(e["ix"]), "long call": "( %s )" % ", ".join("%dL" % q for q in e["ix"]), "brackets": "".join("[%d]" % q for q in e["ix"])}[e["how"]]
        return "static constexpr CArrayNd< int, %s > a{}; constexpr int v = a%s;" % (d, acc)
    if f == "count":
        return obj(e["kind"], d, size) + (" int volatile v = a( %s );" % zeros(n) if e["how"] == "call" else " int volatile v = a.operator()< %s >();" % zeros(n))
    if f == "deep":
        return obj(e["kind"], d, size) + " auto && v = a" + "[0]" * n + "; (void)v;"
    if f == "extent":
        return "int volatile v = CArrayNd< int, %s >::extent< %d >();" % (d, n)
    if f == "list":
        return "CArrayNd< %s, %s > a{ %s };" % (e["t"], d, zeros(n, "1" if e["t"] == "int" else "1.0"))
    if f == "write":
        k, r = e["kind"], len(D)
        if "slice" in k:
            of = {"slice": "own", "constslice": "own", "sliceofconst": "constown", "sliceofviewconst": "viewconst", "sliceofconstview": "constview"}[k]
            pre = obj(of, "2, " + d, 2 * size, "o") + (" auto const a = o[1];" if k == "constslice" else " auto a = o[1];")
        else:
            pre = obj(k, d, size)
        return pre + {"call": " a( %s ) = 1;" % zeros(r), "template": " a.template operator()< %s >() = 1;" % zeros(r), "brackets": " a%s = 1;" % ("[0]" * r),
                      "bracket+call": " auto && s = a[0]; s( %s ) = 1;" % zeros(r - 1)}[e["how"]].replace(".template ", ".")
    if f == "bind":
        fr, to = "int const" if e["constfrom"] else "int", "int const" if e["constto"] else "int"
        src = {"buffer": "%s b[%d] = {};" % (fr, size), "pointer": "%s m[%d] = {}; %s * b = m;" % (fr, size, fr), "own": "CArrayNd< int, %s > %s o{}; auto & b = o.data();" % (d, "const" if e["constfrom"] else "")}[e["how"]]
        return src + " CArrayViewNd< %s, %s > a( b );" % (to, d)
    if f == "data":
        return "CArrayNd< int, %s > %s a{}; int %s * p = a.data();" % (d, "const" if e["constfrom"] else "", "const" if e["constto"] else "")
    if f == "binom":
        return "constexpr {0} v = mathUtilities::binomialCoefficient< {0}, {1}, {2} >::value;".format(e["t"], n, e["k"])
    if f == "fact":
        return "constexpr {0} v = mathUtilities::factorial< {0}, {1} >::value;".format(e["t"], n)
    cell = {"cube": "geometry::NCube", "simplex": "geometry::NSimplex"}.get(e.get("shape"))
    if f == "shape":
        return "constexpr int v = %s< double, %d, %d, %d, %d >::numDims();" % (cell, n, e["mn"], e["mx"], e["dv"])
    if f == "faces":
        return "constexpr int v = %s< double, %d, 0, 1, 1 >::%s< %d >();" % (cell, n, "numMCubes" if e["shape"] == "cube" else "numMSimplexes", e["m"])
    if f == "volume":
        return "constexpr double v = %s< double, %d, 0, 1, 1 >::volume();" % (cell, n)
    quad = {"gl": "QuadratureGaussLegendre", "gll": "QuadratureGaussLobatto"}.get(e.get("fam"))
    if f == "quad":
        return "%s volatile v = %s< %s, %d >::%s;" % (e["t"], quad, e["t"], n, "weight< 0 >()" if e["form"] == "ct" else "weight( 0 )")
    bases = ["functions::LagrangeBasis< double, %d, EqualSpacing >" % (1 + q % 2) for q in range(4)]
    if f in ("basis", "element"):
        def on(d, m):
            cube = "geometry::NCube< double, %d, -1, 1, 2 >" % d
            return {"product": "functions::BasisProduct< double, %s >", "shape": "geometry::InterpolatedShape< double, " + cube + ", %s >",
                    "element": "discretizations::finiteElementMethod::ParentElement< double, " + cube + ", %s >"}[e["on"]] % seq(bases[:m])
        if f == "element":
            return "int volatile v = %s::numDims;" % on(e["d"], n)
        return "double const x[%d] = {}; auto const v = %s::%s< %s >( x ); (void)v;" % (e["d"], on(e["d"], e["d"]), e["what"], zeros(n))
    if f == "point":
        return ("using C = geometry::LinearTransform< double, geometry::InterpolatedShape< double, geometry::NCube< double, 3, -1, 1, 2 >, {0}, {0}, {0} > >; C c{{}}; C::JacobianType J{{}}; "
                "geometry::utilities::jacobian< {1}< double, 2 >, {2} >( c, J );").format(bases[0], quad, zeros(n))
    if f == "lengths":
        return "geometry::Scaling< {0} > c{{}}; {0} const h[{1}] = {{}}; c.setData( h );".format(e["t"], n)
    if f == "start":
        return "MultiIndexRange< {0}, {1} > i{{ {{ {2} }} }}; (void)i;".format(e["t"], d, zeros(n))
    raise CheckError("no program for " + f)


def uses(c):
    """Every listed case is compiled - the well-formed ones together, the others on their own - and TLC judges what was accepted."""
    cases = c.listing("UseGen", "UseGen_Big" if c.thorough else "UseGen", "uses.json")
    d = c.path("uses")
    os.makedirs(d)
    ways = [("g++", "c++17"), ("clang++", "c++20"), ("g++", "c++20"), ("clang++", "c++17")]

    def text(es):
        hs = sorted({h for _, e in es for h in USE_HEADERS[e["f"]]})
        return "".join('#include "shiva/%s"\n' % h for h in hs) + "using namespace shiva;\n" + "".join("void use%d() { %s }\n" % (i, use(e)) for i, e in es)

    def accepts(way, es, name):
        src = os.path.join(d, name + ".cpp")
        open(src, "w").write(text(es))
        checked = es[0][1]["f"] == "constant"
        rc, o, err = sh([way[0], "-std=" + way[1], "-w", "-fsyntax-only", "-I" + c.config(checked), "-I" + os.path.join(c.repo, "include"), src], c.left(300))
        if rc == "timeout" or rc not in (0, 1) or "internal compiler error" in err or "Killed" in err or "No space left" in err:
            raise CheckError("compiler failed on %s (%s): %s" % (src, rc, err[-1000:]))
        return rc == 0, err

    def batch(way, es, name):
        """The set of cases of es that are accepted."""
        ok, err = accepts(way, es, name)
        if ok:
            return {i: (True, "") for i, _ in es}
        if len(es) == 1:
            return {es[0][0]: (False, err)}
        out = {}
        for k in range(2):
            out.update(batch(way, es[k::2], "%s_%d" % (name, k)))
        return out
    for w in ways:
        open(os.path.join(d, "control.cpp"), "w").write("#include <vector>\nint f() { return 0; }\n")
        rc, o, err = sh([w[0], "-std=" + w[1], "-fsyntax-only", os.path.join(d, "control.cpp")], c.left(60))
        if rc != 0:
            raise CheckError("compiler %s %s does not work: %s" % (*w, err[-500:]))
    good, jobs = {}, []
    for i, (ok, e) in enumerate(cases):
        if ok:           # only decides what is compiled together: the verdict is TLC's
            good.setdefault((e["f"], e.get("how") if e["f"] == "constant" else None), []).append((i, e))
        else:
            for q in (range(4) if c.thorough else (i % 2,)):
                jobs.append((ways[q], [(i, e)], "alone%d_%d" % (q, i)))
    for k, (g, es) in enumerate(good.items()):
        for q in range(4 if c.thorough else 2):
            for part in range(0, len(es), 60):
                jobs.insert(0, (ways[q], es[part:part + 60], "good%d_%d_%d" % (q, k, part)))
    out = parallel(*[lambda j=j: batch(*j) for j in jobs])
    tr = c.path("uses.nd")
    with open(tr, "w") as f:
        for (way, es, _), res in zip(jobs, out):
            for i, e in es:
                f.write(json.dumps(dict(k="use", case=e, cxx="%s %s" % way, accepted=res[i][0], diag=res[i][1][:300].encode("ascii", "replace").decode())) + "\n")
    c.judge("uses", "TraceUse", "TraceUse", [tr], chunk=100, workers=8)


CHECKS = {
    "C01": array_addresses,
    "C02": array_histories,
    "C03": array_bounds,
    "C04": loops("LI", "RANGE"),
    "C05": loops("PACK", "SEQ"),
    "C06": assertions,
    "C07": fe(["Sp"], [("SP", 1)]),
    "C08": fe(["Qd"], [("QD", 1)]),
    "C09": fe(["Lag", "Card"], [("LAGV", 2)]),
    "C10": fe(["Lag"], [("LAGG", 2)]),
    "C11": fe(["Ten"], [("BP", 8)]),
    "C12": fe(["Ten"], [("PE", 7)], fields=True),
    "C13": compile_ways,
    "C23": concurrency,
    "C24": uses,
    "C14": cells("jac", "Jac", 1, models=[("GeomSpec", "GeomSpec_Jac"), ("CellModel", "CellModel")]),
    "C15": cells("inv", "Inv", 2, inv=True, models=[("GeomSpec", "GeomSpec_Inv")]),
    "C16": cells("all", None, 3, lin=False, scal=True, models=[("CellModel", "CellModel")]),
    "C17": shape(["SHAPE"], "ShapeSpec"),
    "C18": cells("data", "Data", 0, models=[("CellModel", "CellModel")]),
    "C19": aggregation,
    "C20": shape(["MATH", "BINOM"], "MathSpec"),
    "C21": kernels,
    "C22": integrals,
    "C25": device,
    "C26": package,
}

_FE = ("TLA+ model of the finite-element ingredients (exact rationals) checked with TLC; traces recorded from the real code "
       "judged by TLC against it")
_FEN = ("The specification's own laws are model-checked over all rules, orders and a grid of points; every value logged from the real "
        "code is judged by TLC against the specification with a rigorous rounding bound (standard model, slack 8). Coordinates between "
        "the logged ones are covered by sampling (nodes, midpoints, outside points, random); a fixed set of element types is instantiated.")
NOTES = {i: (_FE, _FEN) for i in ("C07", "C08", "C09", "C10", "C11", "C12")}

_CE = ("TLA+ state machine of cells (data histories, exact Jacobians and inverses) model-checked with TLC; behaviours generated from it by "
       "TLC simulation are replayed into the real code and every recorded step is validated by TLC against it")
_CEN = ("Six interpolated cell types (2-D and 3-D, 1 to 3rd order, mixed families, float and double) and the scaling cells in both types; "
        "histories up to 14 operations on 3 cells, data from dyadic grids and extreme random values; numbers are judged with a rigorous "
        "rounding bound (ball arithmetic, slack 8); near-singular matrices are judged for the determinant only.")
for _i in ("C14", "C15", "C16", "C18"):
    NOTES[_i] = (_CE, _CEN)
NOTES["C17"] = ("TLA+ specification of faces (explicit enumeration) and exact measures, model-checked with TLC; values recorded from the real code judged by TLC against it",
                "Dimensions up to the representable limits and a set of integer bounds including extreme ones are instantiated; enumeration laws are checked for N <= 5.")
NOTES["C20"] = ("TLA+ specification of exact integer powers, factorials and binomials (Pascal recurrences) model-checked with TLC; values recorded from the real code judged by TLC against it",
                "All factorial/binomial arguments the code can represent; powers over a grid of bases, exponents and integer widths.")
NOTES["C23"] = ("TLA+ model of evaluations interleaved by several threads (hidden shared or kept state is exposed by it), model-checked with TLC; programs generated from the specification are run in one thread and in several and the recorded histories, with the race detector's reports, are validated by TLC against it",
                "About 150 operations on 6 inputs each (all families, shapes, fields, arrays, cells - shared and thread-owned -, kernels, loops), generated programs of 14 evaluations "
                "with up to 4 threads, repeated; schedules are those the machine happens to produce, plus what ThreadSanitizer's happens-before analysis concludes from them.")
NOTES["C24"] = ("TLA+ specification of the well-formed uses of the compile-time interface; every case it lists is compiled against the headers and TLC judges which were accepted",
                "About 1,800 cases (array shapes of rank 1 to 4 with one index out of place, every kind of object and access, counts, constness, domains of the templates); "
                "acceptance is observed with g++ and clang++, C++17 and C++20 (quick: each ill-formed case with one of them).")
NOTES["C25"] = ("TLA+ model of launches on a device that runs them in its own time and may fail (atomic launches refined, memory accounted for), model-checked with TLC; launch sequences generated from the specification are run by the real device arm "
                "of the code on a simulated device and TLC validates what the caller sees and every call made; device and host passes compared in lock step by TLC",
                "There is neither a device nor its compiler here: the CUDA and HIP builds are compiled with g++ and clang++ against a simulated run-time interface (launch syntax rewritten, device memory out of the host's reach, "
                "launches run when waited for, faults injected). 300 sequences of 12 launches (thorough 3000) over four buffers and types, 300 library operations in both passes, every header in both builds and passes.", )
NOTES["C22"] = ("TLA+ specification of element integrals over exact rationals (quadrature sums proved equal to exact tensor integrals on a small scope by TLC); "
                "integrals assembled from the real library's parts judged by TLC against it",
                "Volumes, mass, gradient and stiffness entries and moments over scaled, affine, trilinear and one quadratic cell type, several rules, "
                "every calling form, 48 vertex numberings; random cells by seed, rounding-error tolerance.")
NOTES["C01"] = ("TLA+ row-major index model (bijection and order model-checked with TLC as part of the odometer) ; addresses recorded from the real code for every access path judged by TLC",
                "Every shape of rank <= 3 with extents <= 3 (rank 4 in the thorough tier), listed by the specification itself, plus about 20 larger or special shapes up to rank 6; all elements of each, "
                "ten index types, five kinds of handle, compile-time indices, constant evaluation.")
NOTES["C02"] = ("TLA+ state machine of storage, handles, slices and copies model-checked with TLC against last-write-wins over multi-indices; behaviours generated from it replayed into the real code, every step validated by TLC",
                "Model: 2x2 arrays, 4 operations (5 in the thorough tier), 2x1x2, 3 operations. Replay: 400 random histories of 30 operations over six shapes and element types.")
NOTES["C03"] = ("TLA+ machine of level-wise checking model-checked with TLC; accesses observed in child processes of the real bounds-checked build judged by TLC (ending, diagnostic, element reached, bytes changed)",
                "Seven shapes of rank 1-4, all index vectors one beyond the box on each side (sampled for large boxes), nine index types with extreme values, six access paths, g++ -O0 and clang -O2; "
                "square brackets take int. The address traces of C01 are repeated with checking on.")
NOTES["C06"] = ("TLA+ state machine of programs of assertions model-checked with TLC; programs generated from it executed in child processes of the real code, their ending, standard error and evaluations validated by TLC",
                "1200 programs of up to 12 operations (thorough: 6000): 14 uses of the macro (condition forms, contexts, locations), direct calls with and without abort, 12 message formats up to 6000 characters; sequential programs only.")
NOTES["C21"] = ("TLA+ state machine of kernel launches model-checked with TLC; launch sequences generated from it executed by the real code and validated by TLC after every launch; tolerance predicate judged exactly by TLC",
                "Host build only. 300 sequences of 15 launches over four buffers and element types, eight callable forms; about 13000 predicate evaluations including neighbours of a tie; a tie inside the rounding error of the difference may go either way.")
NOTES["C19"] = ("TLA+ specification of include resolution and of aggregation as a machine emitting ready headers, model-checked with TLC over all dependency graphs of 4 headers; trees generated from it run through the real script and its output validated by TLC",
                "About 220 random trees of 2-8 headers (thorough: about 1900) over five directories, all include forms, unresolvable includes, several roots and include directories; splitting of aggregates with relative, absolute and upward names; "
                "about 50 trees with circles (thorough: about 350), which must be reported; the library's own headers in several root orders, whose aggregate must also compile.")
NOTES["C26"] = ("TLA+ model of configuring, installing, moving and using the library, model-checked with TLC over all short histories; histories generated from it are carried out by the real CMake project and by client projects, and what these saw is validated by TLC",
                "About 60-110 histories of 6-14 steps (thorough: about 1000) over three build directories (one with the library as a subdirectory) and two prefixes: options given, kept, taken back, spelt in every form; install to a prefix or staged; moved prefixes; "
                "clients in three language standards with the sources hidden; the configuration script with paths and arguments of every form, run by an unprivileged user. BLT, CUDA and HIP tool chains are not there: their configurations are observed in the generated header only.")
NOTES["C13"] = ("TLA+ self-composition of the library under two ways of compiling and evaluating, model-checked with TLC; the same program of operations recorded from every configuration and both moments of evaluation validated by TLC in lock step",
                "g++ and clang++, C++17 and C++20, -O0 and -O2 -DNDEBUG, bounds checking off and on: the 8 of 16 combinations in which any three factors take all values (thorough: all 16, -O3, -Os). About 330 operations, 4 inputs in "
                "constant expressions and at run time, random inputs at run time. Every header alone in 8 configurations, all together in two linked units. Agreement up to a few to 1024 roundings of the outcome's magnitude; x86-64 only.")
_IT = ("TLA+ odometer model of iteration (lexicographic completeness, bijective row-major index, termination) model-checked with TLC over all small boxes "
       "and starts; loops recorded from the real code validated by TLC step by step as its runs")
NOTES["C04"] = (_IT, "About 45 range types (1-7 dimensions, seven index types, empty and unit extents, products up to the index type's limit); every start of the small boxes, "
                "several callback forms, nested and repeated loops, compile-time evaluation.")
NOTES["C05"] = (_IT, "Loop lengths 0-40, 15 nestings of up to 6 levels, argument- and template-style callables, stateful callables, constant evaluation; sequence execution with "
                "every value category of forwarded arguments. Nested loops are specified for argument-style callables only (the only form they support).")

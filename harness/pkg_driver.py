#!/usr/bin/env python3
"""Configures, installs and uses the library as generated histories say, and records what came of it.

pkg_driver.py REPO HISTORIES OUT
Everything is written below a scratch directory; nothing is installed elsewhere.
"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

ENV = dict(PATH=os.environ.get("PATH", "/usr/bin:/bin"), LC_ALL="C.UTF-8", CCACHE_DISABLE="1")
APP = r'''
#include <shiva/ShivaConfig.hpp>
#if !defined( SHIVA_ENABLE_CUDA ) && !defined( SHIVA_ENABLE_HIP ) && !defined( SHIVA_ENABLE_CAMP )
#define ALL 1
#include <shiva/Shiva.hpp>
#include "shiva/common/CArray.hpp"
#include <sys/wait.h>
#include <unistd.h>
#endif
#include <cstdio>
#define STR2( ... ) #__VA_ARGS__
#define STR( x ) STR2( x )
int checks()
{
#ifdef ALL
  fflush( stdout );
  int const pid = fork();
  if( pid == 0 )
  {
    fclose( stdout ); fclose( stderr );
    static int buf[16] = { 0 };
    volatile int k = 5;
    shiva::CArrayViewNd< int, 4 > a( buf );
    volatile int r = a( (int)k );
    (void) r;
    _exit( 0 );
  }
  int st = 0;
  waitpid( pid, &st, 0 );
  return WIFEXITED( st ) && WEXITSTATUS( st ) == 0 ? 0 : 1;
#else
  return 2;
#endif
}
int main()
{
  bool bounds = false, cuda = false, hip = false, camp = false;
#ifdef SHIVA_ENABLE_BOUNDS_CHECK
  bounds = true;
#endif
#ifdef SHIVA_ENABLE_CUDA
  cuda = true;
#endif
#ifdef SHIVA_ENABLE_HIP
  hip = true;
#endif
#ifdef SHIVA_ENABLE_CAMP
  camp = true;
#endif
  char const * const w[] = { "false", "true" };
  int const c = checks();
  std::printf( "{\"bounds\":%s,\"cuda\":%s,\"hip\":%s,\"camp\":%s,\"cudaver\":[%s,%s],\"ver\":[%s,%s,%s],\"std\":%ld,\"checks\":%d}\n",
               w[bounds], w[cuda], w[hip], w[camp], STR( SHIVA_CUDA_MAJOR ), STR( SHIVA_CUDA_MINOR ),
               STR( SHIVA_VERSION_MAJOR ), STR( SHIVA_VERSION_MINOR ), STR( SHIVA_VERSION_PATCHLEVEL ), long( __cplusplus ), c );
}
'''
NOTES = ["plain", "a b", "x;y", "it's", 'say "so"', "$HOME", "a&b|c", "*"]
NOBODY = 65534
NONE = dict(bounds=False, cuda=False, hip=False, camp=False, cudaver=[-1, -1], ver=[-1, -1, -1], std=0, checks=0)


def demote():
    """An unprivileged user for the script, which deletes directories; it is not run otherwise."""
    os.setgroups([])
    os.setgid(NOBODY)
    os.setuid(NOBODY)
    os.umask(0o022)


def snap(d, skip):
    out = {}
    for q, ds, fs in os.walk(d):
        ds[:] = [x for x in ds if os.path.join(q, x) not in skip]
        out[q] = (sorted(ds), sorted(fs))
    return out


def run(cmd, cwd, env=(), low=False):
    try:
        p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120, env=dict(ENV, **dict(env)), preexec_fn=demote if low else None)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return -1000, "timed out"


def header(path):
    """What a configuration header defines, according to the preprocessor."""
    if not os.path.exists(path):
        return NONE
    rc, o = run(["g++", "-x", "c++", "-E", "-dM", path], os.path.dirname(path))
    d = dict(re.findall(r"#define (SHIVA_\w+) ?(.*)", o))

    def n(k):
        v = d.get("SHIVA_" + k, "").strip()
        return int(v) if v.isdigit() else -1
    return dict(bounds="SHIVA_ENABLE_BOUNDS_CHECK" in d, cuda="SHIVA_ENABLE_CUDA" in d, hip="SHIVA_ENABLE_HIP" in d, camp="SHIVA_ENABLE_CAMP" in d,
                cudaver=[n("CUDA_MAJOR"), n("CUDA_MINOR")], ver=[n("VERSION_MAJOR"), n("VERSION_MINOR"), n("VERSION_PATCHLEVEL")])


def headers(d):
    out = {}
    for q, _, fs in os.walk(d):
        for f in fs:
            if f.endswith(".hpp") and f != "ShivaConfig.hpp":
                with open(os.path.join(q, f), "rb") as h:
                    out[os.path.relpath(os.path.join(q, f), d)] = h.read()
    return out


class History:
    def __init__(self, base, repo, tree, have, ver):
        self.base, self.hd, self.have, self.ver = base, tree["hd"], have, ver
        self.src = os.path.join(base, "src")
        shutil.copytree(repo, self.src, symlinks=True)
        self.dirs = {}              # build directories and prefixes at other places than usual
        self.n = 0

    def d(self, *a):
        return os.path.join(self.base, *a)

    def std(self):
        return ["-DCMAKE_CXX_STANDARD=%d" % self.hd["std"]] if self.hd["std"] else []

    def conf(self, op):
        b = op["b"]
        sub = b == self.hd["nb"]
        bd = self.build(b)
        args = ["-U" + x for x in op["unset"]] + ["-D%s=%s" % (x[0], x[2]) for x in op["sets"]]
        cv = ".".join(str(x) for x in op["cv"])
        if cv:
            args.append("-DCMAKE_CUDA_COMPILER_VERSION=" + cv)
        new = not os.path.exists(os.path.join(bd, "CMakeCache.txt"))
        if sub:
            p = self.d("parent")
            os.makedirs(p, exist_ok=True)
            with open(os.path.join(p, "CMakeLists.txt"), "w") as f:
                f.write("cmake_minimum_required(VERSION 3.23)\nproject(parent VERSION 7.8.9 LANGUAGES CXX)\n" + "".join('set(%s "%s")\n' % (x[0], x[2]) for x in op["norm"]) +
                        'add_subdirectory("%s" shiva-build)\nadd_executable(app app.cpp)\ntarget_link_libraries(app PRIVATE Shiva::shiva)\nget_directory_property(pv DIRECTORY "%s" DEFINITION Shiva_VERSION)\nfile(WRITE "${CMAKE_BINARY_DIR}/pver" "${pv}")\n' % (self.src, self.src))
            with open(os.path.join(p, "app.cpp"), "w") as f:
                f.write(APP)
            hdr = os.path.join(bd, "shiva-build", "include", "shiva", "ShivaConfig.hpp")
            args += self.std() if new else []
        else:
            p = self.src
            hdr = os.path.join(bd, "include", "shiva", "ShivaConfig.hpp")
            args += ["-DCMAKE_INSTALL_INCLUDEDIR=" + self.hd["inc"], "-DCMAKE_INSTALL_LIBDIR=" + self.hd["lib"], "-DCMAKE_INSTALL_PREFIX=" + self.d("unused")] if new else []
        if new:
            args += ["-DCMAKE_CXX_COMPILER=" + self.hd["cxx"], "-G", self.hd["gen"]]
        rc, o = run(["cmake", "-S", p, "-B", bd] + args, self.base)
        return dict(ok=rc == 0, x=header(hdr) if rc == 0 else NONE)

    def build(self, b):
        return self.dirs.get(("b", b), self.d("b%d" % b))

    def prefix(self, q):
        return self.dirs.get(("p", q), self.d("prefix%d" % q))

    def wrap(self, op):
        """The configuration script, run by an unprivileged user who owns this history's directory only."""
        self.n += 1
        nest = op["o"] == "nest"
        b, p = op["b"], op["p"]
        w = self.d("w %d" % self.n if nest else "w %d" % b)
        os.makedirs(w, exist_ok=True)
        name = "host %d%s" % (b, ".cmake" if op["form"] % 2 else "")
        host = os.path.join(w, name)
        with open(host, "w") as f:
            f.write(("# cmake executable path: /usr/bin/cmake\n" if (op["form"] + b) % 2 else "") + 'set(CMAKE_CXX_COMPILER "%s" CACHE STRING "")\n' % self.hd["cxx"] + "".join('set(%s "%s" CACHE STRING "" FORCE)\n' % (x[0], x[2]) for x in op["host"]))
        if nest:
            bd, to = ((os.path.join(w, "out", "b"), os.path.join(w, "out")), (os.path.join(w, "out"), os.path.join(w, "out", "i")))[op["form"] % 2]
            where = ["-bp", bd, "-ip", to]
        elif op["paths"] == "default":
            stem = "host %d-%s" % (b, op["bt"].lower())
            bd, to = os.path.join(w, "build-" + stem), os.path.join(w, "install-" + stem)
            where = []
        else:
            bd, to = self.d("b%d" % b), self.d("prefix%d" % p)
            where = ["-bp", bd, "--installpath", to] if op["paths"] == "given" else ["--buildpath", os.path.relpath(bd, w), "-ip", os.path.relpath(to, w)]
        for x in (bd, to):
            if not nest or op["form"] > 1:
                os.makedirs(x, exist_ok=True)
                open(os.path.join(x, "stale"), "w").close()
        if not nest:
            self.dirs[("b", b)], self.dirs[("p", p)] = bd, to
        run(["chown", "-R", "%d:%d" % (NOBODY, NOBODY), self.base], "/")
        before = snap(self.base, (bd, to))
        args = ["-D%s=%s" % (x[0], x[2]) for x in op["sets"]] + ["-DSHIVA_NOTE=" + NOTES[op["note"] - 1], "-DCMAKE_INSTALL_INCLUDEDIR=" + self.hd["inc"], "-DCMAKE_INSTALL_LIBDIR=" + self.hd["lib"]]
        if op["cv"]:
            args.append("-DCMAKE_CUDA_COMPILER_VERSION=" + ".".join(str(x) for x in op["cv"]))
        try:
            rc, o = run([sys.executable, os.path.join(self.src, "scripts", "config-build.py"), "-hc", host if op["form"] < 2 else name, "-bt", op["bt"]] + where + (["-n"] if self.hd["gen"] == "Ninja" else []) + (["-ecc"] if op["form"] in (0, 3) else []) + args, w, low=True)
        except (OSError, subprocess.SubprocessError) as e:
            sys.exit("the configuration script cannot be run by an unprivileged user: %s" % e)
        after = snap(self.base, (bd, to))
        cache = dict(re.findall(r"^(\w+):\w+=(.*)$", open(os.path.join(bd, "CMakeCache.txt")).read(), re.M)) if os.path.exists(os.path.join(bd, "CMakeCache.txt")) else {}
        return dict(ok=rc == 0, x=header(os.path.join(bd, "include", "shiva", "ShivaConfig.hpp")) if rc == 0 else NONE, elsewhere=before != after,
                    fresh=os.path.isdir(to) and (nest or not os.listdir(to)) and not os.path.exists(os.path.join(bd, "stale")),
                    note=cache.get("SHIVA_NOTE") == NOTES[op["note"] - 1], type=cache.get("CMAKE_BUILD_TYPE") == op["bt"], db=cache.get("CMAKE_EXPORT_COMPILE_COMMANDS", "").upper() in ("ON", "TRUE", "YES", "1"), to=cache.get("CMAKE_INSTALL_PREFIX") == to, log="" if rc == 0 else o[-400:])

    def nest(self, op):
        return self.wrap(op)

    def install(self, op):
        bd = self.build(op["b"])
        to = self.prefix(op["p"])
        if op["mode"] == "own":
            rc, o = run(["cmake", "--install", bd], self.base)
        elif op["mode"] == "prefix":
            rc, o = run(["cmake", "--install", bd, "--prefix", to], self.base)
        else:
            stage = self.d("stage")
            rc, o = run(["cmake", "--install", bd, "--prefix", "/opt/lib shiva"], self.base, dict(DESTDIR=stage))
            made = os.path.join(stage, "opt", "lib shiva")
            if rc == 0 and os.path.isdir(made):
                shutil.copytree(made, to, dirs_exist_ok=True, symlinks=True)
            shutil.rmtree(stage, ignore_errors=True)
        return dict(ok=rc == 0, log="" if rc == 0 else o[-300:])

    def app(self, bd, incs):
        exe = os.path.join(bd, "app")
        rc, o = run(["cmake", "--build", bd], self.base)
        if rc == 0:
            rc, o = run([exe], self.base)
        try:
            x, ok = json.loads(o.strip().split("\n")[-1]), rc == 0
        except ValueError:
            x, ok = NONE, False
        have = {}
        for i in incs:
            have = dict(headers(i), **have)
        pv = os.path.join(bd, "pver")
        pv = open(pv).read() if os.path.exists(pv) else ""
        return dict(built=ok, x=x, pver=[int(q) for q in re.findall(r"\d+", pv)], missing=sorted(k for k in self.have if have.get(k) != self.have[k])[:5] if ok else [],
                    log="" if ok else o[-600:])

    def use(self, op):
        bd = self.build(op["b"])
        if not os.path.exists(os.path.join(bd, "CMakeCache.txt")):
            return dict(built=False, x=NONE, pver=[], missing=[], log="")
        return self.app(bd, [os.path.join(self.src, "include")])

    def find(self, op):
        self.n += 1
        p, bd = self.d("client%d" % self.n), self.d("client%d" % self.n, "build")
        os.makedirs(p)
        v = self.ver
        ask = {"none": "", "same": "%d.%d.%d" % tuple(v), "major": "%d" % v[0], "majorminor": "%d.%d" % tuple(v[:2]), "older": "%d.0.0" % v[0], "minor+1": "%d.%d" % (v[0], v[1] + 1),
               "patch+1": "%d.%d.%d" % (v[0], v[1], v[2] + 1), "major+1": "%d.0" % (v[0] + 1)}[op["ask"]]
        line = "find_package(Shiva %s CONFIG QUIET)\n" % ask
        with open(os.path.join(p, "CMakeLists.txt"), "w") as f:
            f.write("cmake_minimum_required(VERSION 3.23)\nproject(client VERSION 7.8.9 LANGUAGES CXX)\n" + line * (2 if op["twice"] else 1) +
                    'if(NOT Shiva_FOUND)\n  file(WRITE "${CMAKE_BINARY_DIR}/notfound" "")\n  return()\nendif()\n'
                    'add_executable(app app.cpp)\ntarget_link_libraries(app PRIVATE Shiva::shiva)\n'
                    'file(WRITE "${CMAKE_BINARY_DIR}/pver" "${Shiva_VERSION}")\nfile(WRITE "${CMAKE_BINARY_DIR}/incs" "${Shiva_INCLUDE_DIRS}")\n')
        with open(os.path.join(p, "app.cpp"), "w") as f:
            f.write(APP)
        to = self.prefix(op["p"])
        where = {"path": "-DCMAKE_PREFIX_PATH=" + to, "root": "-DShiva_ROOT=" + to, "dir": "-DShiva_DIR=" + os.path.join(to, self.hd["lib"], "cmake", "Shiva")}[op["via"]]
        # neither the sources nor a build of them take part
        hidden = self.src + ".hidden"
        os.rename(self.src, hidden)
        try:
            rc, o = run(["cmake", "-S", p, "-B", bd, "-G", self.hd["gen"], "-DCMAKE_CXX_COMPILER=" + self.hd["cxx"], "-DCMAKE_FIND_USE_PACKAGE_REGISTRY=OFF", where] + self.std(), self.base)
            found = not os.path.exists(os.path.join(bd, "notfound"))
            if rc != 0 or not found:
                r = dict(found=found, built=False, x=NONE, pver=[], missing=[], log=o[-600:] if rc else "")
            else:
                inc = open(os.path.join(bd, "incs")).read()
                r = dict(found=True, **self.app(bd, [x for x in inc.split(";") if x]))
        finally:
            os.rename(hidden, self.src)
        shutil.rmtree(p)
        return r

    def move(self, op):
        if os.path.isdir(self.prefix(op["q"])):
            shutil.rmtree(self.prefix(op["q"]))
        if os.path.isdir(self.prefix(op["p"])):
            os.rename(self.prefix(op["p"]), self.prefix(op["q"]))
        return {}

    def drop(self, op):
        shutil.rmtree(self.build(op["b"]), ignore_errors=True)
        return {}


def version(repo, top):
    """The version the sources give themselves."""
    b = os.path.join(top, "ver")
    rc, o = run(["cmake", "-S", repo, "-B", b], top)
    m = re.search(r"^CMAKE_PROJECT_VERSION:\w+=(\S+)", open(os.path.join(b, "CMakeCache.txt")).read(), re.M) if os.path.exists(os.path.join(b, "CMakeCache.txt")) else None
    if rc != 0 or not m:
        sys.exit("the unchanged options do not configure:\n" + o[-2000:])
    shutil.rmtree(b)
    return [int(x) for x in (m.group(1).split(".") + ["0", "0"])[:3]]


def one(a):
    k, top, repo, tree, have, ver = a
    base = os.path.join(top, "h %d" % k)               # (paths may contain blanks)
    os.makedirs(base)
    h = History(base, repo, tree, have, ver)
    ops = [dict(op, **getattr(h, op["o"])(op)) for op in tree["ops"]]
    shutil.rmtree(base)
    return json.dumps(dict(tree["hd"], ver=ver, ops=ops))


def main():
    top = tempfile.mkdtemp(prefix="vpkg")
    try:
        os.chmod(top, 0o755)
        repo = os.path.join(top, "repo")
        shutil.copytree(sys.argv[1], repo, symlinks=True, ignore=lambda d, ns: [n for n in ns if n in (".git", "_build", "blt")])
        have, ver = headers(os.path.join(repo, "include")), version(repo, top)
        trees = [json.loads(x) for x in open(sys.argv[2])]
        with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
            out = list(ex.map(one, [(k, top, repo, t, have, ver) for k, t in enumerate(trees)]))
        with open(sys.argv[3], "w") as f:
            f.write("".join(x + "\n" for x in out))
    finally:
        shutil.rmtree(top, ignore_errors=True)


if __name__ == "__main__":
    main()

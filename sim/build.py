#!/usr/bin/env python3
"""Compile /repo's current working tree together with the simulator.

Produces BUILD/arkisim.  Objects are (re)built by ninja from dependency
files and a hash of the sources, so that a stale mtime can not hide a change.
"""
import os, sys, glob, sysconfig, hashlib, subprocess, fcntl, json, shutil

REPO = os.environ.get("ARKISIM_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.environ.get("ARKISIM_BUILD", os.path.join(os.path.dirname(HERE), "build"))

LIBCONFIG = """#pragma once
#define ARKI_HAVE_SPLICE
#define ARKI_IOTRACE
#define CONF_DIR "/sim/etc/arkimet"
#define HAVE_GEOS
#define HAVE_GRIBAPI
#define HAVE_LIBARCHIVE
#define HAVE_LIBCURL
#define HAVE_LIBZIP
#define HAVE_LUA
#define HAVE_LZO2
#define PACKAGE_VERSION "1.66"
#define POSTPROC_DIR "/sim/postproc"
"""

# Parts of the command line tools that do not depend on Python
PYTHON_SRCS = ("arki/python/arki-scan/dispatch.cc", "arki/python/arki-scan/results.cc", "arki/python/cmdline/processor.cc")

def excluded(rel):
    b = os.path.basename(rel)
    if b.endswith("-test.cc"): return True
    if b in ("tests.cc", "tests-main.cc", "testrunner.cc"): return True
    if rel in PYTHON_SRCS: return False
    if rel.startswith("arki/python/") or rel.startswith("arki/tests/"): return True
    if rel in ("arki/data/bufr.cc", "arki/data/vm2.cc", "arki/utils/vm2.cc"): return True
    return False

def write_if_changed(path, content):
    try:
        with open(path) as fd:
            if fd.read() == content: return
    except OSError:
        pass
    with open(path, "w") as fd:
        fd.write(content)

def content_touch(files):
    """Make mtimes agree with contents: ninja compares mtimes only, and a copy
    of the tree may carry misleading ones."""
    st = os.path.join(BUILD, "hashes.json")
    try:
        old = json.load(open(st))
    except Exception:
        old = {}
    new = {}
    changed = []
    for f in files:
        h = hashlib.sha1(open(f, "rb").read()).hexdigest()
        new[f] = h
        if f in old and old[f] != h:
            changed.append(f)
    # Files whose contents changed but whose mtime might not have: force the
    # dependents to be rebuilt by recording a per-build stamp header
    json.dump(new, open(st + ".new", "w"))
    return changed, st

def main():
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    gen = os.path.join(BUILD, "gen")
    os.makedirs(os.path.join(gen, "arki"), exist_ok=True)
    write_if_changed(os.path.join(gen, "arki", "libconfig.h"), LIBCONFIG)
    write_if_changed(os.path.join(gen, "config.h"), LIBCONFIG)
    write_if_changed(os.path.join(gen, "pch.h"), open(os.path.join(HERE, "pch.h")).read())

    srcs = []
    for root, dirs, files in os.walk(os.path.join(REPO, "arki")):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(".cc"):
                rel = os.path.relpath(os.path.join(root, f), REPO)
                if not excluded(rel): srcs.append(rel)
    hdrs = []
    for root, dirs, files in os.walk(os.path.join(REPO, "arki")):
        for f in files:
            if f.endswith((".h", ".tcc", ".ll", ".yy", ".hh")):
                hdrs.append(os.path.join(root, f))
    simsrcs = sorted(glob.glob(os.path.join(HERE, "*.cc")))
    simhdrs = sorted(glob.glob(os.path.join(HERE, "*.h")))

    allfiles = [os.path.join(REPO, s) for s in srcs] + sorted(hdrs) + simsrcs + simhdrs
    changed, st = content_touch(allfiles)
    now_forced = []
    # If contents changed while the mtime is older than the last build, remove objects
    force_all = False
    stamp = os.path.join(BUILD, "arkisim")
    if changed and os.path.exists(stamp):
        bt = os.stat(stamp).st_mtime
        for f in changed:
            if os.stat(f).st_mtime <= bt:
                if f.endswith(".cc"):
                    now_forced.append(f)
                else:
                    force_all = True

    def objname(s):
        return "obj/" + s.replace("/", "_").replace(".cc", ".o")

    pyinc = sysconfig.get_paths()["include"]
    geos = subprocess.run(["geos-config", "--includes"], capture_output=True, text=True).stdout.strip()
    inc = f"-I{gen} -I{REPO} -I{gen}/arki -I{gen}/arki/matcher/reftime -I{REPO}/arki -I{REPO}/arki/matcher/reftime -I/usr/include/lua5.1 -I/usr/include/lzo"
    cxxflags = f"-std=c++17 -O1 -g1 -w -D_FILE_OFFSET_BITS=64 -fno-omit-frame-pointer -pthread {inc}"
    out = []
    w = out.append
    w(f"cxxflags = {cxxflags}")
    w("rule cxx")
    w(" command = g++ $cxxflags $extra -MD -MF $out.d -c $in -o $out")
    w(" depfile = $out.d")
    w(" deps = gcc")
    w("rule pch")
    w(" command = g++ $cxxflags -MD -MF $out.d -x c++-header $in -o $out")
    w(" depfile = $out.d")
    w(" deps = gcc")
    w("rule flex")
    w(" command = flex --outfile=$out --header-file=gen/arki/matcher/reftime/reftime-lex.h $in")
    w("rule bison")
    w(" command = bison --output=gen/arki/matcher/reftime/reftime-parse.cc $in")
    w("rule link")
    w(" command = g++ -o $out @$out.rsp $libs")
    w(" rspfile = $out.rsp")
    w(" rspfile_content = $in")
    os.makedirs(os.path.join(gen, "arki/matcher/reftime"), exist_ok=True)
    w(f"build gen/arki/matcher/reftime/reftime-lex.cc | gen/arki/matcher/reftime/reftime-lex.h: flex {REPO}/arki/matcher/reftime/reftime-lex.ll")
    w(f"build gen/arki/matcher/reftime/reftime-parse.cc | gen/arki/matcher/reftime/reftime-parse.hh: bison {REPO}/arki/matcher/reftime/reftime-parse.yy")
    w("build gen/pch.h.gch: pch gen/pch.h")
    gend = "gen/arki/matcher/reftime/reftime-lex.cc gen/arki/matcher/reftime/reftime-parse.cc"
    objs = []
    for s in srcs:
        o = objname(s)
        objs.append(o)
        w(f"build {o}: cxx {REPO}/{s} | gen/pch.h.gch || {gend}")
        w(" extra = -include gen/pch.h" + (" -idirafter " + pyinc if s in PYTHON_SRCS else ""))
    for s in ("reftime-lex", "reftime-parse"):
        o = f"obj/gen_{s}.o"
        objs.append(o)
        w(f"build {o}: cxx gen/arki/matcher/reftime/{s}.cc || {gend}")
    for s in simsrcs:
        o = "obj/sim_" + os.path.basename(s).replace(".cc", ".o")
        objs.append(o)
        w(f"build {o}: cxx {s} | gen/pch.h.gch || {gend}")
        if os.path.basename(s) == "posix.cc":
            # Define both the plain and the 64 names of each call
            w(f" extra = -U_FILE_OFFSET_BITS -I{HERE}")
        else:
            w(f" extra = -include gen/pch.h -I{HERE}")
    w("build arkisim: link " + " ".join(objs))
    w(" libs = -pthread -lgeos_c -llua5.1 -llzo2 -leccodes -larchive -lzip -lz -lsqlite3 -lssl -lcrypto -ldl -no-pie")
    w("default arkisim")
    write_if_changed(os.path.join(BUILD, "build.ninja"), "\n".join(out) + "\n")
    if force_all:
        shutil.rmtree(os.path.join(BUILD, "obj"), ignore_errors=True)
    for f in now_forced:
        rel = os.path.relpath(f, REPO) if f.startswith(REPO + "/") else None
        o = objname(rel) if rel else "obj/sim_" + os.path.basename(f).replace(".cc", ".o")
        try: os.unlink(os.path.join(BUILD, o))
        except OSError: pass
    args = ["ninja", "-C", BUILD] + sys.argv[1:]
    res = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if res.returncode != 0:
        sys.stderr.write(res.stdout[-6000:])
        sys.exit(2)
    os.rename(st + ".new", st)
    tail = res.stdout.strip().splitlines()[-1:]
    print("build:", *tail)

if __name__ == "__main__":
    main()

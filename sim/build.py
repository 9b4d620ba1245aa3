#!/usr/bin/env python3
"""Builds simfl: VossII's fl from /repo's current working tree, with the
simulation hooks on (-DVOSS_SIM) and libc's nondeterministic and faulty parts
redirected to the simulator runtime (sim/rt) by the linker.

Nothing is written in /repo. Objects are cached by the hash of everything
that can influence them."""
import os, sys, re, hashlib, subprocess, shutil, fcntl
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lean

REPO = os.environ.get("VOSS_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))

GENERATED = {"lex.yy.c", "language.tab.c", "language.tab.h", "language.output",
             "prefs.h", "prefs_ext.h", "abi_version.h"}

WRAPS = open(os.path.join(HERE, "rt", "wraps.txt")).read().split()


def sh(cmd, cwd=None):
    r = subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       stdin=subprocess.DEVNULL)
    if r.returncode != 0:
        sys.stderr.write("BUILD FAILED: %s\n%s\n" % (" ".join(cmd)[:300], r.stdout.decode(errors="replace")[-6000:]))
        raise SystemExit(3)
    return r.stdout


def objlist(makefile, var):
    txt = open(makefile).read().replace("\\\n", " ")
    m = re.search(r"^%s\s*=\s*(.*)$" % var, txt, re.M)
    return [w for w in m.group(1).split() if w.endswith(".o")]


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def sync(src, dst, keep):
    """Mirror the files of src accepted by keep into dst (content compared)."""
    want = set()
    for root, dirs, files in os.walk(src):
        dirs[:] = [d for d in dirs if not d.startswith(".")]
        rel = os.path.relpath(root, src)
        for f in files:
            p = os.path.normpath(os.path.join(rel, f))
            if not keep(p):
                continue
            want.add(p)
            s, d = os.path.join(src, p), os.path.join(dst, p)
            try:
                data = read(s)
            except OSError:
                continue
            if not (os.path.exists(d) and read(d) == data):
                os.makedirs(os.path.dirname(d), exist_ok=True)
                with open(d, "wb") as f2:
                    f2.write(data)
    return want


def build(verbose=False):
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        return _build(verbose)
    finally:
        lock.close()


def _build(verbose):
    src = os.path.join(BUILD, "src")
    fl = os.path.join(src, "bin/fl")
    if os.path.isdir(src):
        shutil.rmtree(src)
    def keep_fl(p):
        b = os.path.basename(p)
        return b not in GENERATED and (p.endswith((".c", ".h", ".y", ".cc", ".tcl", ".fl", ".awk")) or b in ("lexer", "Makefile"))
    sync(REPO + "/src/bin/fl", fl, keep_fl)
    sync(REPO + "/src/lib", src + "/lib", lambda p: p.endswith((".c", ".h")) or p == "Makefile")
    sync(REPO + "/src/include", src + "/include", lambda p: p.endswith(".h"))
    sync(REPO + "/src/vosslib", src + "/vosslib", lambda p: p.endswith(".fl"))
    sync(REPO + "/src/external/minisat/minisat", src + "/minisat/minisat", lambda p: p.endswith((".cc", ".h")))

    tools = digest(*[subprocess.run([t, "--version"], stdout=subprocess.PIPE).stdout for t in ("gcc", "bison", "flex")])
    hdrs = []
    for d in ("bin/fl", "include", "minisat/minisat"):
        for root, _, files in sorted(os.walk(os.path.join(src, d))):
            for f in sorted(files):
                if f.endswith((".h", ".tcl", ".awk")):
                    hdrs.append(read(os.path.join(root, f)))
    rt = os.path.join(HERE, "rt")
    key_common = digest(tools, *hdrs, read(os.path.join(fl, "language.y")), read(os.path.join(fl, "lexer")))

    # Generated sources.
    gen = os.path.join(BUILD, "gen-" + key_common)
    genfiles = ["prefs.h", "prefs_ext.h", "abi_version.h", "language.tab.c", "language.tab.h", "lex.yy.c", "scripts/template"]
    if not os.path.exists(gen + "/ok"):
        for g in os.listdir(BUILD):
            if g.startswith("gen-"):
                shutil.rmtree(os.path.join(BUILD, g))
        sh("tclsh make_prefs.tcl", fl)
        sh("bison -d language.y", fl)
        sh("flex -l lexer", fl)
        os.makedirs(fl + "/scripts", exist_ok=True)
        sh("make -C scripts" if os.path.exists(fl + "/scripts/Makefile") else
           "cat voss_strings.h fsm.h table.h | gawk -f scripts/mk_serialize.awk > scripts/template", fl)
        abi = [h for h in re.search(r"^ABI_HEADERS\s*=\s*(.*)$", open(fl + "/Makefile").read(), re.M).group(1).split()]
        h = hashlib.sha256(b"".join(read(os.path.join(fl, a)) for a in abi)).hexdigest()
        with open(fl + "/abi_version.h", "w") as f:
            f.write('#ifndef FL_ABI_VERSION\n#define FL_ABI_VERSION "%s"\n#endif\n' % h)
        os.makedirs(gen + "/scripts", exist_ok=True)
        for g in genfiles:
            shutil.copy(os.path.join(fl, g), os.path.join(gen, g))
        open(gen + "/ok", "w").close()
    os.makedirs(fl + "/scripts", exist_ok=True)
    for g in genfiles:
        shutil.copy(os.path.join(gen, g), os.path.join(fl, g))

    base = ["-g1", "-DDEBUG", "-DVOSS_SIM", "-fno-pie", "-U_FORTIFY_SOURCE", "-w", "-fno-stack-protector",
            "-D__STDC_LIMIT_MACROS", "-D__STDC_FORMAT_MACROS"]
    flflags = base + ['-DVERSION_DATE="sim"', '-DDEFAULT_PLUGIN_DIR="/nonexistent"', "-DFL_BINARY=1",
                      '-DROOT_DIR="/vossroot"', "-I../../include", "-I../../minisat", "-I."]
    tk = subprocess.run(["pkg-config", "--cflags", "tk"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout.decode().split()
    flflags += tk

    jobs = []  # (source, cwd, command, objname)
    lobj = objlist(fl + "/Makefile", "LOBJ")
    # Files that call setjmp are compiled as shipped (unoptimised); so is arb_prec.
    for o in lobj:
        c = o[:-2] + ".c"
        text = read(os.path.join(fl, c))
        opt = "-O0" if (b"setjmp" in text or c == "arb_prec.c") and c != "graph.c" else "-O1"
        if c == "graph.c":
            opt = "-O0"
        jobs.append((os.path.join(fl, c), fl, ["gcc", "-std=gnu99", opt] + flflags, "fl_" + o))
    for o in ("main.cc", "minisat_ifc.cc"):
        jobs.append((os.path.join(fl, o), fl, ["g++", "-O1", "-fpermissive"] + flflags, "fl_" + o[:-3] + ".o"))
    lib = src + "/lib"
    for o in objlist(lib + "/Makefile", "OBJ"):
        jobs.append((os.path.join(lib, o[:-2] + ".c"), lib, ["gcc", "-std=gnu99", "-O1"] + base + ["-I../include"], "lib_" + o))
    ms = src + "/minisat"
    for d in ("core", "simp", "utils"):
        p = os.path.join(ms, "minisat", d)
        for f in sorted(os.listdir(p)):
            if f.endswith(".cc") and f != "Main.cc":
                jobs.append((os.path.join(p, f), ms, ["g++", "-O2", "-DNDEBUG", "-fpermissive"] + base + ["-I.", "-I../include"], "ms_" + d + "_" + f[:-3] + ".o"))
    rth = b"".join(read(os.path.join(rt, f)) for f in sorted(os.listdir(rt)) if f.endswith(".h"))
    for f in sorted(os.listdir(rt)):
        if f.endswith(".c"):
            jobs.append((os.path.join(rt, f), rt, ["gcc", "-std=gnu11", "-O1", "-g1", "-fno-pie", "-Wall", "-Wno-unused-result",
                         "-I" + src + "/include", "-DVOSS_SIM"], "rt_" + f[:-2] + ".o"))

    odir = os.path.join(BUILD, "obj")
    os.makedirs(odir, exist_ok=True)
    objs = []
    todo = []
    for s, cwd, cmd, o in jobs:
        extra = rth + read(src + "/include/voss_sim.h") if o.startswith("rt_") else (key_common.encode() + (read(fl + "/language.tab.h")))
        if o == "fl_serialize.o":
            extra += read(fl + "/scripts/template")
        k = digest(" ".join(cmd), read(s), extra)
        op = os.path.join(odir, o + "." + k)
        objs.append(op)
        if not os.path.exists(op):
            for old in os.listdir(odir):
                if old.startswith(o + "."):
                    os.unlink(os.path.join(odir, old))
            todo.append((s, cwd, cmd, op))

    def comp(j):
        s, cwd, cmd, op = j
        sh(cmd + ["-c", s, "-o", op + ".tmp.o"], cwd)
        os.rename(op + ".tmp.o", op)
    if verbose:
        print("build: %d objects, %d to compile" % (len(objs), len(todo)), flush=True)
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(comp, sorted(todo, key=lambda j: -os.path.getsize(j[0]))))

    # Link. Objects need .o names for the linker to be happy about ordering only.
    flkey = digest(*[read(os.path.join(fl, f)) for f in ("preamble.fl", "builtins.fl")],
                   *[read(os.path.join(src, "vosslib", f)) for f in sorted(os.listdir(src + "/vosslib"))])
    key = digest(flkey, read(os.path.join(HERE, "lean.py")), read(os.path.join(rt, "wtar.sh")), " ".join(WRAPS), *[os.path.basename(o) for o in objs])
    out = os.path.join(BUILD, "out-" + key)
    if not os.path.exists(out + "/ok"):
        for g in os.listdir(BUILD):
            if g.startswith("out-"):
                shutil.rmtree(os.path.join(BUILD, g))
        os.makedirs(out + "/bin")
        wl = ["-Wl,--wrap=" + w for w in WRAPS]
        sh(["g++", "-no-pie", "-o", out + "/bin/simfl"] + objs + wl +
           ["-lncurses", "-ldl", "-ledit", "-lX11", "-lm"], BUILD)
        for f in ("preamble.fl", "builtins.fl", "prefs.tcl", "utils.tcl", "front_end.tcl"):
            p = os.path.join(fl, f)
            if os.path.exists(p):
                shutil.copy(p, out + "/bin/" + f)
        shutil.copytree(src + "/vosslib", out + "/vosslib")
        for l in ("fl", "sleep"):
            os.symlink("simfl", out + "/bin/" + l)
        shutil.copy(os.path.join(rt, "wtar.sh"), out + "/bin/tar")
        os.chmod(out + "/bin/tar", 0o755)
        # The same program with the small start-up file (see lean.py).
        lo = out + "/lean"
        shutil.copytree(out + "/bin", lo + "/bin", symlinks=True, copy_function=os.link)
        os.symlink("../vosslib", lo + "/vosslib")
        os.unlink(lo + "/bin/preamble.fl")
        try:
            text = lean.lean(fl)
        except Exception as ex:
            text = '(_load "%s/bin/preamble.fl" F) fseq ();\n' % out
        with open(lo + "/bin/preamble.fl", "w") as f:
            f.write(text)
        open(out + "/ok", "w").close()
    return out


if __name__ == "__main__":
    print(build(True))

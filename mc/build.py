"""Build the current /repo working tree out of tree, keyed by content.

Nothing is written inside /repo.  A build directory under /verif/build/<hash>/
holds a private copy of /repo/src with its own config headers, so the runtime
under test reads its prelude, boot image and library from that same snapshot.
"""
import fcntl, hashlib, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
BROOT = os.environ.get("MC_BUILD", os.path.join(VERIF, "build"))
SKIP = {"build", "boehm-gc"}


class BuildError(Exception):
    pass


def _files():
    out = []
    src = os.path.join(REPO, "src")
    for d, ds, fs in os.walk(src):
        ds[:] = sorted(x for x in ds if x not in SKIP)
        for f in sorted(fs):
            p = os.path.join(d, f)
            if f.endswith((".c", ".h", ".min")) and os.path.isfile(p):
                out.append(os.path.relpath(p, src))
    return src, out


def tree_hash():
    src, files = _files()
    h = hashlib.sha256()
    for f in files:
        h.update(f.encode() + b"\0")
        with open(os.path.join(src, f), "rb") as fh:
            h.update(fh.read())
        h.update(b"\0")
    hd = os.path.join(VERIF, "harness")
    for d, ds, fs in os.walk(hd):
        ds.sort()
        for f in sorted(fs):
            with open(os.path.join(d, f), "rb") as fh:
                h.update(f.encode() + fh.read())
    with open(os.path.abspath(__file__), "rb") as fh:
        h.update(fh.read())
    return h.hexdigest()[:20]


def _run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))


FLAVORS = {
    "rel": dict(cflags=["-O2", "-g"], gc="boehm"),
    # every runtime object is its own malloc block, so the sanitizer sees each overflow
    # a collector that can run at every allocation and poisons what it frees
    "stress": dict(cflags=["-O2", "-g"], gc="stress"),
    "asan": dict(cflags=["-O1", "-g", "-fsanitize=address", "-fno-omit-frame-pointer"], gc="malloc"),
}


class Tree:
    def __init__(self, root):
        self.root = root
        self.src = os.path.join(root, "src")
        self.library = os.path.join(self.src, "library")

    def flavor_dir(self, fl):
        return os.path.join(self.root, fl)


def _compile_flavor(t, fl):
    d = t.flavor_dir(fl)
    if os.path.exists(os.path.join(d, "ok")):
        return d
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + "/obj")
    F = FLAVORS[fl]
    inc = ["-I", d + "/inc"]
    os.makedirs(d + "/inc")
    cflags = ["-Wall", "-std=c11"] + F["cflags"]
    if F["gc"] == "boehm":
        defs = []
        gcinc = "/usr/include"
        libs = ["-lgc"] if not os.path.exists("/usr/lib/x86_64-linux-gnu/libgc.a") else ["/usr/lib/x86_64-linux-gnu/libgc.a", "-lpthread", "-ldl"]
    elif F["gc"] == "stress":
        defs = ["-DMC_STRESS_GC"]
        gcinc = os.path.join(VERIF, "harness", "stressgc")
        libs = [d + "/obj/stressgc.o"]
    else:
        defs = ["-DMC_MALLOC_GC"]
        gcinc = os.path.join(VERIF, "harness", "mallocgc")
        libs = []
    # the runtime's gc.h includes "boehm-gc/include/gc.h"
    os.makedirs(d + "/inc/boehm-gc")
    os.symlink(gcinc, d + "/inc/boehm-gc/include")
    jobs = []
    core = os.path.join(t.src, "core", "c")
    objs = []
    for f in sorted(os.listdir(core)):
        if f.endswith(".c"):
            o = d + "/obj/core_" + f[:-2] + ".o"
            objs.append(o)
            jobs.append(["gcc"] + cflags + defs + inc + ["-c", "-o", o, os.path.join(core, f)])
    bobjs = []
    bc = os.path.join(t.src, "boot", "c")
    for f in sorted(os.listdir(bc)):
        if f.endswith(".c"):
            o = d + "/obj/boot_" + f[:-2] + ".o"
            if f != "minim.c":
                bobjs.append(o)
            jobs.append(["gcc"] + cflags + defs + inc + ["-c", "-o", o, os.path.join(bc, f)])
    if F["gc"] == "stress":
        jobs.append(["gcc"] + F["cflags"] + ["-w", "-c", "-o", d + "/obj/stressgc.o", os.path.join(gcinc, "stressgc.c")])
    procs = [(j, subprocess.Popen(j, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)) for j in jobs]
    for j, p in procs:
        o, _ = p.communicate()
        if p.returncode:
            raise BuildError("compile failed: %s\n%s" % (" ".join(j), o[-4000:]))
    lib = d + "/libminim.a"
    _run(["ar", "-rcs", lib] + objs)
    # the executable
    _run(["gcc"] + F["cflags"] + ["-o", d + "/minim", d + "/obj/boot_minim.o"] + bobjs + [lib] + libs)
    # the batch driver
    _run(["gcc"] + F["cflags"] + ["-std=gnu11", "-w"] + defs + inc + ["-I", t.src, '-DMC_BOOT_DIR="%s/boot/s/"' % t.src,
          "-Wl,--wrap=exit", "-Wl,--wrap=GC_deinit", "-o", d + "/mcdrv", os.path.join(VERIF, "harness", "mcdrv.c")]
         + bobjs + [lib] + libs)
    open(d + "/ok", "w").close()
    return d


def _c_harness(t, fl, name, extra=()):
    """Compile /verif/harness/<name>.c against the runtime library."""
    d = _compile_flavor(t, fl)
    out = os.path.join(d, name)
    if os.path.exists(out):
        return out
    F = FLAVORS[fl]
    libs = ["/usr/lib/x86_64-linux-gnu/libgc.a", "-lpthread", "-ldl"] if F["gc"] == "boehm" else []
    defs = ["-DMC_MALLOC_GC"] if F["gc"] != "boehm" else []
    bobj = d + "/obj/boot_boot.o"
    _run(["gcc"] + F["cflags"] + ["-std=gnu11", "-w"] + defs + ["-I", d + "/inc", "-I", t.src] + list(extra) +
         ["-o", out + ".tmp", os.path.join(VERIF, "harness", name + ".c"), bobj, d + "/libminim.a"] + libs)
    os.rename(out + ".tmp", out)
    return out


def get(flavors=("rel",), harness=()):
    """Return a Tree for the current working tree, compiled in the given flavors."""
    os.makedirs(BROOT, exist_ok=True)
    key = tree_hash()
    root = os.path.join(BROOT, key)
    with open(os.path.join(BROOT, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(root + "/copied"):
            shutil.rmtree(root, ignore_errors=True)
            # keep only a few recent builds
            old = sorted((os.path.join(BROOT, x) for x in os.listdir(BROOT) if os.path.isdir(os.path.join(BROOT, x))),
                         key=os.path.getmtime)
            for o in old[:-12]:
                shutil.rmtree(o, ignore_errors=True)
            src, files = _files()
            for f in files:
                dst = os.path.join(root, "src", f)
                os.makedirs(os.path.dirname(dst), exist_ok=True)
                shutil.copyfile(os.path.join(src, f), dst)
            for comp, text in (("core", '#define MINIM_X86_64 1\n#define PRELUDE_PATH "%s/src/core/s/prelude.min"\n' % root),
                               ("boot", '#define BOOT_DIR "%s/src/boot/s/"\n' % root),
                               ("gc", "// #define USE_MINIM_GC 1\n")):
                os.makedirs(os.path.join(root, "src", comp, "build"), exist_ok=True)
                with open(os.path.join(root, "src", comp, "build", "config.h"), "w") as fh:
                    fh.write(text)
            open(root + "/copied", "w").close()
        t = Tree(root)
        for fl in flavors:
            _compile_flavor(t, fl)
        for fl, name in harness:
            _c_harness(t, fl, name)
    return t


if __name__ == "__main__":
    t = get(tuple(sys.argv[1:]) or ("rel",))
    print(t.root)

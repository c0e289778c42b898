"""P22: the collector frees exactly what cannot be reached, once, and keeps everything else intact."""
import glob, os, subprocess, concurrent.futures as cf

from mc import build

WRAP = "-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free"


def compile_(c):
    g = os.path.join(build.REPO, "src", "gc", "minim-gc")
    out = os.path.join(c.tree.root, "gcmc")
    tmp = out + ".%d" % os.getpid()
    build._run(["gcc", "-O2", "-g", "-w", "-I", g, "-o", tmp, os.path.join(build.VERIF, "harness", "gcmc.c")]
               + sorted(glob.glob(g + "/*.c")) + [WRAP])
    os.rename(tmp, out)
    return out


def run(c):
    exe = compile_(c)
    jobs = []
    # MODE DEPTH MAXOBJ PART PARTS
    if c.thorough:
        for m in (0, 1, 2, 4, 7):
            jobs += [("histories, mode %d" % m, [m, 6, 4, p, 8]) for p in range(8)]
        jobs += [("histories, mode 7, deeper", [7, 7, 2, p, 8]) for p in range(8)]
        jobs += [("histories, mode 15", [15, 6, 3, p, 16]) for p in range(16)]
    else:
        jobs += [("histories, mode 7", [7, 6, 3, p, 8]) for p in range(8)]
        for m in (0, 1, 4, 6):
            jobs += [("histories, mode %d" % m, [m, 5, 3, 0, 1])]
        jobs += [("histories, mode 15", [15, 5, 4, p, 4]) for p in range(4)]
    edges = (6154, 6155, 6156, 6157, 6158, 12306, 12307, 12308, 12309, 12310, 24576, 24577, 24578, 24579, 24580)
    sizes = list(edges) + c.q([1, 2, 100, 2051, 2053, 4104, 7000, 13000], list(range(1, 40)) + list(range(500, 60000, 500)) + list(range(6140, 6170)) + list(range(12295, 12325)) + [49150, 49151, 49152, 49153, 49154, 49155, 98324, 98325, 98326, 98327, 120000, 250000])
    for k in range(8):
        jobs += [("tables of every size", ["grow", n]) for n in sizes[k::8]]
    jobs.append(("automatic collection", ["auto"]))

    def one(j):
        r = subprocess.run([exe] + [str(x) for x in j[1]], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=3000)
        return j, r.returncode, r.stdout

    bad = []
    with cf.ThreadPoolExecutor(8) as ex:
        for (name, args), rc, out in ex.map(one, jobs):
            done = False
            for ln in out.splitlines():
                f = ln.split("\t")
                if f[0] == "FAIL":
                    bad.append((name, args, f[1], f[2]))
                elif f[0] == "DONE":
                    done = True
                    for i in range(int(f[1])):
                        c.states.add((name, str(args), i))
                    c.transitions += int(f[2])
                    c.impl += int(f[2])
                    c.group(name, int(f[2]))
            if not done:
                bad.append((name, args, "", "the collector stops the process (exit %s): %s" % (rc, out[-300:])))
    c.log("%d jobs, %d transitions, %d failures" % (len(jobs), c.transitions, len(bad)))
    for name, args, hist, msg in bad:
        c.violation("%s: %s" % (name, hist), "%s: after %s: %s" % (name, hist, msg),
                    {"kind": "gcmc", "command": "%s %s" % (exe, " ".join(str(x) for x in args)),
                     "single": "%s replay %s %s" % (exe, args[0], hist)})
    c.samples.append({"history": "alloc(0,0,0) calloc(1,0,0) link(0,0,1) drop(1,0,0) collect(0,0,0)", "checked": "after every operation: contents, liveness, destructor counts, three byte counters; then shutdown"})
    c.assumptions += ["operations run on a zeroed stack and the harness keeps addresses masked, so nothing but the operation itself can keep an object alive",
                      "two histories that lead to the same model state (slots, objects in table order, kinds, links) are continued once"]

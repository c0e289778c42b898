"""Run batches of cases through the mcdrv driver, sharded over the cores."""
import os, re, shutil, subprocess, tempfile

NPROC = int(os.environ.get("MC_JOBS", "8"))
_unesc = re.compile(rb"\\(x[0-9a-f]{2}|.)")


def _u(m):
    g = m.group(1)
    if g[:1] == b"x" and len(g) == 3:
        return bytes([int(g[1:], 16)])
    return {b"n": b"\n", b"t": b"\t", b"\\": b"\\"}.get(g, g)


def unesc(b):
    if b"\\" not in b:
        return b.decode("latin-1")
    return _unesc.sub(_u, b).decode("latin-1")


class R:
    """Result of one case."""
    __slots__ = ("k", "v", "out", "err")

    def __init__(self, k, v, out, err):
        self.k, self.v, self.out, self.err = k, v, out, err

    def __repr__(self):
        return "%s(%s) out=%r err=%r" % (self.k, self.v, self.out, self.err[:300])


def scratch():
    base = os.environ.get("MC_SCRATCH") or tempfile.gettempdir()
    return tempfile.mkdtemp(prefix="mcdrv.", dir=base)


NOTES = []      # what the drivers print on their own standard output


class DriverError(Exception):
    how = None      # (flavor, args, env) of the failing run


def shards(n, nproc=None):
    """Number of processes a batch of n cases is dealt to (case i goes to process i mod that)."""
    return max(1, min(nproc or NPROC, (n + 15) // 16))


def once(exe, args, files, cwd, env):
    """One driver process for one batch; what it prints."""
    p = subprocess.Popen([exe] + args + files, stdin=subprocess.DEVNULL, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
    o = p.communicate()[0].decode("latin-1")
    if p.returncode != 0:
        raise DriverError("driver failed rc=%d: %s" % (p.returncode, o[-4000:]))
    return o


SERVERS = {}


def serve(exe, args, files, cwd, env):
    """A driver process that has prepared this target already, or a new one, answers the batch; what it prints."""
    key = (exe, tuple(args), tuple(sorted(env.items())))
    p = SERVERS.get(key)
    if p is None:
        p = subprocess.Popen([exe, "--serve"] + args, stdin=subprocess.PIPE, cwd="/", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
        SERVERS[key] = p
    out = []
    try:
        p.stdin.write((" ".join([cwd] + files) + "\n").encode())
        p.stdin.flush()
    except BrokenPipeError:
        pass
    while True:
        ln = p.stdout.readline().decode("latin-1")
        if ln.startswith("##done "):
            if ln.split()[1] == "0":
                return "".join(out)
            break
        if not ln:
            break
        out.append(ln)
    del SERVERS[key]
    p.stdin.close()
    p.stdout.close()
    raise DriverError("driver failed (%s, rc=%s): %s" % (ln.strip(), p.wait(), "".join(out)[-4000:]))


def run(tree, cases, flavor="rel", args=(), nproc=None, cwd=None, env=None, raw=False):
    """Evaluate every case (one line of program text each); return [R]."""
    nproc = nproc or NPROC
    n = len(cases)
    if n == 0:
        return []
    nproc = shards(n, nproc)
    exe = os.path.join(tree.flavor_dir(flavor), "mcdrv")
    tmp = scratch()
    try:
        jobs, files = [], []
        e = dict(os.environ)
        e["ASAN_OPTIONS"] = "detect_leaks=0:detect_stack_use_after_return=0:abort_on_error=1:handle_segv=0:allocator_may_return_null=1"
        if env:
            e.update(env)
        for i in range(nproc):
            part = cases[i::nproc]
            if not part:
                continue
            fi, fo = os.path.join(tmp, "in%d" % i), os.path.join(tmp, "out%d" % i)
            with open(fi, "w", encoding="latin-1", newline="\n") as fh:
                for c in part:
                    if "\n" in c:
                        raise ValueError("case contains a newline: %r" % c)
                    fh.write(c + "\n")
            files += [fi, fo]
            jobs.append((fo, part))
        try:
            o = (serve if "--repl" in args else once)(exe, list(args), files, cwd or tmp, e)
        except DriverError as x:
            x.how = (flavor, list(args), env)
            raise
        NOTES.extend(o.splitlines())
        all_res = [None] * n
        for i, (fo, part) in enumerate(jobs):
            res = []
            with open(fo, "rb") as fh:
                lines = fh.read().split(b"\n")[:-1]
            if len(lines) != len(part):
                raise DriverError("driver produced %d results for %d cases: %s" % (len(lines), len(part), o[-500:]))
            for ln in lines:
                f = ln.split(b"\t")
                res.append(R(f[0].decode(), unesc(f[1]), unesc(f[2]), unesc(f[3])))
            all_res[i::nproc] = res
        return all_res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def starts(tree, how):
    """Whether the runtime comes up at all and evaluates `1` (tried twice); the output of the failure otherwise."""
    flavor, args, env = how
    for _ in range(2):
        try:
            run(tree, ["1"], flavor=flavor, args=args, env=env)
            return None
        except DriverError as x:
            out = str(x)
    return out

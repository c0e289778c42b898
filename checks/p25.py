"""P25: the command line, loading and the current directory."""
import concurrent.futures as cf
import itertools, os, shutil, subprocess
from mc import driver

VERSION = "0.3.5"
TOKENS = ["-q", "-i", "--quiet", "--interactive", "--no-libs", "--", "-x", "--bad", "main.min", "none.min", "arg", "-"]
FILES = {"main.min": '(define-values (x) (command-line))\n(display "<")\n(write x)\n(display ">")\n',
         "err.min": '(display "before")\n(car 5)\n(display "after")\n', "ex.min": '(display "before")\n(exit 5)\n(display "after")\n',
         "sub/in.min": '(display "in sub")\n(write (command-line))\n', "empty.min": "", "bad.min": '(display "b")\n(list 1 2\n', "def.min": "(define-values (y) 4)\n(display y)\n",
         "unk.min": '(display "u")\n(lambda () nowhere)\n'}
# typed at the prompt: text, what each expression prints, and how it ends (None: at the end of the input)
STDIN = [("", [], None), ("1 'a", ["1\n", "a\n"], None), ("(void) (values 2 (list \"s\"))\n#\\x", ["", "2\n(\"s\")\n", "#\\x\n"], None), ("(car 1) 5", [], (1, "car: contract violation\n  expected: pair?\n  given: 1\n")),
         ("7 (exit 3) 5", ["7\n"], (3, "")), ("(define-values (z) 3) (add1 z)", ["", "4\n"], None), ("(let-values ([(q) 1]) q) (list 1", ["1\n"], (1, None)), ("((lambda (a . r) r) 1 2 3)", ["(2 3)\n"], None),
         ("\"ab\" (display 'd) ; c\n'(1 . 2)", ["\"ab\"\n", "d", "(1 . 2)\n"], None)]


def slist(xs):
    return "(%s)" % " ".join('"%s"' % x for x in xs)


def model(argv, si, cwd):
    """(stdout, stderr or None, exit status)"""
    libs, inter, quiet = True, False, False
    i = 0
    while i < len(argv):
        a = argv[i]
        if not a.startswith("-"):
            break
        if a == "--":
            i += 1
            break
        if a == "--interactive":
            inter = True
        elif a == "--no-libs":
            libs = False
        elif a == "--quiet":
            quiet = True
        elif a[:2] == "-i" and not a.startswith("--"):
            inter = True
        elif a[:2] == "-q":
            quiet = True
        else:
            return "", "unknown flag: %s\n" % a, 1
        i += 1
    rest = argv[i:]
    out = "" if quiet else "Minim v%s\n" % VERSION
    if rest:
        f = rest[0]
        if f not in FILES:
            if libs:
                return out, 'open-input-file: cannot open input file\n  argument: "%s/%s"\n' % (cwd, f), 1
            return out, 'Error in load_file: could not open file\n "%s"\n' % f, 1
        if f == "main.min":
            out += "<" + slist(rest) + ">"
        elif f == "sub/in.min":
            out += "in sub" + slist(rest)
        elif f == "err.min":
            return out + "before", "car: contract violation\n  expected: pair?\n  given: 5\n", 1
        elif f == "ex.min":
            return out + "before", "", 5
        elif f == "def.min":
            out += "4"
        elif f == "bad.min":
            return out + ("" if libs else "b"), None, 1
        elif f == "unk.min":
            if libs:
                return out + "%s/unk.min: unknown variable `nowhere`\n  at: nowhere\n" % cwd, "", 1
            out += "u"
    if not argv or inter:
        text, outs, end = STDIN[si]
        out += "".join("> " + o for o in outs) + "> "
        if end:
            return out, end[1], end[0]
    return out, "", 0


def runs(c, name, jobs):
    """jobs: (argv, stdin text, cwd, expected (out, err, rc), canon)"""
    exe = os.path.join(c.tree.flavor_dir("rel"), "minim")
    env = {"PATH": "/usr/bin:/bin", "HOME": "/nonexistent"}

    def one(j):
        argv, text, cwd, exp, canon = j
        p = subprocess.run([exe] + argv, input=text.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env, timeout=60)
        return (canon(p.stdout.decode("latin-1")), canon(p.stderr.decode("latin-1")), p.returncode)

    def ok(exp, got):
        return exp[0] == got[0] and exp[2] == got[2] and (exp[1] == got[1] if exp[1] is not None else got[1] != "")
    bad = []
    with cf.ThreadPoolExecutor(driver.NPROC) as ex:
        for j, got in zip(jobs, ex.map(one, jobs)):
            if not ok(j[3], got):
                bad.append((j, got))
            c.states.add(hash((name, tuple(j[0]), j[1])) & 0xffffffffffff)
    c.impl += len(jobs)
    c.transitions += len(jobs)
    c.group(name, len(jobs))
    if jobs:
        c.samples.append({"group": name, "arguments": jobs[len(jobs) // 2][0], "input": jobs[len(jobs) // 2][1], "expected": str(jobs[len(jobs) // 2][3])})
    c.log("%s: %d runs, %d differ" % (name, len(jobs), len(bad)))
    if os.environ.get("MC_DEBUG"):
        for j, got in bad[:30]:
            print("DIFF", j[0], j[1], j[3], got)
    for j, got in bad[:20]:
        if len(c.violations) < 3 and not ok(j[3], one(j)):
            c.violation("minim %s < %r" % (" ".join(j[0]), j[1]), "%s: minim %s, typed %r\nexpected %r\nobserved %r" % (name, " ".join(j[0]), j[1], j[3], got),
                        {"kind": "command", "argv": j[0], "stdin": j[1], "expected": list(j[3])})


# ---- loading and the current directory, without the library
DIRS = ["", "d", "d/e"]
LOADABLE = {"l1.min": ["S", "L d/l2.min", "S", "O"], "d/l2.min": ["D", "S", "L ../l3.min", "O"], "l3.min": ["S", "C d", "O"], "d/e/l4.min": ["C ..", "S", "L l2.min", "S"], "d/l5.min": ["L e/l6.min", "S", "L e/l6.min"], "d/e/l6.min": ["O", "C ../..", "O"],
            "d/e/l7.min": ["L missing.min", "S"]}
OPS = ["S", "O", "C d", "C e", "C ..", "L l1.min", "L d/l2.min", "L d/l5.min", "L d/e/l4.min", "L e/l4.min", "L ../l3.min", "C /", "C nowhere", "L e/l7.min", "L l2.min"]


def form(op, root):
    k, _, a = op.partition(" ")
    a = root if a == "/" else a
    return {"S": "(begin (display \"[\") (display (current-directory)) (display \"]\"))", "O": "(let-values ([(p) (open-input-file \"t.txt\")]) (begin (display (read p)) (close-input-port p)))",
            "C": "(current-directory \"%s\")" % a, "L": "(load \"%s\")" % a, "D": "(define-values (w) 1)"}[k]


def walk(ops, root):
    """(output, stderr or None, exit status) of operations from the root directory"""
    out = []
    st = {"cwd": "."}

    class Stop(Exception):
        pass

    def go(op):
        k, _, a = op.partition(" ")
        if k == "S":
            out.append("[%s]" % os.path.normpath(os.path.join(root, st["cwd"])))
        elif k == "O":
            out.append("in-%s" % (st["cwd"].replace("/", "-") if st["cwd"] != "." else "top"))
        elif k == "C":
            n = "." if a == "/" else os.path.normpath(os.path.join(st["cwd"], a))
            if n not in (".", "d", "d/e"):
                raise Stop if n != ".." else Outside
            st["cwd"] = n
        elif k == "L":
            f = os.path.normpath(os.path.join(st["cwd"], a))
            if f not in LOADABLE:
                raise Stop
            old = st["cwd"]
            st["cwd"] = os.path.dirname(f) or "."
            for o in LOADABLE[f]:
                go(o)
            st["cwd"] = old
    try:
        for o in ops:
            go(o)
    except Stop:
        return "".join(out), None, 1
    return "".join(out), "", 0


class Outside(Exception):
    pass


def run(c):
    base = os.path.realpath(driver.scratch())
    try:
        for f, t in list(FILES.items()):
            os.makedirs(os.path.dirname(os.path.join(base, f)), exist_ok=True)
            with open(os.path.join(base, f), "w") as fh:
                fh.write(t)
        ident = lambda s: s
        jobs = []
        seen = set()

        def add(argv, si):
            if (tuple(argv), si) not in seen:
                seen.add((tuple(argv), si))
                jobs.append((argv, STDIN[si][0], base, model(argv, si, base), ident))
        for n in range(0, c.q(4, 5)):
            for t in itertools.product(TOKENS, repeat=n):
                if n == 4 and not ("-i" in t or "main.min" in t):
                    continue
                add(list(t), 2 if n < 4 else 3)
        runs(c, "arguments", jobs)
        jobs = []
        for f in [[], ["main.min"], ["def.min", "a b", "-q"], ["sub/in.min"], ["empty.min"], ["err.min"], ["ex.min"], ["bad.min"], ["unk.min"], ["none.min"]]:
            for fl in itertools.product([[], ["-q"], ["--quiet"]], [[], ["-i"], ["--interactive"]], [[], ["--no-libs"]], [[], ["--"]]):
                for si in range(len(STDIN)):
                    a = sum(fl, []) + f
                    if a and "-i" not in a and "--interactive" not in a and si not in (0, 3):
                        continue
                    if f in (["unk.min"], ["bad.min"]) and "--no-libs" in a and "-i" in a and si not in (0,):
                        pass
                    add(a, si)
        runs(c, "files, flags and input", jobs)
        # loading
        root = os.path.join(base, "w")
        for d in DIRS:
            os.makedirs(os.path.join(root, d), exist_ok=True)
            with open(os.path.join(root, d, "t.txt"), "w") as fh:
                fh.write("in-%s" % (d.replace("/", "-") or "top"))
        for f, ops in LOADABLE.items():
            with open(os.path.join(root, f), "w") as fh:
                fh.write("\n".join(form(o, root) for o in ops) + "\n")
        jobs = []
        trail = lambda s: s.replace("/]", "]")
        for n in range(1, c.q(3, 4) + 1):
            for t in itertools.product(OPS, repeat=n):
                try:
                    exp = walk(t + ("S", "O"), root)
                except Outside:
                    continue
                if exp[1] is None and n > 2 and walk(t[:-1], root)[1] is None:
                    continue        # fails before its last operation
                text = " ".join(form(o, root) for o in t + ("S", "O"))
                jobs.append((["-q", "--no-libs", "-i"], text, root, exp, lambda s: trail(s.replace("> ", ""))))
        runs(c, "loading and the current directory", jobs)
    finally:
        shutil.rmtree(base)
    c.assumptions += ["the text written when the input ends inside an expression is not specified, only that it goes to the error port with status 1"]

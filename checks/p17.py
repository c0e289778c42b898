"""P17: the derived forms of the module language mean what they should, in every combination."""
from mc import lib
from mc.gen import number
from mc.lib import Templates, sexprs

SLACK = 1500       # kB; a loop that is not constant space takes more

GROUPS = {
    # name: (templates, atoms, naming, maxvars, quick size, thorough size)
    "let": (["(let ([V0 E]) E0)", "(let ([V0 E] [V1 E]) E01)", "(let* ([V0 E] [V1 E0]) E01)", "(letrec ([V0 (lambda (V1) E01)]) (V0 E))",
             "(let ([V0 (lambda () E)]) (begin E0 (V0)))"], ("K", "(p K)"), "fresh", 3, 6, 7),
    "let-shadow": (["(let ([V0 E]) E0)", "(let ([V0 E] [V1 E]) E01)", "(let* ([V0 E] [V0 E0]) E0)", "(let* ([V0 E] [V1 E0]) E01)", "(letrec ([V0 (lambda () E0)] [V1 (lambda (V0) E01)]) (V1 E))",
                    "(set! V0 E)"], ("K", "x", "(p K)"), "shadow", 3, 5, 6),
    "loops": (["(let V0 ([V1 E]) (if E1 E1 (V0 E1)))", "(let V0 ([V1 (p 3)] [V2 E]) (if (= V1 0) E2 (V0 (- V1 1) E12)))",
               "(do ([V0 (p 0) (+ V0 1)] [V1 E E01]) ((= V0 2) E01) E01)", "(do ([V0 (p 0) (+ V0 1)]) ((= V0 2)) E0 E0)", "(list E E)"],
              ("K", "#f", "(p K)"), "fresh", 4, 5, 6),
    "branches": (["(cond [E E] [E E])", "(cond [E E E] [else E])", "(cond [else E E])", "(when E E)", "(when E E E)", "(unless E E)", "(unless E E E)",
                  "(and E E)", "(and E E E)", "(or E E)", "(or E E E)", "(if E E E)"], ("K", "#f", "(p K)", "(p #f)"), "fresh", 2, 4, 5),
    "branches-deep": (["(cond [E E] [else E])", "(and E E)", "(or E E)", "(when E E)", "(unless E E)"], ("#f", "(p K)"), "fresh", 2, 7, 9),
    "case": (["(case E [(1) E] [(2 #f) E])", "(case E [(1 2) E E] [else E])", "(case E [() E] [else E])", "(case E)", "(case E [else E E])",
              "(case E [(7 a) E] [(8 \"s\" #\\c) E] [((1 2) #(3)) E])"], ("K", "1", "2", "#f", "'a", "\"s\"", "#\\c", "'(1 2)", "(p 2)"), "fresh", 2, 4, 5),
    "bodies": (["(let () (define V0 E) E0)", "(let () (define V0 E) (define V1 E0) E01)", "(let () (define (V0 V1) E01) (V0 E))", "(let () (define (V0) E0) (define V1 E) E01)",
                "(let () E (define V0 E) E0 E0)", "((lambda (V0) (define V1 E0) E01 E01) E)", "(let () (begin (define V0 E) E0) (define V1 E0) E01)",
                "(let () (define-values (V0 V1) (values E E)) E01)", "(let () (define ((V0 V1) V2) E0) ((V0 E) E))", "(begin E E)", "(let () (define (V0 . V1) E1) (V0 E E))"],
               ("K", "(p K)"), "fresh", 3, 5, 6),
    "bodies-shadow": (["(let () (define V0 E) E0)", "(let ([V0 E]) (define V0 E0) E0)", "(let ([V0 E]) (define V1 E0) (define (V0) E01) E01)", "((lambda (V0) (define (V1) E0) (define V0 E1) (V1)) E)",
                       "(case-lambda [() E] [(V0) (define V1 E0) E01])", "(set! V0 E)", "(let ([V0 E]) E0)"], ("K", "x", "(p K)"), "shadow", 3, 5, 6),
    "mixed": (["(let ([V0 E]) E0)", "(let V0 ([V1 E]) (if E1 E1 (V0 #f)))", "(cond [E E] [else E])", "(and E E)", "(or E E)", "(when E E)", "(case E [(K) E] [else E])",
               "(let () (define V0 E) E0)", "(lambda (V0) E0)", "(list E E)", "(E)", "(E E)", "(begin E E)"], ("K", "#f", "(p K)"), "fresh", 3, 4, 5),
}

KEYWORDS = ["let", "let*", "letrec", "cond", "case", "when", "unless", "and", "or", "do", "define", "if", "lambda", "begin",
            "case-lambda", "let-values", "letrec-values", "quote", "set!"]


MAL_ATOMS = ["x", "1", "else"]


def malformed(quick):
    """Every form headed by a keyword up to a size, wherever it stands."""
    for k in KEYWORDS:
        for size in range(0, quick + 1):
            for s in sexprs(size + 1, MAL_ATOMS):
                if s.startswith("("):
                    f = "(%s%s" % (k, " " + s[1:] if len(s) > 2 else ")")
                    yield "(let ([x 5]) (list %s))" % f


ATOMS = ["K", "w", "(begin)", "(values)", "(values K K)", "(p K)", "(cond)", "(cond [#f K])", "(when #f K)", "(unless K K)", "(and)", "(or)", "(case w)", "(let () K)", "(lambda () K)", "(set! w (p K))", "'()", "(let-values ([(q) (begin)]) (p K))", "(do () (#t))", "(let lp () K)", "(case-lambda [() K] [q q])"]
POSITIONS = ["@", "(list @ (p K))", "(@)", "(@ K)", "(begin @ (p K))", "(begin (p K) @)", "(if @ (p K) K)", "(let ([q @]) (list q w))", "(let ([q (p K)] [r @]) (list r q))", "(let () @)", "(let () @ (p K))", "(let* ([q @] [r q]) (list r w))", "(let* () @)", "(letrec ([q (lambda () @)]) (q))", "(letrec ([q @]) (p K))",
             "(let lp ([q @] [n 0]) (if (= n 2) q (lp (list q) (+ n 1))))", "(let lp ([n 0]) (if (= n 2) @ (lp (+ n 1))))", "(cond [@ (p K)] [else K])", "(cond [@])", "(cond [#f K] [@ K])", "(cond [(p #f) K] [else @])", "(cond [(p K) @ K])", "(and @ (p K))", "(and (p K) @)", "(and @)", "(or @ (p K))", "(or (p #f) @)", "(or @)",
             "(when @ (p K))", "(when (p K) @)", "(unless @ (p K))", "(unless (p #f) @)", "(case @ [(1 2) (p K)] [else 'no])", "(case (p 1) [(1) @] [else K])", "(case (p 9) [(1) K] [else (p K) @])", "(do ([i 0 (+ i 1)] [q @ (list q)]) ((= i 2) q))", "(do ([i 0 (+ i 1)]) ((= i 2) @) (p i))", "(do ([i 0 (+ i 1)]) ((= i 2)) @)", "(do ([i 0 (+ i 1)] [q 0 @]) ((= i 2) q))",
             "(let () (define q @) (list q w))", "(let () (define (q) @) (list (q) w))", "(let () (define (q r) (list r)) (q @))", "(let () (define w @) (list w))", "(let () (p K) (define q (p K)) @)", "(let () (define-values (q r) @) (list r q))", "(set! w @)", "((lambda (q) (define r @) (list q r)) (p K))", "((lambda () (define q 1) @))", "((case-lambda [() @] [(q) (define r q) r]))"]


def run(c):
    ps, names = [], {}
    w = ["(let ([w 5]) (list %s w))" % number(p2.replace("@", p1.replace("@", a))) for p2 in POSITIONS for p1 in POSITIONS for a in (ATOMS if c.thorough else [ATOMS[2], ATOMS[4], ATOMS[5]])]
    lib.diff(c, "every expression in every position", list(dict.fromkeys(w)))
    for name, (forms, atoms, naming, mv, qs, ts) in GROUPS.items():
        t = Templates(forms, naming, atoms, mv)
        qs = ["(let ([x 0]) %s)" % e if naming == "shadow" else e for e in t.upto(c.q(qs, ts))]
        names[name] = len(qs)
        ps += qs
    ms = list(malformed(c.q(4, 6)))
    names["malformed"] = len(ms)
    ms += ["(let () %s x)" % f[17:-2] for f in ms if f.startswith("(let ([x 5]) (list (define ") or f.startswith("(let ([x 5]) (list (begin ")]
    lib.diff(c, "derived forms: " + ", ".join("%s %d" % x for x in names.items()), list(dict.fromkeys(ps + ms)))
    tails(c)


TCTX = {"cond": "(cond [(= n -1) 0] [(= n n) {}] [else 1])", "cond2": "(cond [(= n n) 1 {}] [else 1])", "else": "(cond [(= n -1) 0] [else {}])", "when": "(when (= n n) 1 {})", "unless": "(unless (= n -1) 1 {})",
        "and": "(and 1 n {})", "or": "(or #f #f {})", "case": "(case n [(-1) 0] [else {}])", "case2": "(case 'a [(b a) 1 {}] [else 3])", "let": "(let ([m n]) {})", "let*": "(let* ([m n] [k m]) {})",
        "letrec": "(letrec ([g (lambda () n)]) {})", "named let": "(let g ([m 2]) (if (= m 0) {} (g (- m 1))))", "body": "(let () (define m n) (define (g) m) {})", "begin": "(begin n {})", "do": "(do ([m 0 (+ m 1)]) ((= m 2) {}) n)",
        "if": "(if (= n -1) 0 {})", "body2": "(let () n (define m n) m {})"}


def rss(a):
    import os, resource, subprocess, tempfile
    exe, path = a
    out = tempfile.TemporaryFile()
    p = subprocess.Popen([exe, "-q", path], stdout=out, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_CPU, (400, 400)))
    _, st, ru = os.wait4(p.pid, 0)
    out.seek(0)
    return ru.ru_maxrss, st, out.read(4000).decode("latin-1")


def tails(c):
    """A loop through every composition of two tail positions takes no space: peak memory of one process per outer position."""
    import os, shutil, tempfile, multiprocessing
    n = c.q(40000, 1000000)
    tmp = os.path.join(c.tree.src, "mc_tails.%d" % os.getpid())
    os.makedirs(tmp)
    try:
        jobs = []
        for nm, x in [("none", None)] + list(TCTX.items()):
            inner = list(TCTX.items()) if x else []
            body = "".join("(define (f%d n) (if (= n 0) 'done %s))\n(begin (f%d %d))\n" % (i, x.format(y.format("(f%d (- n 1))" % i)), i, n) for i, (_, y) in enumerate(inner))
            path = os.path.join(tmp, "t%d.min" % len(jobs))
            with open(path, "w") as fh:
                fh.write('(import "../library/base.min")\n' + body)
            jobs.append((nm, path, len(inner), body))
        exe = os.path.join(c.tree.flavor_dir("rel"), "minim")
        with multiprocessing.get_context("fork").Pool(8) as pl:
            res = pl.map(rss, [(exe, j[1]) for j in jobs], 1)
        base = res[0][0]
        for (nm, path, k, body), (kb, st, out) in zip(jobs, res):
            c.impl += k
            c.transitions += k * n
            if st != 0 or out != "done\n" * k:
                c.violation("tail:" + nm, "loops in tail position %s: status %d output %r" % (nm, st, out[-300:]), {"kind": "program", "program": body})
            elif kb > base + SLACK:
                c.violation("tail:" + nm, "loops of %d iterations in tail position %s: %d kB resident (%d kB without loops)" % (n, nm, kb, base), {"kind": "program", "program": body})
        c.group("loops in tail position of derived forms", sum(j[2] for j in jobs))
        c.log("tail positions: %d loops, kB %s" % (sum(j[2] for j in jobs), [r[0] for r in res]))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

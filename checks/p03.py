"""P03: recursion of any depth returns the right value; calls in tail position take no space."""
import os, resource, subprocess, tempfile, shutil
from mc import check

# Shapes of non-tail recursion: {F} is the recursive call, {X} the values of the other locals.
# Every level adds n and its locals to the result, so a damaged frame shows in the sum.
SHAPES = {
    "operand last": "(+ n {S} {F})",
    "operand first": "(+ {F} n {S})",
    "operand middle": "(+ n {F} {S})",
    "let binding": "(let-values ([(r) {F}]) (+ r n {S}))",
    "let second binding": "(let-values ([(q) n] [(r) {F}] [(s) {S}]) (+ r q s))",
    "let values": "(let-values ([(r s) (values {F} n)]) (+ r s {S}))",
    "letrec binding": "(letrec-values ([(g) (lambda () r)] [(r) {F}]) (+ (g) n {S}))",
    "begin": "(begin (set! acc (+ acc 1)) (let-values ([(r) (begin {F})]) (begin acc (+ r n {S}))))",
    "begin not last": "(begin (set! tmp {F}) (+ tmp n {S}))",
    "if test": "(if (set! tmp {F}) (+ tmp n {S}) 0)",
    "if test value": "(if (= 0 {F1}) 0 (+ (unbox last) n {S}))",
    "apply": "(+ n {S} (apply f {A} '()))",
    "apply list": "(+ n {S} (apply f (list {A})))",
    "apply operator": "(apply + (list n {F} {S}))",
    "call-with-values producer": "(call-with-values (lambda () (values n {F} {S})) +)",
    "call-with-values producer tail": "(+ n {S} (call-with-values (lambda () {F}) (lambda (r) r)))",
    "call-with-values consumer": "(+ n {S} (call-with-values (lambda () (values {A})) f))",
    "values producer": "(let-values ([(a b) (values {F} n)]) (+ a b {S}))",
    "map": "(apply + n {S} (map (lambda (m) (f m {R})) (list (sub1 n))))",
    "for-each": "(begin (for-each (lambda (m) (set! tmp (f m {R}))) (list (sub1 n))) (+ tmp n {S}))",
    "closure": "(+ n {S} ((lambda () {F})))",
    "closure with argument": "((lambda (r) (+ r n {S})) {F})",
    "operator": "((begin (set! tmp {F}) (lambda (k) (+ k tmp n {S}))) 0)",
    "case-lambda": "((case-lambda [(a) a] [(a b) (+ a b n {S})]) 0 {F})",
    "rest": "((lambda l (apply + n {S} l)) {F} 0)",
    "box": "(begin (set-box! last {F}) (+ (unbox last) n {S}))",
    "eval": "(+ n {S} (eval (list 'f (sub1 n) {R})))",
    "string port": "(begin (set! tmp {F}) (format \"~a\" n) (+ tmp n {S}))",
    "hashtable update": "(let-values ([(h) (make-eq-hashtable)]) (begin (hashtable-set! h 'a 0) (hashtable-update! h 'a (lambda (o) (+ o {F}))) (+ n {S} (hashtable-ref h 'a))))",
}


def program(shape, k, off, depth):
    """f takes n and k more arguments; the outermost call sits in a frame of off extra words."""
    xs = ["x%d" % i for i in range(k)]
    body = SHAPES[shape]
    rec = "(sub1 n)%s" % "".join(" " + x for x in xs)
    s = "(+ 0%s)" % "".join(" " + x for x in xs)
    f = "(lambda (n%s) (if (= n 0) 0 %s))" % ("".join(" " + x for x in xs), body)
    if shape == "if test value":
        f = "(lambda (n%s) (if (= n 0) (begin (set-box! last 0) 1) (begin (set-box! last %s) (unbox last))))" % (
            "".join(" " + x for x in xs), body.replace("{F1}", "(begin (f %s) 1)" % rec))
    f = f.replace("{F}", "(f %s)" % rec).replace("{A}", rec).replace("{R}", " ".join(xs)).replace("{S}", s)
    call = "(f %d%s)" % (depth, "".join(" %d" % (i + 3) for i in range(k)))
    pre = "(define-values (acc tmp last) (values 0 0 (box 0))) (define-values (f) %s) " % f
    if shape == "eval":
        pre = "(define-values (acc tmp last) (values 0 0 (box 0))) (define-values (f) %s) " % f
    inner = " ".join("%d" % i for i in range(off))
    prog = pre + "(list %s %s (f 3%s))" % (inner, call, "".join(" 1" for i in range(k)))
    ss = sum(range(3, 3 + k))
    v1 = depth * (depth + 1) // 2 + depth * ss
    exp = [str(i) for i in range(off)] + [str(v1), str(6 + 3 * k)]
    return prog, ("V", "(" + " ".join(exp) + ")", "")


TAIL = {
    "self": "(define-values (f) (lambda (n) (if (= n 0) 'done (f (sub1 n)))))",
    "else branch begin": "(define-values (f) (lambda (n) (if (= n 0) 'done (begin 1 (f (sub1 n))))))",
    "then branch": "(define-values (f) (lambda (n) (if (< 0 n) (f (sub1 n)) 'done)))",
    "let body": "(define-values (f) (lambda (n) (let-values ([(m) (sub1 n)]) (if (= n 0) 'done (f m)))))",
    "let-values body": "(define-values (f) (lambda (n) (let-values ([(m k) (values (sub1 n) 1)]) (if (= n 0) 'done (f m)))))",
    "letrec body": "(define-values (f) (lambda (n) (letrec-values ([(m) (lambda () (sub1 n))]) (if (= n 0) 'done (f (m))))))",
    "letrec loop": "(define-values (f) (lambda (n) (letrec-values ([(g) (lambda (m) (if (= m 0) 'done (g (sub1 m))))]) (g n))))",
    "mutual": "(define-values (f g h) (values (lambda (n) (if (= n 0) 'done (g (sub1 n)))) (lambda (n) (if (= n 0) 'done (h (sub1 n)))) (lambda (n) (if (= n 0) 'done (f (sub1 n))))))",
    "apply": "(define-values (f) (lambda (n) (if (= n 0) 'done (apply f (list (sub1 n))))))",
    "call-with-values": "(define-values (f) (lambda (n) (if (= n 0) 'done (call-with-values (lambda () (sub1 n)) f))))",
    "call-with-values two": "(define-values (f) (lambda (n k) (if (= n 0) 'done (call-with-values (lambda () (values (sub1 n) k)) f)))) (define-values (g) (lambda (n) (f n 1)))",
    "closure": "(define-values (f) (lambda (n) (if (= n 0) 'done ((lambda (m) (f m)) (sub1 n)))))",
    "thunk": "(define-values (f) (lambda (n) (if (= n 0) 'done ((lambda () (f (sub1 n)))))))",
    "case-lambda": "(define-values (f) (case-lambda [() 'none] [(n) (if (= n 0) 'done (f (sub1 n) 1))] [(n k) (f n)]))",
    "rest": "(define-values (f) (lambda (n . r) (if (= n 0) 'done (f (sub1 n) 1 2 3))))",
    "growing and shrinking": "(define-values (f) (case-lambda [(n) (if (= n 0) 'done (f (sub1 n) 1 2 3 4 5 6 7))] [(n a b c d e g h) (if (= n 0) 'done (f (sub1 n)))]))",
    "continuation passing": "(define-values (k0) (lambda (n k) (if (= n 0) (k 'done) (k0 (sub1 n) (lambda (x) (k x)))))) (define-values (f) (lambda (n) (letrec-values ([(go) (lambda (m) (if (< m 1) 'done (begin (k0 50 (lambda (x) x)) (go (- m 50)))))]) (go n))))",
    "set! loop": "(define-values (f) (lambda (n) (if (= n 0) 'done (begin (set! n (sub1 n)) (f n)))))",
    "variable operator": "(define-values (f) (lambda (n) (letrec-values ([(g) (lambda (self m) (if (= m 0) 'done (self self (sub1 m))))]) (g g n))))",
    "many locals": "(define-values (f) (lambda (n) (let-values ([(a) 1] [(b) 2] [(c) 3] [(d) 4]) (let-values ([(m) (sub1 n)]) (if (= n 0) 'done (f m))))))",
}


# Contexts whose hole is in tail position, and calls: every composition of them must loop in constant space.
TCTX = {
    "then": "(if (< -1 n) {} 'never)", "else": "(if (< n 0) 'never {})", "begin2": "(begin 1 {})", "begin3": "(begin n (car '(1)) {})",
    "let0": "(let-values () {})", "let1": "(let-values ([(m) 1]) {})", "let2": "(let-values ([(m) 1] [(k) n]) {})", "let3": "(let-values ([(m) 1] [(k) n] [(j) 3]) {})",
    "mv0": "(let-values ([() (values)]) {})", "mv2": "(let-values ([(m k) (values n 2)]) {})", "mv3": "(let-values ([(m k j) (values n 2 3)]) {})", "mv11": "(let-values ([(m k) (values n 2)] [(j) 3]) {})",
    "letrec0": "(letrec-values () {})", "letrec1": "(letrec-values ([(g) (lambda () n)]) {})", "letrec2": "(letrec-values ([(g) (lambda () (h))] [(h) (lambda () n)]) {})", "letrec mv": "(letrec-values ([(g h) (values (lambda () n) 2)]) {})",
    "thunk": "((lambda () {}))", "lambda1": "((lambda (m) {}) n)", "lambda2": "((lambda (m k) {}) n 2)", "rest": "((lambda (m . r) {}) n 2 3)", "case": "((case-lambda [() 1] [(m) 2] [(m k) {}]) n 2)", "set": "(begin (set! n (+ n 0)) {})",
    "apply": "(apply (lambda (m) {}) (list n))", "apply3": "(apply (lambda (m k . r) {}) n 2 (list 3 4))", "cwv0": "(call-with-values (lambda () (values)) (lambda () {}))", "cwv1": "(call-with-values (lambda () n) (lambda (m) {}))", "cwv3": "(call-with-values (lambda () (values n 2 3)) (lambda (m . r) {}))",
    "eval env": "((lambda (e) {}) (lambda () n))",
}
TCALL = {"self": "(f (sub1 n))", "apply": "(apply f (list (sub1 n)))", "cwv": "(call-with-values (lambda () (sub1 n)) f)", "cwv values": "(call-with-values (lambda () (values (sub1 n))) f)", "operator": "((begin f) (sub1 n))", "if operator": "((if n f car) (sub1 n))"}


def tails(thorough):
    for (a, x) in TCTX.items():
        for (k, y) in TCALL.items():
            yield "%s(%s)" % (a, k), "(define-values (f) (lambda (n) (if (= n 0) 'done %s)))" % x.format(y)
        for (b, z) in TCTX.items():
            if thorough or a < b:
                yield "%s(%s(self))" % (a, b), "(define-values (f) (lambda (n) (if (= n 0) 'done %s)))" % x.format(z.format(TCALL["self"]))


def rss(args):
    """Peak resident size of one run of the program (kB), its output and exit code."""
    exe, path, lim = args
    out = tempfile.TemporaryFile()
    p = subprocess.Popen([exe, "-q", "--no-libs", path], stdout=out, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                         preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_CPU, (lim, lim)))
    _, st, ru = os.wait4(p.pid, 0)
    out.seek(0)
    return ru.ru_maxrss, st, out.read(400).decode("latin-1")


def run(c):
    ks = c.q((0, 1, 3, 8), (0, 1, 2, 3, 4, 5, 8, 13))
    offs = range(c.q(16, 24))
    progs = [program(s, k, o, 1300 if s in ("eval", "hashtable update", "map", "for-each") else 2600)
             for s in SHAPES for k in ks for o in offs]
    c.diff("every frame shape across stack segments", [p for p, _ in progs], expect=[e for _, e in progs], args=["--timeout", "10000"])
    # same boundaries, memory-checked: an overrun of a segment is an error
    progs = [program(s, k, o, 420) for s in SHAPES for k in c.q((0, 8), (0, 1, 3, 8, 13)) for o in c.q(range(0, 12, 2), offs)]
    progs += [program(s, 70, o, 60) for s in SHAPES if s != "eval" for o in c.q(range(0, 72, 8), range(0, 72))]
    c.diff("memory-checked segment boundaries", [p for p, _ in progs], expect=[e for _, e in progs], flavor="asan", args=["--timeout", "15000"])
    # wide calls at every distance from the segment end
    wide = []
    for n in c.q((100, 127, 128, 200), (60, 100, 120, 125, 126, 127, 128, 129, 130, 200, 300, 500)):
        for d in range(0, c.q(40, 100)):
            depth = 1000 + d * 7
            ys = " ".join("y%d" % i for i in range(n))
            args = " ".join(str(i) for i in range(n))
            wide.append(("(define-values (w) (lambda (%s) (+ y0 y%d))) (define-values (f) (lambda (n) (if (= n 0) (w %s) (+ 1 (f (sub1 n)))))) (f %d)"
                         % (ys, n - 1, args, depth), ("V", str(depth + n - 1), "")))
            wide.append(("(define-values (w) (lambda l (length l))) (define-values (f) (lambda (n) (if (= n 0) (apply w (make-list %d 1)) (+ 1 (f (sub1 n)))))) (f %d)"
                         % (n, depth), ("V", str(depth + n), "")))
            wide.append(("(define-values (w) (lambda l (length l))) (define-values (f) (lambda (n) (if (= n 0) (call-with-values (lambda () (apply values (make-list %d 1))) w) (+ 1 (f (sub1 n)))))) (f %d)"
                         % (n, depth), ("V", str(depth + n), "")))
            wide.append(("(define-values (w) (lambda l (length l))) (define-values (f) (lambda (n) (if (= n 0) (let-values ([l (apply values (make-list %d 1))]) 1) (+ 1 (f (sub1 n)))))) (f %d)"
                         % (n, depth), None))
    wide = [w for w in wide if w[1]]
    c.diff("wide calls at depth", [p for p, _ in wide], expect=[e for _, e in wide], args=["--timeout", "10000"])
    # transfers of many values or arguments at every distance from the segment end, memory-checked: n values meet the end of the
    # segment at some depth of a sweep whose steps are smaller than n
    moves = {"values to rest": "(call-with-values (lambda () (apply values xs)) w)", "values to apply": "(call-with-values (lambda () (apply values xs)) (lambda l (apply w l)))",
             "values of values": "(call-with-values (lambda () (call-with-values (lambda () (apply values xs)) values)) w)", "apply rest": "(apply w xs)", "apply with operands": "(- (apply w 1 2 3 xs) 3)",
             "apply apply": "(apply apply (list w xs))", "apply append": "(length (apply append (map list xs)))", "map": "(length (map (lambda (x y) x) xs xs))", "andmap": "(if (andmap (lambda (x) x) xs) (w-list xs) 0)",
             "apply list": "(length (apply list xs))", "apply vector": "(vector-length (apply vector xs))", "list->string": "(string-length (apply string (map (lambda (x) #\\c) xs)))", "let values": "(let-values ([(a b c) (values 1 2 3)] [(l) (apply list xs)]) (length l))"}
    fam, exp = [], []
    for n in c.q((160, 600), (100, 130, 160, 200, 400, 600, 1000, 3000)):
        for nm, e in moves.items():
            for off in c.q((0, 1), (0, 1, 2, 3)):
                # a frame of go is 2 + off words and a segment 8190: the sweep passes a segment end in steps shorter than the values that do not fit
                step, top = max(1, (n - 128) // c.q(5, 12)), 4600
                fam.append("(define-values (xs) (iota %d)) (define-values (w) (lambda l (length l))) (define-values (w-list) (lambda (l) (length l))) (define-values (bad) '()) (define-values (go) (lambda (n) (if (= n 0) 0 (begin (if (= 0 (modulo n %d)) (let-values ([(r) %s]) (if (= r %d) 0 (set! bad (cons n bad)))) 0) (+ 1%s (go (sub1 n))))))) "
                           "(list (go %d) bad)" % (n, step, e, n, " 1" * off, top))
                exp.append(("V", "(%d ())" % (top * (1 + off)), ""))
    for n in c.q((8000, 8200, 20000), (4000, 7900, 8000, 8060, 8100, 8190, 8200, 9000, 16000, 20000, 60000)):
        for nm, e in moves.items():
            if n * c.q(1, 0) <= 8200 or "map" not in e:
                fam.append("(define-values (xs) (iota %d)) (define-values (w) (lambda l (length l))) (define-values (w-list) (lambda (l) (length l))) (list 1 %s 2)" % (n, e))
                exp.append(("V", "(1 %d 2)" % n, ""))
    c.diff("many values at every depth", fam, expect=exp, flavor="asan", args=["--timeout", "15000"])
    # depth sweep: every depth near the boundaries
    sweep = [program(s, 0, 0, d) for s in ("operand last", "let values", "call-with-values consumer", "apply", "begin not last")
             for d in range(1, c.q(900, 6000), c.q(3, 1))]
    c.diff("depth sweep", [p for p, _ in sweep], expect=[e for _, e in sweep], args=["--timeout", "10000"])
    deep = [program(s, 1, 0, c.q(30000, 200000)) for s in SHAPES if s not in ("eval",)]
    c.diff("very deep", [p for p, _ in deep], expect=[e for _, e in deep], args=["--timeout", "30000"])
    # tail calls in constant space
    exe = os.path.join(c.tree.flavor_dir("rel"), "minim")
    tmp = tempfile.mkdtemp(prefix="p03.")
    try:
        jobs, names = [], []
        N = c.q(600000, 3000000)
        todo = [("baseline", "(define-values (f) (lambda (n) 'done))", N)] + [(k, v, N) for k, v in TAIL.items()] + [(k, v, c.q(100000, 1000000)) for k, v in tails(c.thorough)]
        for nm, d, N in todo:
            path = os.path.join(tmp, "t%d.min" % len(jobs))
            g = "g" if "(define-values (g) " in d else "f"
            with open(path, "w") as fh:
                fh.write(d + "\n(display (%s %d))\n" % (g, N))
            jobs.append((exe, path, 400))
            names.append((nm, N))
        # wait4-based runs in a small pool of forked workers
        import multiprocessing
        with multiprocessing.get_context("fork").Pool(8) as pl:
            base = pl.map(rss, jobs[:1])[0][0]
            res = []
            for r in pl.imap(rss, jobs, 1):
                res.append(r)
                if sum(1 for kb, st, out in res if st != 0 or kb > base + 4000) >= 4:
                    pl.terminate()
                    break
        for (nm, N), (kb, st, out), j in zip(names, res, jobs):
            c.impl += 1
            c.transitions += N
            c.states.add(hash(nm))
            src = open(j[1]).read()
            if st != 0 or out != "done":
                c.violation("tail:" + nm, "tail loop %s of %d iterations: status %d output %r" % (nm, N, st, out), {"kind": "program", "program": src})
            elif kb > base + 4000:
                c.violation("tail:" + nm, "tail loop %s of %d iterations: %d kB resident (%d kB without the loop)" % (nm, N, kb, base),
                            {"kind": "program", "program": src})
        c.group("tail loops in constant space", len(jobs))
        c.log("tail loops: %d, peak kB %d, without a loop %d" % (len(res), max(r[0] for r in res), base))
        c.extra["tail_peak_kb"] = {n[0]: r[0] for n, r in zip(names, res)}
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

"""P23: when memory is reclaimed never shows: a program that is collected at every allocation gives the results of one that never is."""
import itertools, os, shutil, tempfile
from checks_util import PUBLIC
from mc import driver
from mc.gen import Core, PRE, histories
from p04 import PRE as MAKE, arities
from p10 import KINDS, OBS, OPS as HOPS
from p12 import INIT as ENVI, OPS as EOPS
from p14 import data
from p15 import W
from p16 import FILE, FILEOPS, IN, INOPS, OUT, OUTOPS
from p20 import DUMP, HX, CTX, FAULTS

HR = DUMP + "(current-error-handler (lambda (e) (begin (write (dump e)) 'resumed))) "

HS = {"x": HX[len(DUMP):], "r": HR[len(DUMP):]}
# structures of every kind that hold fresh objects of every kind while a lot more is allocated
FRESH = ["(list n (number->string n))", "(number->string n)", "(vector n (list n))", "(box (list n))", "(string->symbol (string-append \"sy\" (number->string n)))", "(string-append \"a\" (number->string n))", "(lambda () (list n n))",
         "(integer->char (+ 65 n))", "((lambda (a) (lambda b (list a b n))) (list n))", "(let-values ([(h) (make-hashtable)]) (begin (hashtable-set! h (list n) (vector n)) h))", "(make-pattern-variable (list n) 0)", "(list->vector (list n \"x\"))",
         "(open-input-string (number->string (* n 1000)))", "(let-values ([(o) (open-output-string)]) (begin (write (list n \"s\") o) o))", "(datum->syntax (list n 'q))", "(make-exn 'w (number->string n))", "(case-lambda [() (list n)] [(x . r) (list n x r)])", "(current-environment)",
         "(reverse (list n (list n)))", "(string->list (number->string n))", "(make-vector 3 (list n))", "(procedure-rename (lambda q (list n q)) 'renamed)", "(copy-environment (current-environment) #t '(list))"]
SEE = ("(define-values (see) (lambda (x) (if (procedure? x) (if (eq? x car) 'car (see (x))) (if (box? x) (list 'box (see (unbox x))) (if (hashtable? x) (list 'ht (hashtable-size x) (hashtable-keys x) (hashtable-vals x)) (if (syntax? x) (list 'stx (syntax->datum x)) "
       "(if (string-port? x) (if (input-port? x) (list 'in (read x)) (list 'out (get-output-string x))) (if (pattern-variable? x) (list 'pv (pattern-variable-value x)) (if (exn? x) (list (exn-who x) (exn-message x)) (if (environment? x) (list 'env (environment-ref x 'list 'no)) (if (symbol? x) (string-length (symbol->string x)) (if (vector? x) (list->vector (map see (vector->list x))) (if (pair? x) (cons (see (car x)) (see (cdr x))) x))))))))))))) ")
HOLD = ["(let-values ([(x) %s]) (begin (churn) (see x)))", "((lambda (x) (begin (churn) (see x))) %s)", "(let-values ([(x) (list %s)]) (begin (churn) (see (car x))))", "(let-values ([(x) (vector 1 %s)]) (begin (churn) (see (vector-ref x 1))))",
        "(let-values ([(h) (make-eq-hashtable)]) (begin (hashtable-set! h 'k %s) (churn) (see (hashtable-ref h 'k))))", "(let-values ([(h) (make-hashtable)]) (begin (hashtable-set! h %s 'v) (churn) (see (hashtable-keys h))))",
        "(let-values ([(f) (lambda (y) (lambda () y))]) (let-values ([(g) (f %s)]) (begin (churn) (see (g)))))", "(see (list %s (begin (churn) 1)))", "(call-with-values (lambda () (values %s (begin (churn) 2))) (lambda (a b) (begin (churn) (see (list a b)))))",
        "(begin (environment-set! ENV 'kept %s) (churn) (see (environment-ref ENV 'kept)))", "(let-values ([(x) 1]) (begin (set! x %s) (churn) (see x)))", "(letrec-values ([(f) (lambda (k) (if (= k 0) %s (let-values ([(r) (f (sub1 k))]) (begin (churn) r))))]) (see (f 3)))",
        "(see (apply (lambda (a . r) (begin (churn) (list a r))) (list 1 %s)))", "(map (lambda (x) (begin (churn) (see x))) (list %s 1))", "(let-values ([(e) (make-empty-environment)]) (begin (environment-set! e 'z %s) (churn) (see (eval 'z e))))",
        "(see (let-values ([(b) (box %s)]) (begin (churn) (set-box! b (list (unbox b))) (churn) (unbox b))))", "(see (let-values ([(x) (vector %s 1)]) (begin (churn) (vector-fill! x (vector-ref x 0)) (churn) x)))",
        "(begin (current-error-handler (lambda (e) (begin (churn) (see e)))) (list (raise %s) (begin (churn) 1)))", "(see ((RC) %s))"]
HOLD = [h for h in HOLD if "(RC)" not in h] + ["(let-values ([(r) ((record-constructor rt) %s)]) (begin (churn) (see ((record-accessor rt 0) r))))"]
HPRE = ("(define-values (n) 7) (define-values (ENV) (make-empty-environment)) (define-values (rt) (make-record-type-descriptor 'rt #f #f #f #f (vector '(mutable f)))) "
        "(define-values (churn) (lambda () (letrec-values ([(go) (lambda (i) (if (= i 0) #t (begin (list->string (string->list (number->string i))) (vector i i) (make-eq-hashtable) (string->symbol (string-append \"ch\" (number->string i))) (go (sub1 i)))))]) (go 2)))) ") + SEE
# loops whose live data grows: long lists, deep recursion over several stack segments, tables and interned names
GROW = ["(letrec-values ([(f) (lambda (k) (if (= k 0) '() (cons (number->string k) (f (sub1 k)))))]) (apply string-append (f N)))",
        "(letrec-values ([(f) (lambda (k acc) (if (= k 0) acc (f (sub1 k) (cons (list k) acc))))]) (apply + (map car (f N '()))))",
        "(let-values ([(h) (make-hashtable)]) (begin (for-each (lambda (i) (hashtable-set! h (number->string i) (list i))) (iota N)) (for-each (lambda (i) (if (equal? (hashtable-ref h (number->string i) 'no) (list i)) #t (write i))) (iota N)) (for-each (lambda (i) (if (= 0 (modulo i 3)) #t (hashtable-delete! h (number->string i)))) (iota N)) (apply + (map car (vector->list (hashtable-vals (hashtable-copy h)))))))",
        "(let-values ([(l) (map (lambda (i) (string->symbol (string-append \"n\" (number->string i)))) (iota N))]) (andmap (lambda (s i) (if (eq? s (string->symbol (string-append \"n\" (number->string i)))) (equal? (symbol->string s) (string-append \"n\" (number->string i))) #f)) l (iota N)))",
        "(letrec-values ([(f) (lambda (k) (if (= k 0) 0 (+ 1 (f (sub1 k)))))]) (f (* 10 N)))",
        "(letrec-values ([(f) (lambda (k) (if (= k 0) (list \"end\") (let-values ([(a b c) (values (list k) (vector k) (number->string k))]) (let-values ([(r) (f (sub1 k))]) (if (equal? (list a b c) (list (list k) (vector k) (number->string k))) r 'bad)))))]) (f N))",
        "(let-values ([(e) (make-empty-environment)]) (begin (for-each (lambda (i) (environment-set! e (string->symbol (string-append \"v\" (number->string i))) (list i))) (iota N)) (apply + (map (lambda (i) (car (environment-ref e (string->symbol (string-append \"v\" (number->string i)))))) (iota N)))))",
        "(let-values ([(o) (open-output-string)]) (begin (for-each (lambda (i) (write (list i (number->string i)) o)) (iota N)) (let-values ([(s) (get-output-string o)]) (let-values ([(p) (open-input-string s)]) (letrec-values ([(go) (lambda (i) (let-values ([(x) (read p)]) (if (eof-object? x) i (if (equal? x (list i (number->string i))) (go (add1 i)) (list 'bad i x)))))]) (go 0))))))",
        "(apply + (apply list (iota N)))", "(call-with-values (lambda () (apply values (map number->string (iota N)))) (lambda l (apply string-append l)))", "(list->vector (map (lambda (x) (box (list x))) (iota N)))",
        "(letrec-values ([(f) (lambda (k) (if (= k 0) 0 (eval (list '+ k (list 'quote (f (sub1 k)))))))]) (f 25))", "(map (lambda (f) (f)) (map (lambda (i) (lambda () (list i (number->string i)))) (iota N)))"]
# pending calls on many stack segments while memory is reclaimed: at the deepest point, on the way down, on the way up, and twice
BURN = "(define-values (burn) (lambda (n) (if (= n 0) 0 (begin (make-vector 5 n) (list n) (burn (sub1 n)))))) "
SEGS = [BURN + x for x in (
    "(define-values (f) (lambda (k) (if (= k 0) (burn M) (+ 1 (f (sub1 k)))))) (f D)",
    "(define-values (f) (lambda (k) (if (= k 0) (begin (burn M) '()) (cons k (f (sub1 k)))))) (let-values ([(l) (f D)]) (list (length l) (apply + l)))",
    "(define-values (f) (lambda (k) (if (= k 0) 0 ((lambda (b) (+ (f (sub1 k)) (unbox b))) (box k))))) (f D)",
    "(define-values (f) (lambda (k) (if (= k 0) (burn M) (let-values ([(r) (f (sub1 k))]) (begin (if (= 0 (remainder k 997)) (burn 40) 0) (+ r 1)))))) (list (f D) (f D))",
    "(define-values (f) (lambda (k acc) (if (= k 0) (begin (burn M) acc) (car (list (f (sub1 k) (list k)) acc))))) (f D '())",
    "(define-values (f) (lambda (k) (if (= k 0) (begin (burn M) (apply + (iota 2000))) (+ 1 (apply f (list (sub1 k))))))) (f D)",
    "(define-values (f) (lambda (k) (if (= k 0) (begin (burn M) (values 1 2)) (call-with-values (lambda () (f (sub1 k))) (lambda (a b) (values (+ a 1) (+ b 1))))))) (call-with-values (lambda () (f D)) list)",
    "(current-error-handler (lambda (e) (begin (burn M) 7))) (define-values (f) (lambda (k) (if (= k 0) (raise 'stop) (+ 1 (f (sub1 k)))))) (list (f D) (f D))",
    "(define-values (f) (lambda (k) (if (= k 0) (eval '(begin (burn M) 5)) (+ 1 (f (sub1 k)))))) (f D)",
    "(define-values (mapr) (lambda (g l) (if (null? l) '() (cons (g (car l)) (mapr g (cdr l)))))) (apply + (mapr (lambda (x) (begin (list x) (+ x 1))) (iota D)))")]
DATA_TEXT = ["(a . b)", "#(1 (2) \"x\")", "\"a\\nb\"", "#\\space", "'(q `r ,s ,@t)", "(a ;c\n b)".replace("\n", " "), "#t", "-12", "(1 . (2 . (3)))", "#'x", "()", "|a b|", "(\"s\" #\\w #f)", "#&5", "[a {b}]", "((((x))))", "#;(skip) kept", "#|b|# z"]


def stress(c, name, progs, period, phases=(0,), args=(), timeout=20000, pre=None, errors=1):
    if pre:
        tmp = tempfile.mkdtemp(prefix="p23.")
        try:
            with open(os.path.join(tmp, "pre"), "w") as fh:
                fh.write(pre + "\n")
            return stress(c, name, progs, period, phases, tuple(args) + ("--pre", os.path.join(tmp, "pre")), timeout, None, errors)
        finally:
            shutil.rmtree(tmp)
    """Each program without collections, then collected at every allocation whose number is the phase modulo the period."""
    progs = list(dict.fromkeys(progs))
    if len(c.violations) >= 3:
        return
    c.need("stress")
    base = ["--noenv", "--timeout", str(timeout)] + list(args)
    want = driver.run(c.tree, progs, flavor="stress", args=base + ["--gc", "2000000000", "1999999999"])
    if any(r.k == "N" for r in want):
        raise RuntimeError("%s: unanswered" % name)
    if errors > 1:      # keep every program that succeeds, one in so many of the others
        es = [i for i, r in enumerate(want) if r.k != "V"]
        drop = set(es) - set(es[::errors])
        progs, want = [[x for i, x in enumerate(l) if i not in drop] for l in (progs, want)]
    norm = lambda r: (r.k, r.v, r.out, r.err)
    exp = [norm(r) if r.k in "VEX" and r.k else None for r in want]
    for ph in phases:
        driver.NOTES.clear()
        c.diff("%s; collected at %s" % (name, "every allocation" if period == 1 else "allocations %d modulo %d" % (ph, period)), progs, flavor="stress", expect=exp,
               args=base + ["--gc", str(period), str(ph)], same=lambda e, r: norm(r) == e)
        tot = [sum(x) for x in zip(*[[int(v) for v in n.split()[1:4]] for n in driver.NOTES if n.startswith("stress ")])] or [0, 0, 0]
        c.transitions += tot[1]
        for k, v in zip(("allocations", "collections", "objects_freed"), tot):
            c.extra[k] = c.extra.get(k, 0) + v
        c.log("  %d allocations, %d collections, %d objects freed" % tuple(tot))


def run(c):
    th = c.thorough
    # 1. the language itself: every small expression
    g = Core({"lambda0", "lambda1", "rest", "case-lambda", "call0", "call1", "begin", "list", "values", "let1", "letv", "letrec1", "cwv", "if", "set!"}, naming="fresh")
    n = c.q(3, 4)
    stress(c, "expressions", [PRE + p for p in g.upto(n)], 1)
    g = Core({"lambda2", "rest1", "call2", "let2", "letrec2", "list"}, naming="mod2", atoms=("(p K)", "(list K)"))
    stress(c, "expressions with several bindings", [PRE + p for p in g.programs(c.q(5, 6))][::c.q(3, 1)], 1)
    # 2. everything fresh, held in every way, while more is allocated
    stress(c, "every kind of object held in every way", [h % f for h in HOLD for f in FRESH], 1, pre=HPRE)
    # 3. histories of the mutable structures
    ps = []
    for nm, (mk, keys) in KINDS.items():
        init = "(define-values (h g) (values %s %s)) " % (mk, mk) + OBS % tuple(keys)
        ps += list(histories(init, HOPS, "(o)", c.q(1, 2))) + [init + " ".join(t) + " (o)" for t in itertools.product(HOPS, repeat=2)][::c.q(4, 1)]
    stress(c, "hashtables", ps, 1)
    stress(c, "environments", [ENVI + " ".join(t) + " (o)" for t in itertools.product(EOPS, repeat=c.q(1, 2))], 1)
    ps = [IN + " ".join(t) + " (o)" for t in itertools.product(INOPS, repeat=c.q(2, 3))] + [OUT + " ".join(t) + " (w (get-output-string s)) (o)" for t in itertools.product(OUTOPS, repeat=c.q(2, 3))]
    ps += [FILE % ("f%d" % i, "f%d" % i) + " ".join(t) + " (ob)" for i, t in enumerate(itertools.product([o for o in FILEOPS if "open-input-file g" not in o], repeat=c.q(1, 2)))]
    stress(c, "ports", ps, 1)
    # 4. reading, printing and serializing
    ps = ["(let-values ([(i) (open-input-string %s)]) (letrec-values ([(all) (lambda () (let-values ([(x) (read i)]) (if (eof-object? x) '() (cons x (all)))))]) (all)))" % ('"' + " ".join(t).replace("\\", "\\\\").replace('"', '\\"') + '"') for t in itertools.product(DATA_TEXT, repeat=c.q(1, 2))]
    ps += ["(let-values ([(o) (open-output-string)]) (begin (write '%s o) (display '%s o) (let-values ([(s) (get-output-string o)]) (list s (format \"~a ~s\" '%s '%s)))))" % (d, d, d, d) for d in (data(c.q(2, 3), ["a", "-7", "\"x\"", "#\\b", "#f"]))]
    ps += [W + "(define-values (x) (list '%s)) (w \"q%d\" x) (let-values ([(y) (r \"q%d\" 1)]) (list (equal? (cadr y) x) y))" % (d, i, i) for i, d in enumerate(x for x in data(c.q(2, 3), ["a", "-7", "\"x\"", "#\\b", "#f"]) if "#&" not in x)]
    stress(c, "reading, printing, serializing", ps, 1)
    # 5. errors and handlers
    stress(c, "errors", [h + x % f for h in (HS["x"], HS["r"], "") for x in CTX for f in FAULTS[::c.q(3, 1)]], 1, pre=PRE + DUMP)
    # 6. every procedure on every kind of argument
    small = ["1", "'a", '"abc"', "(list 1 2)", "(lambda r r)", "#f", "(vector 1 2)", "(HT)", "#\\a", "(REC)"]
    skip = {"load", "current-directory", "command-line", "exit", "environment-symbols", "version", "make-base-environment", "eq-hash", "equal-hash", "hashtable-hash", "open-input-file", "open-output-file"}
    ps = []
    for f, ar in sorted(arities(c, [n for n in PUBLIC(c) if n not in skip]).items()):
        for k in sorted(ar):
            pool = {0: [()], 1: [(a,) for a in small + ["(EXN)", "(RTD)", "(box 1)", "(quote-syntax (a 1))", "'()", "(make-exn 'a \"b\")"]], 2: itertools.product(small[:c.q(5, 10)], repeat=2), 3: itertools.product(small[:c.q(3, 5)], repeat=3)}.get(k, ())
            ps += ["(%s)" % " ".join((f,) + t) for t in pool]
    stress(c, "every procedure", ps, 1, pre=MAKE + "\n" + DUMP, errors=c.q(8, 1))
    # 7. growing live data
    for N, per, k in c.q(((12, 1, 1), (150, 50, 2), (700, 1009, 1)), ((12, 1, 1), (60, 1, 1), (150, 17, 17), (700, 211, 16), (2500, 2003, 16))):
        stress(c, "growing data, %d" % N, [x.replace("N", str(N)) for x in GROW], per, phases=[per * i // k for i in range(k)], timeout=120000)
    for D, M, per, k in c.q(((3000, 300, 211, 1), (9000, 600, 499, 1), (30000, 900, 9973, 1)), ((3000, 300, 211, 8), (9000, 600, 499, 16), (30000, 900, 1777, 16), (60000, 3000, 9973, 4))):
        stress(c, "pending calls on many stack segments, %d" % D, [x.replace("D", str(D)).replace("M", str(M)) for x in SEGS], per, phases=[per * i // k for i in range(k)], timeout=120000)
    c.assumptions += ["memory that the collector frees is overwritten and never handed out again, so a use of it shows",
                      "a schedule that collects at every allocation has freed, at every moment, whatever any other schedule has freed by then; longer runs use fixed periods and all listed phases",
                      "references are looked for in registers, the C stack, static data and every live non-atomic object, as the production collector does"]

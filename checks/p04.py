"""P04: no procedure call can crash the system: it returns or reports an error, memory-checked."""
import itertools
from checks_util import PUBLIC
from mc import driver

POOL = ["0", "1", "-1", "3", "'a", '""', '"abc"', "#\\a", "#t", "#f", "'()", "(list 1 2)", "(cons 1 2)", "(list (cons 'a 1))", "(vector)",
        "(vector 1 2)", "(box 1)", "(lambda () 1)", "(lambda (x) x)", "(lambda r r)", "car", "(make-eq-hashtable)", "(HT)", "(void)", "eof",
        "(REC)", "(RTD)", "(quote-syntax (a 1))", '(open-input-string "a (b")', "(open-output-string)", "(current-environment)",
        "(make-empty-environment)", "(CLOSED)", "(EXN)", "(MRTD)"]
MID = ["0", "-1", "2", "'a", '"abc"', "#f", "'()", "(list 1 2)", "(vector 1 2)", "(lambda r r)", "(HT)", "(REC)", "(make-empty-environment)", "(open-output-string)"]
SMALL = ["1", "'a", '"abc"', "(list 1 2)", "(lambda r r)", "#f"]
TINY = ["1", "'a", "(list 'x)", "(vector (list 'immutable 'x))"]
HUGE = ["4611686018427387903", "-4611686018427387904", "4294967296", "1000000", "2147483648"]
PRE = ("(define-values (HT) (lambda () (let-values ([(h) (make-hashtable)]) (begin (hashtable-set! h 'a 1) (hashtable-set! h \"b\" 2) h)))) "
       "(define-values (RTD) (lambda () (make-record-type-descriptor 'r #f #f #f #f (vector '(immutable x) '(mutable y))))) "
       "(define-values (REC) (lambda () ((record-constructor (RTD)) 1 2))) "
       "(define-values (CLOSED) (lambda () (let-values ([(p) (open-input-string \"x\")]) (begin (close-input-port p) p)))) "
       "(define-values (EXN) (lambda () (make-exn 'w \"m\"))) "
       "(define-values (MRTD) (lambda () (record-rtd (REC)))) ")
CONSOLE = {"close-input-port", "close-output-port"}
ALLOC = {"make-vector", "make-list", "make-string", "iota"}


def good(r):
    if r.k == "V":
        return True
    if r.k == "E" and "bad syntax" in r.err and "let-values" in r.err:
        return "case not run"
    if r.k == "E" and (r.out or r.err):
        return True
    return "crash, hang or silent exit"


def quiet(r):
    return r.k in "VE" or "crash or hang"


def arities(c, names):
    r = driver.run(c.tree, ["(procedure-arity %s)" % n for n in names])
    from checks_util import accepts
    return {n: accepts(x.v, 12) for n, x in zip(names, r) if x.k == "V"}


def run(c):
    names = [n for n in PUBLIC(c)]
    procs = arities(c, names)
    c.extra["procedures"] = len(procs)
    groups = {}
    use = " (let-values ([(r) (%s)]) (begin (write r) (equal? r r) (equal-hash r) (write r) (list %s)))"
    for f, ar in sorted(procs.items()):
        for k in sorted(ar):
            if k == 0:
                tuples = [()]
            elif k == 1:
                tuples = [(a,) for a in POOL]
                if f not in ALLOC:
                    tuples += [(a,) for a in HUGE]
            elif k == 2:
                tuples = list(itertools.product(POOL, POOL))
                if f not in ALLOC:
                    tuples += [(a, b) for a in POOL for b in HUGE] + [(b, a) for a in POOL for b in HUGE]
            elif k == 3:
                tuples = list(itertools.product(c.q(MID, POOL), c.q(MID, MID), c.q(SMALL, MID)))
                if f not in ALLOC:
                    tuples += [(a, b, x) for a in ('"abc"', "(vector 1 2)") for b in HUGE for x in ("1", "#\\a")]
            elif k == 4:
                tuples = list(itertools.product(SMALL, repeat=4)) if len(ar) < 5 or c.thorough else list(itertools.product(TINY, repeat=4))
            elif k <= 6 and len(ar) < 5:
                tuples = list(itertools.product(TINY + ["#f"], repeat=k)) if c.thorough else list(itertools.product(TINY[:3], repeat=k))
            elif k == 6:
                tuples = [("1", "'a") * 3]
            else:
                continue
            if k in (3, 4) and len(ar) < 5:
                # containers with every combination of indices inside, at and past their ends
                idx = ["0", "1", "2", "3", "4", "-1", "4611686018427387903"]
                con = ['"abc"', "(vector 1 2 3)", "(list 1 2 3)", "(make-string 3 #\\a)", "(open-output-string)"]
                tuples += list(itertools.product(con, idx, idx + ["#\\a"])) if k == 3 else list(itertools.product(con, con, idx, idx)) + list(itertools.product(con, idx, idx, idx[:5]))
            if k == 6 and f == "make-record-type-descriptor":
                tuples += list(itertools.product(["'r", "1"], ["#f", "(RTD)", "(REC)", "1"], ["#f", "'u", "1"], ["#f", "#t"], ["#f", "#t", "1"],
                                                 ["(vector)", "(vector '(immutable x))", "(vector 'x)", "(vector '(mutable))", "'()",
                                                  "(vector '(immutable x) '(immutable x))", "(vector '(other x))", "(vector '(immutable x y))", "(vector '(immutable 1))"]))
            for t in tuples:
                vs = ["v%d" % i for i in range(k)]
                p = "(let-values (%s)%s)" % (" ".join("[(%s) %s]" % x for x in zip(vs, t)), use % (" ".join([f] + vs), " ".join("(write %s)" % v for v in vs)))
                groups.setdefault("%d arguments" % k, []).append(PRE + p)
    for g, ps in sorted(groups.items()):
        c.law("calls with " + g, [p for p in ps if "(exit" not in p], good, flavor="asan")
        c.law("exit with " + g, [p for p in ps if "(exit" in p], quiet, flavor="asan")
    # procedures made from data: record operations, parameters made at run time
    makers = ["(record-constructor (RTD))", "(record-predicate (RTD))", "(record-accessor (RTD) 0)", "(record-accessor (RTD) 1)", "(record-mutator (RTD) 1)",
              "(record-mutator (RTD) 0)", "(record-accessor (RTD) 2)", "(record-accessor (RTD) -1)", "(record-mutator (RTD) 2)"]
    ps = []
    for m in makers:
        for k in (0, 1, 2, 3):
            for t in itertools.product(POOL if k == 1 else MID if k == 2 else SMALL, repeat=k):
                ps.append(PRE + "(let-values ([(r) (%s %s)]) (begin (write r) r))" % (m, " ".join(t)))
    c.law("procedures made at run time", ps, good, flavor="asan")
    # every value in every syntactic position
    ctx = ["(%s)", "(%s 1)", "(if %s 1 2)", "(begin %s 1)", "(let-values ([(x) %s]) x)", "(let-values ([(x y) %s]) x)", "(let-values ([x %s]) x)",
           "(letrec-values ([(x) %s]) x)", "(letrec-values ([(x) x] [(y) %s]) x)", "(call-with-values (lambda () %s) list)", "(call-with-values %s list)", "(apply %s (list 1))",
           "(apply list %s)", "(values %s)", "(values %s 1)", "(lambda () %s)", "((lambda (x) x) %s)", "((lambda (x) (set! x %s)) 1)", "(set! zzz %s)", "(raise %s)", "(eval %s)",
           "(eval (list %s))", "(eval (list 'quote %s))", "(eval (list 'lambda %s 1))", "(eval (list 'lambda '() %s))", "(eval (list 'let-values %s 1))", "(eval (list 'let-values (list %s) 1))",
           "(eval (list 'let-values (list (list (list 'x) %s)) 'x))", "(eval (list 'let-values (list (list %s 1)) 1))", "(eval (list 'letrec-values %s 1))", "(eval (list 'letrec-values (list (list %s 1)) 1))",
           "(eval (list 'if %s 1 2))", "(eval (list 'if 1 %s 2))", "(eval (cons 'if %s))", "(eval (cons 'begin %s))", "(eval (cons 'lambda %s))", "(eval (cons 'quote %s))", "(eval (cons 'set! %s))",
           "(eval (list 'set! %s 1))", "(eval (cons 'case-lambda %s))", "(eval (list 'case-lambda %s))", "(eval (list 'case-lambda (list %s 1)))", "(eval (cons 'let-values %s))", "(eval (cons 'letrec-values %s))",
           "(eval (list 'define-values %s 1))", "(eval (cons 'define-values %s))", "(eval (list %s 1 2))", "(eval (cons 'car %s))", "(eval (list 'quote-syntax %s))", "(eval 1 %s)", "(current-error-handler %s)",
           "(begin (current-error-handler %s) (car 1))", "(begin (current-error-handler %s) (raise 1))", "(begin (current-error-handler %s) (unbound))","(begin (current-error-handler (lambda (e) (begin (write e) (exit 3)))) (raise %s))", "%s"]
    ps = [PRE + "(let-values ([(r) (%s)]) (write r))" % ("begin " + w % a) if w not in ("%s",) else PRE + "(begin %s)" % a for w in ctx for a in POOL]
    # a handler that fails on every exception is called again for its own failure, for ever: that is not a crash
    failing = ("(lambda () 1)", "car")
    ps = [p for p in ps if not any("(begin (current-error-handler %s) (" % f in p for f in failing)]
    c.law("every value in every position", ps, quiet, flavor="asan")

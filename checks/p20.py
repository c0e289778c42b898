"""P20: an error stops the computation where it happens and is handed, fully described, to the handler in force."""
import itertools
from checks_util import PUBLIC
from p04 import PRE as MAKE, arities
from mc.gen import PRE

# describes any exception completely and leaves with status 7
DUMP = ("(define-values (dump) (lambda (e) (if (argument-exn? e) (list 'argument (exn-who e) (exn-message e) (argument-exn-expect e) (argument-exn-actual e)) "
        "(if (arity-exn? e) (list 'arity (exn-who e) (exn-message e) (arity-exn-expect e) (arity-exn-actual e)) "
        "(if (range-exn? e) (list 'range (exn-who e) (exn-message e) (range-exn-value e) (range-exn-description e) (range-exn-lower e) (range-exn-upper e) (range-exn-index e)) "
        "(if (missing-exn? e) (list 'missing (exn-who e) (exn-message e) (missing-exn-description e) (missing-exn-value e) (missing-exn-key e)) "
        "(if (syntax-exn? e) (list 'syntax (exn-who e) (exn-message e) (syntax-exn-form e) (syntax-exn-subform e)) "
        "(if (exn? e) (list 'exn (exn-who e) (exn-message e)) (list 'raised e))))))))) ")
HX = DUMP + "(current-error-handler (lambda (e) (begin (write (dump e)) (exit 7)))) "
HR = DUMP + "(current-error-handler (lambda (e) (begin (write (dump e)) 'resumed))) "

WHO = ["#f", "'f", '"f g"', "1", "'()"]
MSG = ['"m"', '""', '"a ~a b"', '"two\\nlines"', "'m", "5"]
VAL = ["1", '"s t"', "#\\a", "'(1 \"x\" #\\b)", "'()", "#f", "(vector 1 \"q\")", "(void)", "'sym"]
AR = ["0", "2", "'(1 2)", "'(1 . #f)", "'(0 2 . #f)", "'(1 3 5)", "#f", "'()", "'(1 a)", "-1", '"x"', "'(1 . 2)"]


def raisers(c):
    few = c.q(4, 9)
    for w in WHO:
        for m in MSG:
            yield "(error %s %s)" % (w, m)
            for v in VAL:
                yield "(error %s %s %s)" % (w, m, v)
            for v, u in itertools.product(VAL[:few], repeat=2):
                yield "(error %s %s %s %s)" % (w, m, v, u)
            yield "(error %s %s 1 2 3 4 '(5))" % (w, m)
            for v in VAL:
                yield "(raise-argument-error %s %s %s)" % (w, m, v)
                yield "(errorf %s %s %s)" % (w, m, v)
            yield "(errorf %s %s)" % (w, m)
            yield "(errorf %s %s 1 \"x\")" % (w, m)
            for k, x in itertools.product(VAL[:few], repeat=2):
                yield "(raise-missing-error %s %s %s %s)" % (w, m, k, x)
            for st in ("", " (quote-syntax (a b))", " #f", " 'a", " (quote-syntax x) (quote-syntax y)", " #f (quote-syntax (y . z))", " (quote-syntax x) #f", " (quote-syntax x) 1", " #f #f"):
                yield "(raise-syntax-error %s %s%s)" % (w, m, st)
        for a in AR:
            for n in ("0", "3", "'x", '"n"'):
                yield "(raise-arity-error %s %s %s)" % (w, a, n)
        for v in VAL[:few]:
            for d in ('""', '"low"', "'d", '"a b"'):
                for lo, hi, i in itertools.product(("0", "-1", "'l"), ("3", '"h"', "0"), ("3", "-1", "#f")):
                    yield "(raise-range-error %s %s %s %s %s %s)" % (w, v, d, lo, hi, i)
    for v in VAL:
        yield "(raise %s)" % v
    for w in ("#f", "'w", '"w w"'):
        for v in VAL[:5]:
            yield '(raise (make-exn %s "msg"))' % w
            yield '(raise (make-argument-exn %s "msg" "exp" %s))' % (w, v)
            yield '(raise (make-arity-exn %s "msg" 3 %s))' % (w, v)
            yield '(raise (make-range-exn %s "msg" %s "" 0 4 9))' % (w, v)
            yield '(raise (make-range-exn %s "msg" %s "outer" 0 4 9))' % (w, v)
            yield '(raise (make-missing-exn %s "msg" "key" %s \'k))' % (w, v)
            yield '(raise (make-syntax-exn %s "msg" %s #f))' % (w, v)
            yield '(raise (make-syntax-exn %s "msg" #f %s))' % (w, v)


# errors found by procedures, by the runtime and by the program
FAULTS = ["(car 1)", "(raise 'r)", "(error 'f \"m\" 1 2)", "(vector-ref (vector 1) 4)", "(hashtable-ref (make-hashtable) 'k)", "(errorf #f \"n ~a\" 2)", "(+ 1 'a)"]
HARD = ["nowhere", "((lambda (x) x))", "(5 1)", "(letrec-values ([(x) y] [(y) 1]) x)", "(cons 1)", "(let-values ([(a b) (values 1)]) a)", "(exit 9)", "(apply car '(1 2))"]
CTX = ["%s", "(begin (p 1) %s (p 2))", "(begin %s (p 1))", "(if %s (p 1) (p 2))", "(list (p 1) %s (p 2))", "((lambda (x) (begin (p 1) x)) %s)", "(let-values ([(x) (p 1)] [(y) %s] [(z) (p 2)]) (list x y z))",
       "(letrec-values ([(f) (lambda (k) (if (= k 0) %s (begin (f (sub1 k)) (p 1))))]) (f 3))", "(call-with-values (lambda () (begin (p 1) %s)) list)", "(call-with-values (lambda () (values 1 2)) (lambda (a b) (begin (p a) %s)))",
       "(map (lambda (x) (if (= x 2) %s (p x))) '(1 2 3))", "(for-each (lambda (x) (begin (p x) %s)) '(1 2 3))", "(andmap (lambda (x) (begin (p x) %s)) '(1 2))", "(apply (lambda (x) %s) '(1))", "(p %s)", "(eval '(list (p 1) %s))",
       "(let-values ([(h) (make-eq-hashtable)]) (begin (hashtable-set! h 'a 1) (hashtable-update! h 'a (lambda (v) (begin (p v) %s))) (p (hashtable-ref h 'a))))", "(begin (vector-set! (vector 1 2) 0 %s) (p 3))", "(%s (p 1))",
       "(hashtable-ref (make-eq-hashtable) 'k (lambda () (begin (p 1) %s)))", "(ormap (lambda (x) %s) '(1 2))", "(values 1 %s)", "(let-values ([(x) 1]) (begin (set! x %s) (p x)))", "(apply list (list 1 %s))", "((case-lambda [() 1] [(x) %s]) 1)",
       # in procedures that tables, equality and printing call; the first call only, as the number of calls is left open
       "(let-values ([(n) 0]) (let-values ([(h) (make-custom-hashtable (lambda (x) 1) (lambda (x y) (begin (set! n (add1 n)) (if (= n 1) (begin %s (eq? x y)) (eq? x y)))))]) (begin (hashtable-set! h 'a 1) (hashtable-set! h 'b 2) (p (hashtable-ref h 'a 0)) (p (hashtable-ref h 'b 0)) (p (hashtable-size h)))))",
       "(let-values ([(n t) (values 0 (make-record-type-descriptor 't #f #f #f #f (vector '(immutable a))))]) (begin (record-type-equal-procedure t (lambda (x y eq) (begin (set! n (add1 n)) (if (= n 1) (begin %s (eq 1 1)) #t)))) (p (equal? (list ((record-constructor t) 1)) (list ((record-constructor t) 1))))))",
       "(let-values ([(o t) (values (open-output-string) (make-record-type-descriptor 't #f #f #f #f (vector '(immutable a))))]) (begin (record-writer t (lambda (r q d?) (begin (put-string q \"<\") %s (put-string q \">\")))) (write (list ((record-constructor t) 1) 2) o) (p (get-output-string o))))",
       "(let-values ([(e) (make-empty-environment)]) (begin (p (environment-ref e 'x (lambda () %s))) (p (environment-symbols e))))"]
HANDLERS = [("none", ""), ("exit", HX), ("resume", HR),
            ("values", "(current-error-handler (lambda (e) (values 8 9))) "),
            ("nested", DUMP + "(current-error-handler (lambda (e) (begin (write (dump e)) (current-error-handler (lambda (f) (begin (write (list 'second (dump f))) 'twice))) (car 'inside)))) "),
            ("once", "(current-error-handler (lambda (e) (begin (p 'h) (current-error-handler default-error-handler) 'once))) "),
            ("delegating", "(current-error-handler (lambda (e) (begin (p 'h) (default-error-handler e)))) "),
            ("tail", "(current-error-handler list) ")]


def run(c):
    # 1. everything that raises, as the default handler reports it and as a handler sees it
    rs = list(dict.fromkeys(raisers(c)))
    c.diff_err("the default report", ["(display \"before\") (begin %s (display \"after\"))" % r for r in rs])
    c.diff_err("what a handler sees", [HX + "(begin (list 1 %s) (display \"after\"))" % r for r in rs])
    c.diff_err("what a resumed computation gets", [HR + "(list 1 %s 2)" % r for r in rs[::c.q(3, 1)]])
    # 2. an error in every place of a computation
    ps = []
    for (hn, h), f in itertools.product(HANDLERS, FAULTS + HARD):
        if f in HARD and hn not in ("none",):
            continue
        for x in CTX:
            ps.append(PRE + h + x % f + " (p 'later)")
        inner = CTX if c.thorough else CTX[::2]
        for x, y in itertools.product(CTX[1:], inner):
            if c.thorough or f in (FAULTS[0], FAULTS[1], HARD[0], HARD[6]):
                if "eval '" in x and "'" in y.replace("'(", ""):
                    continue
                ps.append(PRE + h + x % (y % f) + " (p 'later)")
    c.diff_err("an error in every place", ps)
    # 3. histories of handler changes and errors
    ops = ["(current-error-handler h1)", "(current-error-handler h2)", "(current-error-handler default-error-handler)", "(p (list 'got (raise 'x)))", "(p (list 'got (car 5)))",
           "(p (list 'got ((current-error-handler) 'direct)))", "(current-error-handler 5)", "(p (eq? (current-error-handler) h1))", "(p (eq? (current-error-handler) default-error-handler))",
           "(current-error-handler (let-values ([(old) (current-error-handler)]) (lambda (e) (old (list 'wrap e)))))",
           "(current-error-handler (let-values ([(old) (current-error-handler)]) (lambda (e) (begin (current-error-handler old) (p 'restored)))))",
           "(eval '(current-error-handler (lambda (e) 'evaled)) (make-base-environment))", "(p (list 'got (eval '(raise 'in-eval))))"]
    ps = []
    for n in range(1, c.q(4, 5)):
        for t in itertools.product(ops, repeat=n):
            if n > 1 and not any("got" in x for x in t[1:]):
                continue
            ps.append(PRE + "(define-values (h1) (lambda (e) (list 'h1 (exn? e) e))) (define-values (h2) (lambda (e) (begin (p 'h2) 'two))) " + " ".join(t))
    c.diff_err("histories of handlers", [p for p in ps])
    # 4. leaving with a status
    ps = []
    for v in [str(i) for i in range(-3, 260)] + ["'a", "\"1\"", "#f", "'()", "(list 1)", "4611686018427387903"]:
        for w in ("(exit %s)", "(begin (display 1) (exit %s) (display 2))", "(list (exit %s) (car 1))"):
            ps.append(w % v)
            ps.append(HX + w % v)
    ps += ["(exit)", "(begin (p 1) (exit) (p 2))", "(exit 1 2)"]
    c.diff_err("exit statuses", ps)
    # 5. every procedure on every tuple of arguments of many kinds: the same value or the same complete error description
    pool = ["0", "2", "-1", "'a", "#\\a", '"abc"', "'()", "(list 1 2)", "(cons 1 2)", "#f", "(vector 1 2)", "(box 1)", "(lambda (x) x)", "(lambda r r)", "car", "(make-eq-hashtable)", "(HT)", "(void)", "(RTD)", "(REC)",
            "(quote-syntax (a 1))", '(open-input-string "a b")', "(open-output-string)", "(EXN)", "(list (cons 'a 1))", "(make-hashtable)"]
    mid = ["0", "1", "-1", "'a", '"abc"', "'()", "(list 1 2)", "(vector 1 2)", "(lambda r r)", "(HT)", "(REC)", "#\\a"]
    small = ["1", "'a", '"abc"', "(list 1 2)", "(lambda r r)", "#f"]
    skip = {"load", "current-directory", "command-line", "exit", "open-input-file", "open-output-file", "environment-symbols", "current-input-port", "version", "gensym", "flush-output-port"}
    # operations of built-in record types carry generated names in their errors (P13 covers record operations)
    from mc.ref import PRIMS
    skip |= {n for n in PRIMS if "exn" in n and n not in ("exn?",)} | {"hashtable-hash-proc", "hashtable-equiv-proc"}
    procs = arities(c, [n for n in PUBLIC(c) if n not in skip])
    ps = []
    for f, ar in sorted(procs.items()):
        for k in sorted(ar):
            if k == 0:
                ts = [()]
            elif k == 1:
                ts = [(a,) for a in pool]
            elif k == 2:
                ts = list(itertools.product(pool, pool))
            elif k == 3 and len(ar) < 9:
                ts = list(itertools.product(mid, mid, c.q(small, mid)))
            elif k == 3:
                ts = list(itertools.product(small, repeat=3))
            elif k == 4 and len(ar) < 9:
                ts = list(itertools.product(small, repeat=4)) if c.thorough else list(itertools.product(small[:4], repeat=4))
            else:
                continue
            for t in ts:
                ps.append(MAKE + HX + "(%s)" % " ".join((f,) + t))
    c.extra["procedures"] = len(procs)
    c.diff_err("every procedure on every kind of argument", ps)
    # 6. a renamed procedure: errors and name follow the new name only, the original keeps its own
    ps = []
    for p in ("car", "(lambda (x) x)", "(lambda (x . r) (car x))", "(case-lambda [() 1] [(x y) x])", "cons", "vector-ref", "(procedure-rename car 'first)"):
        for n in ("'other", "(string->symbol \"o p\")", "1", '"s"'):
            ps.append(HX + "(define-values (f) %s) (define-values (g) (procedure-rename f %s)) (list (eq? f g) (procedure? g) (procedure-arity g) (equal? (procedure-arity f) (procedure-arity g)) (procedure-name g) (equal? (procedure-name f) (procedure-name g)) (procedure-name f))" % (p, n))
            for a in ("", "1", "'(1 2)", "1 2", "'(1 2) '(3 4)"):
                ps.append(HX + "(define-values (f) %s) (define-values (g) (procedure-rename f %s)) (list (g %s) (f %s))" % (p, n, a, a))
    c.diff_err("renamed procedures", ps)
    # 7. errors the evaluator itself finds: who, message, expected and given counts, and where the handler's result goes
    ps, exp = evaluator_errors(c)
    c.diff("errors of the evaluator", ps, expect=exp, same=lambda e, r: (r.k, r.v, r.out, r.err) == e)


def unmatched(c):
    """(procedure expression, name or None, call operands, message, [expected..., given]) for every shape of parameter list and count it rejects."""
    names = ["a", "b", "c", "d", "e"]
    top = c.q(4, 5)
    forms = [(n, False) for n in range(top)] + [(n, True) for n in range(1, top)]

    def fm(n, rest):
        return ("(%s%s)" % (" ".join(names[:n]), " . r" if rest else "")) if n or not rest else "r"
    for n, rest in forms:
        for k in range(top + 1):
            if k < n or (k > n and not rest):
                msg = "arity mismatch, expected at least" if rest else "arity mismatch"
                yield "(lambda %s (p 'entered))" % fm(n, rest), k, msg, [str(n), str(k)]
    for x, y in [(x, y) for x in range(1, top) for y in range(x + 1, top + 1)]:
        for k in range(top + 1):
            if k not in (x, y):
                yield "(case-lambda [%s (p 'one)] [%s (p 'two)])" % (fm(x, False), fm(y, False)), k, "arity mismatch, expected between", [str(x), "(%d)" % y, str(k)]


NEST = [("(list 'l %s 'm)", "(|l| {} |m|)", ""), ("(begin (p 0) %s (p 1))", "1", "01"), ("(let-values ([(x) %s] [(y) (p 3)]) (cons x y))", "({} . 3)", "3"),
        ("((lambda (x) (list x)) %s)", "({})", ""), ("(vector-length (vector 1 %s (p 2)))", "3", "2"), ("(letrec-values ([(f) (lambda (k) (if (= k 0) %s (cons k (f (sub1 k)))))]) (f 3))", None, ""),
        ("(map (lambda (x) (if (= x 2) %s x)) '(1 2 3))", "(1 {} 3)", ""), ("(list (if (eq? %s 'no) (p 1) (p 2)))", "(2)", "2"), ("(list (call-with-values (lambda () %s) list))", "(({}))", ""),
        ("(begin (set! z %s) (list z (p 5)))", "({} 5)", "5"), ("(list (apply list (list %s)))", "(({}))", ""), ("(list (eval '(list %s)))", "(({}))", "")]


def evaluator_errors(c):
    ps, exp = [], []
    pre = "(define-values (p) (lambda (x) (begin (display x) x))) (define-values (z) 0) "
    hx = pre + "(current-error-handler (lambda (e) (begin (write (list (exn? e) (arity-exn? e) (exn-who e) (exn-message e))) (exit 7)))) "
    hr = pre + "(current-error-handler (lambda (e) (begin (write (list (exn? e) (exn-who e) (exn-message e))) 'R))) "

    def add(d, call, who, msg, args):
        text = msg + ("\n  arguments...:" + "".join("\n   " + a for a in args) if len(args) > 1 else "\n  argument: " + args[0])
        q = '"%s"' % text.replace('"', '\\"').replace("\n", "\\n")
        w = '"%s"' % who if who else "#f"
        for x, val, out in NEST:
            before = "0" if x.startswith("(begin (p 0)") else ""
            ps.append(pre + d + x % call + " (p 'later)")
            exp.append(("E", "1", before, "%s: %s\n" % (who or "error", text)))
            ps.append(hx + d + x % call + " (p 'later)")
            exp.append(("E", "7", before + "(#t #f %s %s)" % (w, q), ""))
            if val:
                ps.append(hr + d + x % call)
                exp.append(("V", val.format("|R|"), before + "(#t %s %s)" % (w, q) + out[len(before):], ""))
    for f, k, msg, args in unmatched(c):
        ops = " %s" * k % tuple(range(10, 10 + k))
        add("", "(%s%s)" % (f, ops), None, msg, args)
        add("(define-values (proc) %s) " % f, "(proc%s)" % ops, "proc", msg, args)
        add("(define-values (proc) (procedure-rename %s 'other)) " % f, "(apply proc (list%s))" % ops, "other", msg, args)
    for v, shown in (("5", "5"), ("'a", "a"), ('"s"', '"s"'), ("'(1 x)", "(1 x)"), ("#f", "#f"), ("(vector 1 2)", "#(1 2)"), ("(void)", "#<void>"), ("(box 1)", "#&1")):
        for ops in ("", " 1", " 1 2 3"):
            add("", "(%s%s)" % (v, ops), None, "expected procedure", [shown])
    return ps, exp

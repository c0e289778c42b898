"""P09: eq? and equal? are the intended equivalences, and the hash procedures agree with them."""
import itertools

ATOMS = ["0", "1", "-1", "4611686018427387903", "#t", "#f", "'()", "'a", "'b", '""', '"a"', '"b"', '"ab"', "#\\a", "#\\b", "#\\0", "(void)", "eof", "car", "cdr", "(lambda () 1)", "'quote"]
C1 = ["0", "1", "'a", '"a"', "#\\a", "'()", "#f", '"b"']


def compound(xs):
    for x in xs:
        for f in ("(list %s)", "(vector %s)", "(box %s)", "(list (list %s))", "(vector (list %s))", "(list (vector %s))", "(box (box %s))", "(list (box %s))"):
            yield f % x
    for x, y in itertools.product(xs[:6], repeat=2):
        for f in ("(cons %s %s)", "(list %s %s)", "(vector %s %s)", "(list (list %s) %s)"):
            yield f % (x, y)


def tables():
    """Hashtables with every small content, filled in every order."""
    mk = "(let-values ([(h) %s]) (begin %s h))"
    keys = ["'a", '"k"', "1", "(list 1)"]
    for k in ("(make-hashtable)", "(make-eq-hashtable)"):
        for n in range(0, 4):
            for t in itertools.permutations(keys[:3] if k.startswith("(make-eq") else keys, n):
                yield mk % (k, " ".join("(hashtable-set! h %s %s)" % (x, i) for i, x in sorted(((keys.index(x), x) for x in t), key=lambda p: t.index(p[1]))))
        yield mk % (k, "(hashtable-set! h 'a 5)")
        yield mk % (k, "(hashtable-set! h 'a 0) (hashtable-set! h 1 7) (hashtable-delete! h 1)")


def run(c):
    vals = ATOMS + list(compound(C1))
    if not c.thorough:
        vals = vals[:22] + vals[22::2]
    c.extra["values"] = len(vals)
    pre = "(let-values ([(x) %s] [(y) %s]) (list (eq? x x) (eq? y y) (equal? x x) (equal? y y) (eq? x y) (equal? x y) (equal? y x)))"
    pre2 = "(let-values ([(x) %s] [(y) %s]) (list (equal? x y) (if (equal? x y) (= (equal-hash x) (equal-hash y)) #t) (if (eq? x y) (= (eq-hash x) (eq-hash y)) #t) (= (equal-hash x) (equal-hash x)) (= (eq-hash x) (eq-hash x)) (fixnum? (equal-hash x)) (fixnum? (eq-hash x))))"
    pairs = list(itertools.product(vals, vals))
    c.diff("every pair of values", [pre % t for t in pairs])
    law = [pre2 % t for t in pairs]
    c.law("hashes agree with equality", law, lambda r: r.k == "V" and r.v[3:] == " #t #t #t #t #t #t)" or "hash disagrees with equality")
    # nested structures: every nesting of constructors up to a depth, built twice (equal, same hash) and with one leaf changed (not equal)
    wraps = ["(list %s)", "(vector %s)", "(box %s)", "(cons %s 1)", "(cons 1 %s)", "(list 1 %s)", "(vector 1 %s)", "(vector %s 1)", "(vector 1 2 3 %s 5)", "(list 1 2 3 %s 5)", "(let-values ([(h) (make-hashtable)]) (begin (hashtable-set! h 'k %s) h))"]
    keyed = ["(let-values ([(h) (make-hashtable)]) (begin (hashtable-set! h %s 1) h))"]
    leaves = [("'a", "'b"), ('"s"', '"t"'), ("1", "2"), ("'()", "0"), ("(string-append \"x\" \"y\")", '"xz"'), ("#\\x", "#\\y"), ("(vector)", "'()"), ("(list)", "(vector)"), ('(make-string 3 #\\q)', '(make-string 2 #\\q)')]
    nest = [w for w in itertools.product(wraps + keyed, repeat=2)] + [w for w in itertools.product(wraps if c.thorough else wraps[:8], repeat=3)] + [(w,) for w in wraps]
    law, fam, exp = [], [], []
    for ws in nest:
        for k, (x, y) in enumerate(leaves):
            if not c.thorough and len(ws) == 3 and k % 3:
                continue
            for w in reversed(ws):
                x, y = w % x, w % y
            fam.append("(let-values ([(x) %s] [(y) %s] [(z) %s]) (list (equal? x y) (equal? x z) (equal? z y) (= (equal-hash x) (equal-hash y)) (let-values ([(h) (make-hashtable)]) (begin (hashtable-set! h x 'in) (hashtable-set! h z 'out) (list (hashtable-ref h y 'lost) (hashtable-size h))))))" % (x, x, y))
            exp.append(("V", "(#t #f #f #t (|in| 2))", ""))
    c.diff("nested structures built twice", fam, expect=exp)
    # records
    rec = ("(define-values (A) (make-record-type-descriptor 'a #f #f #f #f (vector '(mutable x) '(immutable y)))) (define-values (B) (make-record-type-descriptor 'a #f #f #f #f (vector '(mutable x) '(immutable y)))) "
           "(define-values (C) (make-record-type-descriptor 'c A #f #f #f (vector '(immutable z)))) (define-values (ma mb mc) (values (record-constructor A) (record-constructor B) (record-constructor C))) ")
    setup = ["", "(default-record-equal-procedure (lambda (a b eq) (eq ((record-accessor A 0) a) ((record-accessor A 0) b)))) (default-record-hash-procedure (lambda (a h) 7)) ",
             "(record-type-equal-procedure A (lambda (a b eq) (eq ((record-accessor A 0) a) ((record-accessor A 0) b)))) (record-type-hash-procedure A (lambda (a h) (h ((record-accessor A 0) a)))) ",
             "(record-type-equal-procedure C (lambda (a b eq) #t)) (record-type-hash-procedure C (lambda (a h) 3)) "]
    rv = ["(ma 1 2)", "(ma 1 3)", "(ma 2 2)", "(ma (list 1) 2)", "(mb 1 2)", "(mc 1 2 3)", "(mc 1 2 4)", "(mc 2 2 3)", "(list (ma 1 2))", "(vector (mc 1 2 3))", "1", "A", "B"]
    ps, hs = [], []
    for s in setup:
        for x, y in itertools.product(rv, rv):
            if s and any(v.startswith(("(mb", )) for v in (x, y)) and "default" in s:
                continue
            ps.append(rec + s + pre % (x, y))
            hs.append(rec + s + pre2 % (x, y))
    c.diff("records with and without their own equality", ps)
    c.diff("the procedures in charge of a record", [rec + st + "(let-values ([(x) %s] [(y) %s]) (let-values ([(p) (record-equal-procedure x y)] [(h) (record-hash-procedure x)]) (list (if p (p x y equal?) 'none) (if h (h x (lambda (v) (list v))) 'none))))" % t
           for st in setup + ["(record-type-equal-procedure A (lambda (a b eq) 'a)) (record-type-equal-procedure B (lambda (a b eq) 'b)) (record-type-hash-procedure C (lambda (a h) (h 'c))) "] for t in itertools.product(rv, rv)])
    c.law("hashes agree with record equality", hs, lambda r: r.k == "V" and r.v[3:] == " #t #t #t #t #t #t)" or "hash disagrees with equality")
    ts = list(tables())
    ts = ts if c.thorough else ts[::2]
    pairs = list(itertools.product(ts, ts))
    c.diff("every pair of hashtables", [pre % t for t in pairs])
    c.law("hashes agree with equality, hashtables", [pre2 % t for t in pairs], lambda r: r.k == "V" and r.v[3:] == " #t #t #t #t #t #t)" or "hash disagrees with equality")
    # stability: the hash of an object does not change while its equality class does not; eq-hash never changes
    muts = [("(list 1 2)", "(set-car! x 9)"), ("(vector 1 2)", "(vector-set! x 0 9)"), ("(box 1)", "(set-box! x 9)"), ("(string #\\a #\\b)", "(string-set! x 0 #\\z)"), ("(make-hashtable)", "(hashtable-set! x 1 2)")]
    c.law("eq-hash is stable under mutation", ["(let-values ([(x) %s]) (let-values ([(h) (eq-hash x)]) (begin %s (make-vector 1000 0) (= h (eq-hash x)))))" % t for t in muts], lambda r: (r.k, r.v) == ("V", "#t") or "changed")
    # size families: long and deep structures
    fam = []
    for n in list(range(0, c.q(40, 200))) + [500, 1000]:
        for mk in ("(iota %d)", "(list->vector (iota %d))", "(make-string %d #\\k)", "(make-list %d \"s\")", "(map box (iota %d))", "(map list (iota %d))"):
            e = mk % n
            fam.append("(let-values ([(x) %s] [(y) %s]) (list (equal? x y) (= (equal-hash x) (equal-hash y)) (equal? x %s)))" % (e, e, mk % (n + 1)))
        fam.append("(let-values ([(f) (lambda () (letrec-values ([(go) (lambda (k a) (if (= k 0) a (go (sub1 k) (%s a))))]) (go %d 'z)))]) (list (equal? (f) (f)) (= (equal-hash (f)) (equal-hash (f))) (equal? (f) 'z)))" % ("list" if n % 2 else "box", n))
    exp = [("V", "(#t #t %s)" % ("#t" if ("go %d" % 0) in p and "(go 0 'z)" in p else "#f"), "") for p in fam]
    c.diff("sizes", fam, expect=exp)

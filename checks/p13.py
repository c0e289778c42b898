"""P13: records: construction, access, mutation, inheritance, opacity and custom printing over every small type hierarchy."""
import itertools
from mc.gen import histories
from p06 import H

HN = H.replace("(exn-who e) ", "")  # procedures made at run time have no specified name


def rtd(name, parent, sealed, opaque, fields):
    return "(make-record-type-descriptor '%s %s #f %s %s (vector %s))" % (name, parent, sealed, opaque, " ".join("'(%s %s)" % f for f in fields))


def hierarchies():
    """Up to three types in a chain; every field count and flag combination."""
    fl = [[], [("mutable", "x")], [("immutable", "x"), ("mutable", "y")], [("mutable", "x"), ("immutable", "y"), ("mutable", "z")]]
    flags = [("#f", "#f"), ("#t", "#f"), ("#f", "#t"), ("#t", "#t")]
    for f0 in fl:
        for s0, o0 in flags:
            yield [(f0, s0, o0)]
            for f1 in fl[:3]:
                for s1, o1 in flags:
                    yield [(f0, s0, o0), (f1, s1, o1)]
                    if s0 == "#f" and s1 == "#f":
                        for f2 in fl[:2]:
                            for o2 in ("#f", "#t"):
                                yield [(f0, s0, o0), (f1, s1, o1), (f2, "#f", o2)]


def run(c):
    ps = []
    for h in hierarchies():
        defs, n = "", 0
        names = "ABC"
        for i, (f, s, o) in enumerate(h):
            defs += "(define-values (%s) %s) " % (names[i], rtd("t" + names[i].lower(), names[i - 1] if i else "#f", s, o, f))
            n += len(f)
        top = names[len(h) - 1]
        make = "((record-constructor %s) %s)" % (top, " ".join(str(100 + i) for i in range(n)))
        obs = []
        for i, (f, s, o) in enumerate(h):
            obs.append("((record-predicate %s) r)" % names[i])
            obs += ["((record-accessor %s %d) r)" % (names[i], j) for j in range(len(f))]
            obs += ["(record-type-name %s) (eq? (record-type-parent %s) %s) (record-type-field-names %s) (record-type-sealed? %s) (record-type-opaque? %s) (record-type-uid %s)" % (names[i], names[i], names[i - 1] if i else "#f", names[i], names[i], names[i], names[i])]
            obs += ["(record-type-field-mutable? %s %d)" % (names[i], j) for j in range(len(f))]
        # all accessors, then every mutation in turn with everything read again
        rd = " ".join("((record-accessor %s %d) r)" % (names[i], j) for i, (f, s, o) in enumerate(h) for j in range(len(f)))
        muts = ["((record-mutator %s %d) r 'new%d%d)" % (names[i], j, i, j) for i, (f, s, o) in enumerate(h) for j in range(len(f)) if f[j][0] == "mutable"]
        prog = defs + "(define-values (r q) (values %s %s)) (write (list %s (record? r) (eq? r q) (equal? r q))) " % (make, make, " ".join(obs))
        for m in muts:
            prog += m + " (write (list %s)) " % rd
        prog += "(write ((lambda (r) (list %s)) q)) (write r) (display (list r)) (write %s) ((record-predicate %s) %s)" % (rd, top, top, top)
        ps.append(prog)
        ps.append(defs + "(record-rtd %s)" % make)
        for k in (n - 1, n + 1):
            if k >= 0:
                ps.append(defs + "((record-constructor %s) %s)" % (top, " ".join("1" for i in range(k))))
        for i in range(len(h)):
            ps.append(defs + "(record-accessor %s %d)" % (names[i], len(h[i][0])))
            ps.append(defs + "(record-mutator %s %d)" % (names[i], len(h[i][0])))
            ps.append(defs + "((record-accessor %s 0) 5)" % names[i])
            if i:
                pm = "((record-constructor %s) %s)" % (names[i - 1], " ".join(str(j) for j in range(sum(len(h[k][0]) for k in range(i)))))
                ps.append(defs + "(list ((record-predicate %s) %s) ((record-predicate %s) %s))" % (names[i], pm, names[i - 1], pm))
                if h[i][0]:
                    ps.append(defs + "((record-accessor %s 0) %s)" % (names[i], pm))
                    ps.append(defs + "((record-mutator %s 0) %s 1)" % (names[i], pm))
    c.diff("every small hierarchy", ps)
    c.diff("every small hierarchy, errors as seen by a handler", [HN + p for p in ps if "record-rtd" in p or p.count("(write") == 0])
    # mutation histories over two instances of a hierarchy
    init = ("(define-values (A) %s) (define-values (B) %s) (define-values (a b) (values ((record-constructor A) 1 2) ((record-constructor B) 3 4 5))) (define-values (ax ay bz) (values (record-accessor A 0) (record-accessor A 1) (record-accessor B 0))) (define-values (ax! ay! bz!) (values (record-mutator A 0) (record-mutator A 1) (record-mutator B 0))) "
            "(define-values (o) (lambda () (begin (write (list ((record-predicate B) a) (ax a) (ay a) (ax b) (ay b) (if ((record-predicate B) b) (bz b) 'none) (eq? a b) (equal? a b) a b)) (newline)))) " % (rtd("ta", "#f", "#f", "#f", [("mutable", "x"), ("mutable", "y")]), rtd("tb", "A", "#f", "#f", [("mutable", "z")])))
    ops = ["(ax! a 10)", "(ay! a (ax b))", "(ax! b 11)", "(ay! b 12)", "(bz! b 13)", "(set! a b)", "(set! b ((record-constructor B) (ax a) (ay a) 9))", "(set! a ((record-constructor A) (ay b) (ax b)))", "(ax! a (list (ay a)))", "(record-writer A (lambda (r p d w) (d (ax r) p)))",
           "(record-writer B (lambda (r p d w) (w (list 'b (bz r)) p)))", "(record-type-equal-procedure A (lambda (p q eq) (eq (ax p) (ax q))))", "(default-record-equal-procedure (lambda (p q eq) (eq (ay p) (ay q))))"]
    c.diff("histories", histories(init, ops, "(o)", c.q(3, 4)))
    # what a descriptor is made from and what it gives out belong to the caller
    init = ("(define-values (fv) (vector '(mutable x) '(immutable y))) (define-values (A) (make-record-type-descriptor 'a #f #f #f #f fv)) (define-values (B) (make-record-type-descriptor 'b A #f #f #f fv)) "
            "(define-values (n m) (values (record-type-field-names A) (record-type-field-names B))) (define-values (r) ((record-constructor B) 1 2 3 4)) "
            "(define-values (o) (lambda () (begin (write (list fv n m (record-type-field-names A) (record-type-field-names B) (record-type-field-mutable? A 0) (record-type-field-mutable? A 1) (record-type-field-mutable? B 0) (record-type-field-mutable? B 1) "
            "((record-accessor A 0) r) ((record-accessor A 1) r) ((record-accessor B 0) r) ((record-accessor B 1) r))) (newline)))) ")
    ops = ["(vector-set! fv 0 '(immutable z))", "(vector-set! fv 1 '(mutable w))", "(vector-set! n 0 'p)", "(vector-fill! m 'q)", "(set! n (record-type-field-names B))", "(set! m (record-type-field-names A))", "((record-mutator A 0) r 'new)",
           "(set! B (make-record-type-descriptor 'c A #f #f #f fv))", "(set! r ((record-constructor B) 5 6 7 8))", "(let-values ([(f) (record-mutator B 0)]) (f r 'newer))"]
    c.diff("descriptors and vectors of fields", histories(init, ops, "(o)", c.q(3, 4)))
    # descriptors: every argument position with every kind of value
    good = ["'n", "#f", "#f", "#f", "#f", "(vector '(immutable x))"]
    vals = ["5", "'s", '"s"', "#t", "#f", "'()", "(vector)", "(vector 'x)", "(vector '(mutable))", "(vector '(mutable x) '(mutable x))", "(vector '(mutable x) '(immutable y))", "(vector '(other x))", "(vector '(mutable 1))", "(vector '(mutable x y))", "(list '(mutable x))", "car",
            rtd("p", "#f", "#f", "#f", [("mutable", "q")]), rtd("p", "#f", "#t", "#f", []), "((record-constructor %s) 1)" % rtd("p", "#f", "#f", "#f", [("mutable", "q")])]
    ps = []
    for i in range(6):
        for v in vals:
            a = list(good)
            a[i] = v
            ps.append("(let-values ([(r) (make-record-type-descriptor %s)]) (list r (record-type-name r) (record-type-field-names r) (record-type-uid r) (record-type-sealed? r) (record-type-opaque? r) (record? r) (record-type-descriptor? r)))" % " ".join(a))
    for v in vals + ["(record-rtd ((record-constructor %s) 1))" % rtd("p", "#f", "#f", "#f", [("mutable", "q")])]:
        for f in ("record-type-name", "record-type-parent", "record-type-uid", "record-type-sealed?", "record-type-opaque?", "record-type-field-names", "record-constructor", "record-predicate", "record?", "record-rtd", "record-type-descriptor?", "record-type-equal-procedure", "record-type-hash-procedure", "record-writer"):
            ps.append("(%s %s)" % (f, v))
        for f in ("record-accessor", "record-mutator", "record-type-field-mutable?"):
            for i in ("0", "1", "-1", "'a", "4294967296"):
                ps.append("(%s %s %s)" % (f, v, i))
        for f in ("record-type-equal-procedure", "record-type-hash-procedure", "record-writer"):
            ps += ["(%s %s car)" % (f, v), "(%s %s 5)" % (f, v)]
    c.diff("descriptor arguments", ps + [H + p for p in ps])
    # field counts
    ps = []
    for n in list(range(0, c.q(24, 70))) + [100, 128]:
        for m in sorted({0, 1, n}):
            f = [("mutable", "f%d" % i) for i in range(n)]
            g = [("mutable", "g%d" % i) for i in range(m)]
            d = "(define-values (A) %s) (define-values (B) %s) (define-values (r) ((record-constructor B) %s)) " % (rtd("a", "#f", "#f", "#f", f), rtd("b", "A", "#f", "#f", g), " ".join(str(i) for i in range(n + m)))
            rd = " ".join(["((record-accessor A %d) r)" % i for i in range(n)] + ["((record-accessor B %d) r)" % i for i in range(m)])
            w = " ".join(["((record-mutator A %d) r %d)" % (i, 1000 + i) for i in range(n)] + ["((record-mutator B %d) r %d)" % (i, 2000 + i) for i in range(m)])
            ps.append(d + "(write (list %s)) %s (list %s)" % (rd, w or "1", rd))
    c.diff("field counts", ps)
    # depth of inheritance
    ps = []
    for d in range(1, c.q(12, 30)):
        t = "(define-values (t0) %s) " % rtd("t0", "#f", "#f", "#f", [("mutable", "f")])
        for i in range(1, d):
            t += "(define-values (t%d) %s) " % (i, rtd("t%d" % i, "t%d" % (i - 1), "#f", "#f", [("mutable", "f")]))
        t += "(define-values (r) ((record-constructor t%d) %s)) " % (d - 1, " ".join(str(i) for i in range(d)))
        rd = "(list %s)" % " ".join("((record-accessor t%d 0) r)" % i for i in range(d))
        for k in range(d):
            ps.append(t + "((record-mutator t%d 0) r 'new) (list %s ((record-predicate t%d) r) (eq? (record-rtd r) t%d))" % (k, rd, k, d - 1))
        ps.append(t + "(record-writer t0 (lambda (r p d w) (d \"W\" p))) (write r) (define-values (u) %s) (write ((record-constructor u) %s)) (record-writer t%d (lambda (r p d w) (d \"V\" p))) (write r)" % (rtd("u", "t%d" % (d - 1), "#f", "#f", []), " ".join("1" for i in range(d)), d - 1))
    c.diff("depth of inheritance", ps)

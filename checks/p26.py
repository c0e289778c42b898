"""P26: define-record-type and generic interfaces: every small declaration against the record procedures it stands for."""
import itertools
from mc import lib, ref
from mc.lib import sexprs
from mc.ref import NIL, Pair, S, StaticError, Str, Sym, Unspecified, Values, VOID, lst, parse_all, text, unl


# ---------------------------------------------------------------- the declaration in core forms
def render(x):
    return text(x, False)


def declare(x):
    """The definitions (as text) that (define-record-type ...) stands for; StaticError when malformed."""
    xs = unl(x)
    if xs is None or len(xs) < 2:
        raise StaticError("shape")
    if type(xs[1]) is Sym:
        name, mk, pred = xs[1].n, "make-" + xs[1].n, xs[1].n + "?"
    else:
        t = unl(xs[1])
        if t is None or len(t) != 3 or any(type(i) is not Sym for i in t):
            raise StaticError("name")
        name, mk, pred = [i.n for i in t]
    seen, parent, uid, sealed, opaque, proto, fields, meths = set(), "#f", "#f", "#f", "#f", None, [], {}
    for cl in xs[2:]:
        c = unl(cl)
        if not c or type(c[0]) is not Sym:
            raise StaticError("clause")
        k = c[0].n
        if k == "methods":
            if len(c) < 2 or type(c[1]) is not Sym or c[1].n in meths:
                raise StaticError("methods")
            meths[c[1].n] = [render(e) for e in c[2:]]
            continue
        if k not in ("parent", "uid", "sealed", "opaque", "protocol", "fields") or k in seen:
            raise StaticError("clause")
        seen.add(k)
        if k == "fields":
            for s in c[1:]:
                if type(s) is Sym:
                    fields.append(("immutable", s.n, "%s-%s" % (name, s.n), None))
                    continue
                f = unl(s)
                if not f or any(type(i) is not Sym for i in f) or f[0].n not in ("immutable", "mutable") or len(f) not in ((2, 3) if f[0].n == "immutable" else (2, 4)):
                    raise StaticError("field")
                acc = f[2].n if len(f) > 2 else "%s-%s" % (name, f[1].n)
                mut = None if f[0].n == "immutable" else f[3].n if len(f) > 2 else "%s-%s-set!" % (name, f[1].n)
                fields.append((f[0].n, f[1].n, acc, mut))
            continue
        if len(c) != 2:
            raise StaticError(k)
        e = render(c[1])
        if k in ("sealed", "opaque") and c[1] is not True and c[1] is not False:
            raise StaticError(k)
        if k == "parent":
            parent = e
        elif k == "uid":
            uid = e
        elif k == "sealed":
            sealed = e
        elif k == "opaque":
            opaque = e
        elif c[1] is False:
            raise Unspecified("#f for a protocol")
        else:
            proto = e
    ids = [name, mk, pred] + [f[2] for f in fields] + [f[3] for f in fields if f[3]]
    if len(set(ids)) != len(ids) or any(i in lib.RESERVED for i in ids):
        raise Unspecified("one name defined twice, or a name of a form")
    out = ["(define-values (%s) (let-values ([(p) %s]) (if (if p (record-type-sealed? p) #f) (error 'sealed \"\") (make-record-type-descriptor '%s p %s %s %s (vector%s)))))"
           % (name, parent, name, uid, sealed, opaque, "".join(" '(%s %s)" % f[:2] for f in fields))]
    for g, fs in meths.items():
        ar = {"gen:equal+hash": (3, 2), "gen:custom-write": (3,)}.get(g)
        if ar is None:
            raise Unspecified("another generic interface")
        if len(fs) != len(ar):
            raise StaticError("methods")
        for f, n, p in zip(fs, ar, ["record-type-equal-procedure", "record-type-hash-procedure"] if len(ar) == 2 else ["record-writer"]):
            out.append("(let-values ([(f) %s]) (if (equal? (procedure-arity f) %d) (%s %s f) (error 'arity \"\")))" % (f, n, p, name))
    out.append("(define-values (%s) %s)" % (mk, "(%s (record-constructor %s))" % (proto, name) if proto else "(record-constructor %s)" % name))
    out.append("(define-values (%s) (record-predicate %s))" % (pred, name))
    for i, f in enumerate(fields):
        out.append("(define-values (%s) (record-accessor %s %d))" % (f[2], name, i))
        if f[3]:
            out.append("(define-values (%s) (record-mutator %s %d))" % (f[3], name, i))
    return out


class M(lib.LibMachine):
    """The module language with record declarations."""

    def eval_repl(self, x):
        if type(x) is Pair and x.a is S("define-record-type"):
            ids = []
            ds = [parse_all(t)[0] for t in declare(x)]
            for d in ds:            # the whole declaration is checked before any of it runs
                if d.a is lib.DEFVALS:
                    ids.append(d.d.a.a)
            fresh = [i for i in ids if self.tenv.d.get(i.n) is None]
            for i in fresh:
                self.tenv.d[i.n] = [lib.PENDING]
            for d in ds:
                self.comp(unl(d)[2] if d.a is lib.DEFVALS else d, [], False)
            for i in fresh:
                del self.tenv.d[i.n]
            for d in ds:
                lib.LibMachine.eval_repl(self, d)
            return VOID
        return lib.LibMachine.eval_repl(self, x)

    def body(self, xs, scope, tail):
        out = []
        for x in xs:
            if type(x) is Pair and x.a is S("define-record-type"):
                out += [parse_all(t)[0] for t in declare(x)]
            else:
                out.append(x)
        return lib.LibMachine.body(self, out, scope, tail)


def counted(program, fuel=20000):
    m = M(fuel)
    try:
        k, v = m.repl(program)
    except Unspecified as u:
        return None, str(u), fuel - m.fuel
    return (k, v, m.stdout()), None, fuel - m.fuel


# ---------------------------------------------------------------- spaces
CATCH = "(define old (current-error-handler)) (define (try f) (current-error-handler (lambda (e) 'caught)) (let ([v (f)]) (current-error-handler old) v))"
FORMS = {"i3": "(immutable {0} get-{0})", "m4": "(mutable {0} get-{0} put-{0}!)", "i2": "(immutable {0})", "m2": "(mutable {0})", "id": "{0}"}
PARENTS = {"": ("", 0, []), "P": ("(define-record-type P) ", 0, []), "P2": ("(define-record-type P (fields (mutable x) y)) ", 2, ["P-x", "P-y"])}


def accs(fl, name):
    return ["get-%s" % n if k in ("i3", "m4") else "%s-%s" % (name, n) for k, n in fl]


def muts(fl, name):
    return ["put-%s!" % n if k == "m4" else "%s-%s-set!" % (name, n) for k, n in fl if k in ("m4", "m2")]


def fields(maxn):
    for n in range(maxn + 1):
        for ks in itertools.product(FORMS, repeat=n):
            fl = list(zip(ks, "abcd"))
            spec = "(fields%s)" % "".join(" " + FORMS[k].format(nm) for k, nm in fl)
            for pn, (pdef, pk, pacc) in PARENTS.items():
                for long in (False, True) if n < 3 else (len(set(ks)) == n,):
                    head = "(q mk is-q?)" if long else "q"
                    mk, isq = ("mk", "is-q?") if long else ("make-q", "q?")
                    d = pdef + "(define-record-type %s %s%s)" % (head, "(parent P) " if pn else "", spec)
                    k = pk + n
                    A = pacc + accs(fl, "q")
                    read = "(list %s)" % " ".join("(%s r)" % a for a in A)
                    mu = (["P-x-set!"] if pk else []) + muts(fl, "q")
                    base = d + " (define r (%s %s)) (define r2 (%s %s)) " % (mk, " ".join(map(str, range(1, k + 1))), mk, " ".join(map(str, range(11, k + 11))))
                    obs = ["(%s r)" % isq, "(%s q)" % isq, "(%s 5)" % isq, "(record? r)", "(eq? (record-rtd r) q)", "(record-type-name q)", "(record-type-field-names q)", "(record-type-uid q)", "(record-type-sealed? q)", "(record-type-opaque? q)",
                           "(eq? (record-type-parent q) %s)" % ("P" if pn else "#f"), "(equal? r r2)"] + ["(record-type-field-mutable? q %d)" % i for i in range(n)]
                    if pn:
                        pm = "(make-P%s)" % " 7 8"[:2 * pk]
                        obs += ["(P? r)", "(P? %s)" % pm, "(%s %s)" % (isq, pm), "(map record? (list q P))"]
                    yield base + "(list %s) " % " ".join(obs) + read + " (list %s)" % " ".join("(%s r2)" % a for a in A) + "".join(" (%s r '%s) %s %s" % (m, "new", read, read.replace(" r)", " r2)")) for m in mu) + " r"
                    if long:
                        continue
                    if n == maxn and pn == "P":
                        continue
                    for j in {max(k - 1, 0), k, k + 1}:
                        yield d + " (%s %s)" % (mk, " ".join(map(str, range(j))))
                    bad = ["5", "q"] + ([pm] if pn else []) + (["(make-o 1 2 3)"] if n else [])
                    cs = ["(%s %s)" % (a, b) for a in accs(fl, "q") for b in bad] + ["(%s %s 1)" % (a, b) for a in muts(fl, "q") for b in bad]
                    if cs:
                        yield d + " (define-record-type o (fields a b c)) " + CATCH + " (define p2 (make-q%s))" % (" 0" * k) + "".join(" (try (lambda () %s))" % x for x in cs)
                    for x in cs[:2]:
                        yield d + " (define-record-type o (fields a b c)) " + x


CL = {"parent": "(parent P)", "uid": "(uid 'u)", "sealed": "(sealed #t)", "unsealed": "(sealed #f)", "opaque": "(opaque #t)", "protocol": "(protocol (lambda (c) (lambda args (begin (display args) (apply c (cons 0 args))))))",
      "fields": "(fields (mutable a) b)", "eq": "(methods gen:equal+hash (lambda (x y =?) (=? (q-v x) (q-v y))) (lambda (x h) (h (q-v x))))", "write": "(methods gen:custom-write (lambda (v port m) (fprintf port \"<~a>\" (q-v v))))"}


def clauses(maxn):
    """Every ordered choice of clauses, and what the type then does."""
    for n in range(maxn + 1):
        for ks in itertools.permutations(CL, n):
            if "sealed" in ks and "unsealed" in ks:
                continue
            d = "(define-record-type P (fields v)) (define (q-v x) (if (P? x) (P-v x) 9)) (define-record-type q %s)" % " ".join(CL[k] for k in ks)
            nf = ("fields" in ks) * 2 + ("parent" in ks) - ("protocol" in ks)
            mk = lambda v: "(make-q%s)" % "".join(" " + str(i) for i in ([v] * nf if nf > 0 else []))
            s = d + " (list (record-type-name q) (record-type-uid q) (record-type-sealed? q) (record-type-opaque? q) (record-type-field-names q) (record-type-parent q))"
            yield s + " (define-values (a b c) (values %s %s %s)) (list (q? a) (record? a) (P? a) (equal? a b) (equal? a c) (equal? (list a) (vector a)) (equal? (list a 1) (list b 1)))" % (mk(1), mk(1), mk(2)) + \
                " (list a \"s\") (format \"~s ~a\" b (box c)) (define h (make-hashtable)) (hashtable-set! h a 'one) (list (hashtable-ref h a 'no) (hashtable-ref h b 'no) (hashtable-ref h c 'no))"
            yield d + " (define-record-type r (parent q) (fields w)) (r? 5) (record-type-parent r)"
            if nf >= 0:
                yield d + " (make-q%s)" % (" 1" * (nf + 1))
            if "fields" in ks:
                yield d + " (define a %s) (begin (q-a-set! a 'z) (list (q-a a) (q-b a)))" % mk(4)


def duplicates():
    one = ["parent", "uid", "sealed", "opaque", "protocol", "fields", "eq", "write"]
    for k in one:
        for other in [None] + one:
            if other == k:
                continue
            o = [] if other is None else [CL[other]]
            for cs in {(CL[k], CL[k]), tuple([CL[k]] + o + [CL[k]]), tuple(o + [CL[k], CL[k]]), tuple([CL[k], CL[k]] + o)}:
                yield "(define-record-type P (fields v)) (define-record-type q %s)" % " ".join(cs)


def shapes(n):
    """Every small thing in each place of a declaration."""
    at = ["x", "1", "immutable", "mutable"]
    upto = lambda k, at: [s for i in range(1, k + 1) for s in sexprs(i, at)]
    for s in upto(n + 1, at):
        yield "(fields %s)" % s
    for s, t in itertools.product(upto(n - 1, at), ["y", "(immutable y)", "(mutable y gy sy)", "2", "()"]):
        yield "(fields %s %s)" % (s, t)
        yield "(fields %s %s)" % (t, s)
    for h in ("parent", "uid", "sealed", "opaque", "protocol", "methods"):
        for k in range(3):
            for fill in itertools.product(upto(2, ["x", "1", "#f", "#t", "\"s\"", "'x"]), repeat=k):
                yield "(%s)" % " ".join((h,) + fill)
        yield "(%s . #t)" % h
    for s in upto(3, ["x", "1", "field", "#f", "\"fields\""]):
        yield s


def malformed(n):
    small = set(shapes(n - 1))
    for s in dict.fromkeys(shapes(n)):
        for t in ("{}", "(opaque #t) {}", "{} (opaque #t)") if s in small and len(s) < 16 else ("{}",):
            yield "(define-record-type q %s)" % t.format(s) + " (record-type-field-names q)"
    for s in [s for i in range(1, n + 2) for s in sexprs(i, ["x", "y", "z", "1"])]:
        yield "(define-record-type %s)" % s
        yield "(define-record-type %s (fields w))" % s


OPS = ["(define-record-type q (fields a))", "(define-record-type q (parent q) (fields b))", "(define-record-type r (parent q) (fields a))", "(define-record-type (q mk r?) (fields (mutable a)))",
       "(define r (make-q 1))", "(define r (make-q 1 2))", "(define r (make-r 3 4))", "(list (q? r) (r? r))", "(q-a r)", "(record-type-field-names (record-rtd r))"]


def histories(n):
    """Declarations made, replaced and used at the REPL."""
    for k in range(1, n + 1):
        for h in itertools.product(OPS[1:], repeat=k):
            if not any(x.startswith("(define-record") for x in h[1:]):
                continue
            yield "(define-record-type q (fields a)) (define-record-type r (fields)) (define r 'none) " .replace("(define-record-type r (fields)) (define r 'none)", "(define-record-type s (fields)) (define r? s?) (define make-r make-s) (define r (make-s))") + " ".join(h)


def local():
    D = ["(define-record-type q (fields a))", "(define-record-type q (fields b (mutable a)))", "(define-record-type (q mk q?) (parent P) (fields a))", "(define-record-type q (protocol (lambda (c) (lambda () (c k)))) (fields a))"]
    U = ["(make-q 1)", "(q-a (make-q 1))", "(q-a (make-q 1 2))", "(let ([r (make-q 1 2)]) (q-a-set! r 5) (q-a r))", "(q-a (mk 1 2))", "(q-a (make-q))", "(q? (make-q))", "(list (q? 1) (record-type-name q))", "(lambda (x) (q? x))"]
    W = ["(let () {} {})", "((lambda (k) {} {}) 7)", "(let ([k 3]) (define z 1) {} (define w 2) {})", "(let ([k 3]) {} (define (f) {}) (f))", "(let ([q 5] [k 4]) {} {})", "(let ([k 1]) (let () {} {}))"]
    for a, w, u in itertools.product(D, W, U):
        yield "(define-record-type P (fields v)) (define k 9) " + w.format(a, u)
        for b in D:
            yield "(define-record-type P (fields v)) (define k 9) " + b + " " + w.format(a, u) + " " + u


# ---------------------------------------------------------------- generic interfaces
FORMALS = ["()", "(a)", "(a b)", "(a b c)", "xs", "(a . xs)", "(a b . xs)"]


def arity(f):
    x = parse_all(f)[0]
    n = 0
    while type(x) is Pair:
        n, x = n + 1, x.d
    return (n, x is NIL)


def gen_arity():
    """Every implementation against every declared method."""
    out, exp = [], []
    for k in (0, 1, 2):
        for fs in itertools.product(FORMALS, repeat=k):
            g = "(define-generics g%s)" % "".join(" [m%d%s]" % (i, (" " + f[1:-1] if f != "()" else "") if f[0] == "(" else " . " + f) for i, f in enumerate(fs))
            for j in range(0, 3):
                for ls in itertools.product(FORMALS if k < 2 else FORMALS[1:6:2] + ["()"], repeat=j):
                    okay = j == k and all(arity(a) == arity(b) for a, b in zip(fs, ls))
                    p = "(define-record-type q (methods gen:g %s)) " % " ".join("(lambda %s 'ok%d)" % (l, i) for i, l in enumerate(ls))
                    p2 = "(define-record-type q) (record-type-add-generic! q gen:g (list %s)) " % " ".join("(lambda %s 'ok%d)" % (l, i) for i, l in enumerate(ls))
                    acc = "".join(" ((generics-accessor gen:g 'm%d) q)" % i for i in range(k))
                    use = "(if (gen:g? q) 'yes 'no) (list%s)" % "".join(" (((generics-accessor gen:g 'm%d) q)%s)" % (i, " 0" * arity(f)[0]) for i, f in enumerate(fs))
                    for q, pr in ((p, 1), (p2, 2)):
                        out.append(g + " " + q + use)
                        exp.append(("V", "", "> " * (pr + 1) + "yes\n> (%s)\n> " % " ".join("ok%d" % i for i in range(k))) if okay else ("E", "D", "> " * pr))
    return out, exp


def gen_histories(n):
    """Interfaces given to types in every order, and asked for after each step."""
    ops = [("add", t, g, v) for t in "qr" for g in "gh" for v in (1, 2)] + [("newq",), ("newg",)]
    out, exp = [], []
    for k in range(1, n + 1):
        for h in itertools.product(ops, repeat=k):
            p = "(define-generics g [m a]) (define-generics h [m a] [k]) (define-record-type q) (define-record-type r (parent q)) (define g0 gen:g) "
            o = "> " * 5
            st, ids, gid = {}, {"q": 0, "r": 1}, {"g": 0, "h": 1}
            nid = 2
            for op in h:
                if op[0] == "add":
                    _, t, g, v = op
                    fs = "(lambda (a) (list %d a))" % v + (" (lambda () '%s%d)" % (t, v) if g == "h" else "")
                    p += "(record-type-add-generic! %s gen:%s (list %s)) " % (t, g, fs)
                    st[(ids[t], gid[g])] = v
                elif op[0] == "newq":
                    p += "(define-record-type q) "
                    ids["q"] = nid
                    nid += 1
                else:
                    p += "(define-generics g [m a]) "
                    gid["g"] = nid
                    nid += 1
                o += "> "
                gs = [("gen:g", gid["g"]), ("gen:h", gid["h"]), ("g0", 0)]
                obs = []
                for t in "qr":
                    obs += [str(st.get((ids[t], i), "-")) for _, i in gs]
                p += "(list %s) " % " ".join("(let ([t %s]) (if ((generic-instance? %s) t) (car (((generics-accessor %s 'm) t) 0)) '-))" % (t, e, e) for t in "qr" for e, _ in gs)
                o += "(%s)\n> " % " ".join(obs)
            p += "(list (if (gen:h? r) (((generics-accessor gen:h 'k) r)) 'none) (gen:g? 5) (gen:g? gen:g))"
            o += "(%s #f #f)\n> " % ("r%d" % st[(1, 1)] if (1, 1) in st else "none")
            out.append(p), exp.append(("V", "", o))
    bad = ["(generics-accessor gen:g 'zz)", "(generics-accessor 5 'm)", "(generics-accessor gen:g \"m\")", "((generics-accessor gen:g 'm) q)", "((generics-accessor gen:g 'm) 5)", "(generic-instance? 5)", "(record-type-add-generic! 5 gen:g (list car))",
           "(record-type-add-generic! q 5 (list car))", "(record-type-add-generic! q gen:g 5)", "(record-type-add-generic! q gen:g (list 5))", "(record-type-add-generic! q gen:g '())", "(record-type-add-generic! q gen:g (list car car))", "(record-type-add-generic! q gen:g (list cons))"]
    for b in bad:
        out.append("(define-generics g [m a]) (define-record-type q) (display 1) %s (display 2)" % b), exp.append(("E", "D", "> > 1> "))
    return out, exp


def gen_shapes(n):
    """Malformed interface declarations."""
    out, exp = [], []
    at = ["x", "1", "\"s\""]
    U = [s for i in range(1, n + 1) for s in sexprs(i, at)]

    def method(x):
        if type(x) is not Pair or type(x.a) is not Sym:
            return False
        x = x.d
        seen = []
        while type(x) is Pair:
            if type(x.a) is not Sym:
                return False
            x = x.d
        return x is NIL or type(x) is Sym
    U += ["(x . %s)" % a for a in at] + ["(x x . 1)", "(x . #t)", "#(x)", "(x #t)", "(x #\\a)"]
    for s in U:
        for t in ("(define-generics %s [m])", "(define-generics %s)"):
            ok = s == "x"
            out.append(t % s + " (procedure? gen:%s?)" % "x"), exp.append(("V", "", "> #t\n> ") if ok else ("E", "D", ""))
        for t in ("(define-generics g %s)", "(define-generics g [m0 a] %s)", "(define-generics g %s [m0 a])"):
            out.append(t % s + " (procedure? gen:g?)"), exp.append(("V", "", "> #t\n> ") if method(parse_all(s)[0]) else ("E", "D", ""))
    return out, exp


def run(c):
    qs, names = [], {}
    for name, g in (("fields", fields(c.q(3, 4))), ("clauses", clauses(c.q(3, 4))), ("duplicate clauses", duplicates()), ("shapes", malformed(c.q(3, 4))), ("histories", histories(c.q(3, 4))), ("local", local())):
        g = list(dict.fromkeys(g))
        names[name] = len(g)
        qs += g
    lib.diff(c, "record declarations: " + ", ".join("%s %d" % x for x in names.items()), qs, runner=counted)
    for name, (ps, ex) in (("methods and arities", gen_arity()), ("interface histories", gen_histories(c.q(3, 4))), ("interface shapes", gen_shapes(c.q(4, 5)))):
        lib.diff(c, name, ps, expect=ex, agree=agree)


def agree(e, r):
    """Errors here may be found before or while running."""
    if e[0] == "E":
        return r.k == "E" and r.v == "1" and r.out == e[2]
    return r.k == "V" and r.out == e[2]

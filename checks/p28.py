"""P28: syntax objects wrap and unwrap data exactly: reachable values of every chain of conversions, against the reference."""
import itertools
from mc import lib, ref
from mc.check import pmap
from checks.p27 import batch
from mc.ref import S, Prim, Vec, Pair, unl

DATA = ["5", "a", '"s"', "#\\c", "#t", "()", "(a)", "(a b)", "(a . b)", "(a b . c)", "(a (b) c)", "((a . b) . (c))", "#()", "#(a)", "#(a (b c))", "#&a", "#&(a b)", "#&#(a)", "(#&a . #(b c))", "((() ()))",
        "(1 . #(2))", "(a b c d e f)", "(quote a)", "(#t #f . #t)"]
OPS = ["(datum->syntax x)", "(syntax-e x)", "(syntax->datum x)", "(syntax->list x)", "(car x)", "(cdr x)", "(list x 'k)", "(cons 'k x)", "(cons x x)", "(vector x 'k)", "(box x)", "(unbox x)", "(vector-ref x 0)", "(vector-ref x 1)",
       "(list (syntax? x) (syntax-loc x))", "(reverse x)", "(list->vector x)", "(vector->list x)", "(append x x)"]




def build(d):
    """Construct a datum from text with #& boxes, by procedures alone."""
    toks, i = [], 0
    import re
    toks = re.findall(r'#\(|#&|#\\.|"[^"]*"|[()]|[^\s()]+', d)

    def rd(i):
        t = toks[i]
        if t == "#&":
            e, i = rd(i + 1)
            return "(box %s)" % e, i
        if t in ("(", "#("):
            xs, i, tail = [], i + 1, "'()"
            while toks[i] != ")":
                if toks[i] == ".":
                    tail, i = rd(i + 1)
                    break
                e, i = rd(i)
                xs.append(e)
            if t == "#(":
                return "(vector %s)" % " ".join(xs), i + 1
            for e in reversed(xs):
                tail = "(cons %s %s)" % (e, tail)
            return tail, i + 1
        return ("'" + t if t[0].isalpha() else t), i + 1
    return rd(0)[0]


def evalref(p):
    return ref.run_counted(p)


def explore(c, q):
    """Breadth first over the values that chains of operations reach; a value is told apart by its full structure."""
    seen, frontier, programs, edges = {}, [], [], 0
    for d in DATA:
        b = build(d)
        frontier += [b, "(datum->syntax %s)" % b] + (["(quote-syntax %s)" % d] if "#&" not in d else [])
    for p in frontier:
        programs.append(p)
    for depth in range(q):
        new = []
        cand = ["(let-values ([(x) %s]) %s)" % (p, o) for p in frontier for o in OPS]
        for p, (e, why, n) in zip(cand, pmap(evalref, cand)):
            edges += 1
            programs.append(p)
            if e is None or e[0] != "V" or len(e[1]) > 90:
                continue
            if e[1] not in seen:
                seen[e[1]] = p
                new.append(p)
        frontier = new
    return programs, len(seen), edges


MUT = ["(set-car! d 'z)", "(set-cdr! d 'z)", "(set-car! u 'y)", "(set-cdr! u 'y)", "(set-car! t 'w)", "(vector-set! d 0 'z)", "(vector-set! u 0 'y)", "(vector-set! t 0 'w)", "(set-box! d 'z)", "(set-box! u 'y)", "(set-box! t 'w)",
       "(set-car! l 'v)", "(set-cdr! l 'v)", "(set-car! (cdr d) 'z2)", "(set-car! (cdr t) 'w2)"]


def sharing(q):
    """What a syntax object and the values taken from it share with the datum it was made of."""
    for d in DATA:
        b = build(d)
        if b[:3] not in ("(co", "(ve", "(bo", "(li"):
            continue
        kind = {"(c": "car", "(v": "vector", "(b": "box"}[b[:2]]
        ms = [m for m in MUT if kind in m or kind == "car" and "cdr" in m]
        for make in (b, ):
            for h in itertools.chain.from_iterable(itertools.product(ms, repeat=k) for k in range(0, q + 1)):
                yield ("(let-values ([(d) %s]) (let-values ([(s) (datum->syntax d)]) (let-values ([(t u l) (values (syntax->datum s) (syntax-e s) (syntax->list s))]) %s "
                       "(list d s t u l (syntax->datum s) (syntax-e s) (eq? u (syntax-e s)) (eq? s (datum->syntax s))))))" % (make, " ".join(h)))


def strings_shared():
    for d in ["a", "(list a a)", "(cons 1 a)", "(vector a 'k a)", "(box a)", "(list (list a))"]:
        yield "(let-values ([(a) (make-string 2 #\\q)]) (let-values ([(s) (datum->syntax %s)]) (let-values ([(t) (syntax->datum s)]) (string-set! a 0 #\\w) (list s t (syntax->datum s)))))" % d
    for v in ["car", "(lambda (x) x)", "(make-eq-hashtable)", "(begin)", "(current-output-port)", "(make-record-type-descriptor 'a #f #f #f #f (vector))", "(eof)", "-1", "123456789012", '""']:
        yield "(let-values ([(v) %s]) (let-values ([(s) (datum->syntax v)]) (list (syntax? s) (syntax? v) (eq? v (syntax-e s)) (eq? v (syntax->datum s)) (syntax->list s) (let-values ([(w) (syntax->datum (datum->syntax (list 1 v (vector v))))]) (list (eq? v (cadr w)) (eq? v (vector-ref (caddr w) 0)))))))" % v
    yield "(begin (define-values (f) (lambda () (quote-syntax (a b)))) (list (eq? (f) (f)) (eq? (syntax-e (f)) (syntax-e (f))) (eq? (syntax->datum (f)) (syntax->datum (f)))))"


BADS = ["5", "'a", '"s"', "'()", "'(a)", "(vector 1)", "#f", "car", "(box (datum->syntax 1))", "(list (datum->syntax 1))"]


def wrong():
    for f in ("syntax-e", "syntax-loc", "syntax->datum", "syntax->list"):
        for b in BADS:
            yield "(%s %s)" % (f, b)
        yield "(%s)" % f
        yield "(%s (datum->syntax 1) 2)" % f
    for f in ("syntax?", "datum->syntax"):
        yield "(%s)" % f
        yield "(%s 1 2)" % f
    for f in ("(quote-syntax)", "(quote-syntax a b)", "(quote-syntax . a)", "(quote-syntax a . b)"):
        yield f


def big():
    for n in list(range(0, 40)) + [63, 64, 65, 127, 128, 129, 255, 256, 257, 1000]:
        mk = "(letrec-values ([(go) (lambda (n acc) (if (= n 0) acc (go (- n 1) %s)))]) (go %d %s))"
        for step, base in (("(cons n acc)", "'()"), ("(cons n acc)", "'t"), ("(list acc)", "'t"), ("(vector acc n)", "'t"), ("(box acc)", "'t"), ("(cons acc n)", "'t"), ("(datum->syntax (cons n acc))", "'()"), ("(datum->syntax acc)", "'t"), ("(cons (datum->syntax n) acc)", "'()"), ("(cons n (datum->syntax acc))", "'()")):
            yield "(let-values ([(d) %s]) (let-values ([(s) (datum->syntax d)]) (let-values ([(l) (syntax->list s)]) (list (equal? d (syntax->datum s)) (if l (length l) 'no) (syntax->datum s) %s))))" % (mk % (step, n, base), "s" if n < 40 else "0")
        yield "(let-values ([(v) (make-vector %d 'q)]) (let-values ([(s) (datum->syntax v)]) (list (vector-length (syntax-e s)) (vector-length (syntax->datum s)) (equal? v (syntax->datum s)))))" % n


# -- the library's views of syntax (library/private/stx.min)
Y = {}
SX = ref.Syntax


def fn(name, k):
    def deco(f):
        Y[name] = Prim(S(name), f, k, k, True)
        return f
    return deco


def e(x):
    return x.e if type(x) is SX else x


fn("identifier?", 1)(lambda m, a: type(a[0]) is SX and type(a[0].e) is ref.Sym)
fn("stx-null?", 1)(lambda m, a: e(a[0]) is ref.NIL)
fn("stx-pair?", 1)(lambda m, a: type(e(a[0])) is Pair)
fn("stx-list?", 1)(lambda m, a: unl(e(a[0])) is not None)
fn("stx-vector?", 1)(lambda m, a: type(e(a[0])) is Vec)


@fn("free-identifier=?", 2)
def _(m, a):
    for x in a:
        if not (type(x) is SX and type(x.e) is ref.Sym):
            return m.argerr("free-identifier=?", "identifier?", x)
    return a[0].e is a[1].e


def part(name, get):
    def f(m, a):
        x = e(a[0])
        return get(x) if type(x) is Pair else m.argerr(name, "?", x)
    fn(name, 1)(f)


part("stx-car", lambda p: p.a)
part("stx-cdr", lambda p: p.d)


@fn("stx-vector-ref", 2)
def _(m, a):
    x = a[0]
    if type(x) is not SX or type(x.e) is not Vec or not ref.is_int(a[1]) or not 0 <= a[1] < len(x.e.v):
        return m.argerr("stx-vector-ref", "?", x)
    return x.e.v[a[1]]


@fn("stx-null/#f", 1)
def _(m, a):
    return ref.NIL if e(a[0]) is ref.NIL else False


@fn("stx->list", 1)
def _(m, a):
    x = a[0]
    if type(x) is SX:
        return x.e if unl(x.e) is not None else False
    l = unl(x)
    return x if l is not None and all(type(y) is SX for y in l) else False


def counted(p, fuel=20000):
    ref.GLOBALS.update(Y)
    return lib.run_counted(p, fuel)


def views(q):
    """Every path of up to q steps into each datum, raw and wrapped, seen by every view."""
    one, out = [], []
    see = "(list (identifier? x) (stx-null? x) (stx-pair? x) (stx-list? x) (stx-vector? x) (stx-null/#f x) (if (stx-list? x) #t #f))"
    for d in DATA:
        if "#&" in d:
            continue
        for base in (build(d), "(datum->syntax %s)" % build(d), "(quote-syntax %s)" % d):
            paths = [base]
            for depth in range(q):
                nxt = []
                for p in paths:
                    for o in ("(stx-car %s)", "(stx-cdr %s)", "(stx-vector-ref %s 0)", "(stx-vector-ref %s 1)"):
                        x = o % p
                        ref.GLOBALS.update(Y)
                        r = lib.run_counted("(define x %s)" % x, 20000)[0]
                        if r is not None and r[0] == "V":
                            nxt.append(x)
                        else:
                            one.append(x)
                paths = nxt
                for x in ([base] if depth == 0 else []) + paths:
                    out.append("(let ([x %s]) %s)" % (x, see))
                    out.append("(let ([x %s]) (let ([l (stx->list x)]) (if l (list 'l (map syntax? l) (map (lambda (y) (if (syntax? y) (syntax->datum y) y)) l)) l)))" % x)
    ids = ["(quote-syntax a)", "(datum->syntax 'a)", "(quote-syntax b)", "(car (syntax-e (quote-syntax (a))))", "'a", "(quote-syntax (a))", "5", "(datum->syntax 5)"]
    for a, b in itertools.product(ids, repeat=2):
        one.append("(free-identifier=? %s %s)" % (a, b))
    return list(batch(out, 10)), one


def agree(x, r):
    if x[0] == "E":
        return r.k == "E" and r.v == "1" and r.out == x[2]
    return r.k == "V" and r.out == x[2]


STXLIB = '(import "library/base.min")\n(import "library/private/stx.min")\n' + lib.PRE + "\n"


def run(c):
    ps, n, edges = explore(c, c.q(3, 5))
    c.extra["reachable_values"] = n
    c.extra["edges"] = edges
    ps = list(dict.fromkeys(ps))
    c.diff("conversions", ps)
    c.diff("shown", ["(let-values ([(x) %s]) (write x) (newline) (display x) (list x (equal? x x)))" % p for p in ps[::1] if len(p) < 160])
    c.diff("sharing", list(sharing(c.q(2, 3))) + list(strings_shared()))
    c.diff("wrong arguments", list(wrong()))
    c.diff("sizes", list(big()))
    out, one = views(c.q(3, 5))
    lib.diff(c, "library views", list(dict.fromkeys(out + one)), text=STXLIB, runner=counted, agree=agree)

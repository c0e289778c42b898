"""P27: the library's lists, sorting, sets, enumerations, promises, strings and paths, over every small input and history."""
import itertools
from mc import lib, ref
from mc.lib import LAMBDA, args as formargs
from mc.ref import NIL, VOID, HT, Pair, Prim, Proc, Rec, Rtd, S, StaticError, Str, Sym, Unspecified, Vec, is_int, lst, mkstr, text, unl

X = {}


def fn(name, lo, hi=-1):
    def deco(f):
        X[name] = Prim(S(name), f, lo, lo if hi == -1 else hi, True)
        return f
    return deco


def fail(m, who):
    return m.argerr(who, "?", False)


def proper(m, who, x):
    l = unl(x)
    if l is None:
        fail(m, who)
    return l


def nat(m, who, n):
    if not is_int(n) or n < 0:
        fail(m, who)
    return n


# -- lists
for i, w in enumerate("first second third fourth fifth sixth seventh eighth ninth tenth".split()):
    def _(m, a, i=i, w=w):
        l = proper(m, w, a[0])
        return l[i] if i < len(l) else fail(m, w)
    fn(w, 1)(_)


@fn("list-ref", 2)
def _(m, a):
    nat(m, "list-ref", a[1])
    x = a[0]
    for i in range(a[1]):
        if type(x) is not Pair:
            return fail(m, "list-ref")
        x = x.d
    return x.a if type(x) is Pair else fail(m, "list-ref")


@fn("list-set", 3)
def _(m, a):
    nat(m, "list-set", a[1])
    l = proper(m, "list-set", a[0])
    if a[1] >= len(l):
        return fail(m, "list-set")
    return lst(l[:a[1]] + [a[2]] + l[a[1] + 1:])


@fn("cons*", 1, None)
def _(m, a):
    return lst(a[:-1], a[-1])


def walk(m, who, x):
    """Elements up to the end; an improper end is an error when it is reached."""
    while type(x) is Pair:
        yield x.a
        x = x.d
    if x is not NIL:
        fail(m, who)


@fn("member", 2)
def _(m, a):
    for e in walk(m, "member", a[1]):
        if ref.equal(m, e, a[0]):
            return e
    return False


@fn("remove", 2)
def _(m, a):
    return lst([e for e in walk(m, "remove", a[1]) if not ref.equal(m, e, a[0])])


@fn("remove*", 2)
def _(m, a):
    ks = proper(m, "remove*", a[0])
    if unl(a[1]) is None and not ks:
        raise Unspecified("remove nothing from something that is not a list")
    return lst([e for e in walk(m, "remove*", a[1]) if not any(ref.equal(m, e, k) for k in ks)])


@fn("filter", 2)
def _(m, a):
    out = []
    for e in walk(m, "filter", a[1]):
        if m.call1(a[0], [e]) is not False:
            out.append(e)
    return lst(out)


@fn("foldl", 3)
def _(m, a):
    acc = a[1]
    for e in walk(m, "foldl", a[2]):
        acc = m.call1(a[0], [acc, e])
    return acc


@fn("foldr", 3)
def _(m, a):
    acc = a[1]
    for e in reversed(list(walk(m, "foldr", a[2]))):
        acc = m.call1(a[0], [acc, e])
    return acc


@fn("assoc", 2)
def _(m, a):
    for e in walk(m, "assoc", a[1]):
        if type(e) is not Pair:
            return fail(m, "assoc")
        if ref.equal(m, a[0], e.a):
            return e
    return False


@fn("index-of", 2)
def _(m, a):
    for i, e in enumerate(walk(m, "index-of", a[1])):
        if ref.equal(m, a[0], e):
            return i
    return False


# -- sorting: stable, on a copy
@fn("sort", 2)
def _(m, a):
    l = list(a[0].v) if type(a[0]) is Vec else proper(m, "sort", a[0])
    out = []
    for e in l:
        i = len(out)
        while i and m.call1(a[1], [e, out[i - 1]]) is not False:
            i -= 1
        out.insert(i, e)
    return Vec(out) if type(a[0]) is Vec else lst(out)


# -- sets
SET, ENUM, PROMISE = [Rtd(S(n), None, False, True, True, []) for n in ("set", "enum-set", "promise")]


def _nowriter(m, a):
    raise Unspecified("order of a printed set")


SET.writer = Prim(S("w"), _nowriter, 3, 3, True)


def mkset(xs, m):
    h = HT(ref.GLOBALS["equal-hash"], ref.GLOBALS["equal?"])
    for x in xs:
        add(m, h, x)
    return Rec(SET, [h])


def add(m, h, x):
    if ref.ht_find(m, h, x) is None:
        h.cells.append([x, False])


def members(s):
    return [k for k, _ in s.v[0].cells]


def has(m, s, x):
    return ref.ht_find(m, s.v[0], x) is not None


SET.eqp = Prim(S("e"), lambda m, a: ref.equal(m, a[0].v[0], a[1].v[0]), 3, 3, True)


def setfn(name, lo, hi=-1, idx=None):
    """A procedure whose arguments at idx (all when None) are sets."""
    def deco(f):
        def g(m, a):
            for i, x in enumerate(a):
                if (idx is None or i in idx) and not ref.isa(x, SET):
                    return fail(m, name)
            return f(m, *a)
        fn(name, lo, hi)(g)
        return f
    return deco


fn("make-set", 0, None)(lambda m, a: mkset(a, m))
fn("set?", 1)(lambda m, a: ref.isa(a[0], SET))
setfn("set-member?", 2, idx=[0])(lambda m, s, x: has(m, s, x))
setfn("set-copy", 1)(lambda m, s: mkset(members(s), m))
setfn("set-empty?", 1)(lambda m, s: not members(s))
setfn("set-count", 1)(lambda m, s: len(members(s)))
setfn("set->list", 1)(lambda m, s: lst(members(s)))
setfn("subset?", 2)(lambda m, s, t: all(has(m, t, x) for x in members(s)))
setfn("proper-subset?", 2)(lambda m, s, t: all(has(m, t, x) for x in members(s)) and len(members(s)) < len(members(t)))
setfn("set=?", 2)(lambda m, s, t: all(has(m, t, x) for x in members(s)) and len(members(s)) == len(members(t)))


@setfn("set-add!", 2, idx=[0])
def _(m, s, x):
    add(m, s.v[0], x)
    return VOID


@setfn("set-remove!", 2, idx=[0])
def _(m, s, x):
    c = ref.ht_find(m, s.v[0], x)
    if c is None:
        raise Unspecified("removing what is not there")
    s.v[0].cells.remove(c)
    return VOID


@setfn("set-clear!", 1)
def _(m, s):
    s.v[0].cells.clear()
    return VOID


setfn("set-map", 2, idx=[1])(lambda m, f, s: lst([m.call1(f, [x]) for x in members(s)]))


@setfn("set-for-each", 2, idx=[1])
def _(m, f, s):
    for x in members(s):
        m.app(f, [x])
    return VOID


setfn("set-union", 0, None)(lambda m, *ss: mkset([x for s in ss for x in members(s)], m))
setfn("set-intersect", 0, None)(lambda m, *ss: mkset([x for x in members(ss[0]) if all(has(m, t, x) for t in ss[1:])] if ss else [], m))
setfn("set-subtract", 1, None)(lambda m, s, *ts: mkset([x for x in members(s) if not any(has(m, t, x) for t in ts)], m))


@setfn("set-symmetric-difference", 1, None)
def _(m, s, *ts):
    out = []
    for t in (s,) + ts:
        for x in members(t):
            hit = [y for y in out if ref.equal(m, x, y)]
            if hit:
                out.remove(hit[0])
            else:
                out.append(x)
    return mkset(out, m)


# -- enumerations: [identity and universe, members in universe order]
def symbols(m, who, x):
    for e in walk(m, who, x):
        if type(e) is not Sym:
            fail(m, who)
    return unl(x)


def enum(univ, xs):
    return Rec(ENUM, [univ, [u for u in univ[0] if u in xs]])


@fn("make-enumeration", 1)
def _(m, a):
    u = symbols(m, "make-enumeration", a[0])
    if len(set(u)) != len(u):
        raise Unspecified("one symbol twice in an enumeration")
    return enum((u, object()), u)


def enumfn(name, n, idx=None):
    def deco(f):
        def g(m, a):
            for i, x in enumerate(a):
                if (idx is None or i in idx) and not ref.isa(x, ENUM):
                    return fail(m, name)
            return f(m, *a)
        fn(name, n)(g)
        return f
    return deco


fn("enum-set?", 1)(lambda m, a: ref.isa(a[0], ENUM))
enumfn("enum-set->list", 1)(lambda m, e: lst(e.v[1]))
enumfn("enum-set-universe", 1)(lambda m, e: enum(e.v[0], e.v[0][0]))
enumfn("enum-set-constructor", 1)(lambda m, e: Prim(S("c"), lambda m, a: enum(e.v[0], symbols(m, "c", a[0])), 1, 1, True))
enumfn("enum-set-member?", 2, idx=[1])(lambda m, x, e: x in e.v[1] if type(x) is Sym else False)
enumfn("enum-set-subset?", 2)(lambda m, d, e: set(d.v[0][0]) <= set(e.v[0][0]) and set(d.v[1]) <= set(e.v[1]))
enumfn("enum-set=?", 2)(lambda m, d, e: set(d.v[0][0]) == set(e.v[0][0]) and set(d.v[1]) == set(e.v[1]))
enumfn("enum-set-complement", 1)(lambda m, e: enum(e.v[0], [u for u in e.v[0][0] if u not in e.v[1]]))
enumfn("enum-set-projection", 2)(lambda m, d, e: enum(e.v[0], d.v[1]))


@enumfn("enum-set-indexer", 1)
def _(m, e):
    def ix(m, a):
        if type(a[0]) is not Sym:
            return fail(m, "indexer")
        return e.v[0][0].index(a[0]) if a[0] in e.v[0][0] else False
    return Prim(S("i"), ix, 1, 1, True)


for nm, op in (("union", lambda x, y: x | y), ("intersect", lambda x, y: x & y), ("difference", lambda x, y: x - y)):
    def _(m, d, e, nm=nm, op=op):
        if d.v[0][1] is not e.v[0][1]:
            return fail(m, nm)
        return enum(d.v[0], op(set(d.v[1]), set(e.v[1])))
    enumfn("enum-set-" + nm, 2)(_)


# -- promises: [procedure, value, has a value]
fn("%delay", 1)(lambda m, a: Rec(PROMISE, [a[0], None, False]))
fn("promise?", 1)(lambda m, a: ref.isa(a[0], PROMISE))


def promise(m, x, who):
    return x if ref.isa(x, PROMISE) else fail(m, who)


fn("promise-forced?", 1)(lambda m, a: promise(m, a[0], "promise-forced?").v[2])


def force(m, p):
    if not p.v[2]:
        v = m.call1(p.v[0], [])
        if not p.v[2]:                  # the first value stays
            p.v[1], p.v[2] = v, True
    return p.v[1]


fn("force", 1)(lambda m, a: force(m, promise(m, a[0], "force")))


@fn("lazy", 1)
def _(m, a):
    p = promise(m, a[0], "lazy")
    seen = 0
    while ref.isa(p, PROMISE):
        p = force(m, p)
        seen += 1
        if seen > 50:
            raise Unspecified("a promise of itself")
    return p


def _wpromise(m, a):
    p = a[0]
    ref.emit(m, a[1], "#<promise")
    if p.v[2]:
        ref.emit(m, a[1], ":")
        ref.put(m, p.v[1], False, a[1])
    ref.emit(m, a[1], ">")
    return VOID


PROMISE.writer = Prim(S("w"), _wpromise, 3, 3, True)


# -- strings and paths
@fn("substring", 3)
def _(m, a):
    s, i, j = a
    if type(s) is not Str or not is_int(i) or not is_int(j) or not 0 <= i <= j <= len(s.s):
        return fail(m, "substring")
    return Str(list(s.s[i:j]))


def chars(s):
    return "".join(map(chr, s.s))


def elems(m, p, who):
    if type(p) is not Str:
        fail(m, who)
    t = chars(p)
    if "//" in t:
        raise Unspecified("empty path element")
    return (["/"] if t[:1] == "/" else []) + [x for x in t.split("/") if x]


def join(parts):
    out = parts[0]
    for x in parts[1:]:
        if x:
            out += ("" if out.endswith("/") else "/") + x
    return out


fn("path->list", 1)(lambda m, a: lst([mkstr(x) for x in elems(m, a[0], "path->list")]))


@fn("is-absolute-path?", 1)
def _(m, a):
    if type(a[0]) is not Str:
        return fail(m, "is-absolute-path?")
    return chars(a[0])[:1] == "/"


@fn("build-path", 1, None)
def _(m, a):
    if any(type(x) is not Str for x in a):
        if type(a[0]) is Str and len(a) == 1:
            return fail(m, "build-path")
        raise Unspecified("paths are not checked")
    if not a[0].s and len(a) > 1:
        raise Unspecified("empty base")
    return mkstr(join([chars(x) for x in a]))


@fn("split-path", 1)
def _(m, a):
    l = elems(m, a[0], "split-path")
    if not l:
        raise Unspecified("empty path")
    return Pair(mkstr(join(l[:-1])) if len(l) > 1 else False, mkstr(l[-1]))


# ---------------------------------------------------------------- the machine
FORMS = {}


class M(lib.LibMachine):
    extra = dict(lib.LibMachine.extra, **X)

    def comp(self, x, scope, tail):
        if type(x) is Pair and x.a is S("delay"):
            a = formargs(x, 1)
            return self.comp(lst([S("%delay"), lst([LAMBDA, NIL] + a)]), scope, tail)
        return lib.LibMachine.comp(self, x, scope, tail)

    def repl(self, prog):
        """As in the module, but records of the library print through their writers."""
        try:
            for x in ref.parse_all(prog):
                v = self.eval_repl(x)
                for r in v.v if type(v) is ref.Values else [v]:
                    if r is not VOID:
                        ref.put(self, r, False, self.out)
                        ref.emit(self, self.out, "\n")
                ref.emit(self, self.out, "> ")
        except ref.Exit:
            return "E", "D"
        except StaticError:
            return "E", "S"
        except RecursionError:
            raise Unspecified("depth")
        return "V", ""


def counted(program, fuel=200000):
    m = M(fuel)
    try:
        k, v = m.repl(program)
    except Unspecified as u:
        return None, str(u), fuel - m.fuel
    return (k, v, m.stdout()), None, fuel - m.fuel


# ---------------------------------------------------------------- spaces
def tuples(pool, lo, hi):
    for n in range(lo, hi + 1):
        yield from itertools.product(pool, repeat=n)


def batch(exprs, n, pre=""):
    exprs = list(exprs)
    for i in range(0, len(exprs), n):
        yield pre + " ".join(exprs[i:i + n])


def lists(q):
    ok, one = [], []
    L = ["(%s)" % " ".join(t) for t in tuples(["1", "b", "#f"], 0, q)] + ["((1) (1 2) (1))", "(\"s\" 1 \"s\")", "(#(1) (1 . 2) #\\c)"]
    K = ["1", "'b", "#f", "'(1)", "\"s\"", "(vector 1)", "'(1 . 2)"]
    for l in L:
        n = l.count(" ") + 1 if l != "()" else 0
        for k in K if n < 4 else K[:3]:
            ok.append("(let ([l '%s]) (list (member %s l) (remove %s l) (index-of %s l) (remove* (list %s) l) l))" % (l, k, k, k, k))
        for a, b in itertools.product(["1", "b", "#f"], repeat=2):
            ok.append("(remove* '(%s %s) '%s)" % (a, b, l))
        ok.append("(let ([l '%s]) (list (filter (lambda (x) (p x)) l) (filter (lambda (x) (equal? (p x) 1)) l) (foldl (lambda (a x) (cons (p x) a)) 'z l) (foldr (lambda (a x) (cons (p x) a)) 'z l) l))" % l)
        ok.append("(list (foldl list 0 '%s) (foldr list 0 '%s) (foldl (lambda (a x) x) 'z '%s) (cons* 1 '%s) (cons* 1 2 '%s) (cons* '%s))" % ((l,) * 6))
        for i in ["-1", "0", "1", "2", "3", "4", "5", "'a"]:
            good = i.isdigit() and int(i) < n
            (ok if good else one).append("(list-ref '%s %s)" % (l, i))
            (ok if good else one).append("(let ([l '%s]) (list (list-set l %s 'new) l))" % (l, i))
    for t in tuples(["1", "'(2)", "'()"], 1, 4):
        ok.append("(cons* %s)" % " ".join(t))
    A = ["(%s)" % " ".join(t) for t in tuples(["(1 . x)", "(b)", "((1) y)", "(#f . #f)"], 0, 3)]
    for a in A:
        for k in K[:4]:
            ok.append("(assoc %s '%s)" % (k, a))
    names = "first second third fourth fifth sixth seventh eighth ninth tenth".split()
    for n in range(0, 13):
        for i, w in enumerate(names):
            (ok if i < n else one).append("(%s '(%s))" % (w, " ".join("e%d" % j for j in range(n))))
    bad = ["5", "'(1 . 2)", "'(1 2 . 3)", "'a", "(vector 1)", "#f"]
    for b in bad:
        one += ["(%s %s)" % (w, b) for w in names[:3] + names[-1:]]
        for k in ["1", "2", "3", "9"]:
            one += ["(%s %s %s)" % (f, k, b) for f in ("member", "remove", "index-of", "assoc")] + ["(remove* '(%s) %s)" % (k, b), "(remove* %s '(1))" % b, "(list-ref %s %s)" % (b, k), "(list-set %s %s 0)" % (b, k)]
        one += ["(filter (lambda (x) (p x)) %s)" % b, "(foldl (lambda (a x) (p x)) 0 %s)" % b, "(foldr (lambda (a x) (p x)) 0 %s)" % b, "(filter %s '(1))" % b, "(foldl %s 0 '(1))" % b, "(foldr %s 0 '(1))" % b, "(assoc 1 (list %s))" % b, "(assoc 1 '((2 . 3) 5))"]
    return list(batch(ok, 8)) + one


def sorting(q):
    ok = []
    for keys in tuples("123", 0, q):
        s = " ".join("(%s . %s)" % (k, c) for k, c in zip(keys, "abcdefgh"))
        ok.append("(let ([l '(%s)]) (list (sort l (lambda (x y) (< (car x) (car y)))) l))" % s)
    for keys in tuples("123", 0, q - 1):
        s = " ".join("'(%s . %s)" % (k, c) for k, c in zip(keys, "abcdefgh"))
        ok.append("(let ([l (vector %s)]) (list (sort l (lambda (x y) (> (car x) (car y)))) l))" % s)
        ok.append("(sort '(%s) (lambda (x y) #f))" % " ".join(keys))
    for k in range(0, q + 1):
        for t in itertools.permutations(range(k)):
            ok.append("(sort '(%s) <)" % " ".join(map(str, t)))
    for n in list(range(0, 40)) + [63, 64, 65, 100, 127, 128, 129, 200]:
        for mul in (1, 3, 7, 11):
            for mod in (5, n + 1):
                l = " ".join("(%d . %d)" % (i * mul % mod if mod else 0, i) for i in range(n))
                ok.append("(sort '(%s) (lambda (x y) (< (car x) (car y))))" % l)
    one = ["(sort %s <)" % b for b in ("5", "'(1 . 2)", "#f", "\"s\"")] + ["(sort '(1 2) 5)", "(sort '(1) 5)", "(sort '() 5)", "(sort '(1 a) <)", "(sort '(3 2 1 0) (lambda (x) #t))"]
    return list(batch(ok, 12)) + [o for o in one if o not in ("(sort '(1) 5)", "(sort '() 5)", "(sort #f <)", "(sort \"s\" <)")]


OBS = "(list (set-count {0}) (set-empty? {0}) (sort (set->list {0}) <) (map (lambda (k) (set-member? {0} k)) '(1 2 3)))"
OBSU = "(list (set-count {0}) (length (set->list {0})) (map (lambda (k) (set-member? {0} k)) U))"
REL = "(list (subset? a b) (subset? b a) (proper-subset? a b) (proper-subset? b a) (set=? a b) (equal? a b) (= (equal-hash a) (equal-hash b)))"


def powerset(xs):
    return [[x for i, x in enumerate(xs) if k >> i & 1] for k in range(2 ** len(xs))]


def sets(q):
    out, one = [], []
    ops = ["(set-add! a 1)", "(set-add! a 2)", "(if (set-member? a 1) (set-remove! a 1) (set-add! a 1))", "(set-add! b 2)", "(if (set-member? b 2) (set-remove! b 2) (set-add! b 3))", "(set-clear! a)", "(set! b a)", "(set! b (set-copy a))",
           "(set! a (set-union a b))", "(set! a (set-intersect a b))", "(set! b (set-subtract b a))", "(set! a (set-symmetric-difference a b))", "(set! a (set-union b))", "(set-for-each (lambda (x) (set-remove! a x)) a)"]
    for h in tuples(ops, 1, q):
        out.append("(define a (make-set)) (define b (make-set 2 3)) " + " ".join(h) + " " + OBS.format("a") + " " + OBS.format("b") + " " + REL.replace("(equal? a b) ", "").replace(" (= (equal-hash a) (equal-hash b))", ""))
    P = powerset(["1", "2", "3"])
    nary = ["set-union", "set-intersect", "set-subtract", "set-symmetric-difference"]
    for x, y in itertools.product(P, repeat=2):
        pre = "(define a (make-set %s)) (define b (make-set %s)) " % (" ".join(x), " ".join(reversed(y)))
        out.append(pre + REL.replace(" (= (equal-hash a) (equal-hash b))", " (if (equal? a b) (= (equal-hash a) (equal-hash b)) 'na)") + " ".join(" (let ([c (%s a b)]) %s)" % (f, OBS.format("c")) for f in nary) + " " + OBS.format("a") + " " + OBS.format("b")
                   + " (let ([c (make-set a b)]) (list (set-count c) (set-member? c (make-set 1 2)) (set-member? c (set-copy b))))" + " (sort (set-map (lambda (x) (* x x)) a) <) (let ([s 0]) (set-for-each (lambda (x) (set! s (+ s x))) a) s)")
        for z in P:
            out.append(pre + "(define d (make-set %s))" % " ".join(z) + " ".join(" (let ([c (%s a b d)]) %s)" % (f, OBS.format("c")) for f in nary) + " " + OBS.format("a"))
    U = ["1", "\"s\"", "'(1)", "#\\a", "'s", "(vector 1)", "#f"]
    for x in tuples(U, 0, 3):
        out.append("(define U (list %s)) (define a (make-set %s)) (define b (make-set %s)) " % (" ".join(U), " ".join(x), " ".join(x[:2])) + OBSU.format("a") + " " + REL.replace(" (= (equal-hash a) (equal-hash b))", "") + " (set-add! a (list 1)) " + OBSU.format("a") + " (set-add! a \"s\") (let ([c (set-subtract a b)]) %s) (set-remove! a '(1)) %s" % (OBSU.format("c"), OBSU.format("a")))
    for n in range(0, 80, 1):
        out.append("(define a (make-set)) (for-each (lambda (i) (set-add! a (* i 7))) (iota %d)) (define b (set-copy a)) (for-each (lambda (i) (if (= (remainder i 3) 0) (set-remove! a (* i 7)) #f)) (iota %d)) (list (set-count a) (set-count b) (subset? a b) (set=? (set-union a b) b) (set-count (set-subtract b a)) (sort (set->list (set-symmetric-difference a b)) <))" % (n, n))
    for b in ["5", "'(1)", "(make-hashtable)", "\"s\"", "#f"]:
        one += ["(%s %s%s)" % (f, b, x) for f, x in [("set-member?", " 1"), ("set-empty?", ""), ("set-count", ""), ("set-copy", ""), ("set-add!", " 1"), ("set-remove!", " 1"), ("set-clear!", ""), ("set->list", "")]]
        one += ["(%s %s (make-set))" % (f, b) for f in ["subset?", "proper-subset?", "set=?"] + nary] + ["(%s (make-set) %s)" % (f, b) for f in ["subset?", "proper-subset?", "set=?"] + nary] + ["(set-map car %s)" % b, "(set-for-each car %s)" % b, "(%s %s)" % (nary[0], b), "(%s (make-set) (make-set) %s)" % (nary[1], b), "(set? %s)" % b]
    return out + one


def enums(q):
    out, one = [], []
    U = [u for k in range(0, 4) for u in itertools.permutations("abc", k) if list(u) == sorted(u) or k == 3 and u[0] == "c" or k == 2 and u[0] == "b"]
    OB = "(list %s)" % " ".join("(enum-set-%s {0})" % f if f == ">list" else "" for f in [])
    SEE = "(list (enum-set->list {0}) (enum-set->list (enum-set-universe {0})) (enum-set->list (enum-set-complement {0})) (map (lambda (k) (enum-set-member? k {0})) '(a b c d)) (map (enum-set-indexer {0}) '(a b c d)))"
    subs = list(tuples("abcd", 0, 2)) + list(itertools.permutations("abc")) + [tuple("dcba"), tuple("aab"), tuple("cbaab")]
    for u in U:
        for s in subs:
            out.append("(define e (make-enumeration '(%s))) (define c (enum-set-constructor e)) (define x (c '(%s))) %s %s" % (" ".join(u), " ".join(s), SEE.format("x"), SEE.format("e")))
        for s, t in itertools.product(powerset("abc"), repeat=2):
            out.append("(define e (make-enumeration '(%s))) (define c (enum-set-constructor e)) (define x (c '(%s))) (define y ((enum-set-constructor x) '(%s)))" % (" ".join(u), " ".join(s), " ".join(t))
                       + " (list (enum-set-subset? x y) (enum-set=? x y) (enum-set->list (enum-set-union x y)) (enum-set->list (enum-set-intersect x y)) (enum-set->list (enum-set-difference x y)) (enum-set->list (enum-set-projection x y)))")
    for u, v in itertools.product(U, repeat=2):
        for s, t in itertools.product(powerset("ab"), powerset("bc")):
            d = "(define e (make-enumeration '(%s))) (define f (make-enumeration '(%s))) (define x ((enum-set-constructor e) '(%s))) (define y ((enum-set-constructor f) '(%s)))" % tuple(" ".join(z) for z in (u, v, s, t))
            out.append(d + " (list (enum-set-subset? x y) (enum-set=? x y) (enum-set=? y x) (enum-set->list (enum-set-projection x y)) (enum-set->list (enum-set-universe (enum-set-projection y x))) (enum-set-subset? e f))")
        for f in ("union", "intersect", "difference"):
            one.append("(enum-set-%s (make-enumeration '(%s)) (make-enumeration '(%s)))" % (f, " ".join(u), " ".join(v)))
    for b in ["5", "'a", "'(a)", "(make-set 'a)", "#f"]:
        one += ["(enum-set-%s %s)" % (f, b) for f in (">list", "universe", "constructor", "indexer", "complement")]
        one = [o.replace("enum-set->list", "enum-set->list") for o in one]
        one += ["(enum-set-%s %s (make-enumeration '(a)))" % (f, b) for f in ("subset?", "=?", "union", "intersect", "difference", "projection")] + ["(enum-set-%s (make-enumeration '(a)) %s)" % (f, b) for f in ("subset?", "=?", "union", "intersect", "difference", "projection", "member?")]
        one += ["((enum-set-indexer (make-enumeration '(a))) %s)" % b, "((enum-set-constructor (make-enumeration '(a))) (list %s))" % b, "(make-enumeration (list %s))" % b, "(enum-set? %s)" % b]
    one = [o.replace("(enum-set-=?", "(enum-set=?") for o in one]
    # define-enumeration
    for u in U:
        d = "(define-enumeration col (%s) cols) " % " ".join(u)
        for s in subs[:21] + subs[-3:]:
            out.append((d + "(enum-set->list (cols %s)) (enum-set->list (enum-set-universe (cols)))" % " ".join(s), "(define e (make-enumeration '(%s))) (define cols (enum-set-constructor e)) %%quiet (enum-set->list (cols '(%s))) (enum-set->list (enum-set-universe (cols '())))" % (" ".join(u), " ".join(s))))
        for x in "abcd":
            if x in u:
                out.append((d + "(col %s)" % x, "%%defined '%s" % x))
            else:
                out.append((d + "(col %s)" % x, "%defined (car 0)"))
    for bad in ["(define-enumeration)", "(define-enumeration x)", "(define-enumeration x (a))", "(define-enumeration 5 (a) c)", "(define-enumeration x (5) c)", "(define-enumeration x (a) 5)", "(define-enumeration x (a) c d)", "(define-enumeration x a c)"]:
        out.append((bad, "%rejected"))
    for bad in ["(x)", "(x a b)", "(x 5)", "(x (a))", "(x zz)"]:
        out.append(("(define-enumeration x (a b) c) " + bad, "%defined (car 0)"))
    return out + one


def promises(q):
    out = []
    ops = ["(force p)", "(lazy p)", "(promise-forced? p)", "(force q)", "(lazy q)", "(promise-forced? q)", "p", "(set! p q)", "(set! q (delay p))", "(set! n (+ n 1))", "(promise? (force q))", "(let () (define w (delay (force q))) (list (force w) w))"]
    starts = ["(define p (delay (p0 'one))) (define q (delay (p0 n)))", "(define p (delay (p0 n))) (define q (delay (begin (p0 'q) p)))", "(define p (delay (p0 'a) (define z 3) (set! n (+ n 1)) (* n z))) (define q (delay (delay (p0 n))))",
              "(define q (delay 7)) (define p (delay (let ([k n]) (set! n (+ n 1)) (if (< k 2) (begin (force p) (p0 k)) (p0 k)))))",
              "(define q (delay (begin (set! n (+ n 1)) (if (< n 3) (begin (lazy p) n) n)))) (define p (delay q))",
              "(define p (delay #f)) (define q (delay (begin (set! n (+ n 5)) (if (promise-forced? p) #f (delay (force p))))))"]
    for s in starts:
        for h in itertools.chain(tuples(ops, 1, q - 1), itertools.product(ops[:2] + ops[3:5] + ops[6:10], repeat=q)):
            out.append("(define (p0 x) (begin (display x) x)) (define n 0) " + s + " " + " ".join(h) + " (list p q n)")
    for b in ["5", "car", "(lambda () 1)", "'p", "#f", "(list (delay 1))"]:
        out += ["(%s %s)" % (f, b) for f in ("force", "lazy", "promise?", "promise-forced?")]
    out += ["(delay)", "(define x (delay (car 5))) (promise-forced? x) (force x)", "(define x (delay (values))) (promise? x)", "(define x (delay 1)) (list (record? x) (equal? x x) (equal? (delay 1) (delay 1)) (procedure? x))",
            "(define k 0) (define x (delay (begin (set! k (+ k 1)) (if (< k 2) (car 5) k)))) (define h (current-error-handler)) (current-error-handler (lambda (e) 'err)) (force x) (force x) k",
            "(define (count n) (if (= n 0) (delay 'end) (delay (count (- n 1))))) (lazy (count 40)) (define c (count 3)) (lazy c) c (force (force c))", "(define s (delay (cons 1 s))) (promise? (cdr (force s))) (eq? (cdr (force s)) s) (eq? (force s) (force s))"]
    return out


def strings(q):
    out, one = [], []
    for n in range(0, 5):
        s = "\"%s\"" % "abcd"[:n]
        for i, j in itertools.product(range(-1, 7), repeat=2):
            (out if 0 <= i <= j <= n else one).append("(substring %s %d %d)" % (s, i, j))
    out += ["(let* ([s (string #\\a #\\b #\\c)] [t (substring s 0 3)] [u (substring s 1 2)]) (string-set! t 1 #\\z) (string-set! u 0 #\\y) (list s t u (eq? s t)))"]
    for n in (10, 100, 255, 256, 257, 1000):
        out.append("(let ([s (make-string %d #\\x)]) (string-set! s %d #\\y) (list (string-length (substring s 0 %d)) (equal? s (substring s 0 %d)) (substring s %d %d) (string-length (substring s 1 %d))))" % (n, n - 2, n, n, n - 4, n, n - 1))
    one += ["(substring %s)" % x for x in ("5 0 0", "'abc 0 1", "\"abc\" 'a 1", "\"abc\" 0 'a", "\"abc\" \"0\" 1", "\"abc\" 1 #f", "\"abc\"", "\"abc\" 1")]
    A = ["a", "/", ".", "bc"]
    P = ["".join(t) for t in tuples(A, 0, q) if "//" not in "".join(t)]
    for p in P:
        if p:
            out.append("(split-path \"%s\")" % p)
        out.append("(list (path->list \"%s\") (is-absolute-path? \"%s\"))" % (p, p))
    S_ = [p for p in P if 0 < len(p) <= 3]
    for a, b in itertools.product(S_, S_ + [""]):
        out.append("(list (build-path \"%s\" \"%s\"))" % (a, b))
    for t in itertools.product(["a", "/", "a/", "/a", "", "..", "b/c"], repeat=3):
        if t[0]:
            out.append("(build-path %s)" % " ".join('"%s"' % x for x in t))
    for t in tuples(["a", "..", "b.c"], 1, 4):
        p = "/".join(t)
        for pre in ("", "/"):
            out.append("(let ([l (path->list \"%s\")]) (list l (apply build-path l) (equal? (apply build-path l) \"%s\")))" % (pre + p, pre + p))
            out.append("(let ([s (split-path \"%s\")]) (if (car s) (equal? (build-path (car s) (cdr s)) \"%s\") (cdr s)))" % (pre + p, pre + p))
    for b in ("5", "'a", "#f", "#\\a"):
        one += ["(%s %s)" % (f, b) for f in ("path->list", "split-path", "is-absolute-path?")]
    return list(batch(out, 10)) + one


def pairs(ps, c, name):
    """Programs with their own reference program: the declaration and what follows."""
    ex, qs = [], []
    for p in ps:
        if type(p) is str:
            continue
        prog, r = p
        if r == "%rejected":
            e = ("E", "D", "")
        else:
            head, _, tail = r.partition("%quiet ") if "%quiet" in r else ("", "", r.replace("%defined ", ""))
            e, why, n = counted(head + tail)
            k = len(ref.parse_all(head))
            if e is not None:
                assert e[2].startswith("> " * k)
                e = (e[0], e[1], "> " + e[2][2 * k:])
        qs.append(prog), ex.append(e)
    lib.diff(c, name, qs, expect=ex, agree=agree)


def agree(e, r):
    if e[0] == "E":
        return r.k == "E" and r.v == "1" and r.out == e[2]
    return r.k == "V" and r.out == e[2]


def run(c):
    en = enums(0)
    for name, ps in (("lists", lists(c.q(3, 4))), ("sorting", sorting(c.q(5, 7))), ("sets", sets(c.q(3, 4))), ("enumerations", [p for p in en if type(p) is str]),
                     ("promises", promises(c.q(3, 4))), ("strings and paths", strings(c.q(5, 6)))):
        lib.diff(c, name, list(dict.fromkeys(ps)), runner=counted, agree=agree)
    pairs(en, c, "declared enumerations")

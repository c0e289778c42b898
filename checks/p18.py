"""P18: syntax-case matches and instantiates exactly what its patterns and templates say."""
import itertools
from mc import lib, macro, ref
from mc.lib import compositions
from mc.ref import lst
from mc.check import pmap


def patterns(size, atoms=("V", "_", "lit", "1"), vec=True, improper=True):
    """Patterns of a size: V is replaced by fresh variables from left to right."""
    memo = {}

    def items(s, n):
        """n element patterns of total size s, one of them (or none) followed by an ellipsis."""
        for split in compositions(s, n) if n else ([()] if s == 0 else []):
            for fill in itertools.product(*[go(k) for k in split]):
                yield list(fill)
                for i in range(n):
                    yield list(fill[:i + 1]) + ["..."] + list(fill[i + 1:])

    def go(s):
        if s in memo:
            return memo[s]
        out = list(atoms) if s == 1 else []
        for n in range(0, s):
            for xs in items(s - 1, n):
                out.append("(%s)" % " ".join(xs))
                if vec:
                    out.append("#(%s)" % " ".join(xs))
        for t in range(1, s - 1 if improper else 0):
            for n in range(1, s - t):
                for xs in items(s - 1 - t, n):
                    for tail in go(t):
                        if tail[0] not in "(":
                            out.append("(%s . %s)" % (" ".join(xs), tail))
        memo[s] = list(dict.fromkeys(out))
        return memo[s]
    return go(size)


def name(p):
    k = iter("abcdefgh")
    return "".join(next(k) if ch == "V" else ch for ch in p)


def data(size, atoms=("1", "2", "lit")):
    memo = {}

    def go(s):
        if s in memo:
            return memo[s]
        out = list(atoms) if s == 1 else []
        for n in range(0, s):
            for split in compositions(s - 1, n) if n else ([()] if s == 1 else []):
                for fill in itertools.product(*[go(k) for k in split]):
                    out.append("(%s)" % " ".join(fill))
                    out.append("#(%s)" % " ".join(fill))
        for t in range(1, s - 1):
            for n in range(1, s - t):
                for split in compositions(s - 1 - t, n):
                    for fill in itertools.product(*[go(k) for k in split]):
                        for tail in go(t):
                            if tail[0] != "(":
                                out.append("(%s . %s)" % (" ".join(fill), tail))
        memo[s] = list(dict.fromkeys(out))
        return memo[s]
    return go(size)


def upto(f, n):
    return [x for s in range(1, n + 1) for x in f(s)]


LITS = [ref.S("lit")]


def show_all(vs):
    """A template that shows every variable with its ellipses."""
    out = []
    for v, d in vs:
        t = v.n
        for i in range(d):
            t = "(%s ...)" % t
        out.append(t)
    return "(%s)" % " ".join(out)


def expected(a):
    """Transcript of matching the pattern against each input; None per input is not specified."""
    pat, templ, inputs = a
    p, = ref.parse_all(pat)
    t, = ref.parse_all(templ)
    vs = macro.pvars(p, LITS)
    depths = dict(vs)
    try:
        macro.check(t, depths)
    except macro.BadTemplate:
        return ("E", "S", ""), None, len(inputs)
    out = []
    for i in inputs:
        x, = ref.parse_all(i)
        try:
            b = macro.match(p, x, LITS)
            r = macro.subst(t, b, depths)
            if t == ref.S("b") and pat == "(a . b)" and r is ref.NIL:
                return None, "the rest of a list alone, when empty, need not be a syntax object", len(inputs)
        except macro.NoMatch:
            r = ref.S("no")
        except macro.BadLength:
            return None, "lengths", len(inputs)
        out.append(r)
    return ("V", "", ref.text(ref.lst(out), False) + "\n> "), None, len(inputs)


def program(a):
    pat, templ, inputs = a
    return "(map (lambda (x) (let ([s (datum->syntax x)]) (syntax-case s (lit) [%s (syntax->datum #'%s)] [_ 'no]))) '(%s))" % (pat, templ, " ".join(inputs))


TPATS = {
    "(a b ...)": ["(1)", "(1 2)", "((3) 4 lit)"],
    "((a b ...) ...)": ["()", "((1))", "((1 2 3) (lit))", "((1 2) (3 4 5) (6))"],
    "(a (b c) ...)": ["(1)", "(1 (2 3))", "(lit (2 3) (4 (5)))"],
    "(a ... b)": ["(1)", "(1 2 3)"],
    "(a . b)": ["(1)", "(1 . 2)", "(1 2 3)"],
    "((a ...) (b ...))": ["(() ())", "((1) (2))", "((1 2) (3 4))"],
    "(((a ...) ...) b ...)": ["(())", "((()) 1)", "(((1 2) ()) 3 4)", "(((1) (2 3) (4)))"],
    "#(a (b ...))": ["#(1 ())", "#((1) (2 3))"],
}


def nested(size, scope=(), memo={}):
    """(text, value) of every expression of a size that computes syntax with nested pattern scopes; scope: (variable, value) pairs."""
    key = (size, scope)
    if key in memo:
        return memo[key]
    env = dict(scope)
    out = []
    if size == 1:
        for t in ("a", "(a b)", "(b k a)", "#(c b)"):
            t2, = ref.parse_all(t)
            out.append(("#'" + t, macro.subst(t2, env, {v: 0 for v in env})))
    for s in range(1, size - 1):
        for (e, v), pat in itertools.product(nested(s, scope), ("a", "b", "(a b)", "(_ c)", "(b k a)")):
            p, = ref.parse_all(pat)
            try:
                b = macro.match(p, v, [])
            except macro.NoMatch:
                if pat in ("(_ c)", "(b k a)"):
                    continue
                b = None
            inner = dict(env)
            inner.update(b or {})
            if b is None:
                # the other clause is taken; what stands in the first one does not matter
                for e2, v2 in nested(size - 1 - s, scope):
                    out.append(("(syntax-case %s () [%s #'(a b c)] [_ %s])" % (e, pat, e2), v2))
                continue
            for e2, v2 in nested(size - 1 - s, tuple(sorted(inner.items(), key=lambda q: q[0].n))):
                out.append(("(syntax-case %s () [%s %s] [_ #'(a b c)])" % (e, pat, e2), v2))
                if pat in ("a", "(a b)"):
                    out.append(("(with-syntax ([%s %s]) %s)" % (pat, e, e2), v2))
        for (e, v), (e2, v2) in itertools.product(nested(s, scope), nested(size - 1 - s, scope)):
            out.append(("(both %s %s)" % (e, e2), lst([v, v2])))
    memo[key] = out
    return out


def run(c):
    jobs = []
    ins = upto(data, 4)
    for size in range(1, c.q(3, 4) + 1):
        for q in patterns(size):
            q = name(q)
            p, = ref.parse_all(q)
            jobs.append((q, show_all(macro.pvars(p, LITS)), ins))
    # longer lists of simple elements
    for size in c.q((4,), (4, 5)):
        for q in patterns(size, atoms=("V",), vec=size == 4):
            q = name(q)
            p, = ref.parse_all(q)
            jobs.append((q, show_all(macro.pvars(p, LITS)), ins))
    npat = len(jobs)
    for q, inputs in TPATS.items():
        vs = [v.n for v, _ in macro.pvars(ref.parse_all(q)[0], LITS)] if inputs else []
        for size in range(1, c.q(4, 5) + 1):
            for t in patterns(size, atoms=tuple(vs) + ("k",), vec=size < 4, improper=size < 5) if inputs else []:
                # every malformed template up to size 3, beyond that the well-formed ones
                if size < 4 or expected((q, t, []))[0][0] == "V":
                    jobs.append((q, t, inputs))
    exp = []
    for r, why, n in pmap(expected, jobs, 4):
        exp.append(r)
        c.transitions += n
    ps = [program(j) for j in jobs]
    nest = []
    for size in range(1, c.q(5, 6) + 1):
        for e, v in nested(size):
            nest.append("(syntax->datum %s)" % e)
            exp.append(("V", "", ref.text(v, False) + "\n> "))
    c.transitions += len(nest)
    lib.diff(c, "patterns %d, templates %d, nested scopes %d" % (npat, len(jobs) - npat, len(nest)), ps + nest, expect=exp,
             text=lib.BASE + "(define (both x y) (datum->syntax (list x y)))\n")

"""The language as the module system offers it: derived forms over the reference machine.

This is an independent, boring expander (no macros, no hygiene): every derived form is
rewritten into the core forms that mc/ref.py evaluates, and what the module REPL prints is
simulated.  Bodies may start with definitions; an unknown variable is rejected before
anything is evaluated.
"""
import hashlib, itertools, os, re

from . import ref
from .ref import NIL, VOID, Pair, Proc, S, StaticError, Sym, Unspecified, Values, lst, text, unl

FORMS = {}


def form(name):
    def deco(f):
        FORMS[name] = f
        return f
    return deco


LET_VALUES, LETREC, LAMBDA, IF, BEGIN = S("let-values"), S("letrec-values"), S("lambda"), S("if"), S("begin")
DEFINE, DEFVALS, ELSE, QUOTE = S("define"), S("define-values"), S("else"), S("quote")
T = [S("%t")]
VOIDCALL = lst([lst([LAMBDA, NIL, lst([BEGIN])])])      # evaluates to the void value


def args(x, lo, hi=None):
    xs = unl(x)
    if xs is None or len(xs) - 1 < lo or (hi is not None and len(xs) - 1 > hi):
        raise StaticError("syntax")
    return xs[1:]


def binds(x):
    bs = unl(x)
    if bs is None:
        raise StaticError("bindings")
    out = []
    for b in bs:
        b = unl(b)
        if b is None or len(b) != 2 or type(b[0]) is not Sym:
            raise StaticError("binding")
        out.append((b[0], b[1]))
    return out


def let(bs, body):
    return lst([LET_VALUES, lst([lst([lst([v]), e]) for v, e in bs])] + body)


def thunkbody(body):
    return lst([LET_VALUES, NIL] + body)


@form("let")
def _(x):
    a = args(x, 2)
    if type(a[0]) is Sym:
        if len(a) < 3:
            raise StaticError("let")
        bs = binds(a[1])
        fn = lst([LAMBDA, lst([v for v, _ in bs])] + a[2:])
        loop = lst([LETREC, lst([lst([lst([a[0]]), fn])]), a[0]])
        return lst([loop] + [e for _, e in bs])
    return let(binds(a[0]), a[1:])


@form("let*")
def _(x):
    a = args(x, 2)
    bs = binds(a[0])
    if not bs:
        return thunkbody(a[1:])
    body = a[1:]
    for b in reversed(bs):
        body = [let([b], body)]
    return body[0]


@form("letrec")
def _(x):
    a = args(x, 2)
    return lst([LETREC, lst([lst([lst([v]), e]) for v, e in binds(a[0])])] + a[1:])


@form("when")
def _(x):
    a = args(x, 2)
    return lst([IF, a[0], thunkbody(a[1:]), VOIDCALL])


@form("unless")
def _(x):
    a = args(x, 2)
    return lst([IF, a[0], VOIDCALL, thunkbody(a[1:])])


@form("and")
def _(x):
    a = args(x, 0)
    if not a:
        return True
    r = a[-1]
    for e in reversed(a[:-1]):
        r = lst([IF, e, r, False])
    return r


@form("or")
def _(x):
    a = args(x, 0)
    if not a:
        return False
    r = a[-1]
    for e in reversed(a[:-1]):
        r = let([(T[0], e)], [lst([IF, T[0], T[0], r])])
    return r


@form("cond")
def _(x):
    a = args(x, 0)
    r = VOIDCALL
    for i, c in enumerate(reversed(a)):
        c = unl(c)
        if c is None or len(c) < 2:
            raise StaticError("cond clause")
        body = c[1] if len(c) == 2 else thunkbody(c[1:])
        if c[0] is ELSE:
            if i:
                raise StaticError("else must be last")
            r = body
        else:
            r = lst([IF, c[0], body, r])
    return r


@form("case")
def _(x):
    a = args(x, 1)
    r, seen = VOIDCALL, False
    for i, c in enumerate(reversed(a[1:])):
        c = unl(c)
        if c is None or len(c) < 2:
            raise StaticError("case clause")
        body = thunkbody(c[1:])
        if c[0] is ELSE:
            if i:
                raise StaticError("else must be last")
            r = body
            continue
        ks = unl(c[0])
        if ks is None:
            raise StaticError("case data")
        test = False
        for k in reversed(ks):
            test = lst([IF, lst([S("equal?"), T[0], lst([QUOTE, k])]), True, test])
        r = lst([IF, test, body, r])
    return let([(T[0], a[0])], [r])


@form("do")
def _(x):
    a = args(x, 2)
    bs = unl(a[0])
    end = unl(a[1])
    if bs is None or not end:
        raise StaticError("do")
    vs, init, step = [], [], []
    for b in bs:
        b = unl(b)
        if b is None or len(b) != 3:
            raise StaticError("do binding")
        vs.append(b[0]), init.append(b[1]), step.append(b[2])
    L = S("%loop")
    fn = lst([LAMBDA, lst(vs), lst([IF, end[0], lst([BEGIN] + end[1:]), lst([BEGIN] + a[2:] + [lst([L] + step)])])])
    return lst([lst([LETREC, lst([lst([lst([L]), fn])]), L])] + init)


def definition(x):
    """The define-values a definition stands for."""
    a = args(x, 2)
    if type(a[0]) is Sym:
        if len(a) != 2:
            raise StaticError("define")
        return lst([DEFVALS, lst([a[0]]), a[1]])
    if type(a[0]) is Pair:
        return definition(lst([DEFINE, a[0].a, Pair(LAMBDA, Pair(a[0].d, lst(a[1:])))]))
    raise StaticError("define")


RESERVED = set(FORMS) | set(ref.FORMS) | {"else", "define", "define-syntax", "define-syntaxes", "let-syntaxes"}


class LibMachine(ref.Machine):
    extra = {}

    def __init__(self, fuel=20000):
        ref.Machine.__init__(self, fuel)
        for k, v in self.extra.items():
            self.tenv.d[k] = [v]

    def comp(self, x, scope, tail):
        if scope and any(i.n in RESERVED for i in scope[0]):
            raise Unspecified("a variable named like a form")
        if type(x) is Pair and type(x.a) is Sym:
            n = x.a.n
            f = FORMS.get(n)
            if f:
                return self.comp(f(x), scope, tail)
            if n in ("define", "define-values", "define-syntax", "define-syntaxes", "let-syntaxes"):
                raise Unspecified("definition outside a body")
            if n == "begin" and scope is not None:
                xs = unl(x)
                if xs is None:
                    raise StaticError("begin")
                return ref.Machine.body(self, xs[1:], scope, tail)
        return ref.Machine.comp(self, x, scope, tail)

    def comp_ref(self, x, scope):
        if self.find(x, scope) is None and self.tenv.d.get(x.n) is None:
            raise StaticError("unknown variable " + x.n)
        return ref.Machine.comp_ref(self, x, scope)

    def body(self, xs, scope, tail):
        """A body: definitions become one letrec, in order, expressions between them evaluated in turn."""
        flat = []

        def splice(xs):
            for x in xs:
                if type(x) is Pair and x.a is BEGIN and x.d is not NIL:
                    ys = unl(x)
                    if ys is None:
                        raise StaticError("begin")
                    splice(ys[1:])
                elif type(x) is Pair and x.a is DEFINE:
                    flat.append(definition(x))
                else:
                    flat.append(x)
        splice(xs)
        isdef = [type(x) is Pair and x.a is DEFVALS for x in flat]
        if not any(isdef):
            return ref.Machine.body(self, flat, scope, tail)
        first = isdef.index(True)
        last = len(isdef) - 1 - isdef[::-1].index(True)
        if last == len(flat) - 1:
            raise StaticError("body without an expression")
        rows = []
        for x, d in zip(flat[first:-1], isdef[first:]):
            if d:
                xs = unl(x)
                if xs is None or len(xs) != 3:
                    raise StaticError("define-values")
                rows.append(lst([xs[1], xs[2]]))
            else:
                rows.append(lst([NIL, lst([LET_VALUES, NIL, x, lst([S("values")])])]))
        return ref.Machine.body(self, flat[:first] + [lst([LETREC, lst(rows), flat[-1]])], scope, tail)

    # -- the REPL ----------------------------------------------------------
    def repl(self, prog):
        """(k, "", output) of a line typed at the REPL of a module."""
        k = "V"
        try:
            for x in ref.parse_all(prog):
                v = self.eval_repl(x)
                for r in v.v if type(v) is Values else [v]:
                    if r is not VOID:
                        self.out.buf.append(text(r, False) + "\n")
                self.out.buf.append("> ")
        except ref.Exit as e:
            return "E", "D"         # found while running: what was printed before counts
        except StaticError as e:
            return "E", "S"         # rejected before running
        except RecursionError:
            raise Unspecified("depth")
        return "V", ""

    def eval_repl(self, x):
        if type(x) is Pair and x.a is DEFINE:
            x = definition(x)
        if type(x) is Pair and x.a is DEFVALS:
            xs = unl(x)
            if xs is None or len(xs) != 3:
                raise StaticError("define-values")
            ids = ref.ids_of(xs[1])
            for i in ids:                       # in scope before anything is checked
                if self.tenv.d.get(i.n) is None:
                    self.tenv.d[i.n] = [PENDING]
            f = self.comp(xs[2], [], False)
            for i in ids:
                if self.tenv.d[i.n][0] is PENDING:
                    del self.tenv.d[i.n]
            v = f(None)
            vs = v.v if type(v) is Values else [v]
            if len(vs) != len(ids):
                self.cerror("result arity")
            for i, val in zip(ids, vs):
                self.name(i, val)
                self.tenv.d[i.n] = [val]
            return VOID
        return self.comp(x, [], False)(None)


class _Pending:
    pass


PENDING = _Pending()

PRE = "(define (p n) (display n) n)"


def _p(m, a):
    ref.PRIMS["display"].f(m, [a[0]]) if ref.PRIMS["display"].wm else ref.PRIMS["display"].f(a[0])
    return a[0]


LibMachine.extra = {"p": ref.Prim(S("p"), _p, 1, 1, True)}


def run_counted(program, fuel=20000):
    m = LibMachine(fuel)
    try:
        k, v = m.repl(program)
    except Unspecified as u:
        return None, str(u), fuel - m.fuel
    return (k, v, m.stdout()), None, fuel - m.fuel


def same(e, r):
    """Agreement of a REPL transcript with the reference."""
    if e[0] != r.k:
        return False
    if e[0] == "V":
        return r.out == e[2]
    if e[1] == "D":
        return r.out == e[2] and r.v == "1"
    return r.v == "1" and (r.out == e[2] or r.out.startswith(e[2]) and "unknown variable" in r.out[len(e[2]):].split("\n")[0])


BASE = '(import "library/base.min")\n' + PRE + "\n"


def target(c, text=BASE, name=None):
    """Put a module next to the library of the tree under test; its absolute path."""
    n = name or "mc_%s.min" % hashlib.sha256(text.encode()).hexdigest()[:12]
    p = os.path.join(c.tree.src, n)
    if name or not os.path.exists(p):
        with open(p + ".tmp%d" % os.getpid(), "w") as fh:
            fh.write(text)
        os.rename(p + ".tmp%d" % os.getpid(), p)
    return p


def diff(c, name, programs, text=BASE, runner=run_counted, canon=None, expect=None, agree=None, flavor="rel", timeout=15000, fresh=False):
    """Type every program at the REPL of the module and compare with the reference."""
    from .check import pmap
    programs = list(programs)
    if expect is None:
        expect = []
        for r, why, n in pmap(runner, programs):
            c.transitions += n
            expect.append(r)
    c.diff(name, programs, flavor=flavor, expect=expect, args=["--timeout", str(timeout)] + ["--fresh"] * fresh + ["--repl", target(c, text)],
           same=agree or same, canon=canon)


# ---------------------------------------------------------------- programs from templates

_tok = re.compile(r"\b([EVB])(\d*)\b")


class Templates:
    """All programs of a size built from templates.

    In a template V0, V1 are new variables, E is any expression, E01 an expression that also
    sees the variables 0 and 1.  naming: see gen.Core.
    """

    def __init__(self, forms, naming="fresh", atoms=("K", "#f", "(p K)"), maxvars=3):
        self.naming, self.atoms, self.maxvars = naming, atoms, maxvars
        self.forms = []
        for f in forms:
            holes, nv, parts, at = [], 0, [], 0
            for m in _tok.finditer(f):
                parts.append(f[at:m.start()])
                at = m.end()
                if m.group(1) == "V":
                    nv = max(nv, int(m.group(2)) + 1)
                    parts.append(("V", int(m.group(2))))
                else:
                    parts.append(("E", len(holes)))
                    holes.append(tuple(int(d) for d in m.group(2)))
            parts.append(f[at:])
            self.forms.append((parts, holes, nv))
        self.memo = {}

    def new(self, scope, k):
        n = len(scope)
        if self.naming == "fresh":
            used = set(scope)
            out, i = [], 0
            while len(out) < k:
                v = "x%d" % i
                if v not in used:
                    out.append(v)
                i += 1
            return out
        return ["xyz"[i] for i in range(k)]

    def exprs(self, size, scope=()):
        key = (size, scope)
        r = self.memo.get(key)
        if r is None:
            r = self.memo[key] = list(self._exprs(size, scope))
        return r

    def _exprs(self, size, scope):
        if size == 1:
            yield from self.atoms
            yield from dict.fromkeys(scope)
            return
        for parts, holes, nv in self.forms:
            if len(holes) > size - 1:
                continue
            if not holes and size != 2:
                continue
            vs = self.new(scope, nv)
            if len(set(scope) | set(vs)) > self.maxvars:
                continue
            scopes = [tuple(sorted(set(scope) | {vs[i] for i in h})) for h in holes]
            for split in compositions(size - 1, len(holes)):
                lists = [self.exprs(s, sc) for s, sc in zip(split, scopes)]
                for fill in itertools.product(*lists):
                    yield "".join(q if type(q) is str else vs[q[1]] if q[0] == "V" else fill[q[1]] for q in parts)

    def upto(self, size):
        from .gen import number
        for s in range(1, size + 1):
            for e in self.exprs(s):
                yield number(e)


def compositions(n, k):
    if k == 0:
        if n == 0:
            yield ()
        elif n == 1:
            yield ()
        return
    if k == 1:
        yield (n,)
        return
    for a in range(1, n - k + 2):
        for r in compositions(n - a, k - 1):
            yield (a,) + r


def sexprs(size, atoms):
    """Every s-expression with exactly `size` nodes (an atom is one node, a list one plus its parts)."""
    memo = {}

    def go(s):
        if s not in memo:
            out = list(atoms) if s == 1 else []
            for n in range(0, s):
                for split in compositions(s - 1, n) if n else ([()] if s == 1 else []):
                    for fill in itertools.product(*[go(k) for k in split]):
                        out.append("(%s)" % " ".join(fill))
            memo[s] = out
        return memo[s]
    return go(size)

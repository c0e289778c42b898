"""Patterns and templates of syntax-case, by definition."""
from . import ref
from .ref import NIL, Pair, S, Sym, Vec, lst, unl

DOTS, WILD = S("..."), S("_")


class NoMatch(Exception):
    pass


class BadTemplate(Exception):
    """The template is not valid for its pattern variables."""


class BadLength(Exception):
    """Sequences of different lengths under one ellipsis."""


def pvars(p, lits=(), depth=0):
    """Pattern variables with their ellipsis depths, left to right."""
    if type(p) is Sym:
        return [] if p in lits or p is WILD or p is DOTS else [(p, depth)]
    if type(p) is Pair:
        if type(p.d) is Pair and p.d.a is DOTS:
            return pvars(p.a, lits, depth + 1) + pvars(p.d.d, lits, depth)
        return pvars(p.a, lits, depth) + pvars(p.d, lits, depth)
    if type(p) is Vec:
        return pvars(lst(p.v), lits, depth)
    return []


def match(p, x, lits=(), b=None):
    """Bindings of the pattern variables; a variable under an ellipsis is bound to a Python list."""
    if b is None:
        b = {}
    if type(p) is Sym:
        if p in lits:
            if x is not p:
                raise NoMatch
        elif p is not WILD:
            b[p] = x
    elif type(p) is Pair:
        if type(p.d) is Pair and p.d.a is DOTS:
            rest, need = p.d.d, 0
            while type(rest) is Pair:
                rest, need = rest.d, need + 1
            items, y = [], x
            while type(y) is Pair:
                items.append(y.a)
                y = y.d
            n = len(items) - need
            if n < 0:
                raise NoMatch
            got = []
            for it in items[:n]:
                got.append(match(p.a, it, lits, {}))
            for v, _ in pvars(p.a, lits):
                b[v] = [g[v] for g in got]
            for _ in range(n):
                x = x.d
            match(p.d.d, x, lits, b)
        else:
            if type(x) is not Pair:
                raise NoMatch
            match(p.a, x.a, lits, b)
            match(p.d, x.d, lits, b)
    elif type(p) is Vec:
        if type(x) is not Vec:
            raise NoMatch
        match(lst(p.v), lst(x.v), lits, b)
    elif not ref.eqp(p, x):
        raise NoMatch
    return b


def tvars(t, depths):
    if type(t) is Sym:
        return [t] if t in depths else []
    if type(t) is Pair:
        return tvars(t.a, depths) + tvars(t.d, depths)
    if type(t) is Vec:
        return tvars(lst(t.v), depths)
    return []


def check(t, depths, depth=0):
    """Is the template valid: enough ellipses over every variable, a sequence to follow under each."""
    if type(t) is Sym:
        if t in depths and depths[t] > depth:
            raise BadTemplate("missing ellipses")
    elif type(t) is Pair:
        if type(t.d) is Pair and t.d.a is DOTS:
            if not any(depths[v] > depth for v in tvars(t.a, depths)):
                raise BadTemplate("too many ellipses")
            check(t.a, depths, depth + 1)
            check(t.d.d, depths, depth)
        else:
            check(t.a, depths, depth)
            check(t.d, depths, depth)
    elif type(t) is Vec:
        check(lst(t.v), depths, depth)


def subst(t, b, depths):
    """depths: how many levels of sequence each variable still has."""
    if type(t) is Sym:
        return b[t] if t in depths else t
    if type(t) is Pair:
        if type(t.d) is Pair and t.d.a is DOTS:
            vs = list(dict.fromkeys(v for v in tvars(t.a, depths) if depths[v] > 0))
            ns = {len(b[v]) for v in vs}
            if len(ns) != 1:
                raise BadLength
            out = []
            for i in range(ns.pop()):
                b2, d2 = dict(b), dict(depths)
                for v in vs:
                    b2[v], d2[v] = b[v][i], depths[v] - 1
                out.append(subst(t.a, b2, d2))
            return lst(out, subst(t.d.d, b, depths))
        return Pair(subst(t.a, b, depths), subst(t.d, b, depths))
    if type(t) is Vec:
        return Vec(unl(subst(lst(t.v), b, depths)))
    return t


# ---------------------------------------------------------------- programs with macros

from . import lib          # noqa: E402
from .ref import StaticError, Unspecified          # noqa: E402

SYNTAX, STXCASE, STXRULES, LETSTX = S("syntax"), S("syntax-case"), S("syntax-rules"), S("let-syntaxes")
DEFSTX, DEFSTXS, WITHSTX, LAMBDA, ANDMAP = S("define-syntax"), S("define-syntaxes"), S("with-syntax"), S("lambda"), S("andmap")


class Macro:
    """A transformer: clauses of (pattern, fender or None, template)."""

    def __init__(self, lits, clauses):
        self.lits, self.clauses = lits, clauses

    @staticmethod
    def parse(x):
        """From (syntax-rules ...) or (lambda (stx) (syntax-case stx ...))."""
        xs = unl(x)
        if xs and xs[0] is STXRULES:
            lits = unl(xs[1])
            out = []
            for c in xs[2:]:
                p, t = unl(c)
                out.append((Pair(WILD, p.d), None, lst([SYNTAX, t])))
            return Macro(lits, out)
        if xs and xs[0] is LAMBDA and len(xs) == 3:
            b = unl(xs[2])
            if b and b[0] is STXCASE:
                out = []
                for c in b[3:]:
                    c = unl(c)
                    out.append((c[0], c[1] if len(c) == 3 else None, c[-1]))
                return Macro(unl(b[2]), out)
        raise Unspecified("transformer")

    def expand(self, x):
        for p, f, t in self.clauses:
            try:
                b = match(p, x, self.lits)
            except NoMatch:
                continue
            d = dict(pvars(p, self.lits))
            if f is not None and not self.truth(f, b, d):
                continue
            return self.build(t, b, d)
        raise StaticError("no clause matches")

    def truth(self, f, b, d):
        xs = unl(f)
        if xs[0] is S("not"):
            return not self.truth(xs[1], b, d)
        if xs[0] is S("identifier?"):
            return type(self.build(xs[1], b, d)) is Sym
        if xs[0] is ANDMAP and xs[1] is S("identifier?"):
            return all(type(v) is Sym for v in unl(self.build(unl(xs[2])[1], b, d)))
        raise Unspecified("fender")

    def build(self, t, b, d):
        xs = unl(t)
        if xs and xs[0] is SYNTAX:
            try:
                check(xs[1], d)
            except BadTemplate:
                raise StaticError("template")
            return subst(xs[1], b, d)
        if xs and xs[0] is WITHSTX:
            b2, d2 = dict(b), dict(d)
            for c in unl(xs[1]):
                p, e = unl(c)
                try:
                    b2.update(match(p, self.build(e, b, d), []))
                except NoMatch:
                    raise StaticError("with-syntax")
                d2.update(pvars(p))
            return self.build(xs[-1], b2, d2)
        raise Unspecified("template expression")


def mentions(x, out=None):
    out = set() if out is None else out
    if type(x) is Sym:
        out.add(x)
    elif type(x) is Pair:
        mentions(x.a, out)
        mentions(x.d, out)
    elif type(x) is Vec:
        mentions(lst(x.v), out)
    return out


class MacroMachine(lib.LibMachine):
    """Macro uses are rewritten by the innermost binding of their name, then evaluated."""
    def __init__(self, fuel=20000):
        lib.LibMachine.__init__(self, fuel)
        self.frames = [{}]
        self.steps = 300

    def macro(self, n):
        for f in reversed(self.frames):
            if n in f:
                return f[n]
        return None

    def head(self, x, scope):
        """x with macro uses at its head rewritten."""
        while True:
            n = x.a if type(x) is Pair else x
            m = self.macro(n) if type(n) is Sym else None
            if m is None:
                return x
            if scope is not None and self.find(n, scope) is not None or self.tenv.d.get(n.n) is not None:
                raise Unspecified("a variable named like a macro")
            self.steps -= 1
            if self.steps < 0:
                raise Unspecified("endless expansion")
            x = m.expand(x)

    def comp(self, x, scope, tail):
        x = self.head(x, scope)
        if type(x) is Pair and x.a is LETSTX:
            xs = unl(x)
            if xs is None or len(xs) < 3:
                raise StaticError("let-syntaxes")
            self.frames.append({})
            try:
                for b in unl(xs[1]):
                    (ids, rhs) = unl(b)
                    (i,) = unl(ids)
                    self.frames[-1][i] = Macro.parse(rhs)
                return self.body(xs[2:], [[]] + (scope or []), tail)
            finally:
                self.frames.pop()
        return lib.LibMachine.comp(self, x, scope, tail)

    @staticmethod
    def syntax_definition(x):
        """(name, macro) of a define-syntax."""
        xs = unl(x)
        if xs is None or len(xs) < 3:
            raise StaticError("define-syntax")
        if x.a is DEFSTX and type(xs[1]) is Pair:
            return xs[1].a, Macro.parse(lst([LAMBDA, xs[1].d] + xs[2:]))
        if len(xs) != 3:
            raise StaticError("define-syntax")
        n = xs[1] if x.a is DEFSTX else unl(xs[1])[0]
        return n, Macro.parse(xs[2])

    def scan(self, xs, scope, frame):
        """Forms with their heads expanded, begins spliced and macro definitions entered into the frame."""
        out, late = [], []          # late: (position, name or names defined there)
        work = list(xs)
        while work:
            x = self.head(work.pop(0), scope)
            if type(x) is Pair and x.a is lib.BEGIN and x.d is not NIL:
                ys = unl(x)
                if ys is None:
                    raise StaticError("begin")
                work[:0] = ys[1:]
            elif type(x) is Pair and x.a in (DEFSTX, DEFSTXS):
                n, m = self.syntax_definition(x)
                if n in frame:
                    raise Unspecified("a macro defined twice") if scope is not None else StaticError("duplicate") 
                for y in out:
                    late.append((y, n))
                frame[n] = m
            else:
                out.append(x)
        return out, late

    def close(self, x):
        """Names an expression mentions, through the macros it may use."""
        seen, todo = set(), list(mentions(x))
        while todo:
            n = todo.pop()
            if n in seen:
                continue
            seen.add(n)
            m = self.macro(n)
            if m:
                for _, _, t in m.clauses:
                    todo += mentions(t)
        return seen

    def body(self, xs, scope, tail):
        frame = {}
        self.frames.append(frame)
        try:
            out, late = self.scan(xs, scope, frame)
            if frame:
                if not out:
                    raise StaticError("body without an expression")
                for y, n in late:
                    if n in self.close(y):
                        raise Unspecified("a macro used before its definition in a body")
                # definitions before a macro do not see the variables after it
                seen, names = set(), []
                for y in out:
                    if type(y) is Pair and y.a in (lib.DEFINE, lib.DEFVALS):
                        d = lib.definition(y) if y.a is lib.DEFINE else y
                        names.append((y, set(unl(d.d.a))))
                for y, n in late:
                    after = set()
                    for z, ids in names:
                        if (z, n) not in late and not any(z is w and n is k for w, k in late):
                            after |= ids
                    if after & self.close(y):
                        raise Unspecified("a variable used before a macro and defined after it")
                x = xs[-1]
                x = self.head(x, scope)
                if type(x) is Pair and x.a in (DEFSTX, DEFSTXS):
                    raise StaticError("body ends with a definition")
            return lib.LibMachine.body(self, out, scope, tail)
        finally:
            self.frames.pop()

    def eval_repl(self, x):
        x = self.head(x, None)
        frame = {}
        self.frames.append(frame)
        out, late = self.scan([x], None, frame)
        self.frames.pop()
        self.frames[0].update(frame)
        for y, n in late:
            if not (type(y) is Pair and y.a in (lib.DEFINE, lib.DEFVALS)) and n in self.close(y):
                raise Unspecified("a macro used before its definition")
        # definitions of this form are in scope everywhere in it
        defs, ids = [], []
        for y in out:
            if type(y) is Pair and y.a is lib.DEFINE:
                y = lib.definition(y)
            if type(y) is Pair and y.a is lib.DEFVALS:
                ys = unl(y)
                if ys is None or len(ys) != 3:
                    raise StaticError("define-values")
                new = ref.ids_of(ys[1])
                if set(new) & set(ids):
                    raise StaticError("duplicate definition")
                ids += new
                defs.append((new, ys[2]))
            else:
                defs.append((None, y))
        for i in ids:
            if self.tenv.d.get(i.n) is None:
                self.tenv.d[i.n] = [lib.PENDING]
        code = [(n, self.comp(e, [], False)) for n, e in defs]
        for i in ids:
            if self.tenv.d[i.n][0] is lib.PENDING:
                del self.tenv.d[i.n]
        v = ref.VOID
        for n, f in code:
            v = f(None)
            if n is not None:
                vs = v.v if type(v) is ref.Values else [v]
                if len(vs) != len(n):
                    self.cerror("result arity")
                for i, val in zip(n, vs):
                    self.name(i, val)
                    self.tenv.d[i.n] = [val]
                v = ref.VOID
        return v


class Runner:
    """run_counted with macros predefined."""

    def __init__(self, definitions):
        self.prelude = {}
        for x in ref.parse_all(definitions):
            n, m = MacroMachine.syntax_definition(x)
            self.prelude[n.n] = m
        self.text = definitions

    def __reduce__(self):
        return cached, (self.text,)

    def __call__(self, program, fuel=20000):
        m = MacroMachine(fuel)
        m.frames[0].update((S(n), k) for n, k in self.prelude.items())
        try:
            k, v = m.repl(program)
        except Unspecified as u:
            return None, str(u), fuel - m.fuel
        return (k, v, m.stdout()), None, fuel - m.fuel


_runners = {}


def cached(text):
    if text not in _runners:
        _runners[text] = Runner(text)
    return _runners[text]

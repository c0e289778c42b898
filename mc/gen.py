"""Bounded exhaustive generators of core programs."""
import functools, re


class Core:
    """All well-scoped core expressions of a given size.

    Constants are written K and numbered left to right afterwards, so that every
    constant of a program is distinguishable; (p K) prints its argument.
    naming: "fresh" gives every binder its own name, "shadow" reuses one name.
    """

    def __init__(self, forms, naming="fresh", atoms=("K", "#f", "(p K)"), maxvars=4):
        self.forms, self.naming, self.atoms, self.maxvars = set(forms), naming, atoms, maxvars
        self.memo = {}

    def var(self, i):
        return "x%d" % i if self.naming == "fresh" else "xy"[i % 2] if self.naming == "mod2" else "x"

    def scope(self, n):
        return list(dict.fromkeys(self.var(i) for i in range(n)))

    def exprs(self, size, n):
        key = (size, n)
        if key not in self.memo:
            self.memo[key] = list(self._exprs(size, n))
        return self.memo[key]

    def procs(self, size, n):
        """Expressions allowed in operator position."""
        key = ("p", size, n)
        if key not in self.memo:
            out = []
            if size == 1:
                out += self.scope(n)
            out += list(self.lambdas(size, n))
            self.memo[key] = out
        return self.memo[key]

    def lambdas(self, size, n):
        f = self.forms
        if size < 2:
            return
        for k in (0, 1, 2):
            if "lambda%d" % k in f and n + k <= self.maxvars:
                vs = [self.var(n + i) for i in range(k)]
                if len(set(vs)) < k:
                    continue
                for b in self.exprs(size - 1, n + k):
                    yield "(lambda (%s) %s)" % (" ".join(vs), b)
        if "rest" in f and n < self.maxvars:
            for b in self.exprs(size - 1, n + 1):
                yield "(lambda %s %s)" % (self.var(n), b)
        if "rest1" in f and n + 1 < self.maxvars:
            v, w = self.var(n), self.var(n + 1)
            if v != w:
                for b in self.exprs(size - 1, n + 2):
                    yield "(lambda (%s . %s) %s)" % (v, w, b)
        if "case-lambda" in f and n + 1 <= self.maxvars and size >= 3:
            v = self.var(n)
            for a in range(1, size - 1):
                for b0 in self.exprs(a, n):
                    for b1 in self.exprs(size - 1 - a, n + 1):
                        yield "(case-lambda [() %s] [(%s) %s])" % (b0, v, b1)

    def pairs(self, total, n, g1, g2, n2=None):
        for a in range(1, total):
            for x in g1(a, n):
                for y in g2(total - a, n if n2 is None else n2):
                    yield x, y

    def _exprs(self, size, n):
        f = self.forms
        if size == 1:
            yield from self.atoms
            yield from self.scope(n)
            return
        yield from self.lambdas(size, n)
        E = self.exprs
        s = size - 1
        if "set!" in f:
            for v in self.scope(n):
                for e in E(s, n):
                    yield "(set! %s %s)" % (v, e)
        if "call0" in f:
            for p in self.procs(s, n):
                yield "(%s)" % p
        if s >= 2:
            if "call1" in f:
                for p, a in self.pairs(s, n, self.procs, E):
                    yield "(%s %s)" % (p, a)
            if "begin" in f:
                for a, b in self.pairs(s, n, E, E):
                    yield "(begin %s %s)" % (a, b)
            if "list" in f:
                for a, b in self.pairs(s, n, E, E):
                    yield "(list %s %s)" % (a, b)
            if "values" in f:
                for a, b in self.pairs(s, n, E, E):
                    yield "(values %s %s)" % (a, b)
            if n < self.maxvars:
                v = self.var(n)
                if "let1" in f:
                    for a, b in self.pairs(s, n, E, E, n + 1):
                        yield "(let-values ([(%s) %s]) %s)" % (v, a, b)
                if "letrec1" in f:
                    for a in range(1, s):
                        for x in E(a, n + 1):
                            for y in E(s - a, n + 1):
                                yield "(letrec-values ([(%s) %s]) %s)" % (v, x, y)
                if n + 1 < self.maxvars and self.var(n + 1) != v:
                    w = self.var(n + 1)
                    if "letv" in f:
                        for a, b in self.pairs(s, n, E, E, n + 2):
                            yield "(let-values ([(%s %s) %s]) %s)" % (v, w, a, b)
                    if "letrecv" in f:
                        for a in range(1, s):
                            for x in E(a, n + 2):
                                for y in E(s - a, n + 2):
                                    yield "(letrec-values ([(%s %s) %s]) %s)" % (v, w, x, y)
            if "cwv" in f:
                for a in range(1, s):
                    for x in self.procs(a, n):
                        for y in self.procs(s - a, n) + (["list"] if s - a == 1 else []):
                            yield "(call-with-values %s %s)" % (x, y)
        if s >= 3:
            if "if" in f:
                for a in range(1, s - 1):
                    for x in E(a, n):
                        for b in range(1, s - a):
                            for y in E(b, n):
                                for z in E(s - a - b, n):
                                    yield "(if %s %s %s)" % (x, y, z)
            if "call2" in f:
                for a in range(1, s - 1):
                    for x in self.procs(a, n):
                        for b in range(1, s - a):
                            for y in E(b, n):
                                for z in E(s - a - b, n):
                                    yield "(%s %s %s)" % (x, y, z)
            if "let2" in f and n + 1 < self.maxvars and self.var(n + 1) != self.var(n):
                v, w = self.var(n), self.var(n + 1)
                for a in range(1, s - 1):
                    for x in E(a, n):
                        for b in range(1, s - a):
                            for y in E(b, n):
                                for z in E(s - a - b, n + 2):
                                    yield "(let-values ([(%s) %s] [(%s) %s]) %s)" % (v, x, w, y, z)
            if "letrec2" in f and n + 1 < self.maxvars and self.var(n + 1) != self.var(n):
                v, w = self.var(n), self.var(n + 1)
                for a in range(1, s - 1):
                    for x in E(a, n + 2):
                        for b in range(1, s - a):
                            for y in E(b, n + 2):
                                for z in E(s - a - b, n + 2):
                                    yield "(letrec-values ([(%s) %s] [(%s) %s]) %s)" % (v, x, w, y, z)

    def programs(self, size, n=0):
        for e in self.exprs(size, n):
            yield number(e)

    def upto(self, size):
        for s in range(1, size + 1):
            yield from self.programs(s)


_K = re.compile(r"\bK\b")


def number(e):
    k = iter(range(1, 1000))
    return _K.sub(lambda m: str(next(k)), e)


PRE = "(define-values (p) (lambda (n) (begin (display n) n))) "


def histories(init, ops, obs, depth, last=None):
    """Every sequence of depth operations; obs is evaluated after each one.

    last: operations that may only come at the end (those that end the program).
    """
    import itertools
    for t in itertools.product(ops, repeat=depth):
        yield init + "".join(" %s %s" % (o, obs) for o in t)
    if last:
        for t in itertools.product(ops, repeat=depth - 1):
            pre = init + "".join(" %s %s" % (o, obs) for o in t)
            for o in last:
                yield pre + " %s %s" % (o, obs)

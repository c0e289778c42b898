"""P24: modules: every module of a program is evaluated once, after what it imports, and shares exactly what it exports."""
import itertools, os, shutil
from mc import driver, ref
from mc.check import pmap

FILES = {"m": "main.min", "a": "a.min", "b": "lib/b.min", "c": "lib/sub/c.min", "d": "d.min", "r": "lib/r.min"}


def rel(m, d):
    return os.path.relpath(FILES[d], os.path.dirname(FILES[m]) or ".")


class Program:
    """A set of modules: imports (ordered), export policy and faults per module."""

    def __init__(self, imports, policy, own=(), faults=None, roots=("m",), absolute=(), spell=None):
        self.imports, self.policy, self.own, self.faults, self.roots = imports, policy, own, faults or {}, roots
        self.absolute, self.spell = absolute, spell or {}

    def spelled(self, m, d, root):
        r = rel(m, d)
        h, t = os.path.split(r)
        return [r, "./" + r, os.path.relpath(root + "/lib", os.path.dirname(os.path.join(root, FILES[m]))) + "/../" + FILES[d], os.path.join(h, ".", "", t) if h else ".//./" + t, root + "/lib/./sub/..//../" + FILES[d]][self.spell.get((m, d), 0)]

    # names exported by a module: own and re-exported
    def exports(self, m):
        p = self.policy[m]
        own = ["%s-val" % m, "%s-bump" % m, "%s-fn" % m, "%s-mac" % m]
        out = {0: own, 1: own, 2: own[:1], 3: own, 4: [], 5: []}[p]
        more = {1: self.imports[m][:1], 3: self.imports[m], 5: self.imports[m]}.get(p, [])
        for d in more:
            out = out + self.exports(d)
        return list(dict.fromkeys(out))

    def visible(self, m):
        return list(dict.fromkeys(x for d in self.imports[m] for x in self.exports(d)))

    def body(self, m):
        vis = self.visible(m)
        vals, bumps, fns, macs = [[x for x in vis if x.endswith(k)] for k in ("-val", "-bump", "-fn", "-mac")]
        fs = ['(display "<%s>")' % m]
        if m in self.own and vals:      # an own definition takes the place of an imported one
            fs += ["(define-values (%s) (list 'mine '%s))" % (vals[0], m)]
        fs += ["(define-values (%s-val) (list '%s %s))" % (m, m, " ".join(vals)), "(define-values (n) 0)",
               "(define-values (%s-bump) (lambda () (begin (set! n (add1 n)) (list '%s n))))" % (m, m),
               "(define-values (helper) (lambda (x) (cons '%s x)))" % m, "(define-values (%s-fn) (lambda (x) (helper x)))" % m,
               "(define-syntaxes (%s-mac) (lambda (stx) (datum->syntax (list 'quote (list '%s (car (cdr (syntax->list stx))))))))" % (m, m),
               "%s-val" % m]
        fs += ["(%s)" % b for b in bumps]
        fs += ["(list %s)" % " ".join(["(%s '())" % f for f in fns] + ["(%s (q %s))" % (k, m) for k in macs] + ["(helper '())"])]
        if vals and self.policy[m] in (0, 2, 4):    # an assignment concerns this module's copy only
            fs += ["(set! %s 'changed)" % vals[-1], "(list %s)" % " ".join(vals)]
        fs += ["(values n (void) '%s)" % m]
        return fs

    def text(self, m, root):
        head = []
        rel = lambda m, d: os.path.join(root, FILES[d]) if d in self.absolute else self.spelled(m, d, root)
        ims = [rel(m, d) for d in self.imports[m]]
        f = self.faults.get(m)
        if f and f[0] == "import":
            ims = ims[:f[2]] + [f[1]] + ims[f[2]:]
        ims = [x if type(x) is tuple else '"%s"' % x for x in ims]
        ims = [x[0] if type(x) is tuple else x for x in ims]
        if len(ims) > 1 and (len(m) + len(ims)) % 2:
            head += ["(import %s)" % x for x in ims]
        elif ims:
            head += ["(import %s)" % " ".join(ims)]
        p = self.policy[m]
        own = ["%s-%s" % (m, k) for k in ("val", "bump", "fn", "mac")]
        ex = {0: own, 1: own, 2: own[:1], 3: own, 4: [], 5: []}[p]
        ex = ex + ['(all "%s")' % rel(m, d) for d in {1: self.imports[m][:1], 3: self.imports[m], 5: self.imports[m]}.get(p, [])]
        if f and f[0] == "export":
            ex.append(f[1])
        body = self.body(m)
        if f and f[0] == "body":
            body = body[:f[2]] + [f[1]] + body[f[2]:]
        exs = ["(export %s)" % " ".join(ex)] if ex else []
        # exports may come anywhere after the imports they mention
        if len(self.imports[m]) % 2:
            body = body[:2] + exs + body[2:]
        else:
            body = exs + body
        return "\n".join(head + body) + "\n"

    # the same program written with environments
    def model(self, root_dir):
        out = ["(define-values (show) (lambda r (for-each (lambda (x) (if (void? x) (void) (begin (write x) (newline)))) r)))"]
        done = []

        def load(m, chain=()):
            if m in chain:
                out.append("(error 'import \"import cycle\" \"%s/%s\")" % (root_dir, FILES[m]))
                return False
            if m in done:
                return True
            f = self.faults.get(m)
            ims = list(self.imports[m])
            for i in range(len(ims) + 1):
                if f and f[0] == "import" and f[2] == i:
                    if type(f[1]) is tuple:
                        out.append(f[1][1])
                    else:
                        out.append("(open-input-file \"%s/%s\")" % (root_dir, os.path.join(os.path.dirname(FILES[m]), f[1])))
                    return False
                if i < len(ims) and not load(ims[i], chain + (m,)):
                    return False
            if f and f[0] == "export" and f[2]:
                out.append(f[2])
                return False
            if f and f[0] == "body" and f[3]:
                out.append('(begin (display "%s/%s%s") (exit 1))' % (root_dir, FILES[m], f[3].replace("\n", "\\n")))
                return False
            E = "E" + m
            out.append("(define-values (%s) (make-base-environment))" % E)
            for d in self.imports[m]:
                for x in self.exports(d):
                    if not x.endswith("-mac"):
                        out.append("(environment-set! %s '%s (environment-ref E%s '%s))" % (E, x, d, x))
            body = self.body(m)
            if f and f[0] == "body":
                body = body[:f[2]] + [f[1]] + body[f[2]:]
            for x in body:
                if "define-syntaxes" in x:
                    continue
                for k in FILES:
                    x = x.replace("(%s-mac " % k, "(list '%s '" % k)
                out.append("(call-with-values (lambda () (eval '%s %s)) show)" % (x, E))
            if f and f[0] == "export":
                out.append("(error 'export \"undefined export\" '%s)" % f[1])
                return False
            done.append(m)
            return True
        for r in self.roots:
            if not load(r):
                break
        return " ".join(out)


def _model(a):
    p, d = a
    return ref.run_full(p.model(d))


def graphs(nodes):
    """Every acyclic import structure over the nodes: each imports an ordered selection of later ones; all are reached."""
    def orders(xs):
        return [list(t) for k in range(len(xs) + 1) for t in itertools.permutations(xs, k)]
    for pick in itertools.product(*[orders(nodes[i + 1:]) for i in range(len(nodes))]):
        g = dict(zip(nodes, pick))
        seen, todo = set(), [nodes[0]]
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                todo += g[x]
        if len(seen) == len(nodes):
            yield g


def cyclic(nodes, most):
    """Every import structure over the nodes that has a cycle; all modules are reached."""
    def opts():
        return [list(t) for k in range(most + 1) for t in itertools.permutations(nodes, k)]

    def reach(g, x):
        seen, todo = set(), list(g[x])
        while todo:
            y = todo.pop()
            if y not in seen:
                seen.add(y)
                todo += g[y]
        return seen
    for pick in itertools.product(*[opts() for _ in nodes]):
        g = dict(zip(nodes, pick))
        if len(reach(g, nodes[0]) | {nodes[0]}) == len(nodes) and any(x in reach(g, x) for x in g):
            yield g


def check(c, name, progs):
    progs = list(progs)
    base = os.path.join(driver.scratch(), "mods")
    try:
        cases = []
        for i, p in enumerate(progs):
            d = os.path.join(base, "p%d" % i)
            os.makedirs(os.path.join(d, "lib", "sub"))
            for m in p.imports:
                with open(os.path.join(d, FILES[m]), "w") as fh:
                    fh.write(p.text(m, d))
            cases.append("(begin %s)" % " ".join('(import "%s/%s")' % (d, FILES[r]) for r in p.roots))
        res = pmap(_model, [(p, os.path.join(base, "p%d" % i)) for i, p in enumerate(progs)])
        c.transitions += sum(n for _, _, n in res)
        exp = [r for r, _, _ in res]
        for e, p, (_, why, _) in zip(exp, progs, res):
            if e is None:
                raise RuntimeError("model undefined: %s\n%s" % (why, p.model("D")))

        def same(e, r):
            if e[0] == "V":
                return r.k == "V" and r.out == e[2] and r.err == ""
            out = r.out[:r.out.index("\n  at: ") + 1] if "unknown variable" in r.out and "\n  at: " in r.out else r.out
            return (r.k, r.v, out) == e[:3] and (r.err == e[3] if e[3] is not None else r.err != "")
        texts = {cs: "\n".join("--- %s\n%s" % (FILES[m], p.text(m, "ROOT")) for m in p.imports) for cs, p in zip(cases, progs)}
        n = len(c.violations)
        c.diff(name, cases, expect=exp, args=["--boot", "--timeout", "15000"], same=same)
        if progs and len(c.samples) < 30:
            c.samples.append({"modules": texts[cases[len(cases) // 2]][:1500]})
        for v in c.violations[n:n + 1]:
            print(texts.get(v, "")[:3000])
    finally:
        shutil.rmtree(os.path.dirname(base))


FAULTS = [("import", "missing.min", 0), ("import", "missing.min", 1), ("import", ("5", '(raise-syntax-error \'import "bad import syntax" (quote-syntax (import 5)) (quote-syntax 5))'), 0),
          ("export", "nothing", None), ("export", "helper2", None),
          ("body", "(car 'x)", 3, None), ("body", "(n n)", 5, None), ("body", "(exit 4)", 4, None), ("body", "hidden-name", 6, ": unknown variable `hidden-name`\n"),
          ("body", "(lambda () (list other))", 3, ": unknown variable `other`\n"), ("body", "(list later-name)", 2, None), ("body", "helper", 3, None)]


BADIMPORT = [("import", (x, "(raise-syntax-error 'import \"bad import syntax\" (quote-syntax (import %s)) (quote-syntax %s))" % (x, x)), 0) for x in ("5", "name", "(a b)", "#t", "()")]
BADEXPORT = [("export", x, "(raise-syntax-error 'export \"bad export syntax\" (quote-syntax %s))" % x) for x in ("5", "\"x\"", "(x y)", "(all)", "(all \"nowhere.min\")", "(all 5)", "(all \"a.min\" \"a.min\")", "(all . \"a.min\")", "()", "#\\a")]


def run(c):
    three = list(graphs("mac"))
    four = list(graphs("mabc"))
    pol = (0, 1, 2, 3, 4, 5)
    # every structure of three modules with every export policy
    check(c, "three modules, every export policy", [Program(g, dict(zip(g, (0,) + t))) for g in three for t in itertools.product(pol, repeat=2)])
    # every structure of four
    check(c, "four modules", [Program(g, dict(zip(g, (0,) + t))) for g in four for t in itertools.product(c.q((0, 3), pol), repeat=3)])
    check(c, "own definitions", [Program(g, {x: 0 if x in o else 3 for x in g}, own=o) for g in four[::c.q(2, 1)] for k in range(1, c.q(2, 3)) for o in itertools.combinations("mab", k)])
    if c.thorough:
        check(c, "five modules", [Program(g, {x: p for x in g}) for g in graphs("mabcd") for p in (0, 3)])
    # a module that needs itself
    ps = [Program(g, {x: 0 for x in g}) for g in itertools.chain(cyclic("m", 1), cyclic("ma", 2), cyclic("mac", c.q(2, 3)))]
    ps += [Program(g, {x: 0 for x in g}, roots=r) for g in cyclic("ma", 2) for r in ("am", "mm")]
    for g in list(cyclic("ma", 1)) + list(cyclic("mac", 1)):
        edges = [(m, d) for m in g for d in g[m]]
        ps += [Program(g, {x: 0 for x in g}, spell=dict(zip(edges, t))) for t in itertools.product(range(1, 5), repeat=len(edges))]
    check(c, "import cycles", ps)
    # one thing wrong in one module
    ps = []
    for g in four if c.thorough else four[::8] + three:
        for m in g:
            for f in FAULTS:
                if f[0] == "import" and type(f[1]) is tuple and g[m]:
                    continue
                if f[0] == "import" and f[2] > len(g[m]):
                    continue
                if f[1] == "(list later-name)":
                    continue
                ps.append(Program(g, {x: 3 for x in g}, faults={m: f}))
    check(c, "one fault", ps)
    ps = [Program({"m": [], "a": []}, {"m": 0, "a": 0}, faults={x: f}, roots=r) for f in BADIMPORT + BADEXPORT for x, r in (("m", "m"), ("m", "am"), ("a", "am"))]
    ps += [Program({"m": ["a", "c"], "a": ["c"], "c": []}, {"m": 0, "a": 1, "c": 0}, faults={x: f}) for f in BADEXPORT for x in "mac"]
    check(c, "malformed imports and exports", ps)
    check(c, "absolute paths", [Program(g, {x: p for x in g}, absolute=a) for g in three + four[::c.q(6, 1)] for p in (0, 3) for k in (1, 2, 3) for a in itertools.combinations([x for x in g if x != 'm'], k)])
    # one module reached under different names
    ps = []
    for g in three + four[::c.q(9, 1)]:
        edges = [(m, d) for m in g for d in g[m]]
        for p in (3,) if not c.thorough else (0, 3):
            if len(edges) <= 3:
                ps += [Program(g, {x: p for x in g}, spell=dict(zip(edges, t))) for t in itertools.product(range(c.q(4, 5)), repeat=len(edges))]
            else:
                ps += [Program(g, {x: p for x in g}, spell={e: k, e2: k2}) for e, e2 in itertools.combinations(edges, 2) for k in range(1, 5) for k2 in range(1, 5)][::c.q(9, 1)]
    check(c, "paths spelled differently", ps)
    # a name that is not exported is unknown to the importer
    ps = []
    for g in three + four[::c.q(5, 1)]:
        for m in g:
            for d in g[m]:
                for x, pl in (("n", 3), ("helper", 3), ("%s-bump" % d, 2), ("%s-val" % d, 4)):
                    if x in ("n", "helper"):
                        continue
                    p = Program(g, {y: (pl if y == d else 2) for y in g})
                    if x in p.visible(m):
                        continue
                    p.faults = {m: ("body", x, 2, ": unknown variable `%s`\n" % x)}
                    ps.append(p)
    check(c, "names that are not exported", ps)
    # several imports in one process: what was evaluated stays
    ps = []
    for g in three:
        for ri in ([], ["c"], ["a"], ["m"], ["a", "c"], ["c", "a"], ["m", "c"]):
            g2 = dict(g)
            g2["r"] = ri
            for roots in (("m", "m"), ("m", "r"), ("r", "m"), ("c", "m", "r"), ("r", "c", "r"), ("a", "m", "r", "c")):
                ps.append(Program(g2, {x: 3 for x in g2}, roots=roots))
    check(c, "several roots", ps)
    c.assumptions += ["no two imported names collide unless they are the same export"]

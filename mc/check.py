"""Check framework: bookkeeping, comparison with the reference, replay, evidence."""
import collections, json, multiprocessing, os, sys, time, traceback

from . import build, driver, ref

VERIF = build.VERIF
MAXV = 3


def _ref1(p):
    return ref.run_counted(p)


_pool = None


def pool():
    global _pool
    if _pool is None:
        _pool = multiprocessing.get_context("fork").Pool(driver.NPROC)
    return _pool


def pmap(f, xs, chunk=None):
    xs = list(xs)
    if len(xs) < 200:
        return [f(x) for x in xs]
    return pool().map(f, xs, chunk or max(1, len(xs) // (driver.NPROC * 8)))


def known_findings():
    out = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln and not ln.startswith("#") and not ln.startswith("fixed:"):
                out.append(json.loads(ln))
    return out


class Check:
    def __init__(self, prop, tier, level="model_checking"):
        self.prop, self.tier, self.level = prop, tier, level
        self.t0 = time.time()
        self.tree = build.get()
        self.have = {"rel"}
        self.cases = self.transitions = self.skipped = self.impl = 0
        self.states = set()
        self.samples, self.groups, self.outcomes, self.assumptions = [], {}, {}, []
        self.violations = []
        self.known = [k for k in known_findings() if k["property"] == prop]
        self.known_seen = set()
        self.exhaustive = True
        self.extra = {}

    @property
    def thorough(self):
        return self.tier == "thorough"

    def q(self, quick, thorough):
        return thorough if self.thorough else quick

    def need(self, flavor):
        """Compile the tree in one more flavor."""
        if flavor not in self.have:
            build.get((flavor,))
            self.have.add(flavor)

    def group(self, name, n):
        self.groups[name] = self.groups.get(name, 0) + n

    def log(self, *a):
        print("[%6.1fs]" % (time.time() - self.t0), *a, flush=True)

    # -- violations --------------------------------------------------------
    def violation(self, key, what, replay):
        for k in self.known:
            if k["case"] == key:
                self.known_seen.add(key)
                return
        self.violations.append(key)
        if len(self.violations) > MAXV:
            return
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d.json" % (self.prop, len(self.violations)))
        with open(path, "w") as fh:
            json.dump({"property": self.prop, "case": key, "what": what, "replay": replay}, fh, indent=1, default=repr)
        print("  " + what[:1500].replace("\n", "\n  "))
        print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)

    # -- differential comparison ---------------------------------------------
    def diff(self, name, programs, flavor="rel", expect=None, args=(), canon=None, same=None, env=None, cwd=None):
        """Run every program on the reference and on the implementation.

        expect: list of (k, v, out) instead of the reference; None entries are skipped.
        canon(R) may rewrite the implementation result; same(exp, R) decides agreement.
        """
        if len(self.violations) >= MAXV:
            return
        programs = list(programs)
        if expect is None:
            res = pmap(_ref1, programs)
            exp, sk = [], 0
            for r, why, n in res:
                self.transitions += n
                exp.append(r)
            self.log("%s: reference done" % name)
        else:
            exp = expect
            self.transitions += len(programs)
        keep = [i for i, e in enumerate(exp) if e is not None]
        self.skipped += len(programs) - len(keep)
        sub = [programs[i] for i in keep]
        self.need(flavor)
        got = driver.run(self.tree, sub, flavor=flavor, args=args, env=env, cwd=cwd)
        self.impl += len(sub)
        self.group(name, len(sub))
        ok = same or (lambda e, r: (r.k, r.v, r.out) == e)
        bad, unanswered = [], 0
        for j, (i, r) in enumerate(zip(keep, got)):
            if r.k == "N":
                unanswered += 1
                continue
            if canon:
                r = canon(r)
            e = exp[i]
            self.states.add(hash((name, programs[i])) & 0xffffffffffff)
            if not ok(e, r):
                bad.append(j)
                if os.environ.get("MC_DEBUG"):
                    print("DIFF", sub[j], r, file=sys.stderr)
        if keep:
            for j in (0, len(keep) // 2, len(keep) - 1):
                if len(self.samples) < 40:
                    self.samples.append({"group": name, "program": sub[j][:600], "expected": str(exp[keep[j]])[:300]})
        kinds = collections.Counter(r.k for r in got)
        self.outcomes[name] = dict(kinds)
        self.log("%s: %d programs (%d unspecified, skipped), %d differ; outcomes %s" % (name, len(sub), len(programs) - len(sub), len(bad), " ".join("%s=%d" % x for x in sorted(kinds.items()))))
        if unanswered:
            self.extra["unanswered"] = self.extra.get("unanswered", 0) + unanswered
            if not bad:
                raise RuntimeError("%d cases unanswered" % unanswered)
        for j in bad[:40]:
            if len(self.violations) >= MAXV:
                self.violations.append(sub[j])
                continue
            self.confirm(name, sub, exp, keep, j, flavor, args, canon, ok, env, cwd)
        if len(bad) > 40:
            self.extra["more_differences"] = self.extra.get("more_differences", 0) + len(bad) - 40

    def confirm(self, name, sub, exp, keep, j, flavor, args, canon, ok, env, cwd):
        e = exp[keep[j]]
        for back in (0, 60, len(sub)):
            np = driver.shards(len(sub))
            part = sub[j % np:j + 1:np][-back - 1:]
            r = driver.run(self.tree, part, flavor=flavor, args=["--timeout", "12000"] + list(args), nproc=1, env=env, cwd=cwd)[-1]
            if canon:
                r = canon(r)
            if not ok(e, r):
                self.violation(sub[j], "%s: %s\nexpected %s\nobserved %r" % (name, sub[j], e, r),
                               {"kind": "driver", "programs": part, "flavor": flavor, "args": list(args), "expected": e})
                return
        self.extra["not_reproduced"] = self.extra.get("not_reproduced", 0) + 1
        self.log("not reproduced: %s" % sub[j][:200])

    def diff_err(self, name, programs, **kw):
        """diff, comparing what is written to the error port too."""
        res = pmap(ref.run_full, programs)
        self.transitions += sum(n for _, _, n in res)

        def same(e, r):
            return (r.k, r.v, r.out) == e[:3] and (r.err == e[3] if e[3] is not None else r.err != "")
        self.diff(name, programs, expect=[r for r, _, _ in res], same=same, **kw)

    # -- laws on implementation results only -----------------------------------
    def law(self, name, programs, good, flavor="rel", args=(), env=None, cwd=None):
        """good(R) -> True / message.  For properties that need no reference value."""
        programs = list(programs)
        self.diff(name, programs, flavor=flavor, expect=["law"] * len(programs), args=args,
                  same=lambda e, r: good(r) is True, env=env, cwd=cwd)

    # -- the end -----------------------------------------------------------------
    def finish(self):
        for k in self.known:
            if k["case"] in self.known_seen:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        cov = {"samples": self.samples[:12] or [{"note": "none"}], "groups": self.groups, "outcomes": self.outcomes,
               "skipped_unspecified": self.skipped, "exhaustive": self.exhaustive}
        if self.level == "model_checking":
            cov.update(states=len(self.states), transitions=self.transitions, traces_validated_against_impl=self.impl)
        else:
            cov.update(evaluations=self.impl, distinct_nontrivial=len(self.states),
                       rule=self.extra.pop("rule", "every case of the bounded space, distinct by text"))
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
              "level": self.level, "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        n = len(self.violations)
        self.log("%s %s: %d cases on the implementation, %d violations" % (self.prop, self.tier, self.impl, n))
        return 1 if n else 0


def replay(path):
    """Run a recorded violation again."""
    with open(path) as fh:
        r = json.load(fh)
    print(r["what"])
    x = r["replay"]
    if x.get("kind") == "driver":
        tree = build.get((x["flavor"],))
        print("now:", driver.run(tree, x["programs"], flavor=x["flavor"], args=x["args"], nproc=1)[-1])
    else:
        print(json.dumps(x, indent=1))


def main(argv):
    if len(argv) >= 2 and argv[0] == "--replay":
        replay(argv[1])
        return 0
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    import importlib
    sys.path.insert(0, os.path.join(VERIF, "checks"))
    try:
        mod = importlib.import_module(prop.lower())
        chk = Check(prop, tier, getattr(mod, "LEVEL", "model_checking"))
        mod.run(chk)
        rc = chk.finish()
    except Exception as x:
        traceback.print_exc()
        rc = 2
        how = getattr(x, "how", None)
        if how:
            out = driver.starts(chk.tree, how)
            if out:
                chk.violation("start", "the runtime does not start: %s" % out[:1500],
                              {"kind": "driver", "flavor": how[0], "programs": ["1"], "args": how[1]})
                rc = chk.finish()
        if rc == 2:
            print("CHECK-ERROR %s" % prop)
    finally:
        global _pool
        if _pool is not None:
            _pool.terminate()
    return rc

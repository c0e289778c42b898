"""Shared helpers of the check modules."""
from mc import driver

LIM = 40


def PUBLIC(c):
    """Names of the initial environment a program may refer to, as the implementation reports them."""
    r = driver.run(c.tree, ["(environment-symbols (make-base-environment))"])[0]
    v = [x.strip("|") for x in r.v.strip("()").split()]
    return sorted(x for x in v if not x.startswith("$"))


def accepts(v, lim=LIM):
    """The set of argument counts (below lim) an arity value stands for."""
    v = v.strip()
    if v.isdigit():
        return {int(v)}
    out, w = set(), v.strip("()").split()
    for i, x in enumerate(w):
        if x == ".":
            assert w[i + 1] == "#f"
            return out | set(range(int(w[i - 1]), lim))
        out.add(int(x))
    return out

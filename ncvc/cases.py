"""Back end for polynomial goals: split on the conditions of arithmetic if-then-else terms, bring every leaf to polynomial normal
form, then refute it with the products of unknowns treated as opaque (sound: whatever is refuted there is refuted)."""
import time
import z3


def find_cond(fs, done):
    """an if-then-else of arithmetic sort whose condition holds no further one"""
    seen = set()
    stack = list(fs)
    best = None
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            continue
        if z3.is_app_of(t, z3.Z3_OP_ITE) and not z3.is_bool(t):
            c = t.arg(0)
            sub = find_cond([c], done)
            return c if sub is None else sub
        stack.extend(t.children())
    return best


def leaf(fs, tmo):
    s = z3.SolverFor("ALL") if False else z3.Solver()
    s.set("timeout", int(tmo * 1000)); s.set("smt.arith.nl", False)
    s.add(*fs)
    if s.check() == z3.unsat:
        return True
    g = z3.Goal()
    g.add(*fs)
    try:
        t = z3.Then(z3.With("simplify", som=True), "propagate-values", z3.With("solve-eqs", solve_eqs_max_occs=100), z3.With("simplify", som=True))
        for sub in t(g):
            s = z3.Solver(); s.set("timeout", int(tmo * 1000)); s.set("smt.arith.nl", False)
            s.add(*[f for f in sub])
            if s.check() == z3.unsat:
                continue
            s = z3.Solver(); s.set("timeout", int(tmo * 1000))
            s.add(*[f for f in sub])
            if s.check() != z3.unsat:
                return False
        return True
    except z3.Z3Exception:
        return False


def refute(fs, budget=20.0, leaf_tmo=4.0):
    """True: the conjunction is unsatisfiable"""
    end = time.time() + budget

    def go(fs, depth):
        out = []
        for f in fs:
            f = z3.simplify(f, som=True)
            if z3.is_false(f):
                return True
            if not z3.is_true(f):
                out.append(f)
        if time.time() > end or depth > 40:
            return False
        c = find_cond(out, None)
        if c is None:
            return leaf(out, leaf_tmo)
        for v in (True, False):
            b = z3.BoolVal(v)
            nf = [z3.substitute(f, (c, b)) for f in out] + [c if v else z3.Not(c)]
            # prune cases that contradict a hypothesis
            if not go(nf, depth + 1):
                return False
        return True
    return go(list(fs), 0)

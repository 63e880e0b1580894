"""Discharge of proof obligations: z3 (API, forked workers), cvc5 as second opinion on `unknown`."""
import multiprocessing as mp
import os, time, tempfile, subprocess
import z3
from .exec import relevant

_ctx = {}


def one(i):
    ex, obls, tmo, second = _ctx["a"]
    o = obls[i]
    t0 = time.time()
    ax = relevant(ex.axioms, list(o.pc) + [o.goal])
    if ex.opts.get("abstract_strings"):
        from .abstr import Abs
        sa = z3.Solver()
        sa.set("timeout", int(tmo * 1000))
        try:
            sa.add(Abs().all(list(ax) + list(o.pc) + [z3.Not(o.goal)]))
            ra = sa.check()
        except ValueError:
            ra = None
        if ra == z3.unsat:
            return i, "unsat", "z3 (string operations uninterpreted)", time.time() - t0, None, len(ax)
    if ex.opts.get("case_split"):
        from . import cases
        try:
            if cases.refute(list(ax) + list(o.pc) + [z3.Not(o.goal)], tmo):
                return i, "unsat", "z3 (case split, polynomial normal form)", time.time() - t0, None, len(ax)
        except z3.Z3Exception:
            pass
    s = z3.Solver()
    s.set("timeout", int(tmo * 1000))
    s.set("random_seed", 7)
    s.add(*ax)
    s.add(*o.pc)
    s.add(z3.Not(o.goal))
    be = "z3"
    model = None
    if ex.opts.get("cvc5_first"):
        rr = cvc5_check(s, tmo, SIMP)
        if rr == "unsat":
            return i, "unsat", "cvc5", time.time() - t0, None, len(ax)
    r = s.check()
    if r == z3.unknown:
        # retry with a different tactic configuration
        s2 = z3.SolverFor("ALL") if False else z3.Solver()
        s2.set("timeout", int(tmo * 1000)); s2.set("random_seed", 99)
        s2.set("smt.arith.solver", 2)
        s2.add(*ax); s2.add(*o.pc); s2.add(z3.Not(o.goal))
        r = s2.check()
        be = "z3(arith2)"
        if r == z3.sat:
            s = s2
    if r == z3.unknown and second:
        rr = cvc5_check(s, tmo) or cvc5_check(s, tmo, SIMP)
        if rr:
            r = {"unsat": z3.unsat, "sat": z3.sat}[rr]
            be = "cvc5"
    if r == z3.sat and be != "cvc5":
        m = s.model()
        model = {}
        for d in m.decls():
            if d.arity() == 0:
                try:
                    model[d.name()] = str(m[d])[:400]
                except Exception:
                    pass
    return i, str(r), be, time.time() - t0, model, len(ax)


SIMP = ["--ite-simp", "--repeat-simp"]


def cvc5_check(s, tmo, flags=[]):
    txt = "(set-logic ALL)\n" + s.to_smt2()
    txt = txt.replace("(set-info :status unknown)", "")
    fd, p = tempfile.mkstemp(suffix=".smt2")
    try:
        os.write(fd, txt.encode()); os.close(fd)
        r = subprocess.run(["cvc5", "--strings-exp", "--tlimit=%d" % int(tmo * 1000), *flags, p], capture_output=True, text=True, timeout=tmo + 5)
        o = r.stdout.strip().split("\n")[0] if r.stdout else ""
        return o if o in ("sat", "unsat") else None
    except Exception:
        return None
    finally:
        os.unlink(p)


def discharge(ex, obls, timeout=20, jobs=8, second=True):
    if not obls:
        return
    _ctx["a"] = (ex, obls, timeout, second)
    if jobs <= 1 or len(obls) == 1:
        res = [one(i) for i in range(len(obls))]
    else:
        c = mp.get_context("fork")
        with c.Pool(min(jobs, len(obls))) as p:
            res = p.map(one, range(len(obls)), chunksize=1)
    for i, r, be, t, m, na in res:
        o = obls[i]
        o.result = {"unsat": "discharged", "sat": "failed", "unknown": "unknown"}[r]
        if r == "sat" and getattr(ex, "hd_unknown", None):
            o.result = "unknown"        # a loop invariant of the contract was lost to a solver time-out: no verdict
        o.backend = be; o.time = t; o.model = m


def sat_check(ex, fs, timeout=5000):
    """satisfiability of a path (non-vacuity): 'sat'/'unsat'/'unknown'"""
    s = z3.Solver(); s.set("timeout", timeout)
    s.add(*relevant(ex.axioms, fs)); s.add(*fs)
    return str(s.check())

"""Loop rule: unroll when the condition is decidable concretely, otherwise prove an inductive invariant.

The invariant is the largest inductive subset (Houdini) of
  * structural candidates (counters, iterator positions, lengths),
  * equalities between the loop's state and the specification's ghost fold at the iteration count,
  * invariants supplied by the contract.
Every candidate kept has been proved initially true and preserved by an arbitrary iteration of the real
loop body; nothing about the number of iterations is bounded."""
import time
import z3
from .values import *
from .types import Ty

I = z3.IntSort()
T, F_ = z3.BoolVal(True), z3.BoolVal(False)
MAX_UNROLL = 80


def simp(e):
    return z3.simplify(e)


class Ghost:
    """specification-side fold: F(0)=init, F(i+1)=step(F(i), elem(i))"""

    def __init__(self, ex, name, init, step, elem, bound=None, sticky=()):
        self.ex = ex; self.name = name; self.init = init; self.step = step; self.elem = elem; self.bound = bound
        self.cnt = 0
        self.fns = []
        self.sig = leafmap(lambda l: self._fn(l), init)
        self.done = set()
        self.sticky = sticky

    def _fn(self, l):
        f = z3.Function("%s_%d" % (self.name, len(self.fns)), I, l.sort())
        self.fns.append(f)
        return z3.Const("%s_sig%d" % (self.name, len(self.fns) - 1), l.sort())

    def at(self, i):
        i = i if z3.is_expr(i) else z3.IntVal(i)
        if z3.is_int_value(simp(i)) and simp(i).as_long() == 0:
            return self.init
        it = iter(self.fns)
        return leafmap(lambda l: next(it)(i), self.init)

    def leaves(self, i):
        out = []
        names = []
        leafmap(lambda l: out.append(l) or l, self.at(i))
        return out

    def unfold(self, i):
        """assume the defining equations at 0 and at i"""
        ex = self.ex
        key = str(i)
        if "init" not in self.done:
            self.done.add("init")
            it = iter(self.fns)
            leafmap(lambda l: ex.axioms.append(next(it)(z3.IntVal(0)) == l) or l, self.init)
        if key in self.done:
            return
        self.done.add(key)
        nxt = self.step(self.at(i), self.elem(i))
        it = iter(self.fns)
        leafmap(lambda l: ex.axioms.append(z3.Implies(i >= 0, next(it)(simp(i + 1)) == l)) or l, nxt)


class Hole(Exception):
    pass


def leaf_paths(v, path=(), guard=(), lifted=False):
    """yield (path, leaf, guards) of a tree; leaves lifted over an index (elements of sequences and maps) carry no further guards"""
    if v is None:
        return
    if isz(v):
        yield path, v, guard
    elif isinstance(v, Rec):
        for k, x in v.f.items():
            yield from leaf_paths(x, path + (k,), guard, lifted)
    elif isinstance(v, Opt):
        yield path + ("has",), v.has, guard
        yield from leaf_paths(v.v, path + ("val",), guard if lifted else guard + (v.has,), lifted)
    elif isinstance(v, Var):
        yield path + ("tag",), v.tag, guard
        for i, a in enumerate(v.alts):
            yield from leaf_paths(a, path + ("alt%d" % i,), guard if lifted else guard + (v.tag == i,), lifted)
    elif isinstance(v, Seq):
        yield path + ("len",), v.n, guard
        yield from leaf_paths(v.e, path + ("elem",), guard, True)
    elif isinstance(v, CSeq):
        for i, x in enumerate(v.xs):
            yield from leaf_paths(x, path + (i,), guard)
    elif isinstance(v, Map):
        yield path + ("dom",), v.dom, guard
        yield from leaf_paths(v.e, path + ("mval",), guard, True)
    elif isinstance(v, CMap):
        for i, (k, x, p) in enumerate(v.d):
            yield from leaf_paths(x, path + (i,), guard + (p,))
            yield path + (i, "present"), p, guard
    elif isinstance(v, It):
        yield path + ("idx",), v.i, guard
    elif isinstance(v, MIt):
        yield from leaf_paths(v.key, path + ("key",), guard + (z3.Not(v.end),))
        yield path + ("end",), v.end, guard
    elif isinstance(v, Ptr):
        yield path + ("null",), v.null, guard
    elif isinstance(v, Opaque) and isz(v.d):
        yield path + ("opq",), v.d, guard


def havoc(ex, before, after, rec, path=()):
    """value with every leaf that differs replaced by a fresh constant; rec collects (path,const,init)"""
    if before is after or tree_eq_syn(before, after):
        return before

    def fresh(b, a, p):
        if b is not None and b.get_id() in ex.loop_consts and (a is None or a.sort() == b.sort() or z3.is_int(a)):
            return b
        s = (b if b is not None else a).sort()
        if b is not None and a is not None and b.sort() != a.sort():
            if z3.is_arith(b) and z3.is_arith(a):
                s = z3.RealSort()
            else:
                raise Unsupported("loop changes the sort of a value")
        c = z3.Const(ex.fresh_name("L" + "_".join(str(x) for x in p)), s)
        ex.loop_consts[c.get_id()] = c
        rec.append((p, c, b))
        return c
    if isz(before) and isz(after):
        return fresh(before, after, path)
    if before is None or isinstance(before, Poison):
        if after is None or isinstance(after, Poison):
            return before
        if isinstance(before, Poison):
            return before
        # payload appears: unconstrained initial payload
        return leafmap(lambda a: fresh(None, a, path), after)
    if after is None:
        return leafmap(lambda b: fresh(b, None, path), before)
    if isinstance(after, Poison):
        return Poison("loop-carried poison: " + after.why)
    if isinstance(before, CSeq) and isinstance(after, CSeq) and len(before.xs) == len(after.xs):
        return CSeq([havoc(ex, b, a, rec, path + (i,)) for i, (b, a) in enumerate(zip(before.xs, after.xs))], before.t)
    if isinstance(before, CSeq) and isinstance(after, (CSeq, Seq)):
        a2 = after if isinstance(after, Seq) else to_seq(after)
        b2 = to_seq(before)
        if a2 is None:
            a2 = b2
        if a2 is None:
            raise Unsupported("sequence shapes in loop")
        if b2 is None:
            b2 = Seq(z3.IntVal(0), leafmap(lambda l: z3.K(I, default_leaf(ex, l.sort().range())), a2.e), before.t)
        rec.append(("seqconv", path, b2))
        out = Seq(fresh(b2.n, a2.n, path + ("len",)), leafmap2(lambda b, a: fresh(b, a, path + ("elem",)), b2.e, a2.e), before.t)
        return out
    if isinstance(before, Seq) and isinstance(after, CSeq):
        a2 = to_seq(after)
        if a2 is None:
            return Seq(fresh(before.n, z3.IntVal(0), path + ("len",)), leafmap(lambda b: fresh(b, None, path + ("elem",)), before.e), before.t)
        after = a2
    if isinstance(before, CMap) and isinstance(after, CMap):
        if len(before.d) == len(after.d) and all(tree_eq_syn(x[0], y[0]) for x, y in zip(before.d, after.d)):
            return CMap([(x[0], havoc(ex, x[1], y[1], rec, path + (i,)), havoc(ex, x[2], y[2], rec, path + (i, "present"))) for i, (x, y) in enumerate(zip(before.d, after.d))], before.kt, before.vt, before.kind)
        b2 = ex.to_map(before)
        a2 = ex.to_map(after)
        if b2.e is not None and before.d == []:
            pass
        return Map(fresh(b2.dom, a2.dom, path + ("dom",)), None if a2.e is None else leafmap2(lambda b, a: fresh(b, a, path + ("mval",)), b2.e, a2.e), before.kt, before.vt, before.kind)
    if isinstance(before, CMap) and isinstance(after, Map):
        b2 = ex.to_map(before)
        return Map(fresh(b2.dom, after.dom, path + ("dom",)), None if after.e is None else leafmap2(lambda b, a: fresh(b, a, path + ("mval",)), b2.e, after.e), before.kt, before.vt, before.kind)
    if isinstance(before, Map) and isinstance(after, CMap):
        after = ex.to_map(after)
    if type(before) is not type(after) and not (isinstance(before, MIt) and isinstance(after, MIt)):
        raise Unsupported("loop changes %s to %s" % (type(before).__name__, type(after).__name__))
    if isinstance(before, Rec):
        if before.f.keys() != after.f.keys():
            raise Unsupported("record shapes in loop")
        return Rec(before.t, {k: havoc(ex, before.f[k], after.f[k], rec, path + (k,)) for k in before.f})
    if isinstance(before, Opt):
        h = before.has if before.has.eq(after.has) else fresh(before.has, after.has, path + ("has",))
        if before.v is None and after.v is None:
            return Opt(h, None, before.t)
        return Opt(h, havoc(ex, before.v, after.v, rec, path + ("val",)), before.t)
    if isinstance(before, Var):
        tg = before.tag if before.tag.eq(after.tag) else fresh(before.tag, after.tag, path + ("tag",))
        return Var(tg, [havoc(ex, b, a, rec, path + ("alt%d" % i,)) if not (b is None and a is None) else None for i, (b, a) in enumerate(zip(before.alts, after.alts))], before.ts)
    if isinstance(before, Seq):
        n = before.n if before.n.eq(after.n) else fresh(before.n, after.n, path + ("len",))
        return Seq(n, leafmap2(lambda b, a: b if b.eq(a) else fresh(b, a, path + ("elem",)), before.e, after.e), before.t)
    if isinstance(before, Map):
        d = before.dom if before.dom.eq(after.dom) else fresh(before.dom, after.dom, path + ("dom",))
        e = None if before.e is None else leafmap2(lambda b, a: b if b.eq(a) else fresh(b, a, path + ("mval",)), before.e, after.e)
        return Map(d, e, before.kt, before.vt, before.kind)
    if isinstance(before, It):
        if not same_lval(before.c, after.c):
            raise Unsupported("loop moves an iterator to another container")
        return It(before.c, before.i if before.i.eq(after.i) else fresh(before.i, after.i, path + ("idx",)), before.rev)
    if isinstance(before, MIt):
        k = before.key if after.key is None or (before.key is not None and tree_eq_syn(before.key, after.key)) else (leafmap(lambda a: fresh(None, a, path + ("key",)), after.key) if before.key is None else havoc(ex, before.key, after.key, rec, path + ("key",)))
        e = before.end if before.end.eq(after.end) else fresh(before.end, after.end, path + ("end",))
        return MIt(before.c if before.c is not None else after.c, k, e)
    if isinstance(before, Ptr):
        if before.l is not None and after.l is not None and same_lval(before.l, after.l):
            return type(before)(before.l, fresh(before.null, after.null, path + ("null",)))
        raise Unsupported("loop-carried pointer")
    if isinstance(before, Opaque):
        if isz(before.d) and isz(after.d):
            return Opaque(before.t, fresh(before.d, after.d, path))
        return Opaque(before.t, None)
    raise Unsupported("loop-carried " + type(before).__name__)


def default_leaf(ex, s):
    if s == z3.BoolSort():
        return F_
    if s == z3.IntSort():
        return z3.IntVal(0)
    if s == z3.RealSort():
        return z3.RealVal(0)
    if s == z3.StringSort():
        return z3.StringVal("")
    return z3.Const(ex.fresh_name("dflt"), s)


def leafmap2(f, a, b):
    """leafmap over two trees where either may miss payloads"""
    if a is None:
        return None if b is None else leafmap(lambda y: f(None, y), b)
    if b is None:
        return leafmap(lambda x: f(x, None), a)
    if isz(a):
        return f(a, b)
    if isinstance(a, Rec):
        return Rec(a.t, {k: leafmap2(f, a.f[k], b.f[k]) for k in a.f})
    if isinstance(a, Opt):
        return Opt(f(a.has, b.has), leafmap2(f, a.v, b.v), a.t)
    if isinstance(a, Var):
        return Var(f(a.tag, b.tag), [leafmap2(f, x, y) for x, y in zip(a.alts, b.alts)], a.ts)
    if isinstance(a, Seq):
        return Seq(f(a.n, b.n), leafmap2(f, a.e, b.e), a.t)
    if isinstance(a, Map):
        return Map(f(a.dom, b.dom), leafmap2(f, a.e, b.e), a.kt, a.vt, a.kind)
    raise Unsupported("leafmap2")


def value_leaf(v, p):
    """leaf of tree v at path p (as produced by leaf_paths)"""
    for q, l, g in leaf_paths(v):
        if q == p:
            return l, g
    return None, ()


def run_loop(ex, n, st, fr, cond, body, inc, mapseen=None):
    base = len(st.pc)
    outs = []          # states leaving by break
    # ---- 1. unroll while decidable
    k = 0
    while k < MAX_UNROLL and mapseen is None:
        if st.dead:
            break
        s = st.copy()
        ex.suppress += 1
        nth = [len(t) for t in ex.throws]
        try:
            c = simp(cond(s))
        finally:
            ex.suppress -= 1
        changed = s.mem is not st.mem and any(s.mem.get(l) is not v for l, v in st.mem.items())
        for t, m in zip(ex.throws, nth):
            del t[m:]
        if z3.is_false(c) and not changed:
            m, _ = ex.merge_states([st.copy()] + outs, base)
            st.become(m)
            return
        if not z3.is_true(c):
            break
        cond(st)
        brk = ex.run_body(st, fr, body, inc)
        outs.extend(brk)
        k += 1
    if st.dead:
        m, _ = ex.merge_states([st.copy()] + outs, base)
        st.become(m)
        return
    # ---- 2. inductive rule
    ex.loops_seen += 1
    ex.loop_frames.append(fr)
    try:
        brks = general(ex, n, st, fr, cond, body, inc, mapseen)
    finally:
        ex.loop_frames.pop()
    m, _ = ex.merge_states([st.copy()] + brks + outs, base)
    st.become(m)


def subst_pairs(recs, val_of):
    return [(c, v) for (p, c, b), v in val_of]


def general(ex, n, st, fr, cond, body, inc, mapseen):
    depth0 = len(st.pc)
    head = st.copy()
    recs = {}          # loc -> list of (path,const,init)
    inits = dict(st.mem)
    # --- havoc set by fixpoint
    outer_consts = getattr(ex, "loop_consts", {})
    ex.loop_consts = {}
    rets0 = len(fr.rets)
    seen0 = ex.loops_seen
    for rnd in range(12):
        s = head.copy()
        ex.suppress += 1
        ex.probing += 1
        ex.throws.append([])
        try:
            c = cond(s)
            s.assume(c)
            conts = []
            if not s.dead:
                ex.run_body(s, fr, body, inc)
        finally:
            ex.suppress -= 1
            ex.probing -= 1
            ex.throws.pop()
            del fr.rets[rets0:]
        ch = False
        if not s.dead:
            for l in list(head.mem):
                a, b = head.mem[l], s.mem.get(l)
                if a is not b and not tree_eq_syn(a, b):
                    rec = []
                    nv = havoc(ex, a, b, rec)
                    rec2 = []
                    for r in rec:
                        if r[0] == "seqconv":
                            continue
                        rec2.append(r)
                    if rec2 or not tree_eq_syn(nv, a):
                        head.mem[l] = nv
                        recs.setdefault(l, []).extend(rec2)
                        ch = True
                        if ex.opts.get("dbg"): print("havoc rnd", rnd, "loc", l, [(r[0], r[2]) for r in rec2], type(a).__name__)
        if not ch:
            break
    else:
        ex.loop_consts = outer_consts
        raise Unsupported("loop state does not stabilise")
    ex.loop_consts = outer_consts
    it = z3.Int(ex.fresh_name("it"))
    ex.axioms.append(it >= 0)
    # type ranges of havoc'd integers are unknown here (mathematical integers)
    # initial leaf values by path, recomputed against the original memory
    leaves = []        # (loc, path, const, init leaf or None, guards)
    for l in recs:
        init_map = {}
        iv0 = inits[l]
        hv = head.mem[l]
        iv0c = conform_init(ex, iv0, hv)
        initp = {p: x for p, x, g in leaf_paths(iv0c)} if iv0c is not None else {}
        consts = {id(c): c for _, c, _ in recs[l]}
        cs = [c for _, c, _ in recs[l]]
        for p, x, g in leaf_paths(hv):
            if any(x.eq(c) for c in cs):
                leaves.append((l, p, x, initp.get(p), g, hv))
    for g in ex.ghosts:
        g.unfold(it)
    for h in ex.it_hooks:
        h(it)
    nested = ex.loops_seen != seen0
    if ex.probing and ex.opts.get("nested"):
        # the enclosing loop only asks what this one may change
        return finish(ex, st, fr, cond, body, inc, mapseen, head, it, [])
    # --- candidates
    cands = []

    def add(name, f):
        cands.append((name, f))
    for (l, p, c, i0, gs, hv) in leaves:
        srt = c.sort()
        if srt == I and i0 is not None:
            add("inc", c == i0 + it)
            add("dec", c == i0 - it)
            add("ge0", c >= 0)
            add("geinit", c >= i0)
        for gi, g in enumerate(ex.ghosts):
            for li, lf in enumerate(g.leaves(it)):
                if lf.sort() == srt:
                    e = c == lf
                    add("ghost", e)
                    if gs:
                        add("ghostg", z3.Implies(z3.And(*gs), e))
                    if srt == z3.BoolSort():
                        add("nghost", c == z3.Not(lf))
        if i0 is not None and srt == z3.BoolSort():
            add("binit", c == i0)
    # iterator / length bounds
    bounds = list(ex.bounds)
    for l, v in head.mem.items():
        for q, x in its_of(v):
            try:
                ln = ex.seqlen(ex.read(head, x.c))
            except Unsupported:
                continue
            add("itlo", x.i >= (-1 if x.rev else 0))
            add("ithi", x.i <= ln)
    for b in bounds:
        add("bound", it <= b)
        for (l, p, c, i0, gs, hv) in leaves:
            if c.sort() == I:
                add("leb", c <= b)
    for gi, g in enumerate(ex.ghosts):
        for li, lf in enumerate(g.leaves(it)):
            if lf.sort() == z3.BoolSort():
                add("gb0", z3.Not(lf)); add("gb1", lf)
            else:
                add("ginit", lf == g.leaves(z3.IntVal(0))[li])
    qcands = []
    for (l, p, c, i0, gs, hv) in leaves:
        if z3.is_array(c) and c.sort().domain() == I and i0 is not None:
            qcands.append(("frame", lambda k, c=c, i0=i0, gs=gs: z3.Implies(z3.And(k >= it, *gs), z3.Select(c, k) == z3.Select(i0, k))))
    for spec in ex.elem_specs:
        for l in recs:
            for (path, sq) in seqs_of(head.mem[l]):
                try:
                    qcands.extend(spec_cands(ex, spec, sq, it))
                except (KeyError, Unsupported, z3.Z3Exception):
                    pass
    for f in ex.loop_invs:
        r = f(ex, head, it, leaves, mapseen)
        for x in r or []:
            ex.spec_cands.add(x[0])
            if callable(x[1]):
                qcands.append(x)
            else:
                cands.append(x)
    insts = [it] + list(ex.index_instances)
    pairs_init = [(it, z3.IntVal(0))]
    for (l, p, c, i0, gs, hv) in leaves:
        if i0 is None:
            i0 = z3.Const(ex.fresh_name("ini"), c.sort())
        if i0.sort() != c.sort():
            i0 = z3.ToReal(i0)
        pairs_init.append((c, i0))

    def iteration(assumed):
        """one symbolic iteration of the body; the state's value of every leaf after it"""
        s = head.copy()
        for x in assumed:
            for e in (x[3] if x[0] == "p" else x[3][1:]):
                s.assume(e)
        ex.suppress += 1
        ex.throws.append([])
        try:
            s.assume(cond(s))
            if not s.dead:
                ex.run_body(s, fr, body, inc)
        finally:
            ex.suppress -= 1
            ex.throws.pop()
            del fr.rets[rets0:]
        pairs = [(it, it + 1)]
        for (l, p, c, i0, gs, hv) in leaves:
            if not s.dead:
                av = conform_init(ex, s.mem[l], hv)
                x = {q: y for q, y, g in leaf_paths(av)}.get(p)
                if x is None:
                    x = z3.Const(ex.fresh_name("ini"), c.sort())
                if x.sort() != c.sort():
                    x = z3.ToReal(x)
                pairs.append((c, x))
        return s, pairs

    nested = nested and ex.opts.get("nested")
    if not nested:
        # before the quantified candidates are instantiated: the body's map keys and iterations are among the instances
        s, pairs_step = iteration([])
    # candidates trivially duplicated
    seen, uniq = set(), []
    for nm, e in cands:
        e = simp(e)
        if z3.is_true(e):
            continue
        k = e.get_id()
        if k not in seen:
            seen.add(k); uniq.append((nm, e))
    cands = uniq
    qk = z3.Int(ex.fresh_name("qk"))
    ksort_q = {}

    def qterm(f, k):
        return f(k)
    allc = [("p", nm, e, [e]) for nm, e in cands]
    for nm, f in qcands:
        ks = getattr(f, "ksort", I)
        sk = z3.Const(ex.fresh_name("qk"), ks)
        its = insts if ks == I else list(ex.key_insts(ks))
        extra = getattr(f, "insts", None)
        if extra:
            its = its + list(extra)
        its = its + [sh(sk) for sh in getattr(f, "shift", [])]
        allc.append(("q", nm, f(sk), [f(sk)] + [f(x) for x in its]))
    if not nested:
        kept = houdini(ex, st.pc, allc, pairs_init, s, pairs_step, depth0)
    else:
        # the body has loops of its own: their invariants may rest on this loop's.  Assume the candidates, verify
        # them, and start over with the verified ones until nothing assumed is left unverified.
        assumed = houdini_init(ex, st.pc, allc, pairs_init)
        for rnd in range(40):
            s, pairs_step = iteration(assumed)
            kept = assumed if s.dead else houdini_step(ex, assumed, s, pairs_step)
            if len(kept) == len(assumed):
                break
            assumed = kept
        else:
            raise Unsupported("nested loop invariants do not stabilise")
    inv = []
    for kind, nm, goal, hyps in kept:
        inv += hyps if kind == "p" else hyps[1:]
        if kind == "q":
            pass
    ex.houdini_log.append((ex.curline, [nm for _, nm, _, _ in kept], [nm for k, nm, _, _ in allc if not any(nm == x[1] for x in kept)]))
    ex.kept_last = kept
    return finish(ex, st, fr, cond, body, inc, mapseen, head, it, inv)


def finish(ex, st, fr, cond, body, inc, mapseen, head, it, inv):
    """an arbitrary iteration (whose obligations count), then the state after the loop"""
    # --- final passes
    hs = head.copy()
    # one guard literal: everything after belongs to an arbitrary iteration
    g_iter = z3.Bool(ex.fresh_name("in_iteration"))
    it_s = hs.copy()
    it_s.assume(g_iter)
    for e in inv:
        it_s.assume(e)
    c = cond(it_s)
    it_s.assume(c)
    brk = []
    if not it_s.dead:
        brk = ex.run_body(it_s, fr, body, inc)
    # exit
    ex_s = hs
    g_exit = z3.Bool(ex.fresh_name("loop_exit"))
    ex_s.assume(g_exit)
    for e in inv:
        ex_s.assume(e)
    ex.suppress += 1
    try:
        c2 = cond(ex_s)
    finally:
        ex.suppress -= 1
    if mapseen is None:
        ex_s.assume(z3.Not(c2))
    else:
        seenl, l = mapseen
        seenv = ex.read(ex_s, seenl)
        dom = ex.read(ex_s, l).dom
        for kk in ex.key_insts(dom.sort().domain()):
            ex_s.assume(z3.Implies(z3.Select(dom, kk), z3.Select(seenv, kk)))
    st.become(ex_s)
    ex.last_it = it
    ex.its.append(it)
    return brk


def conform_init(ex, v, like):
    """bring a memory value to the shape of the havoc'd head value"""
    if v is None or like is None:
        return v
    if isinstance(v, CSeq) and isinstance(like, Seq):
        s = to_seq(v)
        if s is None:
            return Seq(z3.IntVal(0), leafmap(lambda l: z3.K(I, default_leaf(ex, l.sort().range())), like.e), v.t)
        return conform_init(ex, s, like)
    if isinstance(v, Seq) and isinstance(like, Seq):
        return Seq(v.n, fill_like(ex, v.e, like.e), v.t)
    if isinstance(v, CMap) and isinstance(like, Map):
        return ex.to_map(v)
    if isinstance(v, Rec) and isinstance(like, Rec):
        return Rec(v.t, {k: conform_init(ex, v.f[k], like.f.get(k)) for k in v.f})
    if isinstance(v, Opt) and isinstance(like, Opt):
        return Opt(v.has, conform_init(ex, v.v, like.v), v.t)
    return v


def fill_like(ex, v, like):
    if v is None and like is not None:
        return leafmap(lambda l: z3.Const(ex.fresh_name("unset"), l.sort()), like)
    if isinstance(v, Rec):
        return Rec(v.t, {k: fill_like(ex, v.f[k], like.f[k]) for k in v.f})
    if isinstance(v, Opt):
        return Opt(v.has, fill_like(ex, v.v, like.v), v.t)
    if isinstance(v, Var):
        return Var(v.tag, [fill_like(ex, a, b) for a, b in zip(v.alts, like.alts)], v.ts)
    return v


def its_of(v, path=()):
    if isinstance(v, It):
        yield path, v
    elif isinstance(v, Rec):
        for k, x in v.f.items():
            yield from its_of(x, path + (k,))


def seqs_of(v, path=()):
    if isinstance(v, Seq):
        yield path, v
    elif isinstance(v, Rec):
        for k, x in v.f.items():
            yield from seqs_of(x, path + (k,))
    elif isinstance(v, Opt):
        yield from seqs_of(v.v, path + ("val",))


def spec_cands(ex, spec, sq, it):
    """elements before the iteration count equal the contract's element function; spec(k) -> tree"""
    out = []
    probe = z3.Int("probe")
    sel = lambda k: leafmap(lambda a: z3.Select(a, k), sq.e)
    spec0, memo = spec, {}

    def spec(k):
        if k.get_id() not in memo:
            memo[k.get_id()] = (k, spec0(k))
        return memo[k.get_id()][1]
    n = len(list(zip(leaf_paths(sel(probe)), leaf_paths(spec(probe)))))
    if len(list(leaf_paths(spec(probe)))) != n or len(list(leaf_paths(sel(probe)))) != n:
        raise Unsupported("shape of the element specification")
    for i in range(n):
        def f(k, i=i):
            pg, g, gg = list(leaf_paths(sel(k)))[i]
            pw, w, gw = list(leaf_paths(spec(k)))[i]
            return z3.Implies(z3.And(k >= 0, k < it, *gw), g == w)
        ex.spec_cands.add("elemspec %s" % (list(leaf_paths(spec(probe)))[i][0],))
        out.append(("elemspec %s" % (list(leaf_paths(spec(probe)))[i][0],), f))
    return out


def mk_solver(ex, pc, timeout=4000):
    s = z3.SimpleSolver() if False else z3.Solver()
    s.set("timeout", timeout)
    return s


def abstraction(ex):
    if ex.opts.get("abstract_strings"):
        if ex.abst is None:
            from .abstr import Abs
            ex.abst = Abs()
        return ex.abst.all
    return list


def houdini(ex, pc0, allc, pairs_init, s, pairs_step, depth0):
    cur = houdini_init(ex, pc0, allc, pairs_init)
    return cur if s.dead else houdini_step(ex, cur, s, pairs_step)


def houdini_init(ex, pc0, allc, pairs_init):
    """the candidates that hold on entry"""
    t0 = time.time()
    A = abstraction(ex)
    sol = z3.Solver(); sol.set("timeout", ex.opts.get("hd_timeout", 3000))
    sol.add(A(ex.relevant(list(pc0) + [x[2] for x in allc])))
    sol.add(A(pc0))
    cur = list(allc)
    goals = [A([z3.substitute(x[2], *pairs_init)])[0] for x in cur]
    sol.add(A([]))
    cur, goals = falsify(ex, sol, cur, goals)
    ex.hd_time = getattr(ex, "hd_time", 0) + time.time() - t0
    return cur


def houdini_step(ex, cur, s, pairs_step):
    """the largest subset one iteration preserves"""
    t0 = time.time()
    A = abstraction(ex)
    base_axioms = A(ex.relevant(list(s.pc) + [x[2] for x in cur] + [z3.substitute(x[2], *pairs_step) for x in cur]))
    base_pc = A(s.pc)
    while True:
        sol = z3.Solver(); sol.set("timeout", ex.opts.get("hd_timeout", 3000))
        sol.add(base_axioms)
        sol.add(base_pc)
        for x in cur:
            sol.add(A(x[3]))
        goals = [A([z3.substitute(x[2], *pairs_step)])[0] for x in cur]
        sol.add(A([]))
        nc, _ = falsify(ex, sol, cur, goals, once=True)
        if len(nc) == len(cur):
            break
        cur = nc
    ex.hd_time = getattr(ex, "hd_time", 0) + time.time() - t0
    return cur


def falsify(ex, sol, cur, goals, once=False):
    """remove the candidates whose goal is not implied"""
    cur, goals = list(cur), list(goals)
    dropped = False
    while cur:
        sol.push()
        sol.add(z3.Or([z3.Not(g) for g in goals]))
        r = sol.check()
        if r == z3.unsat:
            sol.pop()
            break
        if r == z3.sat:
            m = sol.model()
            keep = [i for i, g in enumerate(goals) if not z3.is_false(m.eval(g, model_completion=True))]
            sol.pop()
            if len(keep) == len(goals):
                # model does not decide: drop one by one
                keep = single(ex, sol, goals, cur)
                if len(keep) == len(goals):
                    break
        else:
            sol.pop()
            keep = single(ex, sol, goals, cur)
            cur = [cur[i] for i in keep]; goals = [goals[i] for i in keep]
            break
        cur = [cur[i] for i in keep]; goals = [goals[i] for i in keep]
        dropped = True
        # with `once` the dropped hypotheses stay assumed in this round; the caller re-runs until stable
    return cur, goals


def single(ex, sol, goals, cur):
    keep = []
    for i, g in enumerate(goals):
        sol.push()
        sol.add(z3.Not(g))
        r = sol.check()
        if r == z3.unknown and cur[i][1] in ex.spec_cands:
            # a candidate the contract itself supplies: try harder before giving it up
            s2 = z3.Solver(); s2.set("timeout", 15000); s2.set("random_seed", 5)
            s2.add(*sol.assertions())
            if ex.opts.get("hd_cvc5"):
                from .solver import cvc5_check, SIMP
                r = {"unsat": z3.unsat, "sat": z3.sat}.get(cvc5_check(s2, ex.opts["hd_cvc5"], SIMP), z3.unknown)
            else:
                r = s2.check()
            if r == z3.unknown:
                ex.hd_unknown.append(cur[i][1])
        sol.pop()
        if r == z3.unsat:
            keep.append(i)
    return keep

"""C16 – machine points are taken relative to the workpiece zero point."""
from .common import *

FILES = [P + "AllAttributesParser.cpp"]
ASSUME = ["iteration over std::map visits every key exactly once"]


def settings(run):
    c = run.ctx("set_ncsettings", FILES, filt="parser::")
    ex = c.ex
    axis = z3.String("axis")
    ex.extra_keys.setdefault(str(S), []).append(axis)
    mp = c.fresh("MachinePointsData", "points")
    kin, cnc, zp = c.fresh("Kinematics", "kinematics"), c.fresh("CncDefaultValues", "defaults"), c.fresh("ZeroPoint", "zero")
    oset = c.fresh("OtherSettings", "other")
    tool, ttype = z3.Int("machine_tool"), z3.Int("machine_tool_type")
    t = c.rec("AllAttributesParser")
    wg = c.fresh("FanucWordGrammar", "grammar")
    f = {n: Poison("member " + n) for n, _ in ex.fields(t)}
    f.update({"word_grammar": wg, "other_settings": oset, "zero_point": c.fresh("ZeroPoint", "old_zero"), "machine_tool": z3.Int("old_tool"), "machine_tool_type": z3.Int("old_type"),
              "active_word_grammar": Ptr(None), "attr_path_calc": Ptr(None), "all_attr_grammar": Ptr(None)})
    off = lambda k: IF(k == sv("X"), zp.f["x"], IF(k == sv("Y"), zp.f["y"], IF(k == sv("Z"), zp.f["z"], z3.RealVal(0))))
    src = [mp.f["tool_exchange_point"], mp.f["machine_base_point"]]

    def inv(ex_, head, it, leaves, mapseen):
        if not mapseen:
            return []
        seen = ex.read(head, mapseen[0])
        out = []
        for (l, p, cst, i0, gs, hv) in leaves:
            if cst.eq(seen) or not z3.is_array(cst) or cst.sort().domain() != S:
                continue
            for m in src:
                if cst.sort().range() == B:
                    out.append(("points so far", lambda k, cst=cst: z3.Select(cst, k) == z3.Select(seen, k)))
                    out.append(("only points", lambda k, cst=cst, m=m: IMP(z3.Select(seen, k), z3.Select(m.dom, k))))
                elif cst.sort().range() == R:
                    out.append(("shifted so far", lambda k, cst=cst, m=m: IMP(z3.Select(seen, k), z3.Select(cst, k) == z3.Select(m.e, k) - off(k))))
        out.append(("seen", lambda k: IMP(z3.Select(seen, k), z3.Select(ex.read(head, mapseen[1]).dom, k))))
        for nm, fn in out:
            fn.ksort = S
        return out
    ex.loop_invs.append(inv)
    made = []

    def make(ex_, st, this, args, decl):
        made.append((st.copy(), [ex.rd(st, a) for a in args]))
        return c.loc(Opaque("calc", None))
    ex.contracts["make:AttributesPathCalculator"] = make
    ex.contracts["make:all_attributes_grammar"] = lambda ex_, st, this, args, decl: c.loc(Opaque("grammar", None))
    me = c.loc(Rec(t, f))
    st, r, th = c.call("AllAttributesParser::set_ncsettings", me, [tool, ttype, c.loc(mp), c.loc(kin), c.loc(cnc), c.loc(zp)])
    c.only(th)
    if len(made) != 1:
        raise F.ExtractError("expected one path calculator to be made, found %d" % len(made))
    s, a = made[0]
    pts = a[2]
    for nm, m in (("tool_exchange_point", src[0]), ("machine_base_point", src[1])):
        got = ex.to_map(pts.f[nm]) if isinstance(pts.f[nm], CMap) else pts.f[nm]
        c.ensure("%s: no axis dropped or added" % nm, s, z3.Select(got.dom, axis) == z3.Select(m.dom, axis))
        c.ensure("%s: the configured coordinate minus the zero point" % nm, s, IMP(z3.Select(m.dom, axis), z3.Select(got.e, axis) == z3.Select(m.e, axis) - off(axis)))
        c.cover(nm, s, [z3.Select(m.dom, axis)])
    c.ensure("the calculator gets the configured machine", s, AND(a[0] == tool, a[1] == ttype, same(a[3], kin), same(a[4], cnc), a[5] == oset.f["language"]))
    me_ = ex.rd(st, me).f
    c.ensure("the settings in force are the given ones", st, AND(me_["machine_tool"] == tool, me_["machine_tool_type"] == ttype, same(me_["zero_point"], zp)))


PARTS = [("set_ncsettings", settings)]
RULE = "each coordinate used = configured coordinate - zero point of that axis (X, Y, Z), other axes unchanged"


def harness(h):
    from harness import build, sess
    from harness.hx import Tok
    exe = build.parser(); rng = h.rng
    cfg = sess.Cfg("fanuc_mill")
    rd = lambda: rng.choice([0.0, 1.0, -2.5, 10.125, 500.0, -333.25, round(rng.uniform(-900, 900), 3)])

    def rng_of(chunk):
        t = Tok(" ".join(chunk))
        return {t.s(): (float(t.next()), float(t.next()), float(t.next())) for _ in range(t.n())}
    cases = []
    for i in range(h.n(400)):
        ax = ["X", "Y", "Z", "A", "B", "C", "I", "J", "K", "U", "V", "W", "XY", "x"]
        base = {a: rd() for a in rng.sample(ax, rng.randint(0, 9))}
        move = rng.random() < 0.6
        if move:
            base.update({a: rd() for a in "XYZ"})
        ex = {a: rd() for a in rng.sample(ax, rng.randint(0, 9))}
        zero = tuple(rng.choice([0.0, 0.0, rd()]) for _ in "XYZ")
        off = dict(zip("XYZ", zero))
        sh = lambda m: {a: v - off.get(a, 0.0) for a, v in m.items()}
        op = sess.nc(base=base, exchange=ex, zero=zero, machine_tool=rng.choice([0, 1, 2]), machine_type=0, motion=0)
        f = sess.flags(path=1)
        ops = [op]
        if rng.random() < 0.3:
            ops.insert(0, sess.nc(base={a: 7.0 for a in ax}, exchange={a: 7.0 for a in ax}, zero=(3.0, 4.0, 5.0)))
        ops.append("range")
        if move:
            ops += [sess.parsef(f, 1, "T5 M6"), "range", sess.parsef(f, 2, "G28"), "range"]
        line = cfg.line() + "\n" if False else sess.sess(cfg, ops, fl=f)
        k = len(ops) - (5 if move else 1)

        def chk(o, base=sh(base), ex=sh(ex), move=move, k=k):
            c = sess.chunks(o)
            cur = {a: v[1] for a, v in rng_of(c[k]).items()}
            near = lambda a, b: a.keys() == b.keys() and all(abs(a[x] - b[x]) <= 1e-9 * (1 + abs(b[x])) for x in a)
            if not near(cur, base):
                return {"expected machine base point": base, "used": cur}
            if not move:
                return None
            for n, (want, label) in enumerate([(dict(base, **ex), "tool exchange point"), (dict(dict(base, **ex), **base), "machine base point after G28")]):
                r = sess.res(c[k + 1 + 2 * n])
                if not r[0] or r[0] == "EX":
                    return {"message": r[1]}
                cur = {a: v[1] for a, v in rng_of(c[k + 2 + 2 * n]).items()}
                if not near(cur, want):
                    return {"expected " + label: want, "used": cur}
            return None
        cases.append((line, chk, "zero point %r machine base point %r tool exchange point %r" % (zero, base, ex), any(zero)))
    h.run(exe, [(cfg.line(), lambda o: None, "configuration", False)] + cases, "machine settings applied to the real parser")
    h.bounds.append("configurations of at most 12 axes")

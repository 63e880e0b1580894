"""C10 – spindle speed, feed, tool and travel limits are enforced exactly."""
from .common import *
from . import pipe

FILES = [P + "RangeVerifier.cpp"]
ASSUME = ["digits of a word's number are well formed (the grammar only produces digit sequences), so std::stoi succeeds"]


def words(run):
    c = run.ctx("RangeVerifier(words)", FILES)
    ex = c.ex
    blk = c.block()
    lang = z3.Int("lang")
    kin = c.fresh("Kinematics", "kin")
    mtt = c.fresh("EMachineToolType", "machine_tool_type")
    lathe = mtt == c.enum("EMachineToolType", "Lathe")
    S_, T_, W_ = sv("S"), sv("T"), sv("F")

    def tool(v):
        return IF(AND(lathe, z3.Length(v) > 2), z3.SubString(v, 0, z3.Length(v) / 2), v)

    def over(e):
        """(condition, word, shown value, shown limit)"""
        d = dec(e); v = d["value"]
        base = AND(is_dec(e), v.has)
        n = lib.stoi_val(ex, v.v)
        return [(AND(base, d["word"] == S_, n > kin.f["maximum_spindle_speed"]), S_, v.v, lib.to_string(ex, kin.f["maximum_spindle_speed"])),
                (AND(base, d["word"] == T_, lib.stoi_val(ex, tool(v.v)) > kin.f["numer_of_items_in_the_warehouse"]), T_, tool(v.v), lib.to_string(ex, kin.f["numer_of_items_in_the_warehouse"])),
                (AND(base, d["word"] == W_, z3.ToReal(n) > kin.f["max_working_feed"]), W_, v.v, lib.to_string(ex, kin.f["max_working_feed"]))]
    c.elem_pre(blk, lambda e: IMP(AND(is_dec(e), dec(e)["value"].has), AND(lib.stoi_ok(ex, dec(e)["value"].v), lib.stoi_ok(ex, tool(dec(e)["value"].v)))))

    def step(s, e):
        hit = OR(*[o[0] for o in over(e)])
        return Rec(None, {"bad": OR(s.f["bad"], hit)})
    g = c.ghost("lim", Rec(None, {"bad": F_}), step, blk)
    M = c.enum("MessageName", "ValueHigherThanAllowed")

    def text(st, e):
        el = c.elem(blk, ex.its[-1])
        w = c.what(st, e)
        return OR(*[AND(cnd, w == msg(ex, "make_message", M, lang, a, b, l)) for cnd, a, b, l in over(el)])
    c.block_check(c.fn("RangeVerifier::operator()", ptypes=["EMachineToolType"]), Rec(c.rec("RangeVerifier"), {}), [mtt, c.loc(kin), c.loc(blk), lang], blk, g,
                  lambda s: s.f["bad"], "range_verifier_exception", text)


def axes(run):
    c = run.ctx("RangeVerifier(axes)", FILES)
    ex = c.ex
    lang = z3.Int("lang")
    kin = c.fresh("Kinematics", "kin")
    zp = c.fresh("ZeroPoint", "zp")
    wrm = c.fresh("word_range_map", "wrm")
    axis = kin.f["cartesian_system_axis"]

    def shift(k):
        return IF(k == sv("X"), zp.f["x"], IF(k == sv("Y"), zp.f["y"], IF(k == sv("Z"), zp.f["z"], z3.RealVal(0))))

    def lim(k):
        return z3.Select(axis.e.f["range_min"], k) - shift(k), z3.Select(axis.e.f["range_max"], k) - shift(k)

    def out(k):
        lo, hi = lim(k)
        cur = z3.Select(wrm.e.f["t1"], k)
        return AND(z3.Select(wrm.dom, k), z3.Select(axis.dom, k), OR(cur > hi, cur < lo))
    # an arbitrary axis: the verdict on it is decided whatever the other axes are
    a = z3.String("axis")
    ex.extra_keys.setdefault(str(S), []).append(a)

    def inv(ex_, head, it, leaves, mapseen):
        if mapseen is None:
            return []
        seenl, l = mapseen
        seen = ex_.read(head, seenl)

        def q(k, seen=seen):
            return IMP(z3.Select(seen, k), NOT(out(k)))
        q.ksort = S
        return [("visited axes are inside their limits", q)]
    ex.loop_invs.append(inv)
    st, r, th = c.call(c.fn("RangeVerifier::operator()", ptypes=["Kinematics"]), Rec(c.rec("RangeVerifier"), {}), [c.loc(kin), c.loc(zp), c.loc(wrm), lang])
    c.ensure("accepted only when no configured axis is outside its limits", st, NOT(out(a)))
    c.cover("accepted", st)
    M = c.enum("MessageName", "ValueOutOfRange")
    for s, e in c.only(th, "range_verifier_exception"):
        w = c.what(s, e)
        ks = [ex._mapkey] if getattr(ex, "_mapkey", None) is not None else ex.key_insts(S)
        c.ensure("a report names an axis outside its limits, its position and both limits", s,
                 OR(*[AND(out(k), w == msg(ex, "make_message", M, lang, k, lib.to_string(ex, z3.Select(wrm.e.f["t1"], k)), lib.to_string(ex, lim(k)[0]), lib.to_string(ex, lim(k)[1]))) for k in ks]))
        c.cover("report", s)


PARTS = [("word limits", words), ("axis limits", axes), pipe.part_for("range", "travel")]
ASSUME += pipe.PIPE_ASSUME


def harness(h):
    from harness import pipecheck
    pipecheck.run(h, "C10")
    from harness import build
    from harness.hx import D, St, hx, enc_block, Msgs, expect
    exe = build.tok(); ms = Msgs(exe); rng = h.rng
    cases = []
    for i in range(h.n(2500)):
        lang = rng.randint(0, 1); lathe = rng.randint(0, 2)
        mx, items, feed = rng.choice([0, 100, 1000, 5000, 99]), rng.choice([0, 1, 12, 20, 99]), rng.choice([0.0, 500.0, 999.5, 1000.0, 2000.25])
        blk = []
        for _ in range(rng.choice([0, 1, 2, 3, 5, 9])):
            w = rng.choice("STFSTFXGMD")
            base = {"S": mx, "F": int(feed), "T": items}.get(w, 500)
            n = max(0, rng.choice([base, base + 1, base - 1, 0, 1, base * 2, rng.randint(0, 9999)]))
            v = str(n)
            if w == "T" and rng.random() < 0.6:
                v = str(n) + rng.choice(["", "1", "01", "12", "0101", "9999"])
            if rng.random() < 0.25:
                v = v.zfill(rng.choice([2, 3, 4]))
            blk.append(St("(", "S9999)") if rng.random() < 0.05 else D(w, value=None if rng.random() < 0.1 else v, sign=rng.choice([None, "-"]) if rng.random() < 0.1 else None,
                                                                      dot=None if rng.random() < 0.8 else ".", macro="#" if rng.random() < 0.05 else None))
        exp = "ok"
        for e in blk:
            if not isinstance(e, D) or e.value is None or e.word not in "STF":
                continue
            v = e.value
            if e.word == "T" and lathe == 1 and len(v) > 2:
                v = v[:len(v) // 2]
            lim = {"S": mx, "T": items, "F": feed}[e.word]
            if int(v) > lim:
                exp = "ex range_verifier_exception " + hx(ms.mk("ValueHigherThanAllowed", lang, e.word, v, "%f" % lim if e.word == "F" else str(lim)))
                break
        cases.append(("range1 %d %d %d %d %r %s" % (lang, lathe, mx, items, feed, enc_block(blk)), expect(exp), "machine type %d, S<=%d T<=%d F<=%r, block %r" % (lathe, mx, items, feed, blk), exp != "ok"))
    for i in range(h.n(2500)):
        lang = rng.randint(0, 1)
        names = ["X", "Y", "Z", "A", "B", "C", "U", "Q", "W"]
        ax = {n: (rng.choice([-100.0, 0.0, -50.5]), rng.choice([100.0, 0.0, 50.5, 10.0])) for n in names if rng.random() < 0.6}
        zp = [rng.choice([0.0, 0.0, 10.0, -25.5, 100.0]) for _ in range(3)]
        wr = {}
        for n in names:
            if rng.random() < 0.5:
                lo, hi = ax.get(n, (-1.0, 1.0))
                k = {"X": 0, "Y": 1, "Z": 2}.get(n)
                s = zp[k] if k is not None else 0
                cur = rng.choice([lo - s, hi - s, hi - s + 0.001, lo - s - 0.001, 0.0, (lo + hi) / 2 - s, (lo + hi) / 2 - s])
                wr[n] = (rng.choice([-1e6, cur]), cur, rng.choice([1e6, cur]))
        exp = "ok"
        for n in sorted(wr):
            if n in ax:
                k = {"X": 0, "Y": 1, "Z": 2}.get(n)
                s = zp[k] if k is not None else 0.0
                lo, hi = ax[n][0] - s, ax[n][1] - s
                if wr[n][1] > hi or wr[n][1] < lo:
                    exp = "ex range_verifier_exception " + hx(ms.mk("ValueOutOfRange", lang, n, "%f" % wr[n][1], "%f" % lo, "%f" % hi)); break
        cases.append(("range2 %d %d %s %s %d %s" % (lang, len(ax), " ".join("%s %r %r" % (hx(n), a, b) for n, (a, b) in ax.items()), " ".join(repr(z) for z in zp), len(wr),
                                                     " ".join("%s %r %r %r" % ((hx(n),) + v) for n, v in wr.items())), expect(exp), "axes %r zero point %r positions %r" % (ax, zp, wr), exp != "ok"))
    h.run(exe, cases, "component calls")
    h.bounds.append("at most 9 words, 9 axes")

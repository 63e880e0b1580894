"""C11 – machining without spindle rotation is reported, once, at the first cutting block."""
from .common import *
from . import pipe

FILES = [P + "RotationVerifier.cpp"]
ASSUME = ["digits of a word's number are well formed (the grammar only produces digit sequences), so std::stoi succeeds"]


def rotation(run):
    c = run.ctx("RotationVerifier", FILES)
    ex = c.ex
    blk = c.block()
    lang = z3.Int("lang")
    cnc = c.fresh("CncDefaultValues", "cnc")
    op = cnc.f["operator_turns_on_rotation"]
    vis = {k: z3.Bool("pre_" + k) for k in ("S", "M", "G", "error_reported")}
    this = ex.fresh(c.rec("RotationVerifier"), "this")
    v0 = this.f["rotation_verifier_visitor"]
    this = this.with_("rotation_verifier_visitor", Rec(v0.t, dict(v0.f, **vis)))
    tl = c.loc(this)
    c.elem_pre(blk, lambda e: IMP(AND(is_dec(e), dec(e)["value"].has), lib.stoi_ok(ex, dec(e)["value"].v)))

    def step(s, e):
        d = dec(e)
        n = lib.stoi_val(ex, d["value"].v)
        live = AND(s.f["err"] == 0, is_dec(e))
        isS = AND(live, d["word"] == sv("S"))
        isM = AND(live, d["word"] == sv("M"), d["value"].has, OR(n == 3, n == 4))
        isG = AND(live, NOT(op), d["word"] == sv("G"), d["value"].has, OR(n == 1, AND(n >= 81, n <= 89)))
        return Rec(None, {"S": OR(s.f["S"], isS), "M": OR(s.f["M"], isM), "G": OR(s.f["G"], isG),
                          "err": IF(AND(isS, op), iv(1), IF(AND(isM, op), iv(2), s.f["err"]))})
    g = c.ghost("rot", Rec(None, {"S": vis["S"], "M": vis["M"], "G": vis["G"], "err": iv(0)}), step, blk)
    # class invariant of the verifier: once a cutting word has been seen either a report was made or both are known
    inv = lambda s, er: OR(op, NOT(s["G"]), er, AND(s["S"], s["M"]))
    c.assume(inv(vis, vis["error_reported"]))
    c.sticky(g, lambda s: s.f["err"] == 1, blk.n)
    c.sticky(g, lambda s: s.f["err"] == 2, blk.n)
    st, r, th = c.call("RotationVerifier::operator()", tl, [c.loc(cnc), c.loc(blk), lang])
    end = g.at(blk.n).f
    missing = AND(NOT(vis["error_reported"]), NOT(op), end["G"], OR(NOT(end["S"]), NOT(end["M"])))

    def now(s):
        return ex.rd(s, tl).f["rotation_verifier_visitor"].f
    c.ensure("accepted only when nothing is missing and nothing is forbidden", st, AND(end["err"] == 0, NOT(missing)))
    for k in ("S", "M", "G"):
        c.ensure("speed/direction/cutting memory %s is exactly what was commanded so far" % k, st, now(st)[k] == end[k])
    c.ensure("no report recorded on acceptance", st, now(st)["error_reported"] == vis["error_reported"])
    c.ensure("class invariant preserved on acceptance", st, inv(now(st), now(st)["error_reported"]))
    c.cover("accepted", st)
    m1 = msg(ex, "make_message", c.enum("MessageName", "SNotAllowedWhenOperatorTurnsRotation"), lang)
    m2 = msg(ex, "make_message", c.enum("MessageName", "M3M4NotAllowedWhenOperatorTurnsRotation"), lang)
    notset = c.enum("MessageName", "ValueNotSet")
    m3 = msg(ex, "make_message", notset, lang, sv("S"))
    m4 = msg(ex, "make_message", notset, lang, sv("M3/M4"))
    for s, e in c.only(th, "rotation_verifier_exception"):
        w = c.what(s, e)
        n = now(s)
        c.ensure("a report is raised exactly for a forbidden word or a cutting block without speed/direction", s,
                 OR(AND(end["err"] == 1, w == m1), AND(end["err"] == 2, w == m2), AND(end["err"] == 0, missing, NOT(end["S"]), w == m3), AND(end["err"] == 0, missing, end["S"], w == m4)))
        c.ensure("a missing-rotation report is remembered", s, IMP(end["err"] == 0, n["error_reported"]))
        c.ensure("class invariant preserved on report", s, inv(n, n["error_reported"]))
        c.ensure("memory on report", s, IMP(end["err"] == 0, AND(n["S"] == end["S"], n["M"] == end["M"], n["G"] == end["G"])))
        c.cover("report", s)


def fresh_object(run):
    """a new verifier starts with nothing commanded and nothing reported"""
    c = run.ctx("RotationVerifier construction", FILES)
    ex = c.ex
    t = c.rec("RotationVerifierVisitor")
    r = ex.default_record(t, c.st)
    c.ensure("initially no speed, direction, cutting or report", c.st, AND(*[NOT(r.f[k]) for k in ("S", "M", "G", "error_reported")]))
    c.cover("construction", c.st)


PARTS = [("RotationVerifier", rotation), ("construction", fresh_object), pipe.part_for("rotation")]
ASSUME += pipe.PIPE_ASSUME


def harness(h):
    from harness import pipecheck
    pipecheck.run(h, "C11")
    from harness import build
    from harness.hx import D, St, hx, enc_block, Msgs, Tok
    exe = build.tok(); ms = Msgs(exe); rng = h.rng
    nums, _ = h.lits(*FILES)
    pool = sorted({0, 1, 2, 3, 4, 5, 13, 14, 30, 80, 81, 85, 89, 90, 73, 76} | {int(n) + d for n in nums if n == int(n) and n < 1000 for d in (-1, 0, 1) if n + d >= 0})

    def elem():
        w = rng.choice("SMGGMSXFTN")
        v = str(rng.choice(pool))
        if rng.random() < 0.3:
            v = v.zfill(2)
        if rng.random() < 0.08:
            return St("(", "S M3)")
        return D(w, value=None if rng.random() < 0.12 else v, macro="#" if rng.random() < 0.1 else None, sign="-" if rng.random() < 0.1 else None)
    cases = []
    for i in range(h.n(2500)):
        lang = rng.randint(0, 1); op = rng.random() < 0.3
        blocks = [[elem() for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 5, 12]))] for _ in range(rng.choice([1, 2, 3, 4, 6, 10]))]
        S = M = done = False
        exp = []
        G = False
        for b in blocks:
            err = None
            for e in b:
                if not isinstance(e, D):
                    continue
                n = int(e.value) if e.value is not None else None
                if e.word == "S":
                    S = True
                    if op:
                        err = ms.mk("SNotAllowedWhenOperatorTurnsRotation", lang); break
                elif e.word == "M" and n in (3, 4):
                    M = True
                    if op:
                        err = ms.mk("M3M4NotAllowedWhenOperatorTurnsRotation", lang); break
                elif e.word == "G" and n is not None and (n == 1 or 81 <= n <= 89) and not op:
                    G = True
            if err is None and G and not op and not done and not (S and M):
                err = ms.mk("ValueNotSet", lang, "M3/M4" if S else "S"); done = True
            exp.append("ok" if err is None else "ex " + hx(err))
        want = " ".join(exp)
        cases.append(("rot %d %d 0 %d %s" % (lang, op, len(blocks), " ".join(enc_block(b) for b in blocks)),
                      lambda o, w=want: None if o.strip() == w else {"expected": w, "got": o.strip()}, "operator_turns_on_rotation=%s blocks %r" % (op, blocks), "ex" in want))
    h.run(exe, cases, "block histories")
    h.bounds.append("histories of at most 10 blocks of at most 12 words")

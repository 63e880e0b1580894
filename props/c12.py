"""C12 – a word that may appear once per block is reported exactly when it is repeated."""
from .common import *
from . import pipe

FILES = [P + "SameWordInBlockVerifier.cpp", P + "UniqueCode.cpp"]
ASSUME = ["make_message is represented by an uninterpreted function of its arguments (its contract is C23)"]


def same_word(run):
    c = run.ctx("SameWordInBlockVerifier", [P + "SameWordInBlockVerifier.cpp"])
    ex = c.ex
    blk = c.block()
    word = z3.String("word")
    lang = z3.Int("lang")

    def step(s, e):
        m = AND(is_dec(e), dec(e)["word"] == word)
        return Rec(None, {"one": OR(s.f["one"], m), "two": OR(s.f["two"], AND(s.f["one"], m))})
    g = c.ghost("occ", Rec(None, {"one": F_, "two": F_}), step, blk)
    want = msg(ex, "make_message", c.enum("MessageName", "DuplicateAddress"), lang, word)
    c.block_check("SameWordInBlockVerifier::operator()", Rec(c.rec("SameWordInBlockVerifier"), {}), [c.loc(word), c.loc(blk), lang], blk, g,
                  lambda s: s.f["two"], "same_word_verifier_exception", lambda st, e: ex.rd(st, e.val).f["$what"] == want)


def unique(run):
    c = run.ctx("UniqueCode", [P + "UniqueCode.cpp"])
    ex = c.ex
    blk = c.block()
    wg = c.fresh("word_map", "word_grammar")
    lang = z3.Int("lang")
    uniq = wg.e.f["unique"]

    def step(s, e):
        w = dec(e)["word"]
        m = AND(is_dec(e), z3.Select(wg.dom, w), z3.Select(uniq, w))
        rep = z3.Select(s.f["seen"], w)
        return Rec(None, {"seen": IF(AND(m, NOT(s.f["dup"])), z3.Store(s.f["seen"], w, T), s.f["seen"]),
                          "dup": OR(s.f["dup"], AND(m, rep)),
                          "which": IF(AND(m, rep, NOT(s.f["dup"])), w, s.f["which"])})
    g = c.ghost("uniq", Rec(None, {"seen": z3.K(S, F_), "dup": F_, "which": sv("")}), step, blk)
    c.block_check("UniqueCode::operator()", Rec(c.rec("UniqueCode"), {}), [c.loc(wg), c.loc(blk), lang], blk, g,
                  lambda s: s.f["dup"], "unique_code_exception",
                  lambda st, e: ex.rd(st, e.val).f["$what"] == msg(ex, "make_message", c.enum("MessageName", "CodeNotUnique"), lang, g.at(ex.its[-1] + 1).f["which"]))


PARTS = [("SameWordInBlockVerifier", same_word), ("UniqueCode", unique), pipe.part_for("unique", "same")]
ASSUME += pipe.PIPE_ASSUME


# ---------- bounded companion
def harness(h):
    from harness import pipecheck
    pipecheck.run(h, "C12")
    from harness import build
    from harness.hx import D, St, Ch, hx, enc_block, expect, Msgs
    exe = build.tok()
    ms = Msgs(exe)
    rng = h.rng
    _, strs = h.lits(*FILES)
    names = ["G", "M", "T", "X", "IF", "#", "GOTO", "WHILE"] + [s for s in strs if s.isupper()]
    cases = []
    for i in range(h.n(3000)):
        n = rng.choice([0, 1, 2, 2, 3, 3, 4, 5, 6, 8, 13, 40]) if i > 200 else i % 5
        pool = rng.sample(names, rng.choice([1, 2, 3, 5]))
        blk = []
        for _ in range(n):
            w = rng.choice(pool)
            k = rng.random()
            blk.append(D(w, value=rng.choice([None, "0", "1", "01", "1", "99"]), sign=rng.choice([None, "-"]), macro=rng.choice([None, None, "#"])) if k < 0.75 else
                       (St(w, "text") if k < 0.87 else Ch(w, "A")))
        lang = rng.randint(0, 1)
        decs = [e.word for e in blk if isinstance(e, D)]
        if i % 2 == 0:
            w = rng.choice(names + pool * 4)
            exp = "ex same_word_verifier_exception " + hx(ms.mk("DuplicateAddress", lang, w)) if decs.count(w) >= 2 else "ok"
            cases.append(("sameword %d %s %s" % (lang, hx(w), enc_block(blk)), expect(exp), "word %r in %r" % (w, blk), exp != "ok"))
        else:
            g = {w: rng.random() < 0.6 for w in names if rng.random() < 0.8}
            seen, exp = set(), "ok"
            for w in decs:
                if g.get(w):
                    if w in seen:
                        exp = "ex unique_code_exception " + hx(ms.mk("CodeNotUnique", lang, w)); break
                    seen.add(w)
            enc = " ".join("%s 0 0 0 0 %d 0" % (hx(w), u) for w, u in g.items())
            cases.append(("unique %d %d %s %s" % (lang, len(g), enc, enc_block(blk)), expect(exp), "grammar %r block %r" % (g, blk), exp != "ok"))
    h.run(exe, cases, "component calls")
    h.bounds.append("blocks of at most 40 elements over at most %d words" % len(names))

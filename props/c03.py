"""C03 – renumbering of a program."""
from .common import *

FILES = [P + "Renumberer.cpp", P + "AllAttributesParser.cpp"]
ASSUME = ["the numbering tables of the Renumberer hold the word table's entries of numbering type (selected by its constructor; exercised by the bounded harness)",
          "counter + step stays below 2^32 (unsigned wrap-around of the program number is outside the contract)",
          "to_string_leading_zeroes/std::to_string are reference functions (decimal text, left-padded with zeros)"]


def machine(c):
    ex = c.ex
    t = c.rec("Renumberer")
    f = {n: Poison("member " + n) for n, _ in ex.fields(t)}
    table = ex.fresh(Ty("map", [Ty("string"), c.rec("WordGrammar")]), "numbering_words")
    words = c.fresh(Ty("seq", [Ty("string")]), "numbering_list")
    counter, pos = z3.Int("counter"), z3.Int("position_in_frequency")
    f.update({"conv_word_grammar": table, "conv_words": words, "counter": counter, "current_frequency": pos})
    ix = z3.Function("index_of_word", S, I)
    ex.find_hooks.append(lambda st, cont, r, last: st.assume(IMP(AND(r >= 0, r < words.n), z3.Select(table.dom, z3.Select(words.e, r)))))

    def listed(w):
        ex.axioms.append(IMP(z3.Select(table.dom, w), AND(ix(w) >= 0, ix(w) < words.n, z3.Select(words.e, ix(w)) == w)))
        ex.index_instances.append(ix(w))
        g = lambda n: z3.Select(table.e.f[n], w)
        ex.axioms.append(IMP(z3.Select(table.dom, w), AND(g("range_to") >= 0, g("range_to") < 2 ** 31, g("range_from") >= 0, g("range_from") < 2 ** 31)))
    return t, f, table, words, counter, pos, listed


def renumber(run):
    c = run.ctx("renumber", [P + "Renumberer.cpp"])
    ex = c.ex
    ex.opts["abstract_strings"] = True
    blk = c.block()
    t, f, table, words, counter, pos, listed = machine(c)
    s = c.fresh("RenumberSettings", "settings")
    word, step, freq, top = s.f["word"], s.f["step"], s.f["frequency"], s.f["max_number"]
    for x in (counter, step, freq, top, pos):
        c.assume(AND(x >= 0, x < 2 ** 32))
    c.assume(counter + step < 2 ** 32)
    c.assume(IF(freq > 1, pos < freq, T))
    first = c.elem(blk, iv(0))
    listed(word); listed(dec(first)["word"])
    some = blk.n > 0
    numbered = AND(some, is_dec(first), z3.Select(table.dom, dec(first)["word"]))
    skip = OR(NOT(some), AND(is_dec(first), dec(first)["word"] == sv("/")),
              AND(first.tag == tag(first, "char"), alt(first, "char").f["word"] == sv("%")),
              AND(first.tag == tag(first, "string"), OR(alt(first, "string").f["word"] == sv("O"), alt(first, "string").f["word"] == sv("("))),
              AND(s.f["existing_only"], NOT(numbered)))
    turn = OR(freq < 2, pos == 0)
    gives = AND(NOT(skip), turn)
    rng = lambda n: z3.Select(table.e.f[n], word)
    known = z3.Select(table.dom, word)
    width = simp(z3.Length(lib.to_string(ex, rng("range_to"))))
    ex.axioms.append(IMP(known, AND(width >= 1, width <= 10)))       # the decimal text of a 31-bit number
    txt = IF(AND(s.f["leading_zeroes"], known), lib.pad_left(ex, lib.to_string(ex, counter), width, iv(48)), lib.to_string(ex, counter))
    nxt = counter + step
    nxt = IF(nxt > top, IF(known, rng("range_from"), iv(1)), nxt)
    me, b, sl = c.loc(Rec(t, f)), c.loc(blk), c.loc(s)
    st, r, th = c.call("Renumberer::renumber", me, [b, sl])
    c.only(th)
    after = ex.rd(st, b)
    if isinstance(after, CSeq):
        after = lib.to_seq(after)
    me2 = ex.rd(st, me).f
    c.ensure("the next number is the step further, from the start of the range beyond the maximum", st, me2["counter"] == IF(gives, nxt, counter))
    c.ensure("the frequency position advances with every numberable block", st,
             me2["current_frequency"] == IF(AND(NOT(skip), freq > 1), IF(pos + 1 == freq, iv(0), pos + 1), pos))
    c.ensure("one word is added, replaced or removed", st, after.n == IF(skip, blk.n, IF(numbered, IF(turn, blk.n, blk.n - 1), IF(turn, blk.n + 1, blk.n))))
    head = c.elem(after, iv(0))
    d = head.alts[0].f
    s1 = st.copy(); s1.assume(gives)
    c.ensure("the block starts with the number word", s1, AND(is_dec(head), d["word"] == word, d["value"].has, d["value"].v == txt))
    s2 = st.copy(); s2.assume(AND(gives, NOT(numbered)))
    c.ensure("a new number word carries only its number", s2, NOT(OR(*[d[n].has for n in ("assign", "sign", "open_bracket", "macro", "dot", "value2", "close_bracket")])))
    s3 = st.copy(); s3.assume(AND(gives, numbered))
    c.ensure("an old number word keeps whatever else it carries", s3, AND(*[same(d[n], dec(first)[n]) for n in ("assign", "sign", "open_bracket", "macro", "dot", "value2", "close_bracket")]))
    k = z3.Int("any_k")
    s4 = st.copy(); s4.assume(AND(k >= IF(numbered, iv(1), iv(0)), k < blk.n, NOT(skip)))
    shift = IF(numbered, IF(turn, k, k - 1), IF(turn, k + 1, k))
    c.ensure("every other word keeps its place and content", s4, lib.veq(c.elem(after, simp(shift)), c.elem(blk, k)))
    s5 = st.copy(); s5.assume(AND(k >= 0, k < blk.n, skip))
    c.ensure("a skipped block is left alone", s5, lib.veq(c.elem(after, k), c.elem(blk, k)))
    for n in ("conv_words", "conv_word_grammar"):
        c.ensure("tables unchanged: " + n, st, same(me2[n], f[n]))
    c.cover("returns", st, [gives])


def tag(v, kind):
    i = {"string": 1, "char": 2}[kind]
    assert "AttributeData<" in str(v.ts[i]) and ("string" in str(v.ts[i])) == (kind == "string")
    return iv(i)


def alt(v, kind):
    return v.alts[{"string": 1, "char": 2}[kind]]


def small(run):
    """starting value and reset"""
    c = run.ctx("start value", [P + "Renumberer.cpp"])
    ex = c.ex
    t, f, table, words, counter, pos, listed = machine(c)
    v = z3.Int("start")
    c.assume(AND(v >= 0, v < 2 ** 32))
    me = c.loc(Rec(t, f))
    st, r, th = c.call("Renumberer::set_start_value", me, [v])
    c.only(th)
    g = ex.rd(st, me).f
    c.ensure("set_start_value: the next number is the given one, the frequency position stays", st, AND(g["counter"] == v, g["current_frequency"] == pos))
    me = c.loc(Rec(t, f))
    st, r, th = c.call("Renumberer::reset", me, [])
    c.only(th)
    g = ex.rd(st, me).f
    c.ensure("reset: numbering restarts at 1 and the frequency position at 0", st, AND(g["counter"] == 1, g["current_frequency"] == 0))


from . import edits

PARTS = [("renumber", renumber), ("start value", small), ("renumber a line", edits.renumber)]
ASSUME = ASSUME + edits.ASSUME
RULE = "programs of blocks (numbered, unnumbered, skipped, %, O, comments, empty) with random settings; the expected program is computed by an independent renumbering"
BOUNDED = ["construction of the numbering table (Renumberer's constructor): only exercised by the harness, programs of at most 14 blocks and 4 words a block",
           "whole programs through FanucParser::renumber with the shipped word tables"]


class Ref:
    """independent renumbering"""

    def __init__(self, words):
        self.words, self.n, self.pos = words, 1, 0        # words: numbering word -> (range_from, range_to)

    def run(self, blk, word, step, freq, top, existing, lead):
        from harness.hx import D, St, Ch
        blk = [e.copy() if isinstance(e, D) else e for e in blk]
        if not blk:
            return blk
        e = blk[0]
        num = isinstance(e, D) and e.word in self.words
        if isinstance(e, D) and e.word == "/":
            return blk
        if not num and existing:
            return blk
        if isinstance(e, Ch) and e.word == "%" or type(e) is St and e.word in ("O", "("):
            return blk
        turn = freq < 2 or self.pos == 0
        if turn:
            t = str(self.n)
            if lead and word in self.words:
                t = t.rjust(len(str(self.words[word][1])), "0")
            if num:
                e.word, e.value = word, t
            else:
                blk.insert(0, D(word, t))
            self.n += step
            if self.n > top:
                self.n = self.words[word][0] if word in self.words else 1
        elif num:
            blk.pop(0)
        if freq > 1:
            self.pos = (self.pos + 1) % freq
        return blk


def harness(h):
    from harness import build, sess
    from harness.hx import D, St, Ch, enc_block, Tok, hx, words as txt_words
    rng = h.rng
    exe = build.tok()
    cases = []
    for _ in range(h.n(250)):
        tab = {}
        for w in rng.sample(["N", ":", "O", "L", "/", "NN", "G", "X"], rng.randint(1, 6)):
            tab[w] = dict(range_from=rng.choice([0, 1, 1, 5, 10]), range_to=rng.choice([9, 99, 9999, 99999, 100]), decimal_from=0, decimal_to=0, unique=0,
                          type=rng.choice(["numbering", "numbering", "misc", "length"]) if w not in ("/", "G", "X") else rng.choice(["misc", "length"]))
        nums = {w: (g["range_from"], g["range_to"]) for w, g in tab.items() if g["type"] == "numbering"}
        ref = Ref(nums)
        ops, want, descr = [], [], []
        word = rng.choice(sorted(nums) + ["N"]); step = rng.choice([1, 1, 2, 5, 10, 0]); freq = rng.choice([0, 1, 1, 2, 3, 4]); top = rng.choice([0, 1, 9, 12, 20, 50, 99, 99999])
        existing, lead = rng.choice([0, 0, 0, 1]), rng.randint(0, 1)
        start = rng.choice([None, 1, 5, 10, 9, 100])
        if start is not None:
            ops.append("start %d" % start); ref.n = start; descr.append("start %d" % start)
        for _ in range(rng.randint(1, 14)):
            r = rng.random()
            if r < 0.03:
                ops.append("reset"); ref.n, ref.pos = 1, 0; descr.append("reset"); continue
            if r < 0.08:
                word = rng.choice(sorted(nums) + ["N"]); step = rng.choice([1, 3]); top = rng.choice([5, 40])
            b = [D(rng.choice("GXYM"), rng.choice("0123"), sign=rng.choice([None, "-"])) for _ in range(rng.randint(0, 3))]
            r = rng.random()
            if r < 0.3 and nums:
                b.insert(0, D(rng.choice(sorted(nums)), rng.choice(["1", "7", "0010", "99999"])))
                if rng.random() < 0.2:
                    b.insert(1, D(rng.choice(sorted(nums)), "3"))
            elif r < 0.5:
                b.insert(0, rng.choice([D("/"), D("/", "2"), Ch("%", "%"), St("O", "1000"), St("(", "N1)"), St("X", "a"), Ch("X", "A"), D(rng.choice(["O", "%", "("]), "5"), Ch("(", "x"), Ch("/", "/")]))
            elif r < 0.6:
                b.append(St("(", "C)"))
            if rng.random() < 0.06:
                ops.append("remove " + enc_block(b)); descr.append("remove %r" % b)
                want.append(b[1:] if b and isinstance(b[0], D) and b[0].word in nums else b)
                continue
            ops.append("num %s %d %d %d %d %d %s" % (hx(word), step, freq, top, existing, lead, enc_block(b)))
            descr.append("%r by word %s step %d frequency %d maximum %d existing only %d leading zeros %d" % (b, word, step, freq, top, existing, lead))
            want.append(ref.run(b, word, step, freq, top, existing, lead))
        line = "renum %s %d %s" % (sess.enc_words(tab), len(ops), " ".join(ops))

        def chk(o, want=want, descr=descr):
            t = Tok(o)
            for i, w in enumerate(want):
                g = t.block()
                if g != w:
                    return "result %d is %r but must be %r" % (i + 1, g, w)
            return None
        cases.append((line, chk, "numbering words %r: %s" % (nums, "; ".join(descr)), bool(want)))
    h.run(exe, cases, "Renumberer")
    pex = build.parser()
    cases = []
    for drv in sess.DRV:
        c = sess.Cfg(drv)
        cases.append((c.line(), lambda o: None, "configuration", False))
        nums = {w: (g["range_from"], g["range_to"]) for w, g in c.metric.items() if g["type"] == "numbering"}
        for _ in range(h.n(12)):
            ref = Ref(nums); ops, want, texts = [], [], []
            word, step, freq = rng.choice(["N", "N", ":"]), rng.choice([1, 5, 10]), rng.choice([0, 1, 2, 3])
            top, existing, lead = rng.choice([20, 99, 9999]), rng.choice([0, 0, 1]), rng.randint(0, 1)
            for ln in range(rng.randint(2, 8)):
                t = " ".join(rng.choice(["", "", "N%d" % rng.choice([1, 20, 999]), "/", "/1", ":5"]).split() + rng.sample(["G0", "X1.5", "Y-2", "M8", "Z.5", "F100", "S200", "(C)"], rng.randint(1, 4)))
                ops.append(sess.renum(ln + 1, t, word, step, freq, top, existing, lead)); texts.append(t)
                b = txt_words(t)
                want.append(ref.run(b, word, step, freq, top, existing, lead))

            def chk(o, want=want, texts=texts):
                for w, ch, t in zip(want, sess.chunks(o), texts):
                    r = sess.res(ch)
                    if r[0] is not True:
                        return None         # refused line (property C13): the following numbers are not compared
                    if [(x.text() if isinstance(x, D) else x.word + x.value.strip("()")) for x in r[2]] != [(x.text() if isinstance(x, D) else x.word + x.value.strip("()")) for x in w]:
                        return "line %r became %r but must become %r" % (t, r[2], w)
                return None
            cases.append((sess.sess(c, ops, plain=1), chk, "%s: %r by %s step %d frequency %d maximum %d existing only %d leading zeros %d" % (drv, texts, word, step, freq, top, existing, lead), True))
    h.run(pex, cases, "renumber on lines")
    h.bounds.append("programs of at most 14 blocks")

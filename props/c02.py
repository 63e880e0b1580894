"""C02 – length-unit conversion of a block."""
from .common import *

FILES = [P + "UnitConverter.cpp"]
ASSUME = ["a word's number consists of digits with an optional point (what the grammar produces), so std::stoi/std::stod return the number it denotes",
          "std::ostream with fixed/setprecision(p) writes the number rounded to p decimals; boost::trim_right_if removes the trailing characters of the set (both are reference functions of the contract; the bounded harness compares them with exact arithmetic)",
          "25.4 and the arithmetic are real numbers in the contract; the rounding of double is exercised by the bounded harness"]
LEN, FEED = "length", "feed"


def conv(direction):
    to_inch = direction == "to inch"

    def go(run):
        c = run.ctx("convert " + direction, FILES)
        ex = c.ex
        ex.opts["abstract_strings"] = True
        blk = c.block()
        t = c.rec("UnitConverter")
        tabs = {}
        f = {}
        for unit in ("metric", "imperial"):
            m = c.fresh("ConvWordGrammar", "table_" + unit)
            ws = c.fresh(Ty("seq", [Ty("string")]), "words_" + unit)
            tabs[unit] = (m, ws)
            f["conv_word_grammar_" + unit], f["conv_words_" + unit] = m, ws
        for n, ft in ex.fields(t):
            f.setdefault(n, Poison("member " + n))
        table, words = tabs["imperial" if to_inch else "metric"]
        # class invariant (established by the constructor, part 'cached table'): the list holds exactly the keys of the table
        ix = z3.Function("index_of_word", S, I)
        listed = lambda w: IMP(z3.Select(table.dom, w), AND(ix(w) >= 0, ix(w) < words.n, z3.Select(words.e, ix(w)) == w))
        ex.find_hooks.append(lambda st, cont, r, last: st.assume(IMP(AND(r >= 0, r < words.n), z3.Select(table.dom, z3.Select(words.e, r)))))

        digits = lambda x: simp(z3.Length(lib.to_string(ex, x)))

        def at(it):
            w = dec(c.elem(blk, it))["word"]
            ex.axioms.append(listed(w))
            dt = z3.Select(table.e.f["decimal_to"], w)
            n = digits(dt)
            ex.axioms.append(IMP(z3.Select(table.dom, w), AND(dt >= 0, dt < 2 ** 31, n >= 1, n <= 10)))     # a 31-bit number has at most 10 digits
            ex.index_instances.append(ix(w))
        ex.it_hooks.append(at)
        c.elem_pre(blk, lambda e: IMP(is_dec(e), AND(IMP(dec(e)["value"].has, lib.stoi_ok(ex, dec(e)["value"].v)), IMP(dec(e)["value2"].has, lib.stoi_ok(ex, dec(e)["value2"].v)), lib.stod_ok(ex, number(e)))))
        code = lambda e: lib.stoi_val(ex, dec(e)["value"].v)

        def number(e):
            d = dec(e)
            o = lambda x: IF(x.has, lib.as_str(x.v), sv(""))
            # literally the text of the number: integer part, point, decimals
            return z3.Concat(o(d["value"]), o(d["dot"]), o(d["value2"]))

        def isG(e):
            d = dec(e)
            return AND(d["word"] == sv("G"), d["value"].has)
        plain = lambda d: NOT(OR(d["macro"].has, d["open_bracket"].has, d["close_bracket"].has))
        G68 = lambda e: AND(isG(e), plain(dec(e)), code(e) == 68, OR(NOT(dec(e)["value2"].has), *[lib.stoi_val(ex, dec(e)["value2"].v) == n for n in (2, 3, 4)]))

        def off(s, e):
            """the rest of the block is left alone from this word on"""
            return OR(s["off"], AND(is_dec(e), OR(AND(NOT(s["any"]), dec(e)["word"] == sv("/")), AND(isG(e), code(e) == 4))))

        def step(s, e):
            s = s.f
            live = AND(is_dec(e), NOT(off(s, e)))
            return Rec(None, {"any": OR(s["any"], AND(is_dec(e), NOT(s["off"]), NOT(AND(NOT(s["any"]), dec(e)["word"] == sv("/"))))), "off": off(s, e), "g68": OR(s["g68"], AND(live, G68(e)))})
        g = c.ghost("conversion", Rec(None, {"any": F_, "off": F_, "g68": F_}), step, blk)

        def spec(e, s):
            s = s.f
            d = dec(e)
            live = AND(is_dec(e), NOT(off(s, e)), plain(d))
            frm, to = (21, "20") if to_inch else (20, "21")
            swap = AND(live, isG(e), code(e) == frm)
            ijkr = OR(*[d["word"] == sv(x) for x in "IJKR"])
            length = AND(live, NOT(swap), NOT(G68(e)), NOT(AND(s["g68"], ijkr)), z3.Select(table.dom, d["word"]))
            x = lib.stod_val(ex, number(e))
            factor = z3.RealVal("25.4")
            x = x / factor if to_inch else x * factor
            dt = z3.Select(table.e.f["decimal_to"], d["word"])
            prec = simp(IF(dt > 0, digits(dt), iv(0)))
            txt = lib.fmt_double(ex, prec, T, x)
            short = lib.trim_right(ex, lib.trim_right(ex, txt, "0"), ".")
            txt = IF(prec > 0, short, txt)
            pos = lib.str_find(ex, txt, sv("."))
            frac = pos != lib.NPOS
            n = Rec(e.alts[0].t, dict(d))
            whole = simp(z3.SubString(txt, 0, pos))
            rest = simp(z3.SubString(txt, pos + 1, z3.Length(txt) - (pos + 1)))
            empty = lib.is_empty(ex, rest)
            v, dt_, v2 = d["value"], d["dot"], d["value2"]
            n.f["value"] = Opt(OR(v.has, length), IF(swap, sv(to), IF(length, IF(frac, whole, txt), v.v)), v.t)
            n.f["dot"] = Opt(IF(length, frac, dt_.has), IF(length, iv(ord(".")), dt_.v), dt_.t)
            n.f["value2"] = Opt(IF(length, AND(frac, OR(NOT(empty), v2.has)), v2.has), IF(AND(length, NOT(empty)), rest, v2.v), v2.t)
            return Var(e.tag, [leafmap(lambda p, q: IF(e.tag == 0, p, q), n, e.alts[0])] + list(e.alts[1:]), e.ts)
        at_ = lambda k: spec(c.elem(blk, k), g.at(k))
        ex.elem_specs.append(at_)
        b = c.loc(blk)
        k = z3.Int("any_k")
        ex.index_instances.append(k)
        st, r, th = c.call("UnitConverter::mm_to_inch" if to_inch else "UnitConverter::inch_to_mm", Rec(t, f), [b])
        c.only(th)
        after = ex.rd(st, b)
        c.ensure("no word is added or removed", st, after.n == blk.n)
        s2 = st.copy(); s2.assume(AND(k >= 0, k < blk.n))
        c.ensure("every word is the converted word", s2, lib.veq(c.elem(after, k), at_(k)))
        c.cover("returns", st)
    return go


from . import edits

PARTS = [(d, conv(d)) for d in ("to inch", "to millimetre")] + [("convert a line", edits.convert)]
ASSUME = ASSUME + edits.ASSUME
RULE = ("blocks are built word by word from a grammar of length, feed and other words, codes (G4, G20, G21, G68, G68.2 and others), macros, brackets, comments and skip marks; "
        "the expected block is computed with exact rational arithmetic")
BOUNDED = ["UnitConverter::cache_grammar (the constructor's selection of length and feed words) and the rounding of binary doubles: only exercised by the harness, blocks of at most 9 words",
           "whole lines through FanucParser::convert_length: 400 lines per configuration"]


def harness(h):
    from fractions import Fraction as Q
    from harness import build, sess
    from harness.hx import D, St, Ch, enc_block, Tok, hx
    rng = h.rng
    f = Q(254, 10)

    def expected(blk, length, dirn):
        """length: word -> decimal_to of the target unit's table for its length and feed words"""
        out = []; first = True; off = False; g68 = False
        for e in blk:
            e = e.copy() if isinstance(e, D) else e
            out.append((e, None))
            if not isinstance(e, D) or off:
                continue
            if first and e.word == "/":
                off = True; continue
            first = False
            if e.word == "G" and e.value is not None and int(e.value) == 4:
                off = True; continue
            if e.macro or e.open or e.close:
                continue
            if e.word == "G" and e.value is not None:
                v = int(e.value)
                if v == (21, 20)[dirn]:
                    e.value = ("20", "21")[dirn]; continue
                if v == 68 and (e.value2 is None or int(e.value2) in (2, 3, 4)):
                    g68 = True; continue
            if g68 and e.word in "IJKR":
                continue
            if e.word not in length:
                continue
            x = Q((e.value or "0") + "." + (e.value2 or "0"))
            x = x / f if dirn == 0 else x * f
            dt = length[e.word]
            out[-1] = (e, (x, len(str(dt)) if dt > 0 else 0))
        return out

    def cmp(got, want):
        if len(got) != len(want):
            return "%d words became %d" % (len(want), len(got))
        for g, (e, num) in zip(got, want):
            if num is None:
                if g != e:
                    return "%r became %r but must stay or become %r" % (e, g, e)
                continue
            x, p = num
            if not isinstance(g, D) or any(getattr(g, k) != getattr(e, k) for k in ("word", "assign", "sign", "open", "macro", "close")):
                return "%r became %r: more than the number changed" % (e, g)
            if g.value is None or not g.value.isdigit() or (g.value2 or "0").isdigit() is False or (g.dot is None) != (g.value2 is None):
                return "%r became %r: not a number" % (e, g)
            y = Q(g.value + "." + (g.value2 or "0"))
            if len(g.value2 or "") > p or abs(y - x) > Q(1, 2 * 10 ** p) + abs(x) / 10 ** 13:
                return "%r became %r; the exact value is %s, to be rounded to %d decimals" % (e, g, float(x), p)
        return None
    exe = build.tok()
    nums, strs = h.lits(P + "UnitConverter.cpp")
    WT = sess.WT
    kinds = {"X": "length", "Y": "length", "Z": "length", "F": "feed", "I": "length", "J": "length", "K": "length", "R": "length", "XY": "length", "A": "angle", "N": "numbering", "S": "misc", "G": "code", "M": "code", "#": "macro", "P": "calc", "C": "assignable"}
    vals = ["0", "00", "1", "10", "100", "254", "25", "12700", "3", "999", "1000", "7", "04", "020", "68", "4", "20", "21"] + [str(int(n)) for n in nums if n < 10 ** 6 and n == int(n)]
    fr = ["0", "4", "5", "54", "001", "999", "12345", "000", "2", "3"]

    def word(ws):
        w = rng.choice(ws)
        if w == "G":
            v = rng.choice(["4", "04", "20", "21", "020", "68", "68", "0", "1", "91", "4", "69", rng.choice(vals)])
            d = D("G", v)
            if rng.random() < 0.2:
                d.dot = "."; d.value2 = rng.choice(["1", "2", "3", "4", "5"])
                if int(v) in (20, 21, 4):
                    d.dot = d.value2 = None
            if rng.random() < 0.08:
                d.macro = "#"
            return d
        d = D(w, sign=rng.choice([None, None, "-", "+"]))
        r = rng.random()
        if r < 0.45:
            d.value = rng.choice(vals)
        elif r < 0.6:
            d.value = rng.choice(vals); d.dot = "."
        elif r < 0.9:
            d.value = rng.choice(vals); d.dot = "."; d.value2 = rng.choice(fr)
        else:
            d.dot = "."; d.value2 = rng.choice(fr)
        r = rng.random()
        if r < 0.06:
            d.macro = "#"
        elif r < 0.1:
            d.open = "["
        elif r < 0.13:
            d.close = "]"
        return d
    cases = []
    for _ in range(h.n(150)):
        ws = ["G"] + rng.sample(sorted(set(kinds) - {"G"}), rng.randint(3, 9))
        tab = []
        for unit in range(2):
            t = {}
            for w in ws:
                if rng.random() < 0.9:
                    kind = kinds[w] if rng.random() < 0.8 else rng.choice(WT)
                    t[w] = dict(range_from=0, range_to=9999, decimal_from=0, decimal_to=rng.choice([0, 1, 9, 99, 999, 9999, 999, 9999, 99999]), unique=0, type=kind)
            tab.append(t)
        blocks = []
        for _ in range(8):
            b = [word(ws) for _ in range(rng.randint(0, 8))]
            if rng.random() < 0.2:
                b.insert(0, D("/"))
            if rng.random() < 0.15:
                b.insert(rng.randint(0, len(b)), D("/", "1"))
            if rng.random() < 0.2:
                b.insert(rng.randint(0, len(b)), St("(", "X10 G21)"))
            if rng.random() < 0.1:
                b.insert(rng.randint(0, len(b)), Ch("X", "A"))
            blocks.append((rng.randint(0, 1), b))
        line = "unit %s %s %d %s" % (sess.enc_words(tab[0]), sess.enc_words(tab[1]), len(blocks), " ".join("%d %s" % (d, enc_block(b)) for d, b in blocks))

        def chk(o, blocks=blocks, tab=tab):
            t = Tok(o)
            for d, b in blocks:
                if t.next() != "ok":
                    return {"block": b, "thrown": t.s()}
                got = t.block()
                length = {w: g["decimal_to"] for w, g in tab[1 - d].items() if g["type"] in ("length", "feed")}
                p = cmp(got, expected(b, length, d))
                if p:
                    return "%s of %r with %r: %s" % (("mm to inch", "inch to mm")[d], b, length, p)
            return None
        cases.append((line, chk, "%d blocks with the tables %r" % (len(blocks), tab), True))
    h.run(exe, cases, "UnitConverter on blocks")
    # whole lines through the parser, every shipped word table
    pex = build.parser()
    cases = []
    for drv in sess.DRV:
        c = sess.Cfg(drv)
        cases.append((c.line(), lambda o: None, "configuration", False))
        words_ = [w for w, g in c.metric.items() if len(w) == 1 and w.isalpha() and w not in "GONM"]
        for _ in range(h.n(8)):
            ops, texts = [], []
            for ln in range(5):
                items = [rng.choice(["G0", "G1", "G21", "G20", "G68", "G68.2", "G90", "G0"])] + [w + rng.choice(["", "-"]) + rng.choice(["10", "25.4", "1.", ".5", "100", "0.001", "254", "#3", "0"]) for w in rng.sample(words_, 4)]
                if rng.random() < 0.2:
                    items.insert(0, "/")
                if rng.random() < 0.15:
                    items.insert(rng.randint(0, 3), "G4")
                t = " ".join(items); d = rng.randint(0, 1)
                texts.append((t, d))
                ops += [sess.conv(ln + 1, t, d)]

            def chk(o, texts=texts, c=c):
                from harness.hx import words
                for (t, d), ch in zip(texts, sess.chunks(o)):
                    r = sess.res(ch)
                    if r[0] is not True:
                        continue        # a value outside the word's format is refused (property C13)
                    target = (c.imperial, c.metric)[d]
                    length = {w: g["decimal_to"] for w, g in target.items() if g["type"] in ("length", "feed")}
                    p = cmp(r[2], expected(words(t), length, d))
                    if p:
                        return "line %r, %s: %s" % (t, ("mm to inch", "inch to mm")[d], p)
                return None
            cases.append((sess.sess(c, ops, plain=1), chk, "%s: %r" % (drv, texts), True))
    h.run(pex, cases, "convert_length on lines")
    h.bounds.append("blocks of at most 9 words, numbers of at most 6 + 5 digits")

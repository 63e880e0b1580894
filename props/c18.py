"""C18 – token lists handed out through the C interface."""
from .common import *
from ncvc import bufs
from .c03 import alt, tag

FILES = [P + "AllAttributesParserWrapper.cpp", "parser/AllAttributesParserWrapperBase.cpp"]
ASSUME = ["new[] returns memory of the requested size; a buffer is reached only through the pointer variable or member it was stored in",
          "texts hold no zero characters (they come from NUL-terminated C strings)",
          "SplitFile: fewer than 2^31 pieces, lines of a piece and tokens of a line (sizes are handed out as int); the entry made for a token is the contract of part 'token list', here a function of the token",
          "SplitFileString: exercised by the bounded harness only"]


def token(e):
    """(word, rest) of a token: together its source characters"""
    d, s, ch = dec(e), alt(e, "string").f, alt(e, "char").f
    rest = sv("")
    for n in ("assign", "sign", "open_bracket", "macro", "value", "dot", "value2", "close_bracket"):
        o = d[n]
        rest = IF(o.has, z3.Concat(rest, lib.as_str(o.v)), rest)
    st = IF(s["word"] == sv("("), z3.Concat(s["value"], sv(")")), s["value"])
    cv = IF(ch["value"] == 0, sv(""), lib.as_str(ch["value"]))
    pick = lambda a, b, c_: IF(is_dec(e), a, IF(e.tag == tag(e, "string"), b, c_))
    return pick(d["word"], s["word"], ch["word"]), pick(rest, st, cv)


def holds(ex, b, text, j):
    """buffer b is the zero-terminated text (character j, an arbitrary one)"""
    n = bufs.length(text)
    return AND(b.n >= n + 1, z3.Select(b.e, n) == 0, IMP(AND(j >= 0, j < n), z3.Select(b.e, j) == bufs.byte_at(ex, text, j)))


def entry(ex, w, e, j):
    a, b = token(e)
    return AND(holds(ex, w.f["word"], a, j), holds(ex, w.f["value"], b, j))


def at(v, k):
    return leafmap(lambda a: z3.Select(a, k), v.e)


def fill(run):
    c = run.ctx("fill_WordValueWrapper", [P + "AllAttributesParserWrapper.cpp"])
    ex = c.ex
    ex.opts["abstract_strings"] = True
    blk = c.block()
    K, J = z3.Int("entry_K"), z3.Int("char_J")
    ex.opts["buffers"] = [J]
    wt = c.rec("WordValueWrapper")
    out0 = bufs.new_array(ex, c.st, wt, z3.Int("n_before"))
    len0 = z3.Int("length_before")
    vl, ll = c.loc(out0), c.loc(len0)

    def inv(ex_, head, it, leaves, mapseen):
        v = ex.rd(head, vl)
        return [("entry", IMP(AND(K >= 0, K < it), entry(ex, at(v, K), c.elem(blk, K), J)))] if isinstance(v, Seq) else []
    ex.loop_invs.append(inv)
    st, r, th = c.call("fill_WordValueWrapper", None, [c.loc(blk), Ptr(vl), Ptr(ll)])
    c.only(th)
    out, ln = ex.rd(st, vl), ex.rd(st, ll)
    some = blk.n > 0
    c.ensure("one entry per token", st, IF(some, AND(ln == blk.n, out.n >= blk.n), AND(ln == len0, out.n == out0.n)))
    s = st.copy(); s.assume(AND(some, K >= 0, K < blk.n))
    c.ensure("word and value of each entry are the token's characters, zero-terminated inside their allocation", s, entry(ex, at(out, K), c.elem(blk, K), J))
    c.cover("returns", st, [some])



def wrapper(method, inner, extra=()):
    """AllAttributesParserWrapper::<method>: hands the line on and marshals what comes back"""
    def f(run):
        c = run.ctx("AllAttributesParserWrapper::" + method, [P + "AllAttributesParserWrapper.cpp"])
        ex = c.ex
        ex.opts["abstract_strings"] = True
        blk = c.block()
        K, J = z3.Int("entry_K"), z3.Int("char_J")
        ex.opts["buffers"] = [J]
        line, single, ret, msg_ = z3.Int("line"), z3.Bool("single_line"), z3.Bool("accepted"), z3.String("message_text")
        data = z3.String("line_text")
        seen = []

        def parse(ex_, st, this, args, decl):
            seen.append((st.copy(), [ex.rd(st, a) for a in (args[0], args[1], args[4])] + [ex.rd(st, a) for a in args[5:]]))
            ex.write(st, args[2] + ("f", "value"), blk)
            ex.write(st, args[3], msg_)
            return ret
        ex.contracts["AllAttributesParser::" + inner] = ex.contracts["virtual:" + inner] = parse
        wt = c.rec("WordValueWrapper")
        out0 = bufs.new_array(ex, c.st, wt, z3.Int("n_before"))
        m0 = bufs.new_array(ex, c.st, Ty("char"), z3.Int("m_before"))
        len0 = z3.Int("length_before")
        vl, ll, ml = c.loc(out0), c.loc(len0), c.loc(m0)

        def inv(ex_, head, it, leaves, mapseen):
            v = ex.rd(head, vl)
            return [("entry", IMP(AND(K >= 0, K < it), entry(ex, at(v, K), c.elem(blk, K), J)))] if isinstance(v, Seq) else []
        ex.loop_invs.append(inv)
        t = c.rec("AllAttributesParserWrapper")
        me = Rec(t, {n: Poison("member " + n) for n, _ in ex.fields(t)})
        me.f["parser"] = Ptr(c.loc(Rec(c.rec("AllAttributesParser"), {})))
        xs = [c.fresh(ty, "setting") for ty in extra]
        st, r, th = c.call("AllAttributesParserWrapper::" + method, me, [line, data, Ptr(vl), Ptr(ll), Ptr(ml), single] + [c.loc(x) if isinstance(x, Rec) else x for x in xs])
        c.only(th)
        for s, vals in seen[:1]:
            c.ensure("the line, its text and the settings are handed on", s, AND([lib.veq(a, b) for a, b in zip(vals, [line, data, single] + xs)]))
        out, ln, ms = ex.rd(st, vl), ex.rd(st, ll), ex.rd(st, ml)
        some = blk.n > 0
        c.ensure("the verdict is handed back", st, AND(r == ret, z3.BoolVal(len(seen) > 0)))
        c.ensure("one entry per token", st, IF(some, AND(ln == blk.n, out.n >= blk.n), AND(ln == len0, out.n == out0.n)))
        s = st.copy(); s.assume(AND(some, K >= 0, K < blk.n))
        c.ensure("word and value of each entry are the token's characters, zero-terminated inside their allocation", s, entry(ex, at(out, K), c.elem(blk, K), J))
        c.ensure("the message is handed out, zero-terminated inside its allocation; an empty one leaves the caller's pointer alone", st,
                 IF(z3.Length(msg_) > 0, holds(ex, ms, msg_, J), ms.n == m0.n))
        c.cover("returns", st, [some])
    return f


EXPORTS = {"ParseValue": [], "ConvertLength": ["UnitConversionType"], "RemoveNumbering": [], "RotateAxes": ["AxesRotatingOption"], "RemoveComment": [], "RemoveOptionalBlock": [], "Renumber": None}


def exports(run):
    """every exported function hands its arguments to the object and the object's verdict back"""
    for name, extra in EXPORTS.items():
        c = run.ctx("exported " + name, ["parser/AllAttributesParserWrapperBase.cpp"])
        ex = c.ex
        ex.opts["abstract_strings"] = True
        line, single, ret, data = z3.Int("line"), z3.Bool("single_line"), z3.Bool("accepted"), z3.String("line_text")
        calls = []

        def inner(ex_, st, this, args, decl):
            calls.append((st.copy(), [ex.rd(st, a) for a in args]))
            return ret
        ex.contracts["virtual:" + name] = inner
        vl, ll, ml = (c.loc(Opaque("caller's " + n, None)) for n in ("list", "length", "message"))
        me = Ptr(c.loc(Rec(c.rec("AllAttributesParserWrapperBase"), {"parser": Poison("parser")})))
        want, xs = [], []
        if extra is None:
            w = c.rec("RenumberSettingsWrapper")
            f = {n: (z3.String("rs_" + n) if ft.k == "ptr" else ex.fresh(ft, "rs_" + n)) for n, ft in ex.fields(w)}
            xs = [Ptr(c.loc(Rec(w, f)))]
        else:
            xs = [c.fresh(t, "setting") for t in extra]
        st, r, th = c.call(c.fn(name, nparams=7 + len(xs)), None, [me, line, data, Ptr(vl), Ptr(ll), Ptr(ml), single] + xs)
        c.only(th)
        c.ensure("the object is called once, its verdict handed back", st, AND(z3.BoolVal(len(calls) == 1), r == ret))
        for s, a in calls[:1]:
            c.ensure("the caller's line, text and mode are handed on", s, AND(a[0] == line, a[1] == data, a[5] == single))
            c.ensure("the caller's list, length and message are handed on", s, z3.BoolVal(all(isinstance(p, Ptr) and same_lval(p.l, l) for p, l in zip(a[2:5], (vl, ll, ml)))))
            if extra is None:
                c.ensure("every setting reaches the field of its name", s, AND([lib.veq(a[6].f[n], f[n]) for n in a[6].f]))
            else:
                c.ensure("the settings are handed on", s, AND([T] + [lib.veq(p, q) for p, q in zip(a[6:], xs)]))
        c.cover("returns", st)


def split_setup(c, names):
    """the splitter's result (arbitrary pieces of arbitrary lines) and the caller's arguments"""
    ex = c.ex
    ex.opts["abstract_strings"] = True
    ex.opts["nested"] = True
    # a token is a name here; what becomes of it is the contract of the marshalling visitors (part 'token list')
    pieces = c.fresh(Ty("seq", [Ty("seq", [Ty("seq", [Ty("int")])])]), "pieces")
    ex.bounds.append(pieces.n)
    lines = c.fresh(Ty("seq", [Ty("string")]), "program")
    c.assume(lines.n < 2 ** 31)
    ex.bounds.append(lines.n)
    single, ret, msg_ = z3.Bool("single_line"), z3.Bool("accepted"), z3.String("message_text")
    ft = c.rec("FileSplittingWrapper")
    fw = {n: (z3.String("fs_" + n) if t.k == "ptr" else ex.fresh(t, "fs_" + n)) for n, t in ex.fields(ft)}
    calls = []

    def inner(ex_, st, this, args, decl):
        calls.append((st.copy(), [ex.rd(st, a) for a in args]))
        ex.write(st, args[1], pieces)
        ex.write(st, args[2], msg_)
        return ret
    ex.contracts["AllAttributesParser::split_file"] = ex.contracts["virtual:split_file"] = inner
    t = c.rec("AllAttributesParserWrapper")
    me = Rec(t, {n: Poison("member " + n) for n, _ in ex.fields(t)})
    me.f["parser"] = Ptr(c.loc(Rec(c.rec("AllAttributesParser"), {})))
    return pieces, lines, single, ret, msg_, Ptr(c.loc(Rec(ft, fw))), fw, calls, me


def handed_on(c, calls, lines, single, fw, L):
    c.cover("the splitter is called", calls[0][0]) if calls else None
    for s, a in calls[:1]:
        d = a[0]
        if isinstance(d, CSeq):
            d = lib.to_seq(d)
        s = s.copy()
        c.ensure("every line is handed on", s, AND(d.n == lines.n, IMP(AND(L >= 0, L < lines.n), z3.Select(d.e, L) == z3.Select(lines.e, L))))
        c.ensure("mode and every splitting setting are handed on", s, AND(a[3] == single, *[lib.veq(a[4].f[n], fw[n]) for n in a[4].f]))


def split(run):
    """SplitFile: the flattened list has every token of every line of every piece at its place"""
    c = run.ctx("AllAttributesParserWrapper::SplitFile", [P + "AllAttributesParserWrapper.cpp"])
    ex = c.ex
    J, L = z3.Int("char_J"), z3.Int("line_L")
    X, Y, Z = z3.Int("piece_X"), z3.Int("line_Y"), z3.Int("token_Z")
    ex.opts["buffers"] = [J]
    pieces, lines, single, ret, msg_, fsw, fw, calls, me = split_setup(c, None)
    def entry_of(t):
        """the entry the marshalling visitors make for token t"""
        return Rec(wt, {n: Seq(ex.ufn("size_of_" + n, I, I)(t), ex.ufn("bytes_of_" + n, I, z3.ArraySort(I, I))(t), Ty("char")) for n, _ in ex.fields(wt)})

    def same_entry(p, q):
        return AND([AND(p.f[n].n == q.f[n].n, p.f[n].e == q.f[n].e) for n in p.f])

    def marshal(ex_, st, this, args, n):
        vis, t = ex_.rd(st, args[0]), ex_.rd(st, args[1])
        targets = [x for x in vis.f.values() if isinstance(x, Ref)] if isinstance(vis, Rec) else []
        if len(targets) != 1 or not (isz(t) and t.sort() == I):
            return NotImplemented
        ex_.write(st, targets[0].l, entry_of(t))
        return iv(0)
    ex.libs["fn:apply_visitor"] = ex.libs["fn:visit"] = marshal
    wt = c.rec("WordValueWrapper")
    N = pieces.n
    nl = lambda x: z3.Select(pieces.e.n, x)
    nt = lambda x, y: z3.Select(z3.Select(pieces.e.e.n, x), y)
    tok = lambda x, y, z: z3.Select(z3.Select(z3.Select(pieces.e.e.e, x), y), z)
    POS, LINE = ex.ufn("tokens_before", I, I, I), ex.ufn("lines_before", I, I)

    def sums(x, y):
        """defining equations of the prefix sums"""
        ex.axioms += [POS(iv(0), iv(0)) == 0, LINE(iv(0)) == 0, nl(x) >= 0, nt(x, y) >= 0, nl(x) < 2 ** 31, nt(x, y) < 2 ** 31, IMP(x >= 0, POS(x + 1, iv(0)) == POS(x, nl(x))),
                      IMP(AND(x >= 0, y >= 0), POS(x, simp(y + 1)) == POS(x, y) + nt(x, y)), IMP(x >= 0, LINE(x + 1) == LINE(x) + nl(x))]
    # lemma, by induction on the line and then on the piece: the sums never decrease
    a, b, k = z3.Int("lemma_a"), z3.Int("lemma_b"), z3.Int("lemma_k")
    sums(a, b); sums(a, k)
    s0 = c.st.copy()
    s0.assume(AND(a >= 0, a < N, b >= 0, k >= b))
    c.ensure("lemma: tokens before a line, step", s0, AND(POS(a, b) <= POS(a, simp(b + 1)), IMP(POS(a, b) <= POS(a, k), POS(a, b) <= POS(a, simp(k + 1)))))
    s1 = c.st.copy()
    s1.assume(AND(a >= 0, a < N, POS(a, iv(0)) <= POS(a, nl(a))))
    c.ensure("lemma: tokens and lines before a piece, step", s1, AND(POS(a, iv(0)) <= POS(a + 1, iv(0)), LINE(a) <= LINE(a + 1)))

    def mono(x, y):
        """instances of the lemma"""
        ex.axioms.append(IMP(AND(x >= 0, x < N, y >= 0, y <= nl(x)), AND(POS(x, y) <= POS(x, nl(x)), POS(x, iv(0)) <= POS(x, y), POS(x + 1, iv(0)) <= POS(N, iv(0)), LINE(x + 1) <= LINE(N))))
        ex.axioms.append(IMP(AND(x >= 0, x < N, y >= 0, y < nl(x)), POS(x, simp(y + 1)) <= POS(x, nl(x))))
        ex.axioms.append(AND(POS(N, iv(0)) >= 0, LINE(N) >= 0))
    sums(X, Y); mono(X, Y)
    valid = AND(X >= 0, X < N, Y >= 0, Y < nl(X), Z >= 0, Z < nt(X, Y))
    lvalid = AND(X >= 0, X < N, Y >= 0, Y < nl(X))
    idx = POS(X, Y) + Z
    arr = lambda t, n: c.loc(bufs.new_array(ex, c.st, t, z3.Int(n)))
    vl, vvl, vln, ml, ll = arr(wt, "v_before"), arr(Ty("int"), "vvl_before"), arr(Ty("int"), "vl_before"), arr(Ty("char"), "m_before"), c.loc(z3.Int("length_before"))
    m0 = c.st.mem[ml.base]
    its = {}

    def inv(ex_, head, it, leaves, mapseen):
        d = len(ex_.loop_frames)
        its[d] = it
        for q in [q for q in its if q > d]:
            del its[q]
        ints = [c_ for (l, p, c_, i0, g_, hv) in leaves if c_.sort() == I]
        out = []
        if d == 1:
            x, y, z = it, iv(0), iv(0)
            lim = it <= N
            # the loop over the caller's lines
            for (l, p, c_, i0, g_, hv) in leaves:
                if c_.sort() == lines.e.sort():
                    out.append(("lines so far", IMP(AND(L >= 0, L < it), z3.Select(c_, L) == z3.Select(lines.e, L))))
            passed, lpassed, ppassed = X < x, X < x, X < x
        elif d == 2:
            x, y, z = its[1], it, iv(0)
            lim = it <= nl(x)
            passed = lpassed = OR(X < x, AND(X == x, Y < y)); ppassed = X <= x
        elif d == 3:
            x, y, z = its[1], its[2], it
            lim = it <= nt(x, y)
            passed = OR(X < x, AND(X == x, OR(Y < y, AND(Y == y, Z < z)))); lpassed = OR(X < x, AND(X == x, Y <= y)); ppassed = X <= x
        else:
            return []
        sums(x, y); mono(x, y)
        out += [("within", lim), ("place ahead", IMP(AND(valid, passed), idx < simp(POS(x, y) + z))), ("line ahead", IMP(AND(lvalid, lpassed), LINE(X) + Y < simp(LINE(x) + y + (1 if d == 3 else 0))))]
        for c_ in ints:
            out += [("tokens so far", c_ == simp(POS(x, y) + z)), ("lines so far", c_ == simp(LINE(x) + y))]
        v, q, w = ex_.rd(head, vl), ex_.rd(head, vvl), ex_.rd(head, vln)
        out += [("entry", IMP(AND(valid, passed), same_entry(at(v, idx), entry_of(tok(X, Y, Z))))), ("tokens of the line", IMP(AND(lvalid, lpassed), z3.Select(q.e, LINE(X) + Y) == nt(X, Y))),
                ("lines of the piece", IMP(AND(X >= 0, X < N, ppassed), z3.Select(w.e, X) == nl(X)))]
        return out
    ex.loop_invs.append(inv)
    st, r, th = c.call("AllAttributesParserWrapper::SplitFile", me, [fsw, lines, lines.n, Ptr(vl), Ptr(vvl), Ptr(vln), Ptr(ll), Ptr(ml), single])
    c.only(th)
    handed_on(c, calls, lines, single, fw, L)
    v, q, w, m, ln = (ex.rd(st, x) for x in (vl, vvl, vln, ml, ll))
    c.ensure("the verdict is handed back", st, r == ret)
    c.ensure("one entry per piece, line and token", st, AND(ln == N, w.n >= N, q.n >= LINE(N), v.n >= POS(N, iv(0))))
    s = st.copy(); s.assume(AND(X >= 0, X < N))
    c.ensure("the number of lines of each piece", s, z3.Select(w.e, X) == nl(X))
    s = st.copy(); s.assume(lvalid)
    c.ensure("the number of tokens of each line", s, z3.Select(q.e, LINE(X) + Y) == nt(X, Y))
    s = st.copy(); s.assume(valid)
    c.ensure("each entry is the one made for its token", s, same_entry(at(v, idx), entry_of(tok(X, Y, Z))))
    c.ensure("the message is handed out, zero-terminated inside its allocation", st, IF(z3.Length(msg_) > 0, holds(ex, m, msg_, J), m.n == m0.n))
    c.cover("returns", st, [valid])


PARTS = [("token list", fill), ("exports", exports), ("split", split),
         ("parse", wrapper("ParseValue", "parse")),
         ("convert", wrapper("ConvertLength", "convert_length", ["UnitConversionType"])),
         ("remove numbers", wrapper("RemoveNumbering", "remove_numbering")),
         ("renumber", wrapper("Renumber", "renumber", ["RenumberSettings"])),
         ("rotate", wrapper("RotateAxes", "rotate_axes", ["AxesRotatingOption"])),
         ("remove comments", wrapper("RemoveComment", "remove_comment")),
         ("remove skip marks", wrapper("RemoveOptionalBlock", "remove_optional_block"))]
RULE = "every operation of the exported C interface on lines of words, signs, macros, expressions and comments, under AddressSanitizer, next to the same operation on a second parser called directly"
BOUNDED = ["the exported functions (SplitFileString included, which has no contract) with the real parser behind them: lines of at most 8 words, programs of at most 7 lines"]


def harness(h):
    from harness import build, sess
    from harness.hx import D, St, Tok, hx
    rng = h.rng
    exe = build.ffi()
    cases = []
    voc = ["G0", "G1", "G81", "G80", "X1.5", "Y-2", "Z.5", "Z-.5", "X+3.", "I-0.25", "F100", "S200", "M6", "M3", "T5", "G#1", "X-#12", "#1=5.5", "#2=-3", "#3=#1+2", "X[#1+2]", "Y-[1.5]", "Z[1-[2*3]]",
           "#4=SIN[30]", "#5=[1.5+#2]", "/", "/2", "N7", "(C)", "()", "(X1 N2 /)", "%", "O1234", ":7", "M30", "IF[#1EQ1]GOTO5", "D5", "H12", "R1", "P1000", "Q2.25"]
    txt = lambda e: e.text() if isinstance(e, D) else e.word + e.value.strip("\0") + (")" if e.word == "(" else "")
    flat = lambda l: "".join(l.split()) if "(" not in l else None

    def entries(t):
        return [(t.s(), t.s()) for _ in range(t.n())]

    def chk_of(ops):
        def chk(o):
            for (op, src), ch in zip(ops, sess.chunks(o)[1:]):
                t = Tok(" ".join(ch))
                if t.next() == "EX":
                    continue
                r, m = t.n(), t.s()
                if op in ("split", "splits"):
                    if op == "split":
                        got = [[entries(t) for _ in range(t.n())] for _ in range(t.n())]
                    else:
                        got = [t.s() for _ in range(t.n())]
                    t.next(); r2, m2 = t.n(), t.s()
                    ref = [[t.block() for _ in range(t.n())] for _ in range(t.n())]
                    if op == "split":
                        g = [[[a + b for a, b in l] for l in p] for p in got]
                        w = [[[txt(e) for e in l] for l in p] for p in ref]
                        for p in got:
                            for l in p:
                                for a, b in l:
                                    pass
                        w2 = [[[(e.word, txt(e)[len(e.word):]) for e in l] for l in p] for p in ref]
                        if g == w and got != w2:
                            return "the pieces of %r have words and values %r, tokens are %r" % (src, got, w2)
                    else:
                        g, w = got, ["".join(" ".join(txt(e) for e in l) + "\r\n" for l in p) for p in ref]
                    if (r, m) != (r2, m2):
                        return "splitting %r through the interface gives %r but the parser %r" % (src, (r, m), (r2, m2))
                    if g != w:
                        return "the pieces of %r are handed out as %r but are %r" % (src, g, w)
                    continue
                got = entries(t)
                t.next(); r2, m2 = t.n(), t.s(); ref = t.block()
                if (r, m) != (r2, m2):
                    return "%s of %r through the interface gives %r but the parser %r" % (op, src, (r, m), (r2, m2))
                want = [(e.word, txt(e)[len(e.word):]) for e in ref]
                if got != want:
                    return "%s of %r hands out %r, the tokens are %r" % (op, src, got, want)
                if op == "parse" and r and "O1234" not in src and "".join(a + b for a, b in got).replace(" ", "") != src.replace(" ", ""):
                    return "the entries of %r are %r: not its characters" % (src, got)
            return None
        return chk
    for drv in sess.DRV:
        c = sess.Cfg(drv)
        cases.append((c.line(), lambda o: None, "configuration", False))
        for _ in range(h.n(14)):
            ops, lines = [], []
            for ln in range(1, 9):
                l = " ".join(rng.choice(voc) for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 8])))
                k = rng.choice(["parse"] * 6 + ["conv", "rmnum", "rmcom", "rmopt", "rot", "renum", "split", "splits"])
                if k in ("parse", "rmnum", "rmcom", "rmopt"):
                    q = "%s %d %s" % (k, ln, hx(l))
                elif k == "conv":
                    q = sess.conv(ln, l, rng.randint(0, 1))
                elif k == "rot":
                    q = "rot %d %s %d" % (ln, hx(l), rng.randint(0, 8))
                elif k == "renum":
                    q = sess.renum(ln, l, "N", rng.randint(1, 20), rng.choice([0, 1, 2, 3]), rng.choice([30, 9999]), rng.randint(0, 1), rng.randint(0, 1))
                else:
                    l = [" ".join(rng.choice(["M6", "T1 M6", "M6 M6", "G0 X1", "X5", "(C)", "N1 Y2", "G1 Z-3. F5", "Z-.5"]) for _ in range(rng.randint(1, 2))) for _ in range(rng.randint(0, 7))]
                    q = "%s %d %d %d %d %s 0 %s %d %s" % (k, rng.choice([0, 0, 1, 1, 2, 3, 4]), rng.choice([1, 2, 3, 0]), rng.choice([1, 5]), rng.choice([1, 5]), hx(rng.choice(["M6", "X"])), hx(rng.choice(["", "", "G0 Z50."])), len(l), " ".join(hx(x) for x in l))
                ops.append(q); lines.append((k, l))
            cases.append((sess.sess(c, [sess.nc(tool_exec=rng.randint(0, 1))] + ops, plain=1, fl=sess.flags(macro=rng.randint(0, 1), groups=rng.randint(0, 1))), chk_of(lines), "%s: %r" % (drv, lines), True))
    h.run(exe, cases, "operations through the C interface")

"""C05 – splitting a program loses and invents nothing."""
from .common import *

FILES = [P + "FileSplitter.cpp", P + "AllAttributesParser.cpp", P + "AttributesPathCalculator.cpp"]
ASSUME = ["the value text of a G/M/T word is a readable number (the grammar only accepts digits; an unreadable one raises std::out_of_range, reported by split_file)",
          "the program holds fewer than 2^31 blocks"]
DRILL = (73, 74, 76, 81, 82, 83, 84, 85, 86, 87, 88, 89)
VST = ("active_g", "was_comment", "drill_cycle", "tool_change", "tool_change_cnt")


def number(ex, d):
    return lib.stoi_val(ex, d["value"].v)


def word_step(ex, v, e, exch):
    """what a word does to the splitter's view of the block"""
    d = dec(e)
    val = number(ex, d)
    skip = AND(is_dec(e), d["word"] == sv("/"))
    live = AND(is_dec(e), NOT(skip), NOT(v["was_comment"]), d["value"].has)
    plain = AND(NOT(d["macro"].has))
    g = AND(live, d["word"] == sv("G"), plain)
    whole = AND(NOT(d["dot"].has), NOT(d["value2"].has))
    m6 = AND(live, d["word"] == sv("M"), plain, whole, NOT(exch), val == 6)
    t = AND(live, d["word"] == sv("T"), whole, exch)
    drill = OR(*[val == k for k in DRILL])
    motion = AND(val >= 0, val <= 3)
    return {"was_comment": OR(v["was_comment"], skip),
            "active_g": IF(AND(g, OR(motion, drill, val == 80)), val, v["active_g"]),
            "drill_cycle": IF(AND(g, drill), T, IF(AND(g, val == 80), F_, v["drill_cycle"])),
            "tool_change": OR(v["tool_change"], m6, t),
            "tool_change_cnt": v["tool_change_cnt"] + IF(OR(m6, t), iv(1), iv(0))}


def block_start(v):
    return dict(v, was_comment=F_, tool_change=F_, active_g=IF(v["active_g"] > 3, iv(-1), v["active_g"]))


V0 = {"active_g": iv(-1), "was_comment": F_, "drill_cycle": F_, "tool_change": F_, "tool_change_cnt": iv(0)}


def in_cycle(v):
    return OR(AND(v["active_g"] == -1, v["drill_cycle"]), v["active_g"] == 80)


def vstate(r):
    return {n: r.f[n] for n in VST}


def visitor(run):
    c = run.ctx("FileSplitterAttributesVisitor", [P + "FileSplitter.cpp", P + "AttributesPathCalculator.cpp"])
    ex = c.ex
    ex.opts["abstract_strings"] = True
    ex.opts["nested"] = True
    cnc = c.fresh("CncDefaultValues", "defaults")
    t = c.rec("FileSplitterAttributesVisitor")
    v = {"active_g": z3.Int("active_g"), "was_comment": z3.Bool("was_comment"), "drill_cycle": z3.Bool("drill_cycle"), "tool_change": z3.Bool("tool_change"), "tool_change_cnt": z3.Int("tool_change_cnt")}
    f = {n: Poison("member " + n) for n, _ in ex.fields(t)}
    f.update(v); f["cnc_default_values"] = Ref(c.loc(cnc)); f["other_g"] = c.fresh(Ty("opt", [c.ty("int")]), "other_g")
    w = c.fresh(c.rec("DecimalAttributeData"), "word")
    # the contract's element shape
    e = Var(iv(0), [w, None, None], None)
    c.assume(IMP(w.f["value"].has, lib.stoi_ok(ex, w.f["value"].v)))
    c.assume(AND(v["tool_change_cnt"] >= 0, v["tool_change_cnt"] < 2 ** 31 - 1))
    me = c.loc(Rec(t, f))
    st, r, th = c.call(c.fn("FileSplitterAttributesVisitor::operator()", ptypes=["Decimal"]), me, [c.loc(w)])
    c.only(th)
    after, want = vstate(ex.rd(st, me)), word_step(ex, v, e, cnc.f["tool_number_executes_exchange"])
    for n in VST:
        c.ensure("a word's effect on " + n, st, after[n] == want[n])
    c.cover("returns", st)
    st, r, th = c.call("FileSplitterAttributesVisitor::reset", me, [])
    c.only(th)
    after, want = vstate(ex.rd(st, me)), block_start(v)
    for n in VST:
        c.ensure("a new block's " + n, st, after[n] == want[n])
    for fn, val in (("g", v["active_g"]), ("get_tool_change_cnt", v["tool_change_cnt"])):
        st, r, th = c.call("FileSplitterAttributesVisitor::" + fn, me, [])
        c.only(th)
        c.ensure(fn + " reports it", st, ex.rd(st, r) == val)
    for fn, val in (("was_tool_changed", v["tool_change"]), ("is_drill_cycle_one_block_after_start", in_cycle(v))):
        st, r, th = c.call("FileSplitterAttributesVisitor::" + fn, me, [])
        c.only(th)
        c.ensure(fn + " reports it", st, ex.tobool(ex.rd(st, r)) == val)


def outer_index(ex, head, loc):
    """inside a loop nested in the loop over loc: the index of the outer loop"""
    if len(ex.loop_frames) < 2:
        return None
    cands = [x.c for l, v in head.mem.items() for q, x in loops.its_of(v)]
    for fr in reversed(ex.loop_frames):
        cands += [v for v in fr.env.values()] + [v.l for v in (head.mem.get(x.base) for x in fr.env.values() if isinstance(x, LVal) and not x.path) if isinstance(v, Ptr)]
    for cc in cands:
        if isinstance(cc, LVal) and cc.base == loc.base and len(cc.path) == len(loc.path) + 1:
            return cc.path[-1][1]
    raise Unsupported("inner loop not over an element of the outer one's sequence")


class Split:
    """the loop over the program of one evaluate function"""

    def __init__(self, run, title, kind):
        c = self.c = run.ctx(title, [P + "FileSplitter.cpp", P + "AttributesPathCalculator.cpp"])
        ex = self.ex = c.ex
        self.kind = kind
        ex.opts["abstract_strings"] = True
        ex.opts["nested"] = True
        blk = Ty("seq", [c.ty("AttributeVariant")])
        self.prog = c.fresh(Ty("seq", [blk]), "program")
        self.retr = c.fresh(blk, "retraction_words")
        self.fs = c.fresh("FileSplitting", "splitting")
        self.cnc = c.fresh("CncDefaultValues", "defaults")
        self.value0 = c.fresh(Ty("seq", [Ty("seq", [blk])]), "result")
        c.assume(self.value0.n == 0)
        c.assume(self.prog.n < 2 ** 31 - 1)
        self.exch = self.cnc.f["tool_number_executes_exchange"]
        self.results = None
        if kind in ("path", "time"):
            rt = c.rec("PathResult" if kind == "path" else "TimeResult")
            self.results = c.fresh(Ty("seq", [rt]), "results")
            c.assume(self.results.n == self.prog.n)
        t = c.rec("FileSplitter")
        self.me = c.loc(Rec(t, {"file_splitting": Ref(c.loc(self.fs)), "language": z3.Int("language")}))
        self.n = self.prog.n
        self.data, self.rl, self.value, self.cl = c.loc(self.prog), c.loc(self.retr), c.loc(self.value0), c.loc(self.cnc)
        self.r = IF(self.fs.f["retraction_plane"] != sv(""), iv(1), iv(0))
        self.folds()

    def blk(self, k):
        return leafmap(lambda a: z3.Select(a, k), self.prog.e)

    def acc0(self):
        return {"block": iv(0), "tool": iv(0), "path": z3.RealVal(0), "time": z3.RealVal(0)}[self.kind]

    def folds(self):
        """g: state after k blocks; w(k, i): the visitor after i words of block k"""
        ex, c, S_ = self.ex, self.c, self
        wf = {n: z3.Function("words_" + n, I, I, V0[n].sort()) for n in VST}
        self.w = lambda k, i: {n: wf[n](k, i) for n in VST}
        kind, fs = self.kind, self.fs.f

        class G(loops.Ghost):
            def unfold(g, i):
                key = str(i)
                first = key not in g.done
                super().unfold(i)
                if first:
                    S_.begin(i)
        init = Rec(None, {"v": Rec(None, dict(V0)), "acc": self.acc0(), "P": iv(1), "L": iv(0)})

        def step(s, k):
            v = self.w(k, S_.words(k))
            s = s.f
            cut = self.cut(v, s)
            lim = {"block": 1, "tool": 0}.get(kind)
            gain = self.gain(k)
            return Rec(None, {"v": Rec(None, v), "acc": IF(cut, self.acc0(), s["acc"]) + gain if kind != "tool" else s["acc"], "P": IF(cut, s["P"] + 1, s["P"]), "L": IF(cut, self.r + 1, s["L"] + 1)})
        self.g = G(ex, "split", init, step, lambda k: k, self.n)
        self.g.unfold(iv(0))
        ex.ghosts.append(self.g)
        ex.loop_invs.append(self.inv)
        ex.bounds.append(self.n)

    def gain(self, k):
        if self.kind in ("path", "time"):
            return z3.Select(self.results.e.f["work_motion"], k)
        return iv(1)

    def cut(self, v, s):
        fs = self.fs.f
        if self.kind == "tool":
            return AND(v["tool_change"], v["tool_change_cnt"] > 1)
        limit = {"block": fs["step"], "path": z3.ToReal(fs["path"]), "time": z3.ToReal(fs["time"])}[self.kind]
        return AND(s["acc"] >= limit, NOT(in_cycle(v)), IMP(fs["rapid_traverse_only"], v["active_g"] == 0))

    def words(self, k):
        return z3.Select(self.prog.e.n, k)

    def begin(self, k):
        """w(k, 0) is the visitor at the start of block k"""
        ex = self.ex
        b = block_start(self.g.at(k).f["v"].f)
        ex.axioms.append(self.words(k) >= 0)
        for n in VST:
            ex.axioms.append(IMP(k >= 0, self.w(k, iv(0))[n] == b[n]))

    def unfold_words(self, k, i):
        ex = self.ex
        e = leafmap(lambda a: z3.Select(a, i), self.blk(k).e)
        nxt = word_step(ex, self.w(k, i), e, self.exch)
        for n in VST:
            ex.axioms.append(IMP(i >= 0, self.w(k, simp(i + 1))[n] == nxt[n]))
        d = dec(e)
        ex.axioms.append(IMP(AND(i >= 0, i < self.words(k), is_dec(e), d["value"].has), lib.stoi_ok(ex, d["value"].v)))

    def outer_index(self, head):
        """the block being read, inside the loop over its words"""
        ex = self.ex
        return outer_index(ex, head, self.data)

    def inv(self, ex, head, it, leaves, mapseen):
        k = self.outer_index(head)
        if k is not None:
            self.g.unfold(k)
            self.begin(k)
            self.unfold_words(k, it)
            out = [("within the block", it <= self.words(k))]
            for (l, p, c, i0, gs, hv) in leaves:
                for n in VST:
                    if c.sort() == V0[n].sort():
                        out.append(("word fold " + n, c == self.w(k, it)[n]))
            return out
        cur = ex.rd(head, self.value)
        if not isinstance(cur, Seq):
            return []
        g = self.g
        at = lambda i: g.at(simp(i)).f
        piece = lambda p: leafmap(lambda a: z3.Select(a, p), cur.e)
        s = at(it)
        self.g.unfold(it)
        out = [("pieces", cur.n == s["P"]), ("length of the open piece", piece(s["P"] - 1).n == s["L"]), ("counts", AND(s["P"] >= 1, s["L"] >= 0, it <= self.n, IMP(it > 0, s["L"] > 0)))]

        def placed(q):
            g.unfold(q)
            a = at(q + 1)
            return IMP(AND(q >= 0, q < it), AND(a["P"] >= 1, a["P"] <= s["P"], a["L"] >= 1, IMP(a["P"] == s["P"], a["L"] <= s["L"]),
                                                same(leafmap(lambda x: z3.Select(x, a["L"] - 1), piece(a["P"] - 1).e), self.blk(q))))

        def closed(q):
            g.unfold(q)
            a, b = at(q), at(q + 1)
            return IMP(AND(q >= 0, q < it, b["P"] != a["P"]), AND(b["P"] == a["P"] + 1, a["P"] >= 1, b["P"] <= s["P"], piece(a["P"] - 1).n == a["L"] + self.r,
                       IMP(self.r == 1, AND(same(leafmap(lambda x: z3.Select(x, a["L"]), piece(a["P"] - 1).e), self.retr), same(leafmap(lambda x: z3.Select(x, iv(0)), piece(a["P"]).e), self.retr)))))
        return out + [("every block so far is in its place", placed), ("cuts so far", closed)]


def evaluate(kind):
    names = {"block": "evaluate_block_numbers", "tool": "evaluate_tool_change"}

    def run_(run):
        S_ = Split(run, "split by " + kind, kind)
        c, ex = S_.c, S_.ex
        q = z3.Int("any_block")
        ex.index_instances.append(q)
        S_.g.unfold(q)
        if kind in names:
            fn, args = c.fn("FileSplitter::" + names[kind]), []
        else:
            fn, args = c.fn("FileSplitter::evaluate", nparams=5, ptypes=["", "", "", "", "PathResult" if kind == "path" else "TimeResult"]), [c.loc(S_.results)]
        st, r, th = c.call(fn, S_.me, [S_.cl, S_.data, S_.rl, S_.value] + args)
        ok = {"block": S_.fs.f["step"] > 0, "tool": T, "path": S_.fs.f["path"] > 0, "time": S_.fs.f["time"] > 0}[kind]
        for s, e in c.only(th, "file_splitter_exception"):
            c.ensure("refused only without a limit", s, NOT(ok))
            nm = {"block": "CannotSplitFileNumberOfBlocks", "path": "CannotSplitFileToolPathLength", "time": "CannotSplitFileToolTime"}.get(kind)
            if nm:
                c.ensure("says what is missing", s, c.what(s, e) == msg(ex, "make_message", c.enum("MessageName", nm), z3.Int("language")))
        c.ensure("accepted only with a limit", st, ok)
        cur = ex.rd(st, S_.value)
        g = S_.g
        end = g.at(S_.n).f
        piece = lambda p: leafmap(lambda a: z3.Select(a, p), cur.e)
        c.ensure("as many pieces as the criterion makes", st, AND(cur.n == end["P"], cur.n >= 1))
        c.ensure("the last piece ends with the program", st, piece(end["P"] - 1).n == end["L"])
        a, b = g.at(q).f, g.at(simp(q + 1)).f
        s = st.copy(); s.assume(AND(q >= 0, q < S_.n))
        got = leafmap(lambda x: z3.Select(x, b["L"] - 1), piece(b["P"] - 1).e)
        c.ensure("every block is in its place, unchanged", s, same(got, S_.blk(q)))
        cut = S_.cut(S_.w(q, S_.words(q)), a)
        c.ensure("a block follows its predecessor, or opens the next piece after the return move", s, AND(b["P"] == IF(cut, a["P"] + 1, a["P"]), b["L"] == IF(cut, S_.r + 1, a["L"] + 1)))
        s = st.copy(); s.assume(AND(q >= 0, q < S_.n, cut))
        c.ensure("a piece cut off ends with the return move and holds nothing else", s, piece(a["P"] - 1).n == a["L"] + S_.r)
        s.assume(S_.r == 1)
        c.ensure("the return move closes the piece", s, same(leafmap(lambda x: z3.Select(x, a["L"]), piece(a["P"] - 1).e), S_.retr))
        c.ensure("and opens the next", s, same(leafmap(lambda x: z3.Select(x, iv(0)), piece(a["P"]).e), S_.retr))
        c.cover("returns", st, [S_.n > 3])
    return run_


def dispatch(run):
    """evaluate with the blocks only: the criterion of the settings decides"""
    c = run.ctx("FileSplitter::evaluate", [P + "FileSplitter.cpp", P + "AttributesPathCalculator.cpp"])
    ex = c.ex
    ex.opts["abstract_strings"] = True
    ex.opts["nested"] = True
    fs = c.fresh("FileSplitting", "splitting")
    me = c.loc(Rec(c.rec("FileSplitter"), {"file_splitting": Ref(c.loc(fs)), "language": z3.Int("language")}))
    a = [c.loc(Poison(n)) for n in ("defaults", "program", "retraction words", "result")]
    log = c.loc(Rec(Ty("ghost"), {"block": iv(0), "tool": iv(0)}))

    def by(kind):
        def h(ex_, st, this, args, decl):
            g = ex.rd(st, log)
            ex.write(st, log, Rec(g.t, dict(g.f, **{kind: g.f[kind] + 1})))
            c.ensure("with this splitter and everything given", st, T if same_lval(this, me) and all(isinstance(x, LVal) and same_lval(x, y) for x, y in zip(args, a)) else F_)
            return None
        return h
    ex.contracts["FileSplitter::evaluate_block_numbers"] = by("block")
    ex.contracts["FileSplitter::evaluate_tool_change"] = by("tool")
    st, r, th = c.call(c.fn("FileSplitter::evaluate", nparams=4), me, a)
    c.only(th)
    g = ex.rd(st, log).f
    t = fs.f["type"]
    c.ensure("split by the criterion asked for", st, AND(g["block"] == IF(t == c.enum("FileSplittingType", "block_numbers"), iv(1), iv(0)), g["tool"] == IF(t == c.enum("FileSplittingType", "tool_change"), iv(1), iv(0))))
    c.cover("returns", st)


def text(run):
    """the loop over the lines of a program split at a text"""
    c = run.ctx("split by text", [P + "FileSplitter.cpp"])
    ex = c.ex
    ex.opts["abstract_strings"] = True
    ex.opts["nested"] = True
    lines = c.fresh(Ty("seq", [c.ty("std::string")]), "program")
    fs = c.fresh("FileSplitting", "splitting")
    me = c.loc(Rec(c.rec("FileSplitter"), {"file_splitting": Ref(c.loc(fs)), "language": z3.Int("language")}))
    data = c.loc(lines)
    retr = fs.f["retraction_plane"]
    has = retr != sv("")
    r = IF(has, iv(1), iv(0))
    line = lambda k: z3.Select(lines.e, k)
    cut = lambda k: z3.Contains(line(k), fs.f["text"])

    def step(s, e):
        s = s.f
        k = z3.Contains(e, fs.f["text"])
        return Rec(None, {"P": IF(k, s["P"] + 1, s["P"]), "L": IF(k, r + 1, s["L"] + 1)})
    g = c.ghost("split", Rec(None, {"P": iv(1), "L": iv(0)}), step, lines)
    at = lambda k: g.at(simp(k)).f

    def pieces(head):
        for fr in ex.loop_frames:
            for v in fr.env.values():
                x = head.mem.get(v.base) if isinstance(v, LVal) and not v.path else None
                if isinstance(x, Seq) and isinstance(x.e, Seq):
                    return x

    def facts(cur, it):
        s = at(it)
        g.unfold(it)
        n_of = lambda p: z3.Select(cur.e.n, p)
        l_of = lambda p, j: z3.Select(z3.Select(cur.e.e, p), j)

        def placed(q):
            g.unfold(q)
            a = at(q + 1)
            return IMP(AND(q >= 0, q < it), AND(a["P"] >= 1, a["P"] <= s["P"], a["L"] >= 1, IMP(a["P"] == s["P"], a["L"] <= s["L"]), l_of(a["P"] - 1, a["L"] - 1) == line(q)))

        def closed(q):
            g.unfold(q)
            a, b = at(q), at(q + 1)
            return IMP(AND(q >= 0, q < it, b["P"] != a["P"]), AND(b["P"] == a["P"] + 1, a["P"] >= 1, b["P"] <= s["P"], n_of(a["P"] - 1) == a["L"] + r,
                       IMP(has, AND(l_of(a["P"] - 1, a["L"]) == retr, l_of(a["P"], iv(0)) == retr))))
        return [("pieces", cur.n == s["P"]), ("length of the open piece", n_of(s["P"] - 1) == s["L"]), ("counts", AND(s["P"] >= 1, s["L"] >= 0, IMP(it > 0, s["L"] > 0)))], [("every line so far is in its place", placed), ("cuts so far", closed)]

    def inv(ex_, head, it, leaves, mapseen):
        cur = pieces(head)
        if cur is None:
            return []
        a, b = facts(cur, it)
        return a + [("within the program", it <= lines.n)] + b
    ex.loop_invs.append(inv)
    ex.bounds.append(lines.n)
    q = z3.Int("any_line")
    ex.index_instances.append(q)
    g.unfold(q)
    st, res, th = c.call(c.fn("FileSplitter::evaluate", nparams=1), me, [data])
    c.only(th)
    cur = ex.rd(st, res)
    a, b = facts(cur, lines.n)
    for n, f in a[:2]:
        c.ensure(n, st, f)
    for n, f in b:
        c.ensure(n.replace(" so far", ""), st, f(q))
    s = st.copy(); s.assume(AND(q >= 0, q < lines.n))
    c.ensure("cut exactly before a line with the text", s, at(q + 1)["P"] == IF(cut(q), at(q)["P"] + 1, at(q)["P"]))
    c.ensure("a line follows its predecessor, or opens the next piece after the return move", s, at(q + 1)["L"] == IF(cut(q), r + 1, at(q)["L"] + 1))
    c.cover("returns", st, [lines.n > 3])


class File:
    """AllAttributesParser::split_file: reading, splitting and renumbering through their contracts.

    K and (P0, Q0) are arbitrary but fixed: what is proved about line K and about block Q0 of piece P0 holds for all."""

    def __init__(self, run, title, kind):
        c = self.c = run.ctx(title, [P + "AllAttributesParser.cpp"])
        ex = self.ex = c.ex
        ex.opts["abstract_strings"] = True
        ex.opts["nested"] = True
        str_t, self.bt = c.ty("std::string"), Ty("seq", [c.ty("AttributeVariant")])
        self.lines = c.fresh(Ty("seq", [str_t]), "program")
        c.assume(self.lines.n < 2 ** 31 - 1)
        ex.bounds.append(self.lines.n)
        self.fs = c.fresh("FileSplitting", "splitting")
        self.kind = self.fs.f["type"] = c.enum("FileSplittingType", kind)
        t = c.rec("AllAttributesParser")
        f = {n: Poison("member " + n) for n, _ in ex.fields(t)}
        r = c.rec("Renumberer")
        f["renumberer"] = Rec(r, {m: Poison("renumberer " + m) for m, _ in ex.fields(r)})
        ap = c.rec("AttributesPathCalculator")
        self.cnc = c.fresh("CncDefaultValues", "defaults")
        calc = {m: Poison("calculator " + m) for m, _ in ex.fields(ap)}
        self.calc = c.loc(Rec(ap, calc))
        f["attr_path_calc"] = Ptr(self.calc, F_)
        self.lang = z3.Int("language")
        os_ = c.fresh("OtherSettings", "other_settings")
        os_.f["language"] = self.lang
        f["other_settings"] = os_
        self.me = c.loc(Rec(t, f))
        self.data = c.loc(self.lines)
        self.value = c.loc(self.empty_result())
        self.msg0 = z3.String("message")
        self.message = c.loc(self.msg0)
        self.single = z3.Bool("single_line")
        self.fsl = c.loc(self.fs)
        self.K, self.P0, self.Q0 = z3.Int("line_K"), z3.Int("piece_P"), z3.Int("block_Q")
        self.ghost = c.loc(Rec(Ty("ghost"), {"split": iv(0), "numbered": iv(0), "readK": iv(0), "retraction": iv(0), "failed": F_, "current": iv(-1)}))
        ex.contracts["AttributesPathCalculator::get_cnc_default_values"] = lambda ex_, st, this, args, decl: c.loc(self.cnc)

    def empty_result(self):
        v = self.c.fresh(Ty("seq", [Ty("seq", [self.bt])]), "result_in")
        return Seq(iv(0), v.e, v.t)

    def g(self, st):
        return self.ex.rd(st, self.ghost).f

    def put(self, st, **k):
        g = self.ex.rd(st, self.ghost)
        self.ex.write(st, self.ghost, Rec(g.t, dict(g.f, **{n: simp(v) if isz(v) else v for n, v in k.items()})))

    def is_loc(self, a, l):
        return T if isinstance(a, LVal) and same_lval(a, l) else F_

    def line(self, k):
        return z3.Select(self.lines.e, k)

    def blank(self, s):
        return lib.rtrim_ws(self.ex, s) == sv("")

    def settings(self, v):
        f = v.f
        return AND(f["word"] == sv("N"), f["step"] == 1, f["frequency"] == 1, f["max_number"] == 99999, NOT(f["existing_only"]), NOT(f["leading_zeroes"]))


def at2(v, p, q):
    """block q of piece p"""
    return leafmap(lambda a: z3.Select(a, q), leafmap(lambda a: z3.Select(a, p), v.e).e)


def seq_n(v):
    return iv(len(v.xs)) if isinstance(v, CSeq) else v.n


def split_file(kind, title):
    def run_(run):
        S_ = File(run, "split_file: " + title, kind)
        c, ex, fs, K, P0, Q0 = S_.c, S_.ex, S_.fs.f, S_.K, S_.P0, S_.Q0
        is_path = kind == "work_motion_path"
        timed = is_path or kind == "work_motion_time"
        lines, n = S_.lines, S_.lines.n
        ok = z3.Function("line_is_readable", I, B)
        txt = z3.Function("reader_message", I, S)
        parsed = c.fresh(Ty("seq", [S_.bt]), "parsed")
        block = lambda k: leafmap(lambda a: z3.Select(a, k), parsed.e)
        retr = c.fresh(S_.bt, "retraction_block")
        retr_ok, retr_text = z3.Bool("retraction_is_readable"), z3.String("retraction_message")
        refused, overflow, why = z3.Bool("splitter_refuses"), z3.Bool("splitter_number_out_of_range"), z3.String("splitter_message")
        tools = c.fresh(Ty("seq", [c.rec("PathResult" if is_path else "TimeResult")]), "measured")
        pieces = c.fresh(Ty("seq", [Ty("seq", [S_.bt])]), "pieces")
        done = c.fresh(Ty("seq", [Ty("seq", [S_.bt])]), "renumbered_pieces")
        count = lambda b: IF(b, iv(1), iv(0))
        V = lambda st, a: ex.rd(st, a)

        def read(st, args, options):
            c.ensure("messages and verdicts go to the caller", st, AND(S_.is_loc(args[3], S_.message), V(st, args[4]) == S_.single))
            if options is not None:
                o = V(st, args[5]).f
                c.ensure("read as when measuring", st, options(o))
            g = S_.g(st)
            if not ex.loop_frames:
                c.ensure("the return move given is read once", st, AND(V(st, args[1]) == fs["retraction_plane"], g["retraction"] == 0, fs["retraction_plane"] != sv("")))
                ex.write(st, args[2], retr)
                ex.write(st, args[3], retr_text)
                S_.put(st, retraction=g["retraction"] + 1, failed=OR(g["failed"], NOT(retr_ok)))
                return retr_ok
            x = V(st, args[0])
            c.ensure("the lines are read in order", st, AND(x > g["current"], x >= 0, x < n, V(st, args[1]) == S_.line(x), NOT(S_.blank(S_.line(x)))))
            c.ensure("into an empty block", st, seq_n(V(st, args[2])) == 0)
            ex.write(st, args[2], block(x))
            ex.write(st, args[3], txt(x))
            S_.put(st, current=x, readK=g["readK"] + count(x == K), failed=OR(g["failed"], NOT(ok(x))))
            return ok(x)

        def simple(ex_, st, this, args, decl):
            if timed:
                c.ensure("only the return move is read without measuring", st, F_ if ex.loop_frames else T)
            return read(st, args, None)

        def parse(ex_, st, this, args, decl):
            if not timed or not ex.loop_frames:
                c.ensure("only lines that are to be measured are measured", st, F_)
            return read(st, args, lambda o: AND(o["evaluate_macro"], o["calculate_path"]))
        ex.contracts["AllAttributesParser::simple_parse"] = simple
        ex.contracts["AllAttributesParser::parse"] = parse

        def result(ex_, st, this, args, decl):
            c.ensure("by this parser's own calculator", st, S_.is_loc(this, S_.calc))
            return ex.alloc(st, leafmap(lambda a: z3.Select(a, S_.g(st)["current"]), tools.e))
        ex.contracts["AttributesPathCalculator::get_%s_result" % ("path" if is_path else "time")] = result

        def want_block(cur):
            b = c.elem(cur, K)
            return AND(IMP(S_.blank(S_.line(K)), b.n == 0), IMP(NOT(S_.blank(S_.line(K))), same(b, block(K))))

        zero = lambda v: AND(*[x == (sv("") if x.sort() == S else (F_ if x.sort() == B else (z3.RealVal(0) if x.sort() == R else iv(0)))) for x in leaves_of(v)])

        def want_result(cur):
            r = c.elem(cur, K)
            return AND(IMP(S_.blank(S_.line(K)), r.f["work_motion"] == 0), IMP(NOT(S_.blank(S_.line(K))), same(r, c.elem(tools, K))))

        def evaluate_(ex_, st, this, args, decl):
            g = S_.g(st)
            f = V(st, this).f
            c.ensure("split with the settings given", st, AND(T if isinstance(f["file_splitting"], Ref) and same_lval(f["file_splitting"].l, S_.fsl) else F_, f["language"] == S_.lang))
            c.ensure("split once, after everything was read", st, AND(g["split"] == 0, NOT(g["failed"]), g["retraction"] == count(fs["retraction_plane"] != sv(""))))
            c.ensure("the parser's defaults; into the caller's result", st, AND(S_.is_loc(args[0], S_.cnc_loc), S_.is_loc(args[3], S_.value)))
            cur, rb = V(st, args[1]), V(st, args[2])
            c.ensure("one block for every line", st, seq_n(cur) == n)
            s = st.copy(); s.assume(AND(K >= 0, K < n))
            c.ensure("every line's words are split, an empty line stays empty", s, want_block(cur))
            c.ensure("every line was read", s, IMP(NOT(S_.blank(S_.line(K))), AND(g["readK"] == 1, ok(K))))
            rn = iv(len(rb.xs)) if isinstance(rb, CSeq) else rb.n
            c.ensure("no return move unless configured", st, IMP(fs["retraction_plane"] == sv(""), rn == 0))
            if isinstance(rb, Seq):
                s2 = st.copy(); s2.assume(fs["retraction_plane"] != sv(""))
                c.ensure("the return move given", s2, same(rb, retr))
            if timed:
                res = V(st, args[4])
                c.ensure("one result for every line", st, res.n == n)
                c.ensure("the result of every line, nothing for an empty one", s, want_result(res))
            c.ensure("the right overload", st, T if len(args) == (5 if timed else 4) else F_)
            ex.throw(st, Exc("parser::fanuc::file_splitter_exception", Rec(Ty("exc"), {"$what": why})), refused)
            ex.throw(st, Exc("std::out_of_range", Rec(Ty("exc"), {"$what": why})), overflow)
            ex.write(st, S_.value, pieces)
            S_.put(st, split=g["split"] + 1)
            return None
        ex.contracts["FileSplitter::evaluate"] = evaluate_
        S_.cnc_loc = c.loc(S_.cnc)
        ex.contracts["AttributesPathCalculator::get_cnc_default_values"] = lambda ex_, st, this, args, decl: S_.cnc_loc

        def number(ex_, st, this, args, decl):
            g = S_.g(st)
            l = args[0]
            inside = isinstance(l, LVal) and l.base == S_.value.base and len(l.path) == len(S_.value.path) + 2
            c.ensure("a block of the result is renumbered, from 1 by 1", st, AND(T if inside else F_, g["split"] == 1, S_.settings(V(st, args[1]))))
            c.ensure("by this parser's own renumberer", st, T if same_lval(this, S_.me + ("f", "renumberer")) else F_)
            if not inside:
                return None
            p, q = l.path[-2][1], l.path[-1][1]
            ex.write(st, l, at2(done, p, q))
            S_.put(st, numbered=g["numbered"] + count(AND(p == P0, q == Q0)))
            return None
        ex.contracts["Renumberer::renumber"] = number

        def inv(ex_, head, it, leaves, mapseen):
            g = S_.g(head)
            if z3.is_int_value(g["split"]) and g["split"].as_long() == 0:
                out = [("no failure so far", NOT(g["failed"])), ("line in order", g["current"] < it), ("within the program", it <= n), ("K read", g["readK"] == count(AND(K >= 0, K < it, NOT(S_.blank(S_.line(K)))))),
                       ("K readable", IMP(AND(K >= 0, K < it, NOT(S_.blank(S_.line(K)))), ok(K)))]
                for fr in ex.loop_frames:
                    for v in fr.env.values():
                        x = head.mem.get(v.base) if isinstance(v, LVal) and not v.path else None
                        if isinstance(x, Seq) and v.base not in (S_.data.base, S_.value.base):
                            if isinstance(x.e, Seq):
                                out += [("blocks", x.n == it), ("block K", IMP(AND(K >= 0, K < it), want_block(x)))]
                            elif isinstance(x.e, Rec) and timed and "work_motion" in x.e.f and set(x.e.f) == set(tools.e.f):
                                out += [("results", x.n == it), ("result K", IMP(AND(K >= 0, K < it), want_result(x)))]
                return out
            cur = V(head, S_.value)
            p = outer_index(ex, head, S_.value)
            out = [("pieces stay", AND(cur.n == pieces.n, c.elem(cur, P0).n == c.elem(pieces, P0).n))]
            if p is None:
                seen = it > P0
            else:
                out.append(("this piece stays", c.elem(cur, p).n == c.elem(pieces, p).n))
                seen = OR(p > P0, AND(p == P0, it > Q0))
            out += [("renumbered once", g["numbered"] == count(seen)), ("renumbered in place", IMP(seen, same(at2(cur, P0, Q0), at2(done, P0, Q0))))]
            if p is None:
                def untouched(k):
                    return IMP(AND(k >= it, k < pieces.n), c.elem(cur, k).n == c.elem(pieces, k).n)
                out.append(("pieces to come", untouched))
            return out
        ex.loop_invs.append(inv)
        ex.index_instances.append(P0)
        c.assume(AND(P0 >= 0, P0 < pieces.n, Q0 >= 0, Q0 < c.elem(pieces, P0).n))
        ex.bounds.append(pieces.n)
        ex.it_hooks.append(lambda it: ex.axioms.append(c.elem(pieces, it).n >= 0))
        st, r, th = c.call(c.fn("AllAttributesParser::split_file", nparams=5), S_.me, [S_.data, S_.value, S_.message, S_.single, S_.fsl])
        c.only(th)
        g, res = S_.g(st), ex.tobool(ex.rd(st, r))
        s = st.copy(); s.assume(res)
        c.ensure("accepted only when everything was read and split", s, AND(g["split"] == 1, NOT(g["failed"])))
        cur = V(s, S_.value)
        c.ensure("the pieces are the splitter's", s, AND(cur.n == pieces.n, c.elem(cur, P0).n == c.elem(pieces, P0).n))
        c.ensure("every block is renumbered once, in place", s, AND(g["numbered"] == 1, same(at2(cur, P0, Q0), at2(done, P0, Q0))))
        s = st.copy(); s.assume(NOT(res))
        c.ensure("refused only for a reason", s, OR(g["failed"], AND(g["split"] == 0, OR(refused, overflow))))
        c.ensure("the splitter's reason is reported", s, IMP(NOT(g["failed"]), ex.rd(s, S_.message) == why))
        c.cover("accepts", st, [res, n > 3])
        c.cover("refuses", st, [NOT(res)])
    return run_


def split_file_text(run):
    S_ = File(run, "split_file: by text", "text")
    c, ex, fs, P0, Q0 = S_.c, S_.ex, S_.fs.f, S_.P0, S_.Q0
    pieces = c.fresh(Ty("seq", [Ty("seq", [c.ty("std::string")])]), "pieces")
    done = c.fresh(Ty("seq", [Ty("seq", [S_.bt])]), "renumbered_pieces")
    text = lambda p, q: z3.Select(z3.Select(pieces.e.e, p), q)
    size = lambda p: z3.Select(pieces.e.n, p)
    ok = z3.Function("line_is_readable", I, I, B)
    txt = z3.Function("reader_message", I, I, S)
    overflow, why = z3.Bool("number_out_of_range"), z3.String("overflow_message")
    count = lambda b: IF(b, iv(1), iv(0))
    V = lambda st, a: ex.rd(st, a)
    c.assume(AND(P0 >= 0, P0 < pieces.n, Q0 >= 0, Q0 < size(P0), pieces.n < 2 ** 31 - 1))
    ex.bounds.append(pieces.n)
    ex.index_instances.append(P0)
    ex.it_hooks.append(lambda it: ex.axioms.append(AND(size(it) >= 0, size(it) < 2 ** 31 - 1)))

    def evaluate_(ex_, st, this, args, decl):
        g = S_.g(st)
        f = V(st, this).f
        c.ensure("the lines given are split with the settings given", st, AND(T if len(args) == 1 and same_lval(args[0], S_.data) and isinstance(f["file_splitting"], Ref) and same_lval(f["file_splitting"].l, S_.fsl) else F_, f["language"] == S_.lang, g["split"] == 0))
        S_.put(st, split=g["split"] + 1)
        return pieces
    ex.contracts["FileSplitter::evaluate"] = evaluate_

    def number(ex_, st, this, args, decl):
        g = S_.g(st)
        l = args[2]
        inside = isinstance(l, LVal) and l.base == S_.value.base and len(l.path) == len(S_.value.path) + 2
        c.ensure("a line is read into its own place", st, T if inside else F_)
        if not inside:
            return T
        p, q = l.path[-2][1], l.path[-1][1]
        c.ensure("the piece's line, its own number, the caller's message", st, AND(p >= 0, p < pieces.n, q >= 0, q < size(p), V(st, args[0]) == q, V(st, args[1]) == text(p, q), NOT(S_.blank(text(p, q))), S_.is_loc(args[3], S_.message), V(st, args[4]) == S_.single))
        c.ensure("renumbered from 1 by 1", st, S_.settings(V(st, args[5])))
        ex.throw(st, Exc("std::out_of_range", Rec(Ty("exc"), {"$what": why})), overflow)
        ex.write(st, l, at2(done, p, q))
        ex.write(st, S_.message, txt(p, q))
        S_.put(st, numbered=g["numbered"] + count(AND(p == P0, q == Q0)), failed=OR(g["failed"], NOT(ok(p, q))))
        return ok(p, q)
    ex.contracts["AllAttributesParser::renumber"] = number
    blank0 = S_.blank(text(P0, Q0))

    def inv(ex_, head, it, leaves, mapseen):
        g, cur = S_.g(head), V(head, S_.value)
        p = outer(head, it)
        out = [("no failure so far", NOT(g["failed"])), ("pieces stay", cur.n == pieces.n)]
        if p is None:
            seen, made = it > P0, it > P0

            def to_come(k):
                return IMP(AND(k >= it, k < pieces.n), c.elem(cur, k).n == 0)
            out.append(("pieces to come are empty", to_come))
        else:
            out.append(("this piece stays", c.elem(cur, p).n == size(p)))
            seen, made = OR(p > P0, AND(p == P0, it > Q0)), p >= P0

            def rest(k):
                return IMP(AND(k >= it, k < size(p)), at2(cur, p, k).n == 0)
            out.append(("blocks of this piece to come are empty", rest))
        out += [("read once", g["numbered"] == count(AND(seen, NOT(blank0)))), ("readable", IMP(AND(seen, NOT(blank0)), ok(P0, Q0))),
                ("the piece is as long as its text", IMP(made, c.elem(cur, P0).n == size(P0))),
                ("read in place", IMP(AND(seen, NOT(blank0)), same(at2(cur, P0, Q0), at2(done, P0, Q0)))), ("an empty line stays empty", IMP(AND(seen, blank0), at2(cur, P0, Q0).n == 0))]
        return out

    def outer(head, it):
        """index of the outer loop: the position of the piece being read"""
        if len(ex.loop_frames) < 2:
            return None
        for fr in reversed(ex.loop_frames):
            for x in fr.env.values():
                v = head.mem.get(x.base) if isinstance(x, LVal) and not x.path else None
                for l in (x, v.l if isinstance(v, Ptr) else None):
                    if isinstance(l, LVal) and len(l.path) >= 1 and l.path[-1][0] == "e":
                        t = head.mem.get(l.base)
                        if isinstance(t, Seq) and isinstance(t.e, Seq) and isz(t.e.e):
                            return l.path[-1][1]
        for l, v in head.mem.items():
            for q, x in loops.its_of(v):
                if isinstance(x.c, LVal) and len(x.c.path) == 1 and x.c.path[-1][0] == "e":
                    return x.c.path[-1][1]
        raise Unsupported("inner loop not over the lines of a piece")
    ex.loop_invs.append(inv)
    st, r, th = c.call(c.fn("AllAttributesParser::split_file", nparams=5), S_.me, [S_.data, S_.value, S_.message, S_.single, S_.fsl])
    c.only(th)
    g, res = S_.g(st), ex.tobool(ex.rd(st, r))
    s = st.copy(); s.assume(res)
    cur = V(s, S_.value)
    c.ensure("accepted only when every line could be read", s, AND(g["split"] == 1, NOT(g["failed"]), IMP(NOT(blank0), ok(P0, Q0))))
    c.ensure("the pieces are the splitter's", s, AND(cur.n == pieces.n, c.elem(cur, P0).n == size(P0)))
    c.ensure("every line is read and renumbered once, in place", s, AND(g["numbered"] == count(NOT(blank0)), IMP(NOT(blank0), same(at2(cur, P0, Q0), at2(done, P0, Q0))), IMP(blank0, at2(cur, P0, Q0).n == 0)))
    s = st.copy(); s.assume(NOT(res))
    c.ensure("refused only for a reason", s, OR(g["failed"], overflow))
    c.cover("accepts", st, [res, pieces.n > 2, size(P0) > 2])
    c.cover("refuses", st, [NOT(res)])


PARTS = [("words", visitor)] + [("by " + k, evaluate(k)) for k in ("block", "tool", "path", "time")] + [("by text", text), ("criterion", dispatch),
         ("file by text", split_file_text), ("file by blocks", split_file("block_numbers", "by blocks")), ("file by tool", split_file("tool_change", "by tool change")), ("file by path", split_file("work_motion_path", "by path")), ("file by time", split_file("work_motion_time", "by time"))]
RULE = "pieces concatenated, without the return moves at the cuts, are the program's blocks in order; cuts exactly where the criterion allows"
BOUNDED = ["boost::spirit reading of a line (AllAttributesGrammar): used through an arbitrary contract, exercised in the harness only"]
LEVEL = "proved"
NOTE = ("Proved for all programs: the splitter's word visitor, its five loops (text, blocks, tool change, path, time) against a recursive definition of piece and position of every block, and split_file itself "
        "(every line read once, in order, every block of the result renumbered once in place, refusal only for a reason).")


class Cutter:
    """reference: where a block goes"""

    def __init__(self, kind, exch, rapid, limit):
        self.kind, self.exch, self.rapid, self.limit = kind, exch, rapid, limit
        self.g, self.drill, self.cnt, self.acc = -1, False, 0, 0

    def cut(self, b, gain):
        tool, comment = False, False
        if self.g > 3:
            self.g = -1
        for w in b:
            if not isinstance(w, D):
                continue
            if w.word == "/":
                comment = True
            if comment or w.value is None:
                continue
            v = int(w.value)
            if w.word == "G" and w.macro is None:
                if 0 <= v <= 3:
                    self.g = v
                elif v in DRILL:
                    self.g, self.drill = v, True
                elif v == 80:
                    self.g, self.drill = v, False
            elif w.dot is None and w.value2 is None and (w.word == "M" and w.macro is None and not self.exch and v == 6 or w.word == "T" and self.exch):
                tool = True; self.cnt += 1
        cyc = (self.g == -1 and self.drill) or self.g == 80
        if self.kind == 1:
            return tool and self.cnt > 1
        c = self.acc >= self.limit and not cyc and (not self.rapid or self.g == 0)
        if c:
            self.acc = 0
        self.acc += gain
        return c


def pieces_of(kind, blocks, gains, retr, exch, rapid, limit, text=""):
    out, c = [[]], Cutter(kind, exch, rapid, limit)
    for b, g in zip(blocks, gains):
        if (text in b) if kind == 4 else c.cut(b, g):
            out[-1] += [retr] if retr else []
            out.append([retr] if retr else [])
        out[-1].append(b)
    return out


def harness(h):
    from harness import build, sess
    from harness.hx import D as D_, St, Ch, Tok, hx, enc_block, Msgs
    global D
    D = D_
    rng = h.rng
    exe = build.tok()
    ms = Msgs(exe)
    cases = []
    voc = [D("G", "0"), D("G", "1"), D("G", "2"), D("G", "00"), D("G", "3"), D("G", "4"), D("G", "54"), D("G", "80"), D("G", "81"), D("G", "83"), D("G", "73"), D("G", "0", macro="#"), D("G", "81", macro="#"), D("G", "84", dot=".", value2="2"), D("M", "6"), D("M", "06"), D("M", "5"),
           D("M", "6", macro="#"), D("M", "6", dot=".", value2="1"), D("T", "1"), D("T", "6"), D("T", "6", dot="."), D("T", "6", macro="#"), D("X", "1"), D("Y", "0"), D("/"), D("/", "1"), D("N", "10"), D("G"), D("M"), St("(", "M6)"), Ch("%", "%"), Ch("G", "A")]
    names = {0: "CannotSplitFileNumberOfBlocks", 2: "CannotSplitFileToolTime", 3: "CannotSplitFileToolPathLength"}
    for _ in range(h.n(400)):
        kind = rng.choice([0, 0, 1, 1, 2, 3, 4])
        lang, exch, rapid = rng.randint(0, 1), rng.randint(0, 1), rng.randint(0, 1)
        lim = rng.choice([1, 1, 2, 3, 5, 0, -1])
        n = rng.randint(0, 9)
        if kind == 4:
            txt = rng.choice(["T", "M6", "G0 X", "("]); ls = [rng.choice(["T1 M6", "G0 X1", "X1", "", "(T)", "M6"]) for _ in range(n)]
            retr = rng.choice(["", "", "G0 Z400"])
            # FileSplitter::evaluate(lines) takes the return move's text from the settings: through the parser below
            if retr:
                continue
            line = "split text %d 0 %d %d %d %d %s %d %d %d %s" % (lang, exch, lim, lim, lim, hx(txt), rapid, kind, n, " ".join(hx(x) for x in ls))
            want = pieces_of(4, ls, [0] * n, None, 0, 0, 0, txt)

            def chk(o, want=want):
                t = Tok(o); t.next()
                got = [[t.s() for _ in range(t.n())] for _ in range(t.n())]
                return None if got == want else "pieces %r but must be %r" % (got, want)
            cases.append((line, chk, "text %r in %r" % (txt, ls), True))
            continue
        bl = [[rng.choice(voc) for _ in range(rng.randint(0, 3))] for _ in range(n)]
        gains = [rng.choice([0, 0.5, 1, 2, 7]) if kind in (2, 3) else 1 for _ in range(n)]
        line = "split %s %d 0 %d %d %d %d %s %d %d %s %d %s" % ({0: "plain", 1: "plain", 2: "time", 3: "path"}[kind], lang, exch, lim, lim, lim, hx(""), rapid, kind, enc_block([]), n, " ".join(enc_block(b) for b in bl))
        if kind in (2, 3):
            line += " %d %s" % (n, " ".join("%r %s" % (float(g), hx("")) for g in gains))
        want = pieces_of(kind, bl, gains, None, exch, rapid, lim)

        def chk(o, want=want, kind=kind, lim=lim, lang=lang):
            if lim <= 0 and kind != 1:
                m = ms.mk(names[kind], lang)
                return None if not o.startswith("ok") and hx(m) in o else "limit %d: %r but must be refused with %r" % (lim, o[:80], m)
            t = Tok(o)
            if t.next() != "ok":
                return "refused: " + o[:80]
            got = [[t.block() for _ in range(t.n())] for _ in range(t.n())]
            return None if got == want else "pieces %r but must be %r" % (got, want)
        cases.append((line, chk, "kind %d limit %d exchange %d rapid only %d: %r measured %r" % (kind, lim, exch, rapid, bl, gains), True))
    h.run(exe, cases, "FileSplitter")
    # whole programs
    pex = build.parser()
    cases = []
    for drv in ("generic_mill", "haas_mill", "fanuc_lathe_system_a"):
        c = sess.Cfg(drv)
        cases.append((c.line(), lambda o: None, "configuration", False))
        voc2 = ["G0 X%d", "G1 X%d F100", "X%d", "Y%d", "G54", "M6 T%d", "T%d M6", "G81 X%d Z-3. R1. F100", "G80", "", "  ", "(a %d)", "%%", "N%d G0", "/ M6", "M8", "G0 Z%d"]
        for _ in range(h.n(60)):
            kind = rng.choice([0, 1, 2, 3, 4])
            ls = [t % rng.randint(1, 40) if "%d" in t else t.replace("%%", "%") for t in (rng.choice(voc2) for _ in range(rng.randint(0, 10)))]
            bad = rng.random() < 0.12
            if bad and ls:
                ls[rng.randrange(len(ls))] = "G1 X$$"
            retr = rng.choice(["", "G0 Z400"])
            rapid, exch, lim = rng.randint(0, 1), rng.randint(0, 1), rng.choice([1, 2, 3, 20])
            txt = rng.choice(["M6", "G0", "X"])
            op = "split %d %d %d %d %s %d %s %d %s" % (kind, lim, lim, lim, hx(txt), rapid, hx(retr), len(ls), " ".join(hx(x) for x in ls))
            fl = sess.flags(macro=1, groups=0, path=1)
            n = len(ls)
            meas = []
            if kind in (2, 3):
                for i, x in enumerate(ls):
                    if x.strip():
                        meas += [sess.parse(i, x), "path" if kind == 3 else "time"]
            cs = sess.sess(c, [sess.nc(tool_exec=exch)] + meas + ["preset"] + [op], fl=fl, plain=0)

            def chk(o, ls=ls, kind=kind, lim=lim, exch=exch, rapid=rapid, retr=retr, txt=txt, nm=len(meas)):
                ch = sess.chunks(o)
                gains, k = [], 1
                res_ = ch[1:1 + nm]
                if kind in (2, 3):
                    for x in ls:
                        if x.strip():
                            t = Tok(" ".join(res_[k])); t.d(); gains.append(t.d()); k += 2
                        else:
                            gains.append(0)
                t = Tok(" ".join(ch[-1]))
                if t.next() == "EX":
                    return "exception escapes: " + t.s()
                ok, m = bool(t.n()), t.s()
                if not ok:
                    if any("$" in x for x in ls):
                        return None
                    return "refused: %r" % m
                if any("$" in x for x in ls):
                    return "accepted although a line cannot be read"
                got = [[t.block() for _ in range(t.n())] for _ in range(t.n())]
                flat = lambda b: "".join(w.text() if isinstance(w, D) else w.word if isinstance(w, Ch) and w.word == "%" else w.word + str(w.value).rstrip(")") for w in b)
                strip = lambda b: [w for w in b if not (isinstance(w, D) and w.word == "N")]
                blocks = [words_of(x) for x in ls]
                want = pieces_of(kind, ls if kind == 4 else blocks, gains if kind in (2, 3) else [1] * len(ls), retr if kind == 4 else words_of(retr), exch, rapid, lim, txt)
                g = [[flat(strip(b)) for b in p] for p in got]
                nn = lambda x: flat(strip(words_of(x) if isinstance(x, str) else x))
                w = [[nn(b) for b in p] for p in want]
                if g != w:
                    return "pieces %r but must be %r" % (g, w)
                # numbering: every block that carries a number carries its predecessor's successor
                last = None
                for p in got:
                    for b in p:
                        for x in b:
                            if isinstance(x, D) and x.word == "N":
                                v = int(x.value)
                                if last is not None and v != last + 1:
                                    return "block numbers %r" % [[y.text() for y in q if isinstance(y, D) and y.word == "N"] for pp in got for q in pp]
                                last = v
                return None
            cases.append((cs, chk, "%s: kind %d limit %d rapid only %d exchange %d return %r text %r: %r" % (drv, kind, lim, rapid, exch, retr, txt, ls), True))
    h.run(pex, cases, "split_file")
    h.bounds.append("programs of at most 10 blocks of 3 words")


def words_of(line):
    from harness.hx import D, St, Ch
    import re
    out = []
    for m in re.finditer(r"\(([^)]*)\)|%|([A-Z/:])(-?)(\d*)(\.?)(\d*)", line):
        if m.group(0) == "%":
            out.append(Ch("%", "%"))
        elif m.group(0).startswith("("):
            out.append(St("(", m.group(1) + ")"))
        else:
            out.append(D(m.group(2), m.group(4) or None, sign=m.group(3) or None, dot=m.group(5) or None, value2=m.group(6) or None))
    return out

"""The editing entry points of AllAttributesParser (convert_length, renumber, rotate_axes, remove_*): what they do with a line.

simple_parse and the component doing the edit are used through contracts (arbitrary block, arbitrary result); proved is that
the entry point edits exactly the block read from the line, once, with the parser's own component and the given settings,
and reports what reading the line reported."""
from .common import *

FILES = [P + "AllAttributesParser.cpp"]
ASSUME = ["simple_parse is used through an arbitrary contract: any block, any result, any message"]


class Line:
    def __init__(self, run, title, want=()):
        c = self.c = run.ctx(title, FILES)
        ex = self.ex = c.ex
        ex.opts["abstract_strings"] = True
        t = c.rec("AllAttributesParser")
        f = {n: Poison("member " + n) for n, _ in ex.fields(t)}
        for n in ("renumberer", "unit_converter"):
            r = c.rec(n.title().replace("_", ""))
            f[n] = Rec(r, {m: Poison(n + " " + m) for m, _ in ex.fields(r)})
        self.me = c.loc(Rec(t, f))
        bt = Ty("seq", [c.ty("AttributeVariant")])
        self.parsed = c.fresh(bt, "parsed")
        self.before = c.fresh(bt, "before")
        ex.bounds.append(self.parsed.n)
        self.ret = z3.Bool("line_is_readable")
        self.text = z3.String("reader_message")
        self.line, self.single, self.data, self.msg0 = z3.Int("line"), z3.Bool("single_line"), z3.String("data"), z3.String("message")
        self.value, self.message = c.loc(self.before), c.loc(self.msg0)
        self.ghost = c.loc(Rec(Ty("ghost"), {"reads": iv(0), "edits": iv(0)}))
        self.same = []

        def simple(ex_, st, this, args, decl):
            V = lambda a: ex.rd(st, a)
            c.ensure("the line given is read", st, AND(V(args[0]) == self.line, V(args[1]) == self.data, self.is_loc(args[2], self.value), self.is_loc(args[3], self.message), V(args[4]) == self.single))
            ex.write(st, self.value, self.parsed)
            ex.write(st, self.message, self.text)
            self.bump(st, "reads")
            return self.ret
        ex.contracts["simple_parse"] = simple

    def bump(self, st, n):
        g = self.ex.rd(st, self.ghost)
        self.ex.write(st, self.ghost, Rec(g.t, dict(g.f, **{n: simp(g.f[n] + 1)})))

    def is_loc(self, a, l):
        return T if isinstance(a, LVal) and same_lval(a, l) else F_

    def own(self, this, member):
        return T if isinstance(this, LVal) and same_lval(this, self.me + ("f", member)) else F_

    def call(self, name, extra=()):
        return self.c.call(self.c.fn("AllAttributesParser::" + name, ptypes=["", "", "vector"], nparams=5 + len(extra)), self.me, [self.line, self.data, self.value, self.message, self.single] + list(extra))

    def edit(self, contract, member, check=None, result=None):
        """contract for the component's entry point"""
        ex, c = self.ex, self.c
        edited = self.edited = c.fresh(Ty("seq", [c.ty("AttributeVariant")]), "edited")

        def h(ex_, st, this, args, decl):
            blk, ok = (args[0], T) if member else (args[1], T)
            c.ensure("the block just read is edited", st, AND(self.is_loc(blk, self.value), ex.rd(st, self.ghost).f["reads"] == 1))
            if member:
                c.ensure("by this parser's own " + member, st, self.own(this, member))
            if check:
                check(st, args)
            ex.write(st, blk, edited)
            self.bump(st, "edits")
            return None
        ex.contracts[contract] = h


def renumber(run):
    L = Line(run, "AllAttributesParser::renumber")
    c, ex = L.c, L.ex
    s = c.fresh("RenumberSettings", "settings")
    sl = c.loc(s)
    L.edit("Renumberer::renumber", "renumberer", lambda st, a: c.ensure("with the settings given", st, same(ex.rd(st, a[1]), s)))
    st, r, th = L.call("renumber", [sl])
    c.only(th)
    c.ensure("renumbered once, the reader's verdict is returned", st, AND(ex.rd(st, L.ghost).f["edits"] == 1, ex.rd(st, L.ghost).f["reads"] == 1, ex.tobool(ex.rd(st, r)) == L.ret, same(ex.rd(st, L.value), L.edited), ex.rd(st, L.message) == L.text))
    c.cover("returns", st)


def convert(run):
    L = Line(run, "AllAttributesParser::convert_length")
    c, ex = L.c, L.ex
    d = z3.Int("direction")
    for n, k in (("mm_to_inch", "metric_to_imperial"), ("inch_to_mm", "imperial_to_metric")):
        want = c.enum("UnitConversionType", k)
        L.edit("UnitConverter::" + n, "unit_converter", lambda st, a, want=want, n=n: c.ensure(n + " for its direction", st, d == want))
        L.__dict__["e_" + n] = L.edited
    st, r, th = L.call("convert_length", [d])
    c.only(th)
    g = ex.rd(st, L.ghost).f
    a, b = c.enum("UnitConversionType", "metric_to_imperial"), c.enum("UnitConversionType", "imperial_to_metric")
    c.ensure("converted once exactly when the line could be read", st, AND(g["reads"] == 1, g["edits"] == IF(AND(L.ret, OR(d == a, d == b)), iv(1), iv(0))))
    c.ensure("the reader's verdict is returned", st, IMP(OR(d == a, d == b), ex.tobool(ex.rd(st, r)) == L.ret))
    for n, k in (("mm_to_inch", a), ("inch_to_mm", b)):
        s = st.copy(); s.assume(AND(L.ret, d == k))
        c.ensure(n + ": the converted block is returned", s, same(ex.rd(s, L.value), L.__dict__["e_" + n]))
    c.cover("returns", st)


def rotate(run):
    L = Line(run, "AllAttributesParser::rotate_axes")
    c, ex = L.c, L.ex
    o = z3.Int("option")
    bad, why = z3.Bool("rotation_refused"), z3.String("refusal")

    def chk(st, a):
        c.ensure("with the option given", st, ex.rd(st, a[0]) == o)
        ex.throw(st, Exc("std::out_of_range", Rec(Ty("exc"), {"$what": why})), bad)
    L.edit("AxesRotator::operator()", None, chk)
    st, r, th = L.call("rotate_axes", [o])
    c.only(th)
    c.ensure("rotated once; accepted when the line could be read and the rotation is not refused", st, AND(ex.rd(st, L.ghost).f["reads"] == 1, ex.tobool(ex.rd(st, r)) == AND(L.ret, NOT(bad)), ex.rd(st, L.message) == IF(bad, why, L.text)))
    s = st.copy(); s.assume(NOT(bad))
    c.ensure("the rotated block is returned", s, AND(ex.rd(s, L.ghost).f["edits"] == 1, same(ex.rd(s, L.value), L.edited)))
    c.cover("returns", st)


def remove_numbering(run):
    L = Line(run, "AllAttributesParser::remove_numbering")
    c, ex = L.c, L.ex
    L.edit("Renumberer::remove", "renumberer")
    st, r, th = L.call("remove_numbering")
    c.only(th)
    c.ensure("removed once, the reader's verdict is returned", st, AND(ex.rd(st, L.ghost).f["edits"] == 1, ex.rd(st, L.ghost).f["reads"] == 1, ex.tobool(ex.rd(st, r)) == L.ret, same(ex.rd(st, L.value), L.edited), ex.rd(st, L.message) == L.text))
    c.cover("returns", st)


def keep_fold(L, drop, name):
    """how many of the first k words stay"""
    c = L.c
    return c.ghost(name, Rec(None, {"n": iv(0)}), lambda s, e: Rec(None, {"n": IF(drop(e), s.f["n"], s.f["n"] + 1)}), L.parsed)


def remove_comment(run):
    L = Line(run, "AllAttributesParser::remove_comment")
    c, ex = L.c, L.ex
    n, o = L.parsed.n, lambda k: c.elem(L.parsed, k)
    drop = lambda e: AND(e.tag == 1, e.alts[1].f["word"] == sv("("))
    g = keep_fold(L, drop, "words kept")
    at = lambda k: g.at(simp(k)).f["n"]
    # lemma (induction step): the count never falls
    cnt = z3.Int("count")
    pre = Rec(None, {"n": cnt}); any_word = c.elem(L.parsed, z3.Int("any_word"))
    c.ensure("lemma: the number of words kept never falls", c.st, g.step(pre, any_word).f["n"] >= cnt, "lemma")
    use = lambda a, b: ex.axioms.append(IMP(AND(0 <= a, a <= b, b <= n), at(a) <= at(b)))

    def inv(ex_, head, it, leaves, mapseen):
        cur = ex_.rd(head, L.value)
        if not isinstance(cur, Seq):
            return []
        out = [("the words not yet looked at", cur.n == n - it + at(it)), ("bounds", it <= n)]

        def rest(k):
            return IMP(AND(k >= at(it), k < cur.n), lib.veq(c.elem(cur, k), o(simp(k + it - at(it)))))
        rest.insts, rest.shift = [at(it)], [lambda k: simp(k + 1)]

        def kept(k):
            g.unfold(k)
            use(simp(k + 1), it)
            return IMP(AND(k >= 0, k < it, NOT(drop(o(k)))), lib.veq(c.elem(cur, at(k)), o(k)))

        def clean(k):
            return IMP(AND(k >= 0, k < at(it)), NOT(drop(c.elem(cur, k))))
        return out + [("the rest is unchanged", rest), ("the words kept are in place", kept), ("no comment is kept", clean)]
    ex.loop_invs.append(inv)
    k = z3.Int("any_k")
    ex.index_instances.append(k)
    g.unfold(k)
    use(simp(k + 1), n)
    st, r, th = L.call("remove_comment")
    c.only(th)
    cur = ex.rd(st, L.value)
    c.ensure("the line is read once, its verdict returned", st, AND(ex.rd(st, L.ghost).f["reads"] == 1, ex.tobool(ex.rd(st, r)) == L.ret, ex.rd(st, L.message) == L.text))
    c.ensure("as many words stay as are not comments", st, cur.n == at(n))
    s = st.copy(); s.assume(AND(k >= 0, k < n, NOT(drop(o(k)))))
    c.ensure("every other word stays, unchanged and in order", s, lib.veq(c.elem(cur, at(k)), o(k)))
    s = st.copy(); s.assume(AND(k >= 0, k < cur.n))
    c.ensure("no comment stays", s, NOT(drop(c.elem(cur, k))))
    c.cover("returns", st)


def remove_optional(run):
    L = Line(run, "AllAttributesParser::remove_optional_block")
    c, ex = L.c, L.ex
    n, o = L.parsed.n, lambda k: c.elem(L.parsed, k)
    mark = lambda e: AND(is_dec(e), dec(e)["word"] == sv("/"), dec(e)["value"].has)
    g = c.ghost("leading marks", Rec(None, {"n": iv(0), "lead": T}), lambda s, e: Rec(None, {"n": IF(AND(s.f["lead"], mark(e)), s.f["n"] + 1, s.f["n"]), "lead": AND(s.f["lead"], mark(e))}), L.parsed)
    # lemma: once a word is no leading mark, none after it is
    c.sticky(g, lambda s: NOT(s.f["lead"]), n)
    p = z3.Int("count")
    ex.it_hooks.append(lambda it: ex.axioms.append(IMP(AND(it >= 0, it <= n, NOT(g.at(it).f["lead"])), g.at(n).f["n"] == g.at(it).f["n"])))
    ex.it_hooks.append(lambda it: ex.axioms.append(IMP(AND(it + 1 >= 0, it + 1 <= n, NOT(g.at(simp(it + 1)).f["lead"])), g.at(n).f["n"] == g.at(simp(it + 1)).f["n"])))
    pre = Rec(None, {"n": p, "lead": F_})
    c.ensure("lemma: the count is fixed once the marks have ended", c.st, AND(g.step(pre, o(z3.Int("any_word"))).f["n"] == p), "lemma")

    def inv(ex_, head, it, leaves, mapseen):
        cur = ex_.rd(head, L.value)
        if not isinstance(cur, Seq):
            return []

        def rest(k):
            return IMP(AND(k >= 0, k < cur.n), lib.veq(c.elem(cur, k), o(simp(k + it))))
        rest.insts, rest.shift = [iv(0)], [lambda k: simp(k + 1)]
        return [("words removed", cur.n == n - it), ("bounds", it <= n), ("only marks so far", AND(g.at(it).f["lead"], g.at(it).f["n"] == it)), ("the rest is unchanged", rest)]
    ex.loop_invs.append(inv)
    k = z3.Int("any_k")
    ex.index_instances.append(k)
    st, r, th = L.call("remove_optional_block")
    c.only(th)
    cur = ex.rd(st, L.value)
    lead = g.at(n).f["n"]
    c.ensure("the line is read once, its verdict returned", st, AND(ex.rd(st, L.ghost).f["reads"] == 1, ex.tobool(ex.rd(st, r)) == L.ret, ex.rd(st, L.message) == L.text))
    c.ensure("exactly the leading skip marks go", st, cur.n == n - lead)
    s = st.copy(); s.assume(AND(k >= 0, k < cur.n))
    c.ensure("every other word stays, unchanged and in order", s, lib.veq(c.elem(cur, k), o(simp(k + lead))))
    s = st.copy(); s.assume(cur.n > 0)
    c.ensure("what stays does not begin with a skip mark", s, NOT(mark(c.elem(cur, iv(0)))))
    c.cover("returns", st)


PARTS = [("remove comments", remove_comment), ("remove skip marks", remove_optional), ("renumber a line", renumber), ("convert a line", convert), ("rotate a line", rotate), ("remove a line's number", remove_numbering)]

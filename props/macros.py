"""Specification vocabulary of macro variables (shared by C06, C09, C07, C20)."""
from .common import *


def mkey(ex, m, i, line):
    return ex.pack_key(Rec(m.kt, {"id": i, "line": line}), m.kt)


def mac(ex, m, i, line):
    """(is assigned, value) of #i as of a line: characterised by std::map::lower_bound over the real key order;
    that this is the latest assignment at or before the line is the lemma part of C06"""
    k, end = lib.bound_key(ex, m.dom, mkey(ex, m, i, line))
    kk = ex.unpack_key(k, m.kt)
    return AND(NOT(end), kk.f["id"] == i), z3.Select(m.e, k)


def bound_axioms(c, m, i, line, keys):
    """assumed contract of std::map::lower_bound, with the comparator of the real code"""
    ex = c.ex
    x = mkey(ex, m, i, line)
    k, end = lib.bound_key(ex, m.dom, x)

    def cmp(a, b):
        fn = c.fn("macro_map_key_cmp::operator()")
        s = c.st.copy()
        return ex.tobool(ex.rd(s, ex.call_fn(fn, ex.alloc(s, Rec(c.rec("macro_map_key_cmp"), {})), [ex.alloc(s, ex.unpack_key(a, m.kt)), ex.alloc(s, ex.unpack_key(b, m.kt))], s)))
    ax = [IMP(NOT(end), AND(z3.Select(m.dom, k), NOT(cmp(k, x))))]
    for q in keys:
        ax.append(IMP(AND(NOT(end), z3.Select(m.dom, q), NOT(cmp(q, x))), NOT(cmp(q, k))))
        ax.append(IMP(AND(end, z3.Select(m.dom, q)), cmp(q, x)))
    return ax


def lookup_lemma(run, files):
    c = run.ctx("variable lookup", files)
    ex = c.ex
    m = c.fresh("macro_map", "macros")
    i, line = z3.Int("id"), z3.Int("line")
    c.assume(i >= 0)
    q = z3.Const("some_key", ex.key_sort(m.kt))
    qr = ex.unpack_key(q, m.kt)
    st = c.st.copy()
    has, val = mac(ex, m, i, line)
    for a in bound_axioms(c, m, i, line, [q]):
        st.assume(a)
    k, end = lib.bound_key(ex, m.dom, mkey(ex, m, i, line))
    kr = ex.unpack_key(k, m.kt)
    mine = AND(z3.Select(m.dom, q), qr.f["id"] == i, qr.f["line"] <= line)
    c.ensure("an assigned variable is found", st, IMP(mine, has))
    c.ensure("the value found is that of an assignment of this variable at or before the line", st, IMP(has, AND(z3.Select(m.dom, k), kr.f["id"] == i, kr.f["line"] <= line)))
    c.ensure("no later assignment at or before the line exists", st, IMP(AND(mine, has), qr.f["line"] <= kr.f["line"]))
    c.cover("found", st, [has])
    c.cover("not found", st, [NOT(has)])


def key_order(run, files):
    c = run.ctx("macro_map_key_cmp", files)
    ex = c.ex
    m = c.fresh("macro_map", "macros")
    a, b, d = [c.fresh("macro_map_key", n) for n in "abd"]

    def cmp(x, y):
        s = c.st.copy()
        return ex.tobool(ex.rd(s, ex.call_fn(c.fn("macro_map_key_cmp::operator()"), ex.alloc(s, Rec(c.rec("macro_map_key_cmp"), {})), [ex.alloc(s, x), ex.alloc(s, y)], s)))
    same = AND(a.f["id"] == b.f["id"], a.f["line"] == b.f["line"])
    c.ensure("irreflexive", c.st, NOT(cmp(a, a)))
    c.ensure("asymmetric", c.st, NOT(AND(cmp(a, b), cmp(b, a))))
    c.ensure("transitive", c.st, IMP(AND(cmp(a, b), cmp(b, d)), cmp(a, d)))
    c.ensure("distinct keys are never equivalent", c.st, OR(same, cmp(a, b), cmp(b, a)))
    c.cover("order", c.st, [cmp(a, b)])

"""Contracts of the C++ standard library / Boost operations used by the code under contract.

Every entry is an *assumed* contract on a dependency; the set of entries used by a proof is
reported in the evidence (trusted base).  Text/number conversions (stoi, stod, ostream formatting,
libm) are uninterpreted functions shared by code and specification, evaluated on literals."""
import math
import re
import z3
from .values import *
from .types import Ty

iv, sv = z3.IntVal, z3.StringVal
T, F_ = z3.BoolVal(True), z3.BoolVal(False)
I, B, R, S = z3.IntSort(), z3.BoolSort(), z3.RealSort(), z3.StringSort()
NPOS = 2 ** 64 - 1
STREAM = Ty("record", n="$stream")


def simp(e):
    return z3.simplify(e)


def used(ex, name):
    ex.lib_used[name] = ex.lib_used.get(name, 0) + 1


def install(ex):
    ex.libs["default:basic_stringstream"] = lambda e, t: new_stream()
    ex.libs["default:basic_ostringstream"] = lambda e, t: new_stream()
    ex.libs["default:stringstream"] = lambda e, t: new_stream()
    ex.libs["default:ostringstream"] = lambda e, t: new_stream()
    ex.libs["default:function"] = lambda e, t: Ptr(None)
    ex.libs["var:npos"] = lambda e, st: iv(NPOS)
    ex.libs["var:none"] = lambda e, st: Opaque("none")
    ex.libs["var:nullopt"] = lambda e, st: Opaque("none")
    ex.libs["var:ignore"] = lambda e, st: Opaque("ignore")


def new_stream(text=""):
    return Rec(STREAM, {"text": sv(text), "prec": iv(6), "fixed": F_, "fill": iv(32), "width": iv(0)})


# ------------------------------------------------------------------ scalar library functions
def lit(s):
    s = simp(s)
    return s.as_string() if z3.is_string_value(s) else None


def zlit(s):
    """python text of a z3 string literal (ASCII)"""
    return s


def str_of_int(v):
    v = simp(v)
    if z3.is_int_value(v):
        return sv(str(v.as_long()))
    return z3.If(v >= 0, z3.IntToStr(v), z3.Concat(sv("-"), z3.IntToStr(-v)))


def fmt_double(ex, prec, fixed, d):
    f = ex.ufn("fmt_double", I, B, R, S)
    d = simp(d)
    if z3.is_int_value(prec) and (z3.is_rational_value(d)) and (z3.is_true(fixed) or z3.is_false(fixed)):
        x = float(d.as_fraction())
        p = prec.as_long()
        txt = ("%.*f" % (p, x)) if z3.is_true(fixed) else ("%.*g" % (p, x))
        return sv(txt)
    return f(prec, fixed, d)


def to_string(ex, v):
    if z3.is_real(v):
        return fmt_double(ex, iv(6), T, v)
    if z3.is_bool(v):
        v = z3.If(v, iv(1), iv(0))
    return str_of_int(v)


def parse_int_prefix(s):
    import re
    m = re.match(r"^[ \t\n\v\f\r]*([+-]?\d+)", s)
    return int(m.group(1)) if m else None


def parse_real_prefix(s):
    import re
    m = re.match(r"^[ \t\n\v\f\r]*([+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?)", s)
    return m.group(1) if m else None


def stoi_ok(ex, s):
    l = lit(s)
    if l is not None:
        x = parse_int_prefix(l)
        return z3.BoolVal(x is not None and -2 ** 31 <= x < 2 ** 31)
    return ex.ufn("stoi_ok", S, B)(s)


def stoi_val(ex, s):
    l = lit(s)
    if l is not None and parse_int_prefix(l) is not None:
        return iv(parse_int_prefix(l))
    return ex.ufn("stoi_val", S, I)(s)


def stod_ok(ex, s):
    l = lit(s)
    if l is not None:
        return z3.BoolVal(parse_real_prefix(l) is not None)
    return ex.ufn("stod_ok", S, B)(s)


def stod_val(ex, s):
    l = lit(s)
    if l is not None and parse_real_prefix(l) is not None:
        return z3.RealVal(parse_real_prefix(l))
    return ex.ufn("stod_val", S, R)(s)


def stoi(ex, st, s):
    used(ex, "std::stoi")
    ok, val = ex.ufn("stoi_ok", S, B), ex.ufn("stoi_val", S, I)
    l = lit(s)
    if l is not None:
        x = parse_int_prefix(l)
        if x is None or not -2 ** 31 <= x < 2 ** 31:
            from .exec import Exc
            ex.throw(st, Exc("std::invalid_argument" if x is None else "std::out_of_range", None))
            return iv(0)
        return iv(x)
    from .exec import Exc
    ex.throw(st, Exc("std::invalid_argument", None), z3.Not(ok(s)))
    ex.axiom(z3.And(val(s) >= -2 ** 31, val(s) < 2 ** 31))
    return val(s)


def stod(ex, st, s):
    used(ex, "std::stod")
    ok, val = ex.ufn("stod_ok", S, B), ex.ufn("stod_val", S, R)
    l = lit(s)
    from .exec import Exc
    if l is not None:
        x = parse_real_prefix(l)
        if x is None:
            ex.throw(st, Exc("std::invalid_argument", None))
            return z3.RealVal(0)
        return z3.RealVal(x)
    ex.throw(st, Exc("std::invalid_argument", None), z3.Not(ok(s)))
    return val(s)


def uf_real(ex, name, *args):
    used(ex, "std::" + name)
    f = ex.ufn("m_" + name, *([R] * (len(args) + 1)))
    return f(*[norm_real(to_real(a)) for a in args])


def norm_real(x):
    """polynomial normal form, so that equal arguments of uninterpreted functions look equal"""
    if z3.is_rational_value(x) or z3.is_const(x):
        return x
    return z3.simplify(x, som=True)


def to_real(v):
    return z3.ToReal(v) if z3.is_int(v) else v


def m_sqrt(ex, x):
    x = norm_real(to_real(x))
    r = uf_real(ex, "sqrt", x)
    ex.axiom(z3.Implies(x >= 0, z3.And(r >= 0, r * r == x)))
    return r


def m_pow(ex, x, y):
    x, y = to_real(x), to_real(y)
    ys = simp(y)
    if z3.is_rational_value(ys) and ys.denominator_as_long() == 1 and 0 <= ys.numerator_as_long() <= 4:
        r = z3.RealVal(1)
        for _ in range(ys.numerator_as_long()):
            r = r * x
        return simp(r)
    return uf_real(ex, "pow", x, y)


def bitop(op):
    def f(ex, x, y, n, st):
        t = ex.ty(n) if n is not None else None
        cx, cy = simp(x), simp(y)
        if z3.is_int_value(cx) and z3.is_int_value(cy):
            a, b = cx.as_long(), cy.as_long()
            if a >= 0 and b >= 0:
                return iv({"&": a & b, "|": a | b, "^": a ^ b, "<<": a << b, ">>": a >> b}[op])
        if op in ("<<", ">>") and z3.is_int_value(cy) and 0 <= cy.as_long() < 64:
            k = iv(2 ** cy.as_long())
            if op == ">>":
                return simp(x / k)      # floor division: arithmetic shift
            r = x * k
            if t is not None and t.k == "int" and not t.n[1]:
                r = r % iv(2 ** t.n[0])
            return simp(r)
        if op == "&":
            for a, b in ((x, cy), (y, cx)):
                if z3.is_int_value(b) and b.as_long() >= 0 and (b.as_long() + 1) & b.as_long() == 0:
                    return simp(a % iv(b.as_long() + 1))
        used(ex, "bitwise " + op)
        return ex.ufn({"&": "bit_and", "|": "bit_or", "^": "bit_xor", "<<": "bit_shl", ">>": "bit_shr"}[op], I, I, I)(x, y)
    return f


def trunc(x):
    return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))


def m_abs(x):
    return z3.If(x >= 0, x, -x)


def m_round(x):
    return z3.If(x >= 0, z3.ToReal(z3.ToInt(x + z3.RealVal("1/2"))), -z3.ToReal(z3.ToInt(-x + z3.RealVal("1/2"))))


REAL1 = {"sin", "cos", "tan", "asin", "acos", "atan", "exp", "log", "log10", "cosh", "sinh", "tanh"}


# string searching: characterised by defining axioms over a fresh index
def charset_re(chars):
    rs = [z3.Re(sv(c)) for c in chars]
    return rs[0] if len(rs) == 1 else z3.Union(*rs)


def not_charset(ex):
    return None


def find_last_not_of(ex, s, chars):
    """index of the last character not in chars, or npos"""
    used(ex, "std::string::find_last_not_of")
    l = lit(s)
    if l is not None:
        for i in range(len(l) - 1, -1, -1):
            if l[i] not in chars:
                return iv(i)
        return iv(NPOS)
    f = ex.ufn("find_last_not_of_" + "_".join(str(ord(c)) for c in chars), S, I)
    r = f(s)
    cs = charset_re(chars)
    n = z3.Length(s)
    if ex.opts.get("weak_strings"):     # only what the contract at hand needs: a position inside the text, or none
        ex.axiom(z3.Or(r == NPOS, z3.And(r >= 0, r < n)))
        return r
    none = z3.InRe(s, z3.Star(cs))
    ex.axiom(z3.Implies(none, r == NPOS))
    ex.axiom(z3.Implies(z3.Not(none), z3.And(r >= 0, r < n, *[z3.SubString(s, r, 1) != sv(c) for c in chars],
                                           z3.InRe(z3.SubString(s, r + 1, n - r - 1), z3.Star(cs)))))
    return r


def find_first_not_of(ex, s, chars):
    used(ex, "std::string::find_first_not_of")
    l = lit(s)
    if l is not None:
        for i in range(len(l)):
            if l[i] not in chars:
                return iv(i)
        return iv(NPOS)
    f = ex.ufn("find_first_not_of_" + "_".join(str(ord(c)) for c in chars), S, I)
    r = f(s)
    cs = charset_re(chars)
    n = z3.Length(s)
    if ex.opts.get("weak_strings"):     # only what the contract at hand needs: a position inside the text, or none
        ex.axiom(z3.Or(r == NPOS, z3.And(r >= 0, r < n)))
        return r
    none = z3.InRe(s, z3.Star(cs))
    ex.axiom(z3.Implies(none, r == NPOS))
    ex.axiom(z3.Implies(z3.Not(none), z3.And(r >= 0, r < n, *[z3.SubString(s, r, 1) != sv(c) for c in chars],
                                           z3.InRe(z3.SubString(s, 0, r), z3.Star(cs)))))
    return r


def str_find(ex, s, sub, pos=None):
    used(ex, "std::string::find")
    p = pos if pos is not None else iv(0)
    ls, lb = lit(s), lit(sub)
    if ls is not None and lb is not None and z3.is_int_value(simp(p)):
        i = ls.find(lb, simp(p).as_long())
        return iv(i if i >= 0 else NPOS)
    r = z3.IndexOf(s, sub, p)
    return z3.If(r < 0, iv(NPOS), r)


def substr(ex, st, s, pos, n=None):
    used(ex, "std::string::substr")
    from .exec import Exc
    ln = z3.Length(s)
    c = simp(pos > ln)
    if not z3.is_false(c):
        ex.throw(st, Exc("std::out_of_range", None), c)
    rest = ln - pos
    cnt = rest if n is None else z3.If(n < rest, n, rest)
    return simp(z3.SubString(s, pos, simp(cnt)))


def as_str(v):
    """coerce char code to one-character string"""
    if z3.is_string(v):
        return v
    v = simp(v)
    if z3.is_int_value(v):
        return sv(chr(v.as_long())) if v.as_long() else sv("\\u{0}")
    return z3.StrFromCode(v)


def repeat(ex, ch, n):
    n = simp(n)
    ch = simp(ch)
    if z3.is_int_value(n) and z3.is_int_value(ch):
        return sv(chr(ch.as_long()) * max(0, n.as_long()))
    f = ex.ufn("str_repeat", I, I, S)
    r = f(ch, n)
    ex.axiom(z3.Length(r) == z3.If(n > 0, n, 0))
    if z3.is_int_value(ch):
        ex.axiom(z3.InRe(r, z3.Star(z3.Re(sv(chr(ch.as_long()))))))
    return r


def pad_left(ex, txt, width, fill):
    width = simp(width)
    if z3.is_int_value(width) and width.as_long() <= 0:
        return txt
    ln = z3.Length(txt)
    return z3.If(ln >= width, txt, z3.Concat(repeat(ex, fill, width - ln), txt))


def rtrim_ws(ex, s):
    f = ex.ufn("trim_both", S, S)
    l = lit(s)
    if l is not None:
        return sv(l.strip(" \t\n\r\v\f"))
    r = f(s)
    return r


def trim_right(ex, s, chars):
    """boost::trim_right_if(is_any_of(chars)): the text without the longest tail of such characters"""
    l = lit(s)
    if l is not None:
        return sv(l.rstrip(chars))
    r = ex.ufn("trim_right_" + "_".join(str(ord(c)) for c in chars), S, S)(s)
    if not ex.opts.get("weak_strings"):
        n = z3.Length(r)
        ex.axiom(z3.And(z3.PrefixOf(r, s), z3.InRe(z3.SubString(s, n, z3.Length(s) - n), z3.Star(charset_re(chars))), *[z3.Not(z3.SuffixOf(sv(c), r)) for c in chars]))
    return r


# ------------------------------------------------------------------ helpers over containers
def as_seq(v):
    if isinstance(v, CSeq):
        return v
    return v


def seq_get(ex, st, lv, i):
    return lv + ("e", i)


def cont_of(ex, st, obj):
    return ex.rd(st, obj)


def lvof(ex, st, obj):
    if isinstance(obj, (LVal, IteL)):
        # chase references so that iterators share identity
        if isinstance(obj, LVal):
            return norm(ex, st, obj)
        return obj
    return ex.alloc(st, obj)


def norm(ex, st, l):
    """resolve Ref members on the path to a canonical lvalue"""
    if not isinstance(l, LVal):
        return l
    v = st.mem.get(l.base, ex.gmem.get(l.base))
    cur = LVal(l.base)
    path = list(l.path)
    for i in range(len(path) + 1):
        if isinstance(v, Ref):
            t = v.l
            for s in path[i:]:
                t = t + s
            return norm(ex, st, t)
        if i == len(path):
            break
        s = path[i]
        if s[0] == "f" and isinstance(v, Rec) and s[1] in v.f:
            v = v.f[s[1]]
        else:
            return l
    return l


def elems(ex, st, first, last):
    """list of (lvalue, guard) for a concrete iterator range, or None"""
    if isinstance(first, It) and isinstance(last, It):
        a, b = simp(first.i), simp(last.i)
        if z3.is_int_value(a) and z3.is_int_value(b):
            a, b = a.as_long(), b.as_long()
            if first.rev:
                return [first.c + ("e", iv(k)) for k in range(a, b, -1)], [It(first.c, iv(k), True) for k in range(a, b, -1)]
            return [first.c + ("e", iv(k)) for k in range(a, b)], [It(first.c, iv(k)) for k in range(a, b)]
    return None


def map_begin(ex, st, lv):
    cont = ex.rd(st, lv)
    if isinstance(cont, CMap):
        for k, v, pr in cont.d:
            if not z3.is_true(simp(pr)):
                raise Unsupported("begin of map with conditional entries")
        if cont.d:
            return MItC(lv, 0, cont)
        return MIt(lv, None, T)
    if isinstance(cont, Map):
        return MapPos(lv, None)
    raise Unsupported("begin of " + type(cont).__name__)


class MItC(MIt):
    """concrete position inside a CMap"""
    __slots__ = ("pos",)

    def __init__(self, c, pos, cont):
        if pos < len(cont.d):
            MIt.__init__(self, c, cont.d[pos][0], F_)
        else:
            MIt.__init__(self, c, None, T)
        self.pos = pos


class MapPos(MIt):
    """begin() of an abstract map (only usable with whole-range algorithms / loops)"""
    __slots__ = ()

    def __init__(self, c, key):
        MIt.__init__(self, c, key, F_)


def call_pred(ex, st, f, args):
    f = ex.rd(st, f)
    if isinstance(f, (Clo, FnV)):
        return ex.rd(st, ex.call_closure(f, args, st))
    if isinstance(f, Rec):
        m = None
        d, tu = ex.record(f.t.n)
        for c in d.get("inner", []):
            if c.get("kind") == "CXXMethodDecl" and c.get("name") == "operator()" and len(tu.params(c)) == len(args):
                m = c
        if m is not None:
            return ex.rd(st, ex.call_fn(m, ex.alloc(st, f), args, st))
    raise Unsupported("predicate " + type(f).__name__)


def pair_lv(ex, st, c, k):
    cont = ex.rd(st, c)
    if cont.vt is None:
        return ex.alloc(st, k)
    t0 = ex.alloc(st, k)
    return ex.alloc(st, Rec(Ty("tuple", [cont.kt, cont.vt]), {"t0": Ref(t0), "t1": Ref(c + ("m", k))}))


def find_if(ex, st, first, last, pred, negate=False):
    """first element satisfying pred"""
    r = elems(ex, st, first, last)
    if r is not None:
        lvs, its = r
        conds = []
        for lv in lvs:
            c = ex.tobool(pred(lv))
            conds.append(simp(z3.Not(c)) if negate else simp(c))
            if z3.is_true(conds[-1]):
                break
        res = last
        for c, it in reversed(list(zip(conds, its))):
            res = merge(c, it, res)
        return res
    if isinstance(first, MIt) and isinstance(last, MIt):
        cont = ex.rd(st, first.c)
        if isinstance(cont, CMap):
            res = MIt(first.c, None, T)
            start = first.pos if isinstance(first, MItC) else 0
            items = []
            for k, v, pr in cont.d[start:]:
                c = simp(z3.And(pr, ex.tobool(pred(pair_lv(ex, st, first.c, k)))))
                if z3.is_false(c):
                    continue
                items.append((k, c))
                if z3.is_true(c):
                    break
            for k, c in reversed(items):
                res = merge(c, MIt(first.c, k, F_), res)
            return res
        if isinstance(cont, Map) and isinstance(first, MapPos):
            # some element satisfying the predicate, if one exists (iteration order unspecified for
            # unordered containers; assumed contract: deterministic choice)
            k = z3.Const(ex.fresh_name("findif.key"), ex.key_sort(cont.kt))
            found = z3.Bool(ex.fresh_name("findif.found"))
            kv = ex.unpack_key(k, cont.kt)
            s2 = st.copy()
            c = ex.tobool(pred(pair_lv(ex, st, first.c, kv)))
            ex.axiom(z3.Implies(found, z3.And(z3.Select(cont.dom, k), c)))
            ex.key_used(cont, k)
            ex.mapfinds.append((cont, found, k, lambda kk: ex.tobool(pred(pair_lv(ex, st, first.c, ex.unpack_key(kk, cont.kt))))))
            for kk in ex.key_insts(ex.key_sort(cont.kt)):
                ck = ex.tobool(pred(pair_lv(ex, st, first.c, ex.unpack_key(kk, cont.kt))))
                ex.axiom(z3.Implies(z3.And(z3.Not(found), z3.Select(cont.dom, kk)), z3.Not(ck)))
            return MIt(first.c, kv, z3.Not(found))
    if isinstance(first, It):
        # symbolic range: characterise the result index
        v = ex.rd(st, first.c)
        r = z3.Int(ex.fresh_name("findif"))
        if first.rev:
            raise Unsupported("find_if over reverse symbolic range")
        step = "c" if isz(v) else "e"
        ex.suppress += 1
        try:
            c = ex.tobool(pred(first.c + (step, r)))
        finally:
            ex.suppress -= 1
        if negate:
            c = z3.Not(c)
        ex.axiom(z3.And(r >= first.i, r <= last.i))
        st.assume(z3.Implies(r < last.i, c))
        for hk in ex.find_hooks:
            hk(st, first.c, r, last.i)
        ex.rangefinds.append((first.c, first.i, last.i, r, pred, negate, st))
        for kk in ex.index_instances:
            ck = ex.tobool(pred(first.c + (step, kk)))
            if negate:
                ck = z3.Not(ck)
            st.assume(z3.Implies(z3.And(kk >= first.i, kk < r), z3.Not(ck)))
        return It(first.c, r)
    raise Unsupported("find_if over " + type(first).__name__)


def bound_key(ex, dom, kk, which="lower_bound"):
    """(key, end) of std::map::lower_bound/upper_bound: uninterpreted in (set of keys, looked-up key)"""
    so = kk.sort()
    fk = ex.ufn(which + "_key_" + str(so), dom.sort(), so, so)
    fe = ex.ufn(which + "_end_" + str(so), dom.sort(), so, B)
    return fk(dom, kk), fe(dom, kk)


def mbound(ex, st, lv, cont, key, which="lower_bound"):
    if not isinstance(cont, Map):
        raise Unsupported(which + " on a concrete map")
    kk = ex.pack_key(key, cont.kt)
    k, end = bound_key(ex, cont.dom, kk, which)
    ex.axiom(z3.Implies(z3.Not(end), z3.Select(cont.dom, k)))
    ex.key_used(cont, k)
    ex.bounds_seen.append((cont, kk, k, end, which))
    used(ex, "std::map::" + which)
    return MIt(lv, ex.unpack_key(k, cont.kt), end)


def mfind(ex, st, lv, key):
    cont = ex.rd(st, lv)
    if isinstance(cont, CMap):
        c = F_
        for k, v, pr in cont.d:
            c = z3.Or(c, z3.And(pr, veq(k, key)))
        c = simp(c)
        return MIt(lv, key, simp(z3.Not(c)))
    if isinstance(cont, Map):
        kk = ex.pack_key(key, cont.kt)
        ex.key_used(cont, kk)
        return MIt(lv, key, simp(z3.Not(z3.Select(cont.dom, kk))))
    raise Unsupported("find in " + type(cont).__name__)


def minsert(ex, st, lv, key, val, overwrite):
    """insert (key,val); returns inserted flag"""
    cont = ex.rd(st, lv)
    if isinstance(cont, CMap):
        d = []
        hit = F_
        for k, v, pr in cont.d:
            same = simp(z3.And(pr, veq(k, key)))
            hit = z3.Or(hit, same)
            if overwrite and val is not None:
                v = merge(same, val, v) if not z3.is_false(same) else v
            d.append((k, v, pr))
        hit = simp(hit)
        if not z3.is_true(hit):
            d.append((key, val, simp(z3.Not(hit))))
        ex.write(st, lv, CMap(d, cont.kt, cont.vt, cont.kind))
        return simp(z3.Not(hit))
    if isinstance(cont, Map):
        kk = ex.pack_key(key, cont.kt)
        ex.key_used(cont, kk)
        had = z3.Select(cont.dom, kk)
        e = cont.e
        if val is not None:
            old = ex.step_read(st, cont, ("m", key))
            nv = ex.conform(val, old)
            if not overwrite:
                nv = merge(had, old, nv)
            e = leafmap(lambda a, x: z3.Store(a, kk, x), cont.e, nv)
        ex.write(st, lv, Map(z3.Store(cont.dom, kk, T), e, cont.kt, cont.vt, cont.kind))
        return simp(z3.Not(had))
    raise Unsupported("insert into " + type(cont).__name__)


def merase(ex, st, lv, key):
    cont = ex.rd(st, lv)
    if isinstance(cont, CMap):
        ex.write(st, lv, CMap([(k, v, simp(z3.And(pr, z3.Not(veq(k, key))))) for k, v, pr in cont.d], cont.kt, cont.vt, cont.kind))
        return
    if isinstance(cont, Map):
        kk = ex.pack_key(key, cont.kt)
        ex.write(st, lv, Map(z3.Store(cont.dom, kk, F_), cont.e, cont.kt, cont.vt, cont.kind))
        return
    raise Unsupported("erase")


def mempty(ex, st, cont):
    if isinstance(cont, CMap):
        return simp(z3.Not(z3.Or([pr for _, _, pr in cont.d] or [F_])))
    if isinstance(cont, Map):
        return cont.dom == z3.K(ex.key_sort(cont.kt), F_)
    raise Unsupported("empty")


def push_back(ex, st, lv, v):
    cont = ex.rd(st, lv)
    if isinstance(cont, CSeq):
        ex.write(st, lv, CSeq(cont.xs + (v,), cont.t))
    elif isinstance(cont, Seq):
        v = ex.conform(v, ex.step_read(st, cont, ("e", iv(0))))
        ex.write(st, lv, Seq(simp(cont.n + 1), leafmap(lambda a, x: z3.Store(a, cont.n, x), cont.e, v), cont.t))
    else:
        raise Unsupported("push_back on " + type(cont).__name__)


# ------------------------------------------------------------------ construction
def real_args(args):
    return [a for a in args if a.get("kind") != "CXXDefaultArgExpr"]


def construct(ex, t, n, args, st, fr):
    args = real_args(args)
    vals = []
    for a in args:
        vals.append(ex.ev(a, st, fr))
        if st.dead:
            return default_any(ex, t)
    return construct_values(ex, t, vals, st, [ex.ty(a) for a in args])


def default_any(ex, t):
    try:
        return ex.default(t)
    except Unsupported:
        return Poison("dead")


def construct_values(ex, t, vals, st, tys=None):
    rv = [ex.rd(st, v) for v in vals]
    k = t.k
    if k == "ref":
        return vals[0]
    if not rv:
        if k == "record":
            return ex.default_record(t, st)
        return ex.default(t)
    if k == "record":
        if len(rv) == 1 and isinstance(rv[0], Rec) and rv[0].t == t:
            return rv[0]
        return construct_record(ex, t, vals, st)
    if k == "string":
        if len(rv) == 1:
            v = rv[0]
            if isz(v) and z3.is_string(v):
                return v
            if isinstance(v, CSeq):
                r = sv("")
                for x in v.xs:
                    r = z3.Concat(r, as_str(x))
                return simp(r)
            if isz(v) and z3.is_int(v):
                return as_str(v)
            raise Unsupported("string from " + type(v).__name__)
        if len(rv) >= 2 and isinstance(rv[0], It) and isinstance(rv[1], It):
            base = ex.rd(st, rv[0].c)
            if isz(base):
                if rv[0].rev:
                    raise Unsupported("reverse string range")
                return simp(z3.SubString(base, rv[0].i, simp(rv[1].i - rv[0].i)))
        if len(rv) == 2 and isz(rv[0]) and z3.is_string(rv[0]) and isz(rv[1]) and z3.is_int(rv[1]):
            x = rv[0]
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SEQ_EXTRACT and z3.eq(x.arg(2), z3.Length(x.arg(0)) - x.arg(1)):
                return simp(z3.SubString(x.arg(0), x.arg(1), rv[1]))      # pointer into the text and a length
            return simp(z3.SubString(x, 0, rv[1]))
        if len(rv) == 2 and isz(rv[0]) and z3.is_int(rv[0]) and z3.is_int(rv[1]):
            return repeat(ex, rv[1], rv[0])
        if len(rv) >= 2 and isz(rv[0]) and z3.is_string(rv[0]) and z3.is_int(rv[1]):
            return substr(ex, st, rv[0], rv[1], rv[2] if len(rv) > 2 else None)
        if len(rv) >= 2 and isinstance(rv[0], Opaque) and "string_range" in ex.libs:
            return ex.libs["string_range"](ex, st, rv[0], rv[1])
        raise Unsupported("string constructor with %d arguments" % len(rv))
    if k == "opt":
        v = rv[0]
        if isinstance(v, Opaque) and v.d is None and v.t in ("none",) or isinstance(v, Opaque) and str(v.t).split("::")[-1] in ("none_t", "nullopt_t"):
            return Opt(F_, None, t.a[0])
        if isinstance(v, Opt):
            return v
        if len(rv) == 2 and isz(rv[0]) and z3.is_bool(rv[0]):
            return Opt(rv[0], ex.coerce(rv[1], t.a[0]), t.a[0])
        return Opt(T, conv_elem(ex, v, t.a[0], st), t.a[0])
    if k in ("seq",):
        if len(rv) == 1:
            v = rv[0]
            if isinstance(v, (Seq, CSeq)):
                return v
            if isz(v) and z3.is_int(v):
                m = simp(v)
                if z3.is_int_value(m) and m.as_long() <= 256:
                    if t.a[0].k == "seq" and t.a[0].a[0].k in ("string", "int", "real", "bool", "char", "enum"):
                        return Seq(m, leafmap(lambda l: z3.K(I, l), full_default(ex, t.a[0], st)), t.a[0])
                    return CSeq([default_elem(ex, t.a[0], st) for _ in range(m.as_long())], t.a[0])
                e = leafmap(lambda l: z3.K(I, l), full_default(ex, t.a[0], st))
                return Seq(v, e, t.a[0])
        if len(rv) == 2 and isinstance(rv[0], It) and isinstance(rv[1], It):
            return slice_seq(ex, st, rv[0], rv[1], t.a[0])
        if len(rv) == 2 and isz(rv[0]) and z3.is_int(rv[0]):
            m = simp(rv[0])
            if z3.is_int_value(m) and m.as_long() <= 256:
                return CSeq([rv[1]] * m.as_long(), t.a[0])
        raise Unsupported("sequence constructor")
    if k in ("map", "set"):
        v = rv[0]
        if isinstance(v, (Map, CMap)):
            return v
        if isinstance(v, CSeq):
            d = []
            for x in v.xs:
                if k == "map":
                    kk, vv = x.f["t0"], x.f["t1"]
                else:
                    kk, vv = x, None
                if not any(z3.is_true(simp(veq(kk, o[0]))) for o in d):
                    d.append((kk, vv, T))
            return CMap(d, t.a[0], t.a[1] if k == "map" else None, t.n)
        if isinstance(v, Rec) and k == "map" and len(rv) >= 1 and all(isinstance(x, Rec) for x in rv):
            return CMap([(x.f["t0"], x.f["t1"], T) for x in rv], t.a[0], t.a[1], t.n)
        if isinstance(v, MIt) and len(rv) >= 2 and isinstance(rv[1], MIt):
            src = ex.rd(st, v.c)
            if isinstance(v, (MapPos, MItC)) and (not isinstance(v, MItC) or v.pos == 0):
                return src
        raise Unsupported("map constructor from " + type(v).__name__)
    if k == "tuple":
        if len(rv) == 1 and isinstance(rv[0], Rec):
            fs = ex.fields(t)
            return Rec(t, {nm: conv_elem(ex, ex.rd(st, x) if not isinstance(x, Ref) else ex.read(st, x.l), ft, st) for (nm, ft), x in zip(fs, rv[0].f.values())})
        fs = ex.fields(t)
        out = {}
        for (nm, ft), raw, v in zip(fs, vals, rv):
            if ft.k == "ref":
                out[nm] = Ref(raw if isinstance(raw, (LVal, IteL)) else ex.alloc(st, raw))
            else:
                out[nm] = conv_elem(ex, v, ft, st)
        return Rec(t, out)
    if k == "ptr":
        v = rv[0]
        if isinstance(v, Ptr):
            return v
        return Ptr(vals[0] if isinstance(vals[0], LVal) else ex.alloc(st, v))
    if k == "iter":
        return rv[0]
    if k == "variant":
        v = rv[0]
        if isinstance(v, Var):
            return v
        return ex.to_variant(v, t)
    if k == "fn" or k == "lambda":
        return rv[0]
    if k in ("int", "char", "enum", "bool", "real"):
        return ex.coerce(rv[0], t)
    if k == "opaque":
        return construct_opaque(ex, t, rv, st)
    raise Unsupported("construct %r" % t)


def conv_elem(ex, v, t, st):
    """implicit conversion of a value to element type t"""
    if t.k == "opaque" or t.k == "fn":
        return v
    if t.k == "seq" and isinstance(v, (CSeq, Seq)):
        return v
    if t.k == "opt" and isinstance(v, Opaque):
        return Opt(F_, None, t.a[0])
    if t.k == "record" and isinstance(v, Rec) and v.t == t:
        return v
    return ex.coerce(v, t)


def default_elem(ex, t, st):
    return ex.init_record(t, [], st, None) if t.k == "record" else ex.default(t)


def full_default(ex, t, st):
    """default value with payloads filled so that it can be lifted"""
    v = default_elem(ex, t, st)

    def fill(v, t):
        if isinstance(v, Opt):
            return Opt(v.has, fill(v.v if v.v is not None else default_elem(ex, t.a[0], st), t.a[0]), v.t)
        if isinstance(v, Var):
            return Var(v.tag, [fill(a if a is not None else default_elem(ex, tt, st), tt) for a, tt in zip(v.alts, v.ts)], v.ts)
        if isinstance(v, Rec):
            return Rec(v.t, {n: fill(v.f[n], ft) for n, ft in ex.fields(t)})
        if isinstance(v, CSeq):
            if v.xs:
                return to_seq(v)
            return Seq(iv(0), leafmap(lambda l: z3.K(I, l), full_default(ex, t.a[0], st)), v.t)
        if isinstance(v, CMap):
            return ex.to_map(v)
        return v
    return fill(v, t)


def slice_seq(ex, st, a, b, et):
    if a.rev:
        raise Unsupported("reverse slice")
    src = ex.rd(st, a.c)
    i, j = simp(a.i), simp(b.i)
    if isinstance(src, CSeq) and z3.is_int_value(i) and z3.is_int_value(j):
        return CSeq(src.xs[i.as_long():j.as_long()], et)
    if isinstance(src, CSeq):
        src = to_seq(src)
        if src is None:
            raise Unsupported("slice")
    if z3.is_int_value(i) and i.as_long() == 0:
        return Seq(simp(b.i), src.e, et)
    k = z3.Int(ex.fresh_name("k"))
    e = leafmap(lambda l: z3.Lambda([k], z3.Select(l, k + a.i)), src.e)
    return Seq(simp(b.i - a.i), e, et)


def is_exc_record(ex, t):
    try:
        d, tu = ex.record(t.n)
    except Unsupported:
        return False
    for b in d.get("bases", []):
        q = b["type"].get("desugaredQualType") or b["type"]["qualType"]
        if q.split("::")[-1] in ("runtime_error", "logic_error", "exception", "invalid_argument", "out_of_range"):
            return True
        bt = ex.types[tu.uid].parse(q)
        if bt.k == "record" and is_exc_record(ex, bt):
            return True
    return False


def construct_record(ex, t, vals, st):
    d, tu = ex.record(t.n)
    for c in d.get("inner", []):
        xs = [c] if c.get("kind") == "CXXConstructorDecl" else [x for x in c.get("inner", []) if x.get("kind") == "CXXConstructorDecl"] if c.get("kind") == "FunctionTemplateDecl" else []
        for x in xs:
            if len(tu.params(x)) == len(vals) and not x.get("isImplicit"):
                x2 = tu.canon_fn.get(x["id"], x)
                obj = ex.alloc(st, ex.uninit_record(t))
                ex.call_fn(x2, obj, vals, st, None)
                return ex.rd(st, obj)
    # aggregate
    fs = ex.fields(t)
    if len(vals) <= len(fs):
        f = {}
        for i, (nm, ft) in enumerate(fs):
            if i < len(vals):
                f[nm] = conv_elem(ex, ex.rd(st, vals[i]), ft, st)
            else:
                f[nm] = default_elem(ex, ft, st)
        return Rec(t, f)
    raise Unsupported("construct record " + t.n)


def construct_opaque(ex, t, rv, st):
    base = str(t.n).split("<")[0].split("::")[-1]
    if base in ("basic_stringstream", "basic_ostringstream", "stringstream", "ostringstream", "basic_istringstream", "istringstream"):
        s = new_stream()
        if rv and isz(rv[0]) and z3.is_string(rv[0]):
            s = s.with_("text", rv[0])
        return s
    if base in ("nullopt_t", "none_t", "init_tag", "_Construct"):
        return Opaque("none")
    if base in ("invalid_argument", "runtime_error", "logic_error", "out_of_range", "exception"):
        v = rv[0] if rv else sv("")
        return Opaque("std::" + base, v if isz(v) else None)
    if len(rv) == 1 and isinstance(rv[0], (Opaque, Rec)):
        return rv[0]
    if base in ("reverse_iterator",):
        return rv[0]
    h = ex.libs.get("construct:" + base)
    if h:
        return h(ex, t, rv, st)
    raise Unsupported("construct opaque " + str(t.n)[:80])


def ctor(ex, t, n, args, st, fr):
    if is_exc_record(ex, t):
        vals = [ex.rd(st, ex.ev(a, st, fr)) for a in real_args(args)]
        return Rec(t, {"$what": vals[0] if vals else sv("")})
    return NotImplemented


def user_missing(ex, d, avs, n, st, fr, obj=None):
    h = ex.libs.get("fn:" + d.get("name", ""))
    if h:
        return h(ex, st, obj, avs, n)
    return NotImplemented


# ------------------------------------------------------------------ free functions
def call_function(ex, rd, args, n, st, fr):
    name = rd["name"]
    if name in ("make_unique", "make_shared"):
        t = ex.ty(n)
        vals = [ex.ev_arg(a, st, fr) for a in args]
        if st.dead:
            return iv(0)
        mk = ex.contracts.get("make:" + str(t.a[0].n).split("<")[0].split("::")[-1])
        v = mk(ex, st, None, vals, None) if mk else construct_values(ex, t.a[0], vals, st)
        if not isinstance(v, (LVal,)):
            v = ex.alloc(st, v)
        return Ptr(v)
    if name == "memcpy" and ex.opts.get("buffers"):
        from . import bufs
        if bufs.memcpy(ex, args, st, fr) is not NotImplemented:
            return iv(0)
    vals = []
    for i, a in enumerate(args):
        if i == 0 and name == "snprintf":
            from . import bufs
            v = bufs.slot(ex, a, st, fr)
        else:
            v = ex.ev_arg(a, st, fr)
        if st.dead:
            return iv(0)
        if v is None and a.get("kind") == "CXXDefaultArgExpr":
            continue
        vals.append(v)
    return call_values(ex, name, vals, st, n)


def call_values(ex, name, vals, st, n=None):
    h = ex.libs.get("fn:" + name)
    if h:
        r = h(ex, st, None, vals, n)
        if r is not NotImplemented:
            return r
    rv = lambda i: ex.rd(st, vals[i])
    if name in ("move", "forward", "as_const", "addressof", "ref", "cref"):
        if name in ("move",) and len(vals) == 3:
            raise Unsupported("std::move algorithm")
        v = vals[0]
        if name in ("ref", "cref", "addressof"):
            return Ptr(v if isinstance(v, (LVal, IteL)) else ex.alloc(st, v))
        return v
    if name in ("begin", "cbegin", "end", "cend", "rbegin", "rend", "crbegin", "crend"):
        return begin_end(ex, st, vals[0], name)
    if name == "apply_visitor" or name == "visit":
        if name == "visit" or not isinstance(ex.rd(st, vals[0]), Var):
            used(ex, "boost::apply_visitor")
            var = vals[1]
            if not isinstance(var, (LVal, IteL)):
                var = ex.alloc(st, var)
            return ex.apply_visitor(vals[0], var, st)
        raise Unsupported("apply_visitor argument order")
    if name in ("stoi", "stol", "stoul", "stoll"):
        return stoi(ex, st, rv(0))
    if name == "atoi":
        used(ex, "atoi")
        l = lit(rv(0))
        if l is not None:
            return iv(parse_int_prefix(l) or 0)
        return ex.ufn("atoi", S, I)(rv(0))
    if name in ("stod", "stof", "atof"):
        return stod(ex, st, rv(0))
    if name == "to_string":
        used(ex, "std::to_string")
        return to_string(ex, rv(0))
    if name in ("abs", "fabs"):
        return m_abs(rv(0))
    if name == "sqrt":
        return m_sqrt(ex, rv(0))
    if name == "pow":
        return m_pow(ex, rv(0), rv(1))
    if name in REAL1:
        return uf_real(ex, name, rv(0))
    if name in ("fmod", "atan2", "hypot"):
        return uf_real(ex, name, rv(0), rv(1))
    if name == "floor":
        return z3.ToReal(z3.ToInt(to_real(rv(0))))
    if name == "ceil":
        return -z3.ToReal(z3.ToInt(-to_real(rv(0))))
    if name in ("round",):
        return m_round(to_real(rv(0)))
    if name == "trunc":
        return z3.ToReal(trunc(to_real(rv(0))))
    if name in ("max", "min"):
        a, b = rv(0), rv(1)
        if name == "max":
            return z3.If(a < b, b, a)
        return z3.If(b < a, b, a)
    if name in ("make_pair", "make_tuple"):
        fs = [ex.rd(st, v) for v in vals]
        t = ex.ty(n) if n is not None else Ty("tuple", [Ty("opaque")] * len(fs))
        if t.k == "ref":
            t = t.a[0]
        if t.k == "tuple":
            return Rec(t, {"t%d" % i: conv_elem(ex, x, ft, st) for i, (x, ft) in enumerate(zip(fs, t.a))})
        raise Unsupported("make_pair type")
    if name == "tie":
        t = ex.ty(n)
        return Rec(t, {"t%d" % i: Ref(v) if isinstance(v, (LVal, IteL)) else v for i, v in enumerate(vals)})
    if name == "make_optional":
        if len(vals) == 2:
            return Opt(ex.tobool(rv(0)), rv(1), ex.ty(n).a[0])
        return Opt(T, rv(0), ex.ty(n).a[0])
    if name == "get":
        v = vals[0]
        if isinstance(v, (LVal, IteL)):
            val = ex.rd(st, v)
        else:
            val = v
        idx = template_index(ex, n)
        if isinstance(val, Rec) and val.t.k == "tuple":
            if idx is None:
                raise Unsupported("std::get index")
            return v + ("f", "t%d" % idx) if isinstance(v, (LVal, IteL)) else val.f["t%d" % idx]
        if isinstance(val, Var):
            return variant_get(ex, st, v, val, n)
        if isinstance(val, Ptr):
            return variant_get_ptr(ex, st, val, n)
        raise Unsupported("get on " + type(val).__name__)
    if name in ("find_if", "find_if_not", "find", "any_of", "none_of", "all_of"):
        first, last = rv(0), rv(1)
        f = vals[2]
        if name == "find":
            tgt = ex.rd(st, f)
            pred = lambda lv: veq(ex.rd(st, lv), tgt)
        else:
            pred = lambda lv: call_pred(ex, st, f, [lv])
        neg = name in ("find_if_not", "all_of")
        used(ex, "std::" + name)
        r = find_if(ex, st, first, last, pred, neg)
        if name.startswith("find"):
            return r
        found = z3.Not(r.end) if isinstance(r, MIt) else (r.i != last.i)
        found = simp(found)
        return found if name == "any_of" else simp(z3.Not(found))
    if name == "count_if" or name == "count":
        first, last = rv(0), rv(1)
        r = elems(ex, st, first, last)
        if r is None:
            raise Unsupported("count_if over symbolic range")
        tot = iv(0)
        for lv in r[0]:
            c = ex.tobool(call_pred(ex, st, vals[2], [lv])) if name == "count_if" else veq(ex.rd(st, lv), rv(2))
            tot = tot + z3.If(c, iv(1), iv(0))
        return simp(tot)
    if name == "for_each":
        return for_each(ex, st, rv(0), rv(1), vals[2], n)
    if name in ("next", "prev", "advance"):
        it = rv(0)
        k = rv(1) if len(vals) > 1 else iv(1)
        if isinstance(it, It):
            d = k if (name != "prev") != it.rev else -k
            r = It(it.c, simp(it.i + d), it.rev)
            if name == "advance":
                ex.write(st, vals[0], r)
            return r
        raise Unsupported(name + " on " + type(it).__name__)
    if name == "distance":
        a, b = rv(0), rv(1)
        return simp(b.i - a.i) if not a.rev else simp(a.i - b.i)
    if name in ("isspace", "isdigit", "isalpha", "toupper", "tolower"):
        c = rv(0)
        if name == "isspace":
            return z3.If(z3.Or(c == 32, z3.And(c >= 9, c <= 13)), iv(1), iv(0))
        if name == "isdigit":
            return z3.If(z3.And(c >= 48, c <= 57), iv(1), iv(0))
        if name == "isalpha":
            return z3.If(z3.Or(z3.And(c >= 65, c <= 90), z3.And(c >= 97, c <= 122)), iv(1), iv(0))
        if name == "toupper":
            return z3.If(z3.And(c >= 97, c <= 122), c - 32, c)
        return z3.If(z3.And(c >= 65, c <= 90), c + 32, c)
    if name in ("setw", "setprecision", "setfill"):
        return Opaque(name, rv(0))
    if name == "is_any_of":
        t = lit(as_str(rv(0)))
        if t is None:
            raise Unsupported("is_any_of of a computed set")
        return Opaque("is_any_of", t)
    if name == "trim_right_if" and isinstance(rv(1), Opaque) and rv(1).t == "is_any_of":
        used(ex, "boost::trim_right_if")
        ex.write(st, vals[0], trim_right(ex, rv(0), rv(1).d))
        return None
    if name == "trim":
        used(ex, "boost::trim")
        ex.write(st, vals[0], rtrim_ws(ex, rv(0)))
        return None
    if name == "fixed":
        return Opaque("fixed")
    if name == "hash_value" or name == "hash_combine":
        return z3.Int(ex.fresh_name("hash"))
    if name == "swap":
        a, b = rv(0), rv(1)
        ex.write(st, vals[0], b); ex.write(st, vals[1], a)
        return None
    if name == "isnan" or name == "isinf":
        return F_
    if name == "isfinite":
        return T
    if name == "size":
        return ex.seqlen(rv(0))
    if name == "empty":
        return ex.seqlen(rv(0)) == 0
    raise Unsupported("library function " + name)


def template_index(ex, n):
    """index argument of std::get<i>: from the callee's substituted type"""
    c = ex.strip(n["inner"][0]) if n is not None else None
    if c is None:
        return None
    # Clang's JSON does not print the template argument of the call: recover it from the callee type
    rt = c.get("type", {}).get("qualType", "")
    import re
    m = re.search(r"__tuple_element_t<(\d+)", rt) or re.search(r"tuple_element<(\d+)", rt)
    if m:
        return int(m.group(1))
    return None


def variant_get(ex, st, lv, val, n):
    t = ex.ty(n)
    if t.k == "ref":
        t = t.a[0]
    from .exec import Exc
    for i, a in enumerate(val.ts):
        if a == t:
            ex.throw(st, Exc("boost::bad_get", None), simp(val.tag != i)) if not z3.is_true(simp(val.tag == i)) else None
            return lv + ("a", i) if isinstance(lv, (LVal, IteL)) else val.alts[i]
    raise Unsupported("variant get type")


def variant_get_ptr(ex, st, p, n):
    t = ex.ty(n)
    m = re.match(r"(?:typename )?(?:boost::|std::)?add_pointer<(.*)>::type$", n.get("type", {}).get("qualType", ""))
    if m:
        a = m.group(1).strip()
        a = a[5:].strip() if a.startswith("const") else a
        t = Ty("ptr", [ex.parse_ty(a, n.get("_tu"))])
    if t.k != "ptr":
        raise Unsupported("get on pointer")
    val = ex.rd(st, p.l)
    for i, a in enumerate(val.ts):
        if a == t.a[0]:
            return Ptr(p.l + ("a", i), simp(val.tag != i))
    raise Unsupported("variant pointer get %s %s" % (t, n.get("type")))


def for_each(ex, st, first, last, f, n):
    r = elems(ex, st, first, last)
    if r is not None:
        for lv in r[0]:
            call_pred(ex, st, f, [lv])
            if st.dead:
                break
        return ex.rd(st, f)
    if not (isinstance(first, It) and isinstance(last, It) and same_lval(first.c, last.c)):
        raise Unsupported("for_each over this range")
    from .exec import Frame
    fr = Frame(None, n["_tu"], None, {})
    ix = ex.alloc(st, first)
    stepv = iv(-1) if first.rev else iv(1)

    def inc(s):
        c = ex.read(s, ix)
        ex.write(s, ix, It(c.c, simp(c.i + stepv), c.rev))
    ex.loop(n, st, fr, lambda s: (ex.read(s, ix).i > last.i) if first.rev else (ex.read(s, ix).i < last.i),
            lambda s: call_pred(ex, s, f, [first.c + ("e", ex.read(s, ix).i)]), inc)
    return ex.rd(st, f)


def begin_end(ex, st, obj, name):
    nm = name.lstrip("c") if name not in ("cbegin", "cend", "crbegin", "crend") else name[1:]
    lv = lvof(ex, st, obj)
    v = ex.rd(st, lv)
    if isinstance(v, (CMap, Map)):
        if nm == "begin":
            return map_begin(ex, st, lv)
        if nm == "end":
            return MIt(lv, None, T)
        raise Unsupported(nm + " of map")
    if isinstance(v, (Seq, CSeq)) or isz(v):
        n = ex.seqlen(v)
        if nm == "begin":
            return It(lv, iv(0))
        if nm == "end":
            return It(lv, simp(n))
        if nm == "rbegin":
            return It(lv, simp(n - 1), True)
        if nm == "rend":
            return It(lv, iv(-1), True)
    if isinstance(v, It) and nm == "begin":
        return v
    raise Unsupported("%s of %s" % (name, type(v).__name__))


# ------------------------------------------------------------------ operators
def operator_call(ex, op, args, n, st, fr):
    sym = op[len("operator"):]
    if sym == "=" and len(args) == 2:
        # right operand first
        r = ex.ev(args[1], st, fr)
        if st.dead:
            return iv(0)
        rval = ex.rd(st, r)
        l = ex.ev(args[0], st, fr)
        if st.dead:
            return iv(0)
        return assign(ex, st, l, rval, ex.ty(args[0]), fr)
    vals = []
    for a in args:
        v = ex.ev(a, st, fr)
        if st.dead:
            return iv(0)
        vals.append(v)
    return op_values(ex, sym, vals, args, n, st, fr)


def assign(ex, st, l, v, t, fr=None):
    if t.k == "ref":
        t = t.a[0]
    if isinstance(l, Rec) and l.t.k == "tuple":      # std::tie(...) = tuple
        src = list(v.f.values()) if isinstance(v, Rec) else None
        if src is None:
            raise Unsupported("assignment to tie")
        src = [ex.read(st, x.l) if isinstance(x, Ref) else x for x in src]
        for tgt, x in zip(l.f.values(), src):
            if isinstance(tgt, Ref):
                ex.write(st, tgt.l, x)
        return l
    if not isinstance(l, (LVal, IteL)):
        raise Unsupported("assignment to " + type(l).__name__)
    cur = None
    if t.k == "tuple" and isinstance(v, Rec):
        cur = ex.rd(st, l)
        if isinstance(cur, Rec) and any(isinstance(x, Ref) for x in cur.f.values()):
            for tgt, x in zip(cur.f.values(), v.f.values()):
                if isinstance(tgt, Ref):
                    ex.write(st, tgt.l, ex.read(st, x.l) if isinstance(x, Ref) else x)
            return l
    if isinstance(v, Opaque) and v.t == "none" or isinstance(v, Opaque) and str(v.t).split("::")[-1] in ("none_t", "nullopt_t"):
        if t.k == "opt":
            v = Opt(F_, None, t.a[0])
    if t.k == "string" and isz(v) and z3.is_int(v):
        v = as_str(v)
    if t.k == "opt" and not isinstance(v, Opt):
        v = Opt(T, conv_elem(ex, v, t.a[0], st), t.a[0])
    if t.k in ("map", "set", "seq") and isinstance(v, CSeq) and t.k != "seq":
        v = construct_values(ex, t, [v], st)
    if t.k == "tuple" and isinstance(v, Rec):
        v = Rec(t, {nm: conv_elem(ex, ex.read(st, x.l) if isinstance(x, Ref) else x, ft, st) for (nm, ft), x in zip(ex.fields(t), v.f.values())})
    ex.write(st, l, ex.coerce(v, t) if t.k not in ("opaque", "fn", "iter") else v)
    return l


def op_values(ex, sym, vals, args, n, st, fr):
    rv = lambda i: ex.rd(st, vals[i])
    if sym == "*" and len(vals) == 1:
        return deref_any(ex, st, vals[0])
    if sym == "->":
        v = rv(0)
        if isinstance(v, Opt):
            return Ptr(opt_payload(ex, st, vals[0], v))
        if isinstance(v, (It, MIt)):
            return Ptr(ex.deref(v, st))
        if isinstance(v, Ptr):
            return v
        raise Unsupported("operator-> on " + type(v).__name__)
    if sym == "!":
        return z3.Not(ex.tobool(rv(0)))
    if sym == "[]":
        return subscript(ex, st, vals[0], rv(1))
    if sym == "()":
        f = rv(0)
        if isinstance(f, (Clo, FnV)):
            return ex.call_closure(f, vals[1:], st)
        if isinstance(f, Ptr):
            raise Unsupported("call of an empty std::function")
        raise Unsupported("operator() on " + type(f).__name__)
    if sym in ("==", "!="):
        r = equal(ex, st, rv(0), rv(1))
        return r if sym == "==" else simp(z3.Not(r))
    if sym in ("<", ">", "<=", ">="):
        a, b = rv(0), rv(1)
        if isz(a) and isz(b) and z3.is_string(a):
            return {"<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: b < a, ">=": lambda: b <= a}[sym]()
        if isinstance(a, Opaque) and a.t == "ordering":
            return {"<": a.d < 0, ">": a.d > 0, "<=": a.d <= 0, ">=": a.d >= 0}[sym]
        if isinstance(a, It) or isz(a) and isz(b):
            return ex.binop(sym, a, b, n, st)
        if isinstance(a, Opt) or isinstance(b, Opt):
            return opt_compare(ex, sym, a, b)
        raise Unsupported("operator" + sym)
    if sym == "<=>":
        a, b = rv(0), rv(1)
        if isinstance(a, Opt) and isz(b):
            bb = to_real(b) if z3.is_real(a.v) else b
            return Opaque("ordering", z3.If(z3.Not(a.has), iv(-1), z3.If(a.v < bb, iv(-1), z3.If(a.v > bb, iv(1), iv(0)))))
        if isz(a) and isz(b):
            return Opaque("ordering", z3.If(a < b, iv(-1), z3.If(a > b, iv(1), iv(0))))
        raise Unsupported("<=>")
    if sym in ("+", "-") and len(vals) == 2:
        a, b = rv(0), rv(1)
        if isz(a) and isz(b) and (z3.is_string(a) or z3.is_string(b)):
            return simp(z3.Concat(as_str(a), as_str(b)))
        return ex.binop(sym, a, b, n, st)
    if sym in ("+=", "-="):
        a, b = rv(0), rv(1)
        if isz(a) and z3.is_string(a):
            ex.write(st, vals[0], simp(z3.Concat(a, as_str(b))))
            return vals[0]
        if isinstance(a, It):
            ex.write(st, vals[0], ex.binop(sym[0], a, b, n, st))
            return vals[0]
        raise Unsupported("operator" + sym)
    if sym in ("++", "--"):
        v = rv(0)
        if isinstance(v, It):
            new = It(v.c, simp(v.i + (1 if (sym == "++") != v.rev else -1)), v.rev)
            ex.write(st, vals[0], new)
            return v if len(vals) == 2 else vals[0]
        if isinstance(v, MItC) and sym == "++":
            cont = ex.rd(st, v.c)
            ex.write(st, vals[0], MItC(v.c, v.pos + 1, cont))
            return v if len(vals) == 2 else vals[0]
        if isinstance(v, MIt):
            return map_iter_incr(ex, st, vals, v)
        raise Unsupported("++ on " + type(v).__name__)
    if sym == "<<":
        try:
            et = ex.ty(n["inner"][-1])
        except (KeyError, IndexError, Unsupported):
            et = None
        if et is not None and et.k == "ref":
            et = et.a[0]
        if et is not None and et.k == "enum" and isz(rv(1)) and z3.is_int(rv(1)):
            h = ex.libs.get("stream_enum")      # an inserter of the project (C17), not the built-in one for integers
            if not h:
                raise Unsupported("operator<< on " + str(et.n))
            vals[1] = h(ex, et, rv(1))
        return stream_out(ex, st, vals[0], vals[1])
    if sym == ">>":
        s = rv(0)
        if isinstance(s, Rec) and s.t == STREAM:
            tok = ex.ufn("stream_word", S, S)
            l = lit(s.f["text"])
            txt = sv((l.split() or [""])[0]) if l is not None else tok(s.f["text"])
            used(ex, "std::istream >> std::string")
            ex.write(st, vals[1], txt)
            return vals[0]
        h = ex.libs.get("op:>>")
        if h:
            return h(ex, st, vals, n)
    if sym == "*" and len(vals) == 2:
        return ex.binop("*", rv(0), rv(1), n, st)
    h = ex.libs.get("op:" + sym)
    if h:
        return h(ex, st, vals, n)
    raise Unsupported("operator" + sym)


def map_iter_incr(ex, st, vals, v):
    raise Unsupported("++ on map iterator")


def opt_compare(ex, sym, a, b):
    if isinstance(a, Opt) and isz(b):
        x, y = a.v, b
        if x is None:
            return T if sym in ("<", "<=") else F_
        x, y = to_real(x) if z3.is_real(y) else x, to_real(y) if z3.is_real(x) else y
        c = {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[sym]
        return z3.If(a.has, c, T if sym in ("<", "<=") else F_)
    raise Unsupported("optional comparison")


def opt_payload(ex, st, l, v):
    if ex.safety:
        ex.oblige("optional holds a value when dereferenced", st, v.has, "safety")
    if isinstance(l, (LVal, IteL)):
        return l + ("o",)
    return ex.alloc(st, v) + ("o",)


def deref_any(ex, st, l):
    v = ex.rd(st, l)
    if isinstance(v, Opt):
        return opt_payload(ex, st, l, v)
    return ex.deref(v, st)


def equal(ex, st, a, b):
    if isinstance(a, Opt) and isz(b) or isinstance(b, Opt) and isz(a):
        o, x = (a, b) if isinstance(a, Opt) else (b, a)
        if o.v is None:
            return F_
        return simp(z3.And(o.has, veq(o.v, x)))
    if isinstance(a, Opaque) and a.t == "none":
        a, b = b, a
    if isinstance(b, Opaque) and b.t == "none" and isinstance(a, Opt):
        return simp(z3.Not(a.has))
    if isz(a) and isz(b) and a.sort() != b.sort():
        if z3.is_string(a) and z3.is_int(b) or z3.is_string(b) and z3.is_int(a):
            return as_str(a) == as_str(b)
    if isinstance(a, Opaque) and a.t == "ordering":
        return a.d == 0
    return simp(veq(a, b))


def subscript(ex, st, obj, idx):
    lv = lvof(ex, st, obj)
    v = ex.rd(st, lv)
    if isinstance(v, (Seq, CSeq)):
        if ex.safety:
            ex.oblige("index within bounds", st, z3.And(idx >= 0, idx < ex.seqlen(v)), "safety")
        i = simp(idx)
        if isinstance(v, CSeq) and z3.is_int_value(i) and not 0 <= i.as_long() < len(v.xs):
            st.kill()
            return ex.alloc(st, Poison("out of bounds"))
        return lv + ("e", i)
    if isz(v) and z3.is_string(v):
        if ex.safety:
            ex.oblige("string index within bounds", st, z3.And(idx >= 0, idx <= z3.Length(v)), "safety")
        return lv + ("c", simp(idx))
    if isinstance(v, (Map, CMap)):
        minsert(ex, st, lv, idx, full_default(ex, v.vt, st) if v.vt.k not in ("opaque", "fn", "ptr", "lambda") else ex.default(v.vt), False)
        return lv + ("m", idx)
    if isinstance(v, It):
        return ex.deref(It(v.c, simp(v.i + idx), v.rev), st)
    if isinstance(v, Ptr):
        return ex.deref(v, st) + ("e", simp(idx))
    h = ex.libs.get("op:[]")
    if h:
        return h(ex, st, obj, v, idx)
    raise Unsupported("operator[] on " + type(v).__name__)


def stream_out(ex, st, l, x):
    s = ex.rd(st, l)
    if not (isinstance(s, Rec) and s.t == STREAM):
        h = ex.libs.get("op:<<")
        if h:
            return h(ex, st, l, x)
        raise Unsupported("operator<< on " + type(s).__name__)
    v = ex.rd(st, x)
    used(ex, "std::ostream <<")
    if isinstance(v, Opaque):
        if v.t == "setw":
            s = s.with_("width", v.d)
        elif v.t == "setprecision":
            s = s.with_("prec", v.d)
        elif v.t == "setfill":
            s = s.with_("fill", v.d)
        elif v.t == "fixed":
            s = s.with_("fixed", T)
        else:
            raise Unsupported("stream manipulator " + str(v.t))
        ex.write(st, l, s)
        return l
    if isinstance(v, FnV):
        nm = v.decl.get("name")
        if nm == "fixed":
            ex.write(st, l, s.with_("fixed", T))
            return l
        if nm == "endl":
            ex.write(st, l, s.with_("text", simp(z3.Concat(s.f["text"], sv("\n")))))
            return l
        raise Unsupported("manipulator " + str(nm))
    if isz(v):
        if z3.is_string(v):
            txt = v
        elif z3.is_real(v):
            txt = fmt_double(ex, s.f["prec"], s.f["fixed"], v)
        elif z3.is_bool(v):
            txt = z3.If(v, sv("1"), sv("0"))
        else:
            txt = str_of_int(v)
        txt = pad_left(ex, txt, s.f["width"], s.f["fill"])
        ex.write(st, l, s.with_("text", simp(z3.Concat(s.f["text"], txt))).with_("width", iv(0)))
        return l
    raise Unsupported("stream output of " + type(v).__name__)


# ------------------------------------------------------------------ member functions
def member_call(ex, name, obj, args, n, st, fr, m):
    vals = []
    for a in args:
        v = ex.ev_arg(a, st, fr)
        if st.dead:
            return iv(0)
        if a.get("kind") == "CXXDefaultArgExpr":
            continue
        vals.append(v)
    v = ex.rd(st, obj)
    # operator() overloads of char vs int matter for streams: characters are printed as text
    rv = lambda i: ex.rd(st, vals[i])
    if isinstance(v, Poison):
        raise Unsupported("call on poison: " + v.why)
    h = ex.libs.get("method:" + name)
    if h:
        r = h(ex, st, obj, v, vals, n)
        if r is not NotImplemented:
            return r
    if name in ("begin", "cbegin", "end", "cend", "rbegin", "rend", "crbegin", "crend"):
        return begin_end(ex, st, obj, name)
    if isinstance(v, Opt):
        if name in ("operator bool", "has_value", "is_initialized"):
            return v.has
        if name in ("value", "get"):
            if name == "value":
                from .exec import Exc
                if not z3.is_true(simp(v.has)):
                    ex.throw(st, Exc("std::bad_optional_access", None), z3.Not(v.has))
                    return obj + ("o",) if isinstance(obj, (LVal, IteL)) else v.v
            return opt_payload(ex, st, obj, v)
        if name in ("value_or", "get_value_or"):
            return v.v if z3.is_true(simp(v.has)) else rv(0) if v.v is None else merge(v.has, v.v, ex.coerce(rv(0), v.t))
        if name in ("reset",):
            ex.write(st, obj, Opt(F_, None, v.t))
            return None
        if name == "operator=":
            return assign(ex, st, obj, rv(0), Ty("opt", [v.t]))
        if name == "emplace":
            ex.write(st, obj, Opt(T, ex.coerce(rv(0), v.t), v.t))
            return None
    if isz(v) and z3.is_string(v):
        return string_method(ex, name, obj, v, vals, st)
    if isinstance(v, (Seq, CSeq)):
        return seq_method(ex, name, obj, v, vals, st, n)
    if isinstance(v, (Map, CMap)):
        return map_method(ex, name, obj, v, vals, st, n)
    if isinstance(v, Rec) and v.t == STREAM:
        if name == "str":
            if vals:
                ex.write(st, obj, v.with_("text", rv(0)))
                return None
            return v.f["text"]
        if name in ("operator bool", "good"):
            return T
        if name == "flush":
            return obj
        if name == "precision":
            ex.write(st, obj, v.with_("prec", rv(0)))
            return None
    if isinstance(v, Ptr):
        if name == "get":
            return v
        if name == "reset":
            ex.write(st, obj, Ptr(None) if not vals else rv(0))
            return None
        if name == "operator bool":
            return z3.Not(v.null)
    if isinstance(v, Rec) and name == "what":
        return v.f.get("$what", sv(""))
    if name == "what":
        if isinstance(v, Opaque) and isz(v.d) and z3.is_string(v.d):
            return v.d
        return z3.String(ex.fresh_name("what"))
    if isinstance(v, Rec) and name == "operator=":
        nv = rv(0)
        if isinstance(nv, Rec) and nv.f.keys() == v.f.keys():
            ex.write(st, obj, Rec(v.t, dict(nv.f)))
            return obj
    if isinstance(v, Opaque) and name == "operator=":
        ex.write(st, obj, rv(0))
        return obj
    raise Unsupported("method %s of %s" % (name, type(v).__name__ if not isinstance(v, Opaque) else v.t))


def is_empty(ex, v):
    c = simp(v == sv(""))
    if not ex.opts.get("abstract_strings") or z3.is_true(c) or z3.is_false(c):
        return c
    r = ex.ufn("is_empty", S, z3.BoolSort())(v)
    ex.axiom(r == c)
    return r


def string_method(ex, name, obj, v, vals, st):
    rv = lambda i: ex.rd(st, vals[i])
    if name in ("size", "length"):
        if ex.opts.get("buffers"):
            from . import bufs
            return simp(bufs.length(v))
        return simp(z3.Length(v))
    if name == "empty":
        if ex.opts.get("buffers"):
            from . import bufs
            return simp(bufs.length(v) == 0)
        return is_empty(ex, v)
    if name in ("c_str", "data", "operator basic_string_view", "operator basic_string", "str"):
        return v
    if name == "clear":
        ex.write(st, obj, sv(""))
        return None
    if name in ("operator=", "assign"):
        x = rv(0)
        ex.write(st, obj, as_str(x))
        return obj
    if name in ("append", "push_back"):
        if len(vals) == 1:
            ex.write(st, obj, simp(z3.Concat(v, as_str(rv(0)))))
            return obj
        if len(vals) == 2 and isz(rv(0)) and z3.is_int(rv(0)):
            ex.write(st, obj, simp(z3.Concat(v, repeat(ex, rv(1), rv(0)))))
            return obj
    if name == "substr":
        return substr(ex, st, v, rv(0) if vals else iv(0), rv(1) if len(vals) > 1 else None)
    if name == "find":
        return str_find(ex, v, as_str(rv(0)), rv(1) if len(vals) > 1 else None)
    if name in ("find_last_not_of", "find_first_not_of", "find_first_of", "find_last_of"):
        cs = lit(as_str(rv(0)))
        if cs is not None and len(vals) == 1:
            if name == "find_last_not_of":
                return find_last_not_of(ex, v, cs)
            if name == "find_first_not_of":
                return find_first_not_of(ex, v, cs)
            if name == "find_first_of" and len(cs) == 1:
                return str_find(ex, v, sv(cs))
    if name == "erase":
        if len(vals) >= 1 and isz(rv(0)):
            p = rv(0)
            cnt = rv(1) if len(vals) > 1 else iv(NPOS)
            from .exec import Exc
            c = simp(p > z3.Length(v))
            if not z3.is_false(c):
                ex.throw(st, Exc("std::out_of_range", None), c)
            ln = z3.Length(v)
            rest = ln - p
            k = simp(z3.If(cnt < rest, cnt, rest))
            ex.write(st, obj, simp(z3.Concat(z3.SubString(v, 0, p), z3.SubString(v, simp(p + k), simp(ln - p - k)))))
            return obj
    if name == "replace":
        if len(vals) == 3 and isz(rv(0)):
            p, c, s = rv(0), rv(1), rv(2)
            from .exec import Exc
            ln = z3.Length(v)
            bad = simp(p > ln)
            if not z3.is_false(bad):
                ex.throw(st, Exc("std::out_of_range", None), bad)
            k = simp(z3.If(c < ln - p, c, ln - p))
            ex.write(st, obj, simp(z3.Concat(z3.SubString(v, 0, p), s, z3.SubString(v, simp(p + k), simp(ln - p - k)))))
            return obj
    if name == "insert" and len(vals) == 2 and isz(rv(0)):
        p, s = rv(0), rv(1)
        ex.write(st, obj, simp(z3.Concat(z3.SubString(v, 0, p), s, z3.SubString(v, p, z3.Length(v) - p))))
        return obj
    if name in ("front", "back"):
        if ex.safety:
            ex.oblige("string not empty for %s()" % name, st, z3.Length(v) > 0, "safety")
        return lvof(ex, st, obj) + ("c", iv(0) if name == "front" else simp(z3.Length(v) - 1))
    if name == "pop_back":
        ex.write(st, obj, simp(z3.SubString(v, 0, z3.Length(v) - 1)))
        return None
    if name == "remove_suffix":
        ex.write(st, obj, simp(z3.SubString(v, 0, z3.Length(v) - rv(0))))
        return None
    if name == "remove_prefix":
        ex.write(st, obj, simp(z3.SubString(v, rv(0), z3.Length(v) - rv(0))))
        return None
    if name in ("starts_with",):
        return z3.PrefixOf(as_str(rv(0)), v)
    if name in ("ends_with",):
        return z3.SuffixOf(as_str(rv(0)), v)
    if name == "contains":
        return z3.Contains(v, as_str(rv(0)))
    if name == "compare" and len(vals) == 1:
        return z3.If(v == rv(0), iv(0), z3.If(v < rv(0), iv(-1), iv(1)))
    if name in ("reserve", "shrink_to_fit"):
        return None
    if name == "at":
        return subscript(ex, st, obj, rv(0))
    raise Unsupported("string::" + name)


def seq_method(ex, name, obj, v, vals, st, n):
    rv = lambda i: ex.rd(st, vals[i])
    lv = lvof(ex, st, obj)
    if name in ("size",):
        return simp(ex.seqlen(v))
    if name == "empty":
        return simp(ex.seqlen(v) == 0)
    if name in ("back", "front"):
        ln = ex.seqlen(v)
        if ex.safety:
            ex.oblige("sequence not empty for %s()" % name, st, ln > 0, "safety")
        if isinstance(v, CSeq) and not v.xs:
            st.kill()
            return ex.alloc(st, Poison("empty"))
        return lv + ("e", iv(0) if name == "front" else simp(ln - 1))
    if name in ("push_back", "emplace_back"):
        if name == "emplace_back":
            x = construct_values(ex, v.t, vals, st) if len(vals) != 1 else conv1(ex, st, vals[0], v.t)
        else:
            x = conv1(ex, st, vals[0], v.t)
        push_back(ex, st, lv, x)
        if name == "emplace_back":
            return lv + ("e", simp(ex.seqlen(ex.rd(st, lv)) - 1))
        return None
    if name == "pop_back":
        if isinstance(v, CSeq) and v.xs:
            ex.write(st, lv, CSeq(v.xs[:-1], v.t))
            return None
        if isinstance(v, Seq):
            ex.write(st, lv, Seq(simp(v.n - 1), v.e, v.t))
            return None
    if name == "clear":
        ex.write(st, lv, CSeq([], v.t))
        return None
    if name in ("reserve", "shrink_to_fit"):
        return None
    if name == "at":
        i = rv(0)
        from .exec import Exc
        c = simp(z3.Or(i < 0, i >= ex.seqlen(v)))
        if not z3.is_false(c):
            ex.throw(st, Exc("std::out_of_range", None), c)
        return lv + ("e", simp(i))
    if name == "resize":
        m = simp(rv(0))
        if isinstance(v, CSeq) and z3.is_int_value(m) and m.as_long() <= 256:
            k = m.as_long()
            xs = list(v.xs[:k])
            while len(xs) < k:
                xs.append(ex.coerce(rv(1), v.t) if len(vals) > 1 else default_elem(ex, v.t, st))
            ex.write(st, lv, CSeq(xs, v.t))
            return None
        if len(vals) == 1 or True:
            if len(vals) == 1 and isinstance(v, Seq) and v.t.k == "seq" and isinstance(v.e, Seq):
                # new elements are empty; what lies beyond a length is unspecified
                k = z3.Int(ex.fresh_name("k"))
                n0 = simp(v.n)
                if z3.is_int_value(n0) and n0.as_long() == 0:
                    ln = z3.K(I, iv(0))
                else:
                    ln = z3.Lambda([k], z3.If(k < v.n, z3.Select(v.e.n, k), iv(0)))
                ex.write(st, lv, Seq(m, Seq(ln, v.e.e, v.e.t), v.t))
                return None
            d = full_default(ex, v.t, st) if len(vals) == 1 else rv(1)
            sq = to_seq(v) if isinstance(v, CSeq) else v
            if sq is None:
                ex.write(st, lv, Seq(m, leafmap(lambda l: z3.K(I, l), d), v.t))
                return None
            k = z3.Int(ex.fresh_name("k"))
            e = leafmap(lambda l, x: z3.Lambda([k], z3.If(k < sq.n, z3.Select(l, k), x)), sq.e, d)
            ex.write(st, lv, Seq(m, e, v.t))
            return None
    if name == "erase":
        return seq_erase(ex, st, lv, v, [ex.rd(st, x) for x in vals])
    if name in ("insert", "emplace"):
        it = rv(0)
        if isinstance(it, It) and len(vals) == 2:
            x = conv1(ex, st, vals[1], v.t)
            return seq_insert(ex, st, lv, v, it, x)
        if isinstance(it, It) and name == "emplace":
            x = construct_values(ex, v.t, vals[1:], st)
            return seq_insert(ex, st, lv, v, it, x)
    if name == "swap":
        o = rv(0)
        ex.write(st, vals[0], v); ex.write(st, lv, o)
        return None
    if name in ("operator=", "assign") and len(vals) == 1:
        ex.write(st, lv, rv(0))
        return obj
    if name == "data":
        return It(lv, iv(0))
    raise Unsupported("vector::" + name)


def conv1(ex, st, raw, t):
    v = ex.rd(st, raw)
    if t.k == "record" and type(v) is Ptr and v.l is not None:
        return ex.read(st, v.l)      # a container of pointers is one of the values pointed at
    if t.k == "record" and not (isinstance(v, Rec) and v.t == t):
        return construct_values(ex, t, [raw], st)
    if t.k in ("string", "seq", "map", "set") and not isz(v) and type(v) is Opaque:
        raise Unsupported("element conversion")
    if t.k == "string" and isz(v):
        return as_str(v)
    return conv_elem(ex, v, t, st)


def seq_erase(ex, st, lv, v, a):
    first = a[0]
    i = simp(first.i)
    j = simp(a[1].i) if len(a) > 1 else simp(first.i + 1)
    if isinstance(v, CSeq) and z3.is_int_value(i) and z3.is_int_value(j):
        ex.write(st, lv, CSeq(v.xs[:i.as_long()] + v.xs[j.as_long():], v.t))
        return It(lv, i)
    sq = to_seq(v) if isinstance(v, CSeq) else v
    if ex.safety:
        ex.oblige("erase position within the sequence", st, z3.And(i >= 0, i <= j, j <= sq.n), "safety")
    cnt = simp(j - i)
    if z3.is_int_value(i) and i.as_long() == 0 and simp(j).eq(simp(sq.n)):
        ex.write(st, lv, CSeq([], v.t))
        return It(lv, iv(0))
    k = z3.Int(ex.fresh_name("k"))
    e = leafmap(lambda l: z3.Lambda([k], z3.If(k < i, z3.Select(l, k), z3.Select(l, k + cnt))), sq.e)
    ex.write(st, lv, Seq(simp(sq.n - cnt), e, v.t))
    return It(lv, i)


def seq_insert(ex, st, lv, v, it, x):
    i = simp(it.i)
    if isinstance(v, CSeq) and z3.is_int_value(i):
        xs = list(v.xs); xs.insert(i.as_long(), x)
        ex.write(st, lv, CSeq(xs, v.t))
        return It(lv, i)
    sq = to_seq(v) if isinstance(v, CSeq) else v
    x = ex.conform(x, ex.step_read(st, sq, ("e", iv(0))))
    k = z3.Int(ex.fresh_name("k"))
    e = leafmap(lambda l, y: z3.Lambda([k], z3.If(k < i, z3.Select(l, k), z3.If(k == i, y, z3.Select(l, k - 1)))), sq.e, x)
    ex.write(st, lv, Seq(simp(sq.n + 1), e, v.t))
    return It(lv, i)


def map_method(ex, name, obj, v, vals, st, n):
    from .exec import Exc
    rv = lambda i: ex.rd(st, vals[i])
    lv = lvof(ex, st, obj)
    if name == "find":
        return mfind(ex, st, lv, conv_key(ex, st, vals[0], v))
    if name in ("count", "contains"):
        r = mfind(ex, st, lv, conv_key(ex, st, vals[0], v))
        c = simp(z3.Not(r.end))
        return c if name == "contains" else z3.If(c, iv(1), iv(0))
    if name == "at":
        key = conv_key(ex, st, vals[0], v)
        r = mfind(ex, st, lv, key)
        if not z3.is_false(r.end):
            ex.throw(st, Exc("std::out_of_range", None), r.end)
        return lv + ("m", key)
    if name in ("emplace", "insert", "try_emplace", "insert_or_assign", "emplace_hint"):
        a = list(vals)
        if name == "emplace_hint" or (name == "insert" and len(a) == 2 and isinstance(ex.rd(st, a[0]), MIt) and not isinstance(ex.rd(st, a[1]), MIt)):
            a = a[1:]
        if name == "insert" and len(a) == 2 and isinstance(ex.rd(st, a[0]), MIt) and isinstance(ex.rd(st, a[1]), MIt):
            raise Unsupported("range insert into map")
        if v.vt is None:
            key, val = conv1(ex, st, a[0], v.kt), None
        elif len(a) == 1:
            p = ex.rd(st, a[0])
            if isinstance(p, CSeq):
                for x in p.xs:
                    minsert(ex, st, lv, x.f["t0"], x.f["t1"], False)
                return None
            key, val = p.f["t0"], p.f["t1"]
            key = ex.read(st, key.l) if isinstance(key, Ref) else key
            val = ex.read(st, val.l) if isinstance(val, Ref) else val
        else:
            key = conv1(ex, st, a[0], v.kt)
            val = conv1(ex, st, a[1], v.vt) if len(a) == 2 else construct_values(ex, v.vt, a[1:], st)
        if v.vt is not None and val is not None:
            val = conv_elem(ex, val, v.vt, st)
        ins = minsert(ex, st, lv, key, val, name == "insert_or_assign")
        if n is not None and ex.ty(n).k == "iter":
            return MIt(lv, key, F_)
        return Rec(Ty("tuple", [Ty("iter"), Ty("bool")]), {"t0": MIt(lv, key, F_), "t1": ins})
    if name == "empty":
        return mempty(ex, st, v)
    if name == "clear":
        ex.write(st, lv, CMap([], v.kt, v.vt, v.kind))
        return None
    if name == "erase":
        a = ex.rd(st, vals[0])
        if isinstance(a, MIt):
            merase(ex, st, lv, a.key)
            return Opaque("iterator after erase")
        merase(ex, st, lv, a)
        return iv(0)
    if name == "size":
        if isinstance(v, CMap):
            t = iv(0)
            for _, _, pr in v.d:
                t = t + z3.If(pr, iv(1), iv(0))
            return simp(t)
        return ex.map_size(v)
    if name in ("lower_bound", "upper_bound"):
        h = ex.libs.get("map:" + name)
        if h:
            return h(ex, st, lv, v, conv_key(ex, st, vals[0], v))
        return mbound(ex, st, lv, v, conv_key(ex, st, vals[0], v), name)
    if name in ("operator=", "swap") and name == "operator=":
        ex.write(st, lv, rv(0))
        return obj
    if name == "reserve":
        return None
    raise Unsupported("map::" + name)


def conv_key(ex, st, raw, cont):
    v = ex.rd(st, raw)
    if isinstance(v, CSeq) and cont.kt.k == "record":
        fs = ex.fields(cont.kt)
        return Rec(cont.kt, {nm: x for (nm, _), x in zip(fs, v.xs)})
    return v

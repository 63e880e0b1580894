"""Symbolic values: immutable trees over z3 leaves; lvalues; path-merging."""
import z3


class Unsupported(Exception):
    pass


class LVal:
    __slots__ = ("base", "path")

    def __init__(self, base, path=()):
        self.base = base; self.path = tuple(path)

    def __add__(self, step):
        return LVal(self.base, self.path + (step,))

    def __repr__(self):
        return "&%s%s" % (self.base, "".join("." + str(s[1] if len(s) > 1 else s[0]) for s in self.path))


class IteL:
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c = c; self.a = a; self.b = b

    def __add__(self, step):
        return IteL(self.c, self.a + step, self.b + step)


def same_lval(a, b):
    if a is b:
        return True
    if isinstance(a, LVal) and isinstance(b, LVal):
        if a.base != b.base or len(a.path) != len(b.path):
            return False
        for s, t in zip(a.path, b.path):
            if s[0] != t[0] or len(s) != len(t):
                return False
            for x, y in zip(s[1:], t[1:]):
                if z3.is_expr(x) or z3.is_expr(y):
                    if not (z3.is_expr(x) and z3.is_expr(y) and x.eq(y)):
                        return False
                elif isinstance(x, (Rec,)) or isinstance(y, Rec):
                    if not tree_eq_syn(x, y):
                        return False
                elif x != y:
                    return False
        return True
    return False


class Rec:
    __slots__ = ("t", "f")

    def __init__(self, t, f):
        self.t = t; self.f = f

    def with_(self, k, v):
        d = dict(self.f); d[k] = v
        return Rec(self.t, d)

    def __repr__(self):
        return "Rec(%s)" % self.f


class Opt:
    __slots__ = ("has", "v", "t")

    def __init__(self, has, v, t):
        self.has = has; self.v = v; self.t = t

    def __repr__(self):
        return "Opt(%s,%s)" % (self.has, self.v)


class Var:
    __slots__ = ("tag", "alts", "ts")

    def __init__(self, tag, alts, ts):
        self.tag = tag; self.alts = tuple(alts); self.ts = ts


class Seq:
    """sequence: length + element tree lifted over Int"""
    __slots__ = ("n", "e", "t")

    def __init__(self, n, e, t):
        self.n = n; self.e = e; self.t = t


class CSeq:
    """sequence of known length"""
    __slots__ = ("xs", "t")

    def __init__(self, xs, t):
        self.xs = tuple(xs); self.t = t


class Map:
    """finite map: domain array K->Bool, values lifted over K; kt is the key's z3 sort (keys are scalars or Recs packed)"""
    __slots__ = ("dom", "e", "kt", "vt", "kind", "card")

    def __init__(self, dom, e, kt, vt, kind, card=None):
        self.dom = dom; self.e = e; self.kt = kt; self.vt = vt; self.kind = kind; self.card = card


class CMap:
    """map with known literal keys: list of (key literal, value); each entry may be conditional (present Bool)"""
    __slots__ = ("d", "kt", "vt", "kind")

    def __init__(self, d, kt, vt, kind):
        self.d = d; self.kt = kt; self.vt = vt; self.kind = kind


class Ptr:
    """pointer/reference value: target lvalue or None (null)"""
    __slots__ = ("l", "null")

    def __init__(self, l, null=None):
        self.l = l
        self.null = null if null is not None else z3.BoolVal(l is None)


class Ref(Ptr):
    __slots__ = ()


class It:
    """iterator into a sequence/string: container lvalue + index"""
    __slots__ = ("c", "i", "rev")

    def __init__(self, c, i, rev=False):
        self.c = c; self.i = i; self.rev = rev


class MIt:
    """iterator into a map/set"""
    __slots__ = ("c", "key", "end")

    def __init__(self, c, key, end):
        self.c = c; self.key = key; self.end = end


class Clo:
    __slots__ = ("node", "env", "this", "tu")

    def __init__(self, node, env, this, tu):
        self.node = node; self.env = env; self.this = this; self.tu = tu


class FnV:
    __slots__ = ("decl",)

    def __init__(self, decl):
        self.decl = decl


class FnI(FnV):
    """function value chosen by a condition"""
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c = c; self.a = a; self.b = b; self.decl = None


class Opaque:
    __slots__ = ("t", "d")

    def __init__(self, t, d=None):
        self.t = t; self.d = d


class Poison:
    __slots__ = ("why",)

    def __init__(self, why):
        self.why = why


def isz(v):
    return isinstance(v, z3.ExprRef)


def leafmap(f, *vs):
    v = vs[0]
    if v is None:
        return None
    if isz(v):
        return f(*vs)
    if isinstance(v, Rec):
        return Rec(v.t, {k: leafmap(f, *[x.f[k] for x in vs]) for k in v.f})
    if isinstance(v, Opt):
        return Opt(f(*[x.has for x in vs]), None if any(x.v is None for x in vs) else leafmap(f, *[x.v for x in vs]), v.t)
    if isinstance(v, Var):
        return Var(f(*[x.tag for x in vs]), [None if any(a is None for a in al) else leafmap(f, *al) for al in zip(*[x.alts for x in vs])], v.ts)
    if isinstance(v, Seq):
        return Seq(f(*[x.n for x in vs]), leafmap(f, *[x.e for x in vs]), v.t)
    if isinstance(v, Map):
        return Map(f(*[x.dom for x in vs]), leafmap(f, *[x.e for x in vs]), v.kt, v.vt, v.kind)
    if isinstance(v, Opaque) and all(isinstance(x, Opaque) and isz(x.d) for x in vs):
        return Opaque(v.t, f(*[x.d for x in vs]))
    raise Unsupported("leafmap over " + type(v).__name__)


def tree_eq_syn(a, b):
    if a is b:
        return True
    if isz(a):
        return isz(b) and a.eq(b)
    if type(a) is not type(b):
        return False
    if type(a) is FnV:
        return a.decl["id"] == b.decl["id"] and a.decl.get("_tu") is b.decl.get("_tu")
    if isinstance(a, Rec):
        return a.f.keys() == b.f.keys() and all(tree_eq_syn(a.f[k], b.f[k]) for k in a.f)
    if isinstance(a, Opt):
        return a.has.eq(b.has) and tree_eq_syn(a.v, b.v)
    if isinstance(a, Var):
        return a.tag.eq(b.tag) and all(tree_eq_syn(x, y) for x, y in zip(a.alts, b.alts))
    if isinstance(a, Seq):
        return a.n.eq(b.n) and tree_eq_syn(a.e, b.e)
    if isinstance(a, CSeq):
        return len(a.xs) == len(b.xs) and all(tree_eq_syn(x, y) for x, y in zip(a.xs, b.xs))
    if isinstance(a, Map):
        return a.dom.eq(b.dom) and tree_eq_syn(a.e, b.e)
    if isinstance(a, CMap):
        return len(a.d) == len(b.d) and all(tree_eq_syn(x[0], y[0]) and tree_eq_syn(x[1], y[1]) and x[2].eq(y[2]) for x, y in zip(a.d, b.d))
    if isinstance(a, Ptr):
        return (a.l is b.l or (a.l is not None and b.l is not None and same_lval(a.l, b.l))) and a.null.eq(b.null)
    if isinstance(a, It):
        return same_lval(a.c, b.c) and a.i.eq(b.i)
    if isinstance(a, MIt):
        return (a.c is b.c or same_lval(a.c, b.c)) and tree_eq_syn(a.key, b.key) and a.end.eq(b.end)
    if isinstance(a, Opaque):
        return a.d is not None and isz(a.d) and isz(b.d) and a.d.eq(b.d)
    return False


def ite(c, a, b):
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a.eq(b):
        return a
    if a.sort() != b.sort():
        if z3.is_int(a) and z3.is_real(b):
            a = z3.ToReal(a)
        elif z3.is_real(a) and z3.is_int(b):
            b = z3.ToReal(b)
    return z3.If(c, a, b)


def cmap_like(cm, m):
    """literal map in the shape of the abstract map m (values at absent keys are unspecified, hence m's)"""
    ks = m.dom.sort().domain()
    dom, e = z3.K(ks, z3.BoolVal(False)), m.e
    for k, v, pr in cm.d:
        if isinstance(k, Rec):
            k = ks.constructor(0)(*[k.f[n] for n in k.f])
        dom = z3.If(pr, z3.Store(dom, k, z3.BoolVal(True)), dom)
        if e is not None:
            e = leafmap(lambda a, x: z3.Store(a, k, x), e, v)
    return Map(dom, e, m.kt, m.vt, m.kind)


def merge(c, a, b):
    """value that is a when c else b"""
    if a is b:
        return a
    if a is None:
        return b
    if b is None:
        return a
    if isinstance(a, Poison) or isinstance(b, Poison):
        return Poison("merge with poison")
    if isz(a) and isz(b):
        if a.sort() != b.sort() and not (z3.is_arith(a) and z3.is_arith(b)):
            return Poison("merge of different sorts")
        return ite(c, a, b)
    if tree_eq_syn(a, b):
        return a
    if isinstance(a, CMap) and isinstance(b, Map):
        a = cmap_like(a, b)
    if isinstance(b, CMap) and isinstance(a, Map):
        b = cmap_like(b, a)
    if isinstance(a, CSeq) and isinstance(b, Seq):
        a = to_seq(a) if a.xs else Seq(z3.IntVal(0), b.e, b.t)
        if a is None:
            return Poison("cseq/seq")
    if isinstance(b, CSeq) and isinstance(a, Seq):
        b = to_seq(b) if b.xs else Seq(z3.IntVal(0), a.e, a.t)
        if b is None:
            return Poison("cseq/seq")
    if isinstance(a, FnV) and isinstance(b, FnV):
        return FnI(c, a, b)
    if isinstance(a, Ref) and not isinstance(b, Ref) or isinstance(b, Ref) and not isinstance(a, Ref):
        return Poison("ref/nonref")
    if type(a) is not type(b):
        return Poison("merge of %s and %s" % (type(a).__name__, type(b).__name__))
    if isinstance(a, Rec):
        if a.f.keys() != b.f.keys():
            return Poison("record shapes")
        return Rec(a.t, {k: merge(c, a.f[k], b.f[k]) for k in a.f})
    if isinstance(a, Opt):
        return Opt(ite(c, a.has, b.has), merge(c, a.v, b.v), a.t)
    if isinstance(a, Var):
        return Var(ite(c, a.tag, b.tag), [merge(c, x, y) for x, y in zip(a.alts, b.alts)], a.ts)
    if isinstance(a, Seq):
        return Seq(ite(c, a.n, b.n), merge(c, a.e, b.e), a.t)
    if isinstance(a, CSeq):
        if len(a.xs) == len(b.xs):
            return CSeq([merge(c, x, y) for x, y in zip(a.xs, b.xs)], a.t)
        a2, b2 = to_seq(a), to_seq(b)
        if a2 is None and b2 is not None and not a.xs:
            a2 = Seq(z3.IntVal(0), b2.e, b2.t)
        if b2 is None and a2 is not None and not b.xs:
            b2 = Seq(z3.IntVal(0), a2.e, a2.t)
        if a2 is None or b2 is None:
            return Poison("cseq lengths")
        return merge(c, a2, b2)
    if isinstance(a, Map):
        return Map(ite(c, a.dom, b.dom), merge(c, a.e, b.e), a.kt, a.vt, a.kind)
    if isinstance(a, CMap):
        if len(a.d) == len(b.d) and all(tree_eq_syn(x[0], y[0]) for x, y in zip(a.d, b.d)):
            return CMap([(x[0], merge(c, x[1], y[1]), ite(c, x[2], y[2])) for x, y in zip(a.d, b.d)], a.kt, a.vt, a.kind)
        out = [list(x[:2]) + [z3.And(c, x[2])] for x in a.d]
        for y in b.d:
            for o in out:
                if tree_eq_syn(o[0], y[0]):
                    o[1] = merge(c, o[1], y[1]); o[2] = z3.Or(o[2], z3.And(z3.Not(c), y[2]))
                    break
            else:
                out.append([y[0], y[1], z3.And(z3.Not(c), y[2])])
        return CMap([tuple(o) for o in out], a.kt, a.vt, a.kind)
    if isinstance(a, Ptr):
        cls = type(a)
        if a.l is None:
            return cls(b.l, ite(c, a.null, b.null))
        if b.l is None:
            return cls(a.l, ite(c, a.null, b.null))
        if same_lval(a.l, b.l):
            return cls(a.l, ite(c, a.null, b.null))
        return cls(IteL(c, a.l, b.l), ite(c, a.null, b.null))
    if isinstance(a, It):
        if same_lval(a.c, b.c) and a.rev == b.rev:
            return It(a.c, ite(c, a.i, b.i), a.rev)
        return Poison("iterators into different containers")
    if isinstance(a, MIt):
        cc = a.c if b.c is None or (a.c is not None and same_lval(a.c, b.c)) else (b.c if a.c is None else IteL(c, a.c, b.c))
        k = a.key if b.key is None else b.key if a.key is None else merge(c, a.key, b.key)
        return MIt(cc, k, ite(c, a.end, b.end))
    if isinstance(a, Opaque):
        if isz(a.d) and isz(b.d) and a.d.sort() == b.d.sort():
            return Opaque(a.t, ite(c, a.d, b.d))
        return Poison("opaque " + str(a.t))
    return Poison("merge " + type(a).__name__)


def to_seq(cs):
    """CSeq -> Seq (needs at least one element whose tree gives the leaf sorts)"""
    if not cs.xs:
        return None
    I = z3.IntSort()
    try:
        e = leafmap(lambda l: z3.K(I, l), cs.xs[0])
        for i, x in enumerate(cs.xs):
            e = leafmap(lambda a, v: z3.Store(a, z3.IntVal(i), v), e, x)
    except (Unsupported, KeyError, AttributeError, z3.Z3Exception):
        return None
    return Seq(z3.IntVal(len(cs.xs)), e, cs.t)


def veq(a, b):
    """Bool: values equal (structural)"""
    if isz(a) and isz(b):
        if a.sort() == b.sort():
            return a == b
        if z3.is_arith(a) and z3.is_arith(b):
            return a == b
        raise Unsupported("eq of sorts %s %s" % (a.sort(), b.sort()))
    if isinstance(a, Rec) and isinstance(b, Rec):
        return z3.And([veq(a.f[k], b.f[k]) for k in a.f] or [z3.BoolVal(True)])
    if isinstance(a, Opt) and isinstance(b, Opt):
        if a.v is None or b.v is None:
            return z3.And(a.has == b.has, z3.Not(a.has)) if (a.v is None and b.v is None) else z3.And(z3.Not(a.has), z3.Not(b.has)) 
        return z3.And(a.has == b.has, z3.Implies(a.has, veq(a.v, b.v)))
    if isinstance(a, Var) and isinstance(b, Var):
        out = [a.tag == b.tag]
        for i, (x, y) in enumerate(zip(a.alts, b.alts)):
            if x is None or y is None:
                if not (x is None and y is None):
                    out.append(a.tag != i)
                continue
            out.append(z3.Implies(a.tag == i, veq(x, y)))
        return z3.And(out)
    if isinstance(a, CSeq) and isinstance(b, CSeq):
        if len(a.xs) != len(b.xs):
            return z3.BoolVal(False)
        return z3.And([veq(x, y) for x, y in zip(a.xs, b.xs)] or [z3.BoolVal(True)])
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.l is None:
            return b.null
        if b.l is None:
            return a.null
        if same_lval(a.l, b.l):
            return a.null == b.null
        raise Unsupported("pointer comparison")
    if isinstance(a, It) and isinstance(b, It):
        return a.i == b.i
    if isinstance(a, MIt) and isinstance(b, MIt):
        k = z3.BoolVal(True)
        if a.key is not None and b.key is not None:
            k = veq(a.key, b.key)
        elif a.key is None and b.key is None:
            k = z3.BoolVal(True)
        return z3.Or(z3.And(a.end, b.end), z3.And(z3.Not(a.end), z3.Not(b.end), k))
    raise Unsupported("veq of %s and %s" % (type(a).__name__, type(b).__name__))

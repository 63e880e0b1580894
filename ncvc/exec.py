"""Symbolic executor / VC generator over Clang's AST of the real sources."""
import itertools, os, re, time
import z3
from .values import *
from .types import Types, Ty
from . import frontend

T, F_ = z3.BoolVal(True), z3.BoolVal(False)
I, B, R, S = z3.IntSort(), z3.BoolSort(), z3.RealSort(), z3.StringSort()
NPOS = z3.IntVal(2 ** 64 - 1)


def iv(x):
    return z3.IntVal(x)


def sv(x):
    return z3.StringVal(x)


def simp(e):
    return z3.simplify(e)


class State:
    __slots__ = ("pc", "mem", "dead")

    def __init__(self, pc=None, mem=None):
        self.pc = pc if pc is not None else []
        self.mem = mem if mem is not None else {}
        self.dead = False

    def copy(self):
        s = State(list(self.pc), dict(self.mem)); s.dead = self.dead
        return s

    def assume(self, c):
        c = simp(c) if z3.is_expr(c) else c
        if z3.is_true(c):
            return
        if z3.is_false(c):
            self.dead = True
        self.pc.append(c)

    def kill(self):
        self.dead = True

    def become(self, o):
        self.pc, self.mem, self.dead = o.pc, o.mem, o.dead

    def cond(self, base=0):
        return z3.And(self.pc[base:]) if len(self.pc) > base else T


class Frame:
    def __init__(self, decl, tu, this, env):
        self.decl = decl; self.tu = tu; self.this = this; self.env = env
        self.rets = []; self.brks = []; self.conts = []
        self.dtors = []     # (local, destructor, number of exceptions when declared)


class Exc:
    def __init__(self, ty, val, what=None):
        self.ty = ty; self.val = val; self.what = what

    def __repr__(self):
        return "Exc(%s)" % self.ty


STD_EXC = {"std::out_of_range": "std::logic_error", "std::invalid_argument": "std::logic_error", "std::domain_error": "std::logic_error", "std::length_error": "std::logic_error",
           "std::logic_error": "std::exception", "std::runtime_error": "std::exception", "std::bad_alloc": "std::exception", "std::overflow_error": "std::runtime_error",
           "boost::bad_get": "std::exception", "std::bad_cast": "std::exception", "std::bad_optional_access": "std::exception"}


class Obl:
    __slots__ = ("name", "kind", "pc", "goal", "line", "result", "time", "model", "backend", "naxioms", "fn")

    def __init__(self, name, kind, pc, goal, line, fn):
        self.name = name; self.kind = kind; self.pc = pc; self.goal = goal; self.line = line; self.fn = fn
        self.result = None; self.time = 0; self.model = None; self.backend = None


def trie_merge(items, mergev, depth):
    """items: list of (pc list, payload) -> (cond, payload); conditions relative to depth"""
    if len(items) == 1:
        pc, p = items[0]
        return (z3.And(pc[depth:]) if len(pc) > depth else T), p, list(pc[depth:])
    done = [x for x in items if len(x[0]) == depth]
    if done:
        # one path's pc is a prefix of another's: payloads cannot both be live
        pc, p = done[0]
        rest = [x for x in items if x is not done[0]]
        c2, p2, _ = trie_merge(rest, mergev, depth)
        return T, mergev(c2, p2, p), []
    first = items[0][0][depth]
    g1 = [x for x in items if x[0][depth].eq(first)]
    g2 = [x for x in items if not x[0][depth].eq(first)]
    c1, p1, l1 = trie_merge(g1, mergev, depth + 1)
    if not g2:
        return z3.And(first, c1), p1, [first] + l1
    neg = z3.Not(first) if not z3.is_not(first) else first.arg(0)
    if all(x[0][depth].eq(neg) for x in g2):
        c2, p2, l2 = trie_merge(g2, mergev, depth + 1)
        out = []
        if not z3.is_true(c1):
            out.append(z3.Implies(first, c1))
        if not z3.is_true(c2):
            out.append(z3.Implies(neg, c2))
        return (z3.And(out) if out else T), mergev(first, p1, p2), out
    c2, p2, l2 = trie_merge(g2, mergev, depth)
    f = z3.And(first, c1)
    return z3.Or(f, c2), mergev(f, p1, p2), [z3.Or(f, c2)]


def store(a, i, x):
    """a with x at i; a itself when that changes nothing"""
    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SELECT and x.num_args() == 2 and x.arg(0).eq(a) and x.arg(1).eq(i):
        return a
    if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE and a.arg(1).eq(i) and a.arg(2).eq(x):
        return a
    return z3.Store(a, i, x)


class Exec:
    def __init__(self, tus, opts=None):
        self.tus = tus
        self.types = {t.uid: Types(t) for t in tus}
        for t in self.types.values():
            t.others = list(self.types.values())
        self.obls = []
        self.axioms = []
        self.throws = [[]]
        self.cnt = itertools.count()
        self.loccnt = itertools.count(1)
        self.contracts = {}      # qualified-name suffix -> handler(ex, st, fr, this, args, node)
        self.libs = {}
        self.globals = {}        # decl id -> loc
        self.gmem = {}
        self.uf = {}
        self.depth = 0
        self.suppress = 0
        self.rec_visitor = None     # contract of visiting a recursive sub-term (structural induction hypothesis)
        self.loop_specs = []     # callables(loopinfo) -> LoopSpec
        self.inlined = {}        # functions of /repo symbolically executed (name -> count)
        self.lib_used = {}
        self.safety = True
        self.fnstack = []
        self.curline = 0
        self.excobj = {}
        self.notes = []
        self.opts = opts or {}
        self.quick = z3.Solver(); self.quick.set("timeout", 300)
        self.taint = set()
        self.houdini_log = []
        self.mapfinds = []
        self.rangefinds = []
        self.find_hooks = []
        self.bounds_seen = []
        self.index_instances = []
        self.keys = {}
        self.ghosts = []
        self.bounds = []
        self.elem_specs = []
        self.abst = None
        self.spec_cands = {"ghost"}
        self.hd_unknown = []
        self.loop_invs = []
        self.its = []
        self.loops_seen = 0
        self.probing = 0
        self.loop_frames = []      # frames of the loops being verified, outermost first
        self.it_hooks = []
        self.mapkeys = []
        self.all_its = []
        self.extra_keys = {}
        from . import lib
        lib.install(self)
        self.libs.update({"bit:" + o: lib.bitop(o) for o in ("&", "|", "^", "<<", ">>")})

    # ---------- utilities
    def fresh_name(self, p):
        return "%s!%d" % (p, next(self.cnt))

    def ufn(self, name, *sorts):
        k = (name,) + tuple(str(s) for s in sorts)
        if k not in self.uf:
            self.uf[k] = z3.Function(name, *sorts)
        return self.uf[k]

    def ty(self, n):
        return self.types[n["_tu"].uid].of_node(n)

    def parse_ty(self, s, tu=None):
        return self.types[(tu or self.tus[0]).uid].parse(s)

    def axiom(self, a):
        if not self.suppress or self.suppress == 0:
            self.axioms.append(a)
        else:
            self.axioms.append(a)

    def oblige(self, name, st, goal, kind="post", node=None):
        if self.suppress:
            return
        goal = simp(goal)
        if z3.is_true(goal) and kind in ("safety", "arith"):
            return
        if st.dead:
            return
        self.obls.append(Obl(name, kind, list(st.pc), goal, self.curline, self.fnstack[-1] if self.fnstack else ""))

    def leaf_range(self, t, term):
        if t.k == "int":
            bits, sg = t.n
            lo, hi = (-(2 ** (bits - 1)), 2 ** (bits - 1) - 1) if sg else (0, 2 ** bits - 1)
            return z3.And(term >= iv(lo), term <= iv(hi))
        if t.k == "char":
            return z3.And(term >= iv(0), term <= iv(127))
        if t.k == "enum":
            vals = self.enum_vals(t)
            if vals:
                return z3.And(term >= iv(min(vals)), term <= iv(max(vals)))
        return None

    def enum_vals(self, t):
        for tu in self.tus:
            if t.n in tu.enums:
                return list(tu.enums[t.n].values())
        return []

    def sort_of(self, t):
        if t.k in ("int", "char", "enum"):
            return I
        if t.k == "bool":
            return B
        if t.k == "real":
            return R
        if t.k == "string" or (t.k == "ptr" and t.a[0].k == "char") or (t.k == "arr" and t.a[0].k == "char"):
            return S
        return None

    def key_sort(self, t):
        s = self.sort_of(t)
        if s is not None:
            return s
        if t.k == "record" or t.k == "tuple":
            fs = self.fields(t)
            return self.tuple_sort(t, fs)
        raise Unsupported("map key type %r" % t)

    def tuple_sort(self, t, fs):
        k = "Key_" + "_".join(n for n, _ in fs) + "_" + (t.n or "").split("::")[-1]
        if ("dt", k) not in self.uf:
            ss = [(n, self.sort_of(ft)) for n, ft in fs]
            if any(s is None for _, s in ss):
                raise Unsupported("compound key with non scalar field")
            dt = z3.Datatype(k)
            dt.declare("mk_" + k, *[(k + "." + n, s) for n, s in ss])
            self.uf[("dt", k)] = dt.create()
        return self.uf[("dt", k)]

    def pack_key(self, v, t):
        if isz(v):
            return v
        if isinstance(v, Rec):
            fs = self.fields(t)
            dt = self.tuple_sort(t, fs)
            return dt.constructor(0)(*[v.f[n] for n, _ in fs])
        raise Unsupported("pack key")

    def unpack_key(self, term, t):
        if t.k in ("record", "tuple"):
            fs = self.fields(t)
            dt = self.tuple_sort(t, fs)
            return Rec(t, {n: dt.accessor(0, i)(term) for i, (n, _) in enumerate(fs)})
        return term

    def key_used(self, cont, kk):
        """remember a key at which an abstract map is inspected (instances for find_if facts)"""
        self.keys.setdefault(str(self.key_sort(cont.kt)), []).append(kk)

    def key_insts(self, ks):
        return list({k.get_id(): k for k in self.keys.get(str(ks), []) + self.extra_keys.get(str(ks), [])}.values())

    def relevant(self, seeds):
        """axioms connected (by shared uninterpreted symbols) to the seed formulas"""
        return relevant(self.axioms, seeds)

    def map_keys_of_interest(self, cont):
        return list({k.get_id(): k for k in self.keys.get(str(self.key_sort(cont.kt)), [])}.values())

    def map_size(self, m):
        f = self.ufn("card_" + str(m.dom.sort()), m.dom.sort(), I)
        n = f(m.dom)
        self.axiom(z3.And(n >= 0, n < iv(2 ** 31)))
        self.axiom((n == 0) == (m.dom == z3.K(m.dom.sort().domain(), F_)))
        return n

    def fields(self, t):
        if t.k == "tuple":
            return [("t%d" % i, a) for i, a in enumerate(t.a)]
        d, tu = self.record(t.n)
        out = []
        for b in d.get("bases", []):
            bt = self.types[tu.uid].parse(b["type"].get("desugaredQualType") or b["type"]["qualType"])
            if bt.k == "record":
                out += self.fields(bt)
        for c in d.get("inner", []):
            if c.get("kind") == "FieldDecl":
                ty = c.get("type", {})
                out.append((c.get("name", ""), self.types[tu.uid].parse(ty.get("desugaredQualType") or ty.get("qualType"))))
        return out

    def record(self, qn):
        for tu in self.tus:
            if qn in tu.records:
                return tu.records[qn], tu
        raise Unsupported("record " + str(qn))

    def fresh(self, t, name="v", wrap=None, ranges=True, seqmin=True):
        """fresh symbolic value of type t"""
        w = wrap or (lambda s: s)

        def leaf(sort, nm):
            return z3.Const(self.fresh_name(nm), w(sort))
        s = self.sort_of(t)
        if s is not None:
            x = leaf(s, name)
            if wrap is None and ranges:
                r = self.leaf_range(t, x)
                if r is not None:
                    self.axiom(r)
            return x
        if t.k == "opt":
            return Opt(leaf(B, name + ".has"), self.fresh(t.a[0], name + ".val", wrap), t.a[0])
        if t.k == "variant":
            tag = leaf(I, name + ".tag")
            if wrap is None:
                self.axiom(z3.And(tag >= 0, tag < len(t.a)))
            return Var(tag, [self.fresh(a, name + ".alt%d" % i, wrap) for i, a in enumerate(t.a)], t.a)
        if t.k in ("record", "tuple"):
            return Rec(t, {n: self.fresh(ft, name + "." + n, wrap) for n, ft in self.fields(t)})
        if t.k == "seq":
            n = leaf(I, name + ".len")
            if wrap is None:
                self.axiom(z3.And(n >= 0, n < iv(2 ** 31)))
            return Seq(n, self.fresh(t.a[0], name + ".elem", lambda so: w(z3.ArraySort(I, so))), t.a[0])
        if t.k in ("map", "set"):
            ks = self.key_sort(t.a[0])
            d = leaf(z3.ArraySort(ks, B), name + ".dom")
            e = self.fresh(t.a[1], name + ".val", lambda so: w(z3.ArraySort(ks, so))) if t.k == "map" else None
            return Map(d, e, t.a[0], t.a[1] if t.k == "map" else None, t.n)
        if t.k == "opaque":
            return Opaque(t.n, z3.Const(self.fresh_name(name), w(z3.DeclareSort("Opaque"))))
        if t.k == "ptr":
            return Poison("pointer of unknown target")
        raise Unsupported("fresh value of type %r" % t)

    def default(self, t, n=None):
        """value-initialised"""
        if t.k in ("int", "char", "enum"):
            return iv(0)
        if t.k == "bool":
            return F_
        if t.k == "real":
            return z3.RealVal(0)
        if t.k == "string":
            return sv("")
        if t.k == "opt":
            return Opt(F_, None, t.a[0])
        if t.k == "seq":
            return CSeq([], t.a[0])
        if t.k in ("map", "set"):
            return CMap([], t.a[0], t.a[1] if t.k == "map" else None, t.n)
        if t.k == "tuple":
            return Rec(t, {n: self.default(ft) for n, ft in self.fields(t)})
        if t.k == "variant":
            return Var(iv(0), [self.default(t.a[0])] + [None] * (len(t.a) - 1), t.a)
        if t.k in ("ptr", "fn"):
            return Ptr(None)
        if t.k == "iter":
            return MIt(None, None, T)
        if t.k == "opaque":
            return self.lib_default(t)
        raise Unsupported("default of %r" % t)

    def lib_default(self, t):
        h = self.libs.get("default:" + t.n.split("<")[0].split("::")[-1])
        if h:
            return h(self, t)
        return Opaque(t.n, None)

    def alloc(self, st, v, hint=""):
        l = next(self.loccnt)
        st.mem[l] = v
        return LVal(l)

    # ---------- memory
    def step_read(self, st, v, s, lv=None):
        k = s[0]
        if isinstance(v, Poison):
            raise Unsupported("read of poison: " + v.why)
        if k == "f":
            if isinstance(v, Rec):
                if s[1] not in v.f:
                    raise Unsupported("no field %s" % s[1])
                return v.f[s[1]]
            raise Unsupported("field %s of %s" % (s[1], type(v).__name__))
        if k == "o":
            if isinstance(v, Opt):
                if v.v is None:
                    return self.fresh(v.t, "none")
                return v.v
            raise Unsupported("optional payload of " + type(v).__name__)
        if k == "a":
            if isinstance(v, Var):
                if v.alts[s[1]] is None:
                    return self.fresh(v.ts[s[1]], "alt")
                return v.alts[s[1]]
            raise Unsupported("variant alternative of " + type(v).__name__)
        if k == "e":
            if isinstance(v, Seq):
                return leafmap(lambda l: simp_sel(l, s[1]), v.e)
            if isinstance(v, CSeq):
                i = simp(s[1])
                if z3.is_int_value(i):
                    j = i.as_long()
                    if 0 <= j < len(v.xs):
                        return v.xs[j]
                    raise Unsupported("constant index out of range")
                if not v.xs:
                    return self.fresh(v.t, "oob")
                r = v.xs[-1]
                for j in range(len(v.xs) - 2, -1, -1):
                    r = merge(s[1] == j, v.xs[j], r)
                return r
            raise Unsupported("element of " + type(v).__name__)
        if k == "c":
            return z3.StrToCode(z3.SubString(v, s[1], iv(1)))
        if k == "m":
            key = s[1]
            if isinstance(v, Map):
                kk = self.pack_key(key, v.kt)
                return leafmap(lambda l: simp_sel(l, kk), v.e)
            if isinstance(v, CMap):
                r = None
                for kx, vx, pr in reversed(v.d):
                    c = simp(veq(kx, key))
                    if z3.is_false(c):
                        continue
                    if z3.is_true(c):
                        r = vx
                    else:
                        r = vx if r is None else merge(c, vx, r)
                if r is None:
                    return self.fresh(v.vt, "nokey")
                return r
            raise Unsupported("map value of " + type(v).__name__)
        if k == "key":
            return s[1]
        raise Unsupported("step " + k)

    def read(self, st, l):
        if isinstance(l, IteL):
            a = self.read(st, l.a); b = self.read(st, l.b)
            return merge(l.c, a, b)
        if not isinstance(l, LVal):
            return l
        if l.base not in st.mem:
            if l.base in self.gmem:
                v = self.gmem[l.base]
            else:
                raise Unsupported("dangling location")
        else:
            v = st.mem[l.base]
        for i, s in enumerate(l.path):
            if isinstance(v, Ref):
                tgt = v.l
                for s2 in l.path[i:]:
                    tgt = tgt + s2
                return self.read(st, tgt)
            v = self.step_read(st, v, s)
        if isinstance(v, Ref):
            return self.read(st, v.l)
        return v

    def write(self, st, l, v, guard=None):
        if isinstance(l, IteL):
            ca = l.c if guard is None else z3.And(guard, l.c)
            cb = z3.Not(l.c) if guard is None else z3.And(guard, z3.Not(l.c))
            self.write(st, l.a, v, ca)
            self.write(st, l.b, v, cb)
            return
        if guard is not None:
            v = merge(guard, v, self.read(st, l))
        if l.base not in st.mem:
            raise Unsupported("write to non-local location")
        root = st.mem[l.base]
        r = self._upd(st, root, l.path, v)
        if r is not None:
            st.mem[l.base] = r

    def _upd(self, st, cur, path, v):
        if isinstance(cur, Ref):
            tgt = cur.l
            for s2 in path:
                tgt = tgt + s2
            self.write(st, tgt, v)
            return None
        if not path:
            return v
        s = path[0]
        k = s[0]
        if k == "f":
            if not isinstance(cur, Rec):
                raise Unsupported("write field of " + type(cur).__name__)
            r = self._upd(st, cur.f[s[1]], path[1:], v)
            return None if r is None else cur.with_(s[1], r)
        if k == "o":
            inner = cur.v if cur.v is not None else self.fresh(cur.t, "none")
            r = self._upd(st, inner, path[1:], v)
            return None if r is None else Opt(cur.has, r, cur.t)
        if k == "a":
            inner = cur.alts[s[1]] if cur.alts[s[1]] is not None else self.fresh(cur.ts[s[1]], "alt")
            r = self._upd(st, inner, path[1:], v)
            if r is None:
                return None
            al = list(cur.alts); al[s[1]] = r
            return Var(cur.tag, al, cur.ts)
        if k == "e":
            if isinstance(cur, CSeq):
                i = simp(s[1])
                if z3.is_int_value(i):
                    xs = list(cur.xs)
                    r = self._upd(st, xs[i.as_long()], path[1:], v)
                    if r is None:
                        return None
                    xs[i.as_long()] = r
                    return CSeq(xs, cur.t)
                xs = []
                for j, x in enumerate(cur.xs):
                    r = self._upd(st, x, path[1:], v)
                    xs.append(merge(s[1] == j, r, x))
                return CSeq(xs, cur.t)
            inner = self.step_read(st, cur, s)
            r = self._upd(st, inner, path[1:], v)
            if r is None:
                return None
            return Seq(cur.n, leafmap(lambda a, x: store(a, s[1], x), cur.e, self.conform(r, inner)), cur.t)
        if k == "c":
            ch = z3.StrFromCode(v)
            return z3.Concat(z3.SubString(cur, iv(0), s[1]), ch, z3.SubString(cur, s[1] + 1, z3.Length(cur) - s[1] - 1))
        if k == "m":
            inner = self.step_read(st, cur, s)
            r = self._upd(st, inner, path[1:], v)
            if r is None:
                return None
            if isinstance(r, Ptr) and isinstance(inner, Rec):
                r = self.read(st, r.l)
            if isinstance(cur, CMap):
                return CMap([(kx, merge(simp(veq(kx, s[1])), r, vx), pr) for kx, vx, pr in cur.d], cur.kt, cur.vt, cur.kind)
            kk = self.pack_key(s[1], cur.kt)
            return Map(cur.dom, leafmap(lambda a, x: store(a, kk, x), cur.e, self.conform(r, inner)), cur.kt, cur.vt, cur.kind)
        raise Unsupported("write step " + k)

    def conform(self, v, like):
        """make tree v have the same shape as like (fill missing payloads)"""
        if v is None:
            return like
        if isz(v):
            return v
        if isinstance(v, Opt):
            return Opt(v.has, self.conform(v.v, like.v), v.t)
        if isinstance(v, Rec):
            return Rec(v.t, {k: self.conform(v.f[k], like.f[k]) for k in v.f})
        if isinstance(v, Var):
            return Var(v.tag, [self.conform(a, b) for a, b in zip(v.alts, like.alts)], v.ts)
        if isinstance(v, CSeq) and isinstance(like, Seq):
            s = to_seq(v)
            return s if s is not None else Seq(iv(0), like.e, v.t)
        if isinstance(v, CMap) and isinstance(like, Map):
            return self.to_map(v)
        return v

    def to_map(self, cm, like=None):
        ks = self.key_sort(cm.kt)
        dom = z3.K(ks, F_)
        e = self.fresh(cm.vt, "m", lambda so: z3.ArraySort(ks, so)) if cm.vt is not None else None
        for k, v, pr in cm.d:
            kk = self.pack_key(k, cm.kt)
            dom = ite(pr, z3.Store(dom, kk, T), dom)
            if e is not None:
                e = leafmap(lambda a, x: z3.Store(a, kk, x), e, v)
        return Map(dom, e, cm.kt, cm.vt, cm.kind)

    # ---------- throw / merge
    def throw(self, st, exc, cond=None):
        s2 = st.copy()
        if cond is not None:
            s2.assume(cond)
        if not s2.dead:
            self.throws[-1].append((s2, exc))
        if cond is None:
            st.kill()
        else:
            st.assume(z3.Not(cond))

    def merge_states(self, states, base, payloads=None):
        """states: list of live State; returns merged state, payload"""
        live = [(s, (payloads[i] if payloads else None)) for i, s in enumerate(states) if not s.dead]
        if not live:
            s = State(); s.dead = True
            return s, None
        if len(live) == 1:
            return live[0][0], live[0][1]
        prefix = live[0][0].pc[:base]

        def mv(c, a, b):
            ma, pa = a
            mb, pb = b
            out = dict(mb)
            for l, v in ma.items():
                if l in mb:
                    o = mb[l]
                    if o is not v:
                        out[l] = merge(c, v, o)
                else:
                    out[l] = v
            return out, self.merge_payload(c, pa, pb)
        c, (mem, pay), lits = trie_merge([(s.pc, (s.mem, p)) for s, p in live], mv, base)
        ns = State(list(prefix) + [x for x in lits if not z3.is_true(x)], mem)
        return ns, pay

    def merge_payload(self, c, a, b):
        if a is None:
            return b
        if b is None:
            return a
        if isinstance(a, (LVal, IteL)) and isinstance(b, (LVal, IteL)):
            if same_lval(a, b):
                return a
            return IteL(c, a, b)
        if isinstance(a, (LVal, IteL)) or isinstance(b, (LVal, IteL)):
            raise Unsupported("merge lvalue with value")
        return merge(c, a, b)

    def branch(self, st, c, f1, f2):
        """evaluate f1(st1) under c and f2(st2) under not c, merge; returns merged payload"""
        c = simp(c)
        if z3.is_true(c):
            return f1(st)
        if z3.is_false(c):
            return f2(st)
        base = len(st.pc)
        s1, s2 = st.copy(), st.copy()
        s1.assume(c); s2.assume(z3.Not(c))
        p1 = f1(s1)
        p2 = f2(s2)
        m, p = self.merge_states([s1, s2], base, [p1, p2])
        st.become(m)
        return p

    # ---------- calls
    def call_fn(self, decl, this, args, st, node=None, ctor_of=None):
        tu = decl["_tu"]
        decl = tu.canon_fn.get(decl.get("id"), decl)
        tu = decl["_tu"]
        qn = decl.get("_qn", "")
        for suf, h in self.contracts.items():
            if qn == suf or qn.endswith("::" + suf):
                return h(self, st, this, args, decl)
        body = tu.body(decl)
        if body is None and decl["kind"] != "CXXConstructorDecl":
            d2 = self.find_def(decl)
            if d2 is None:
                raise Unsupported("no body for " + qn)
            decl = d2; tu = decl["_tu"]; body = tu.body(decl)
        if self.depth > 40:
            raise Unsupported("call depth in " + qn)
        params = tu.params(decl)
        env = {}
        for i, p in enumerate(params):
            pt = self.ty(p)
            if i < len(args):
                a = args[i]
                if a is None:
                    a = self.default_arg(p, st)
                if pt.k == "ref":
                    if isinstance(a, (LVal, IteL)):
                        env[p["id"]] = a
                    else:
                        env[p["id"]] = self.alloc(st, a)
                else:
                    env[p["id"]] = self.alloc(st, self.read(st, a) if isinstance(a, (LVal, IteL)) else a)
            else:
                raise Unsupported("missing argument in call of " + qn)
        fr = Frame(decl, tu, this, env)
        self.inlined[qn] = self.inlined.get(qn, 0) + 1
        self.depth += 1
        self.fnstack.append(qn)
        base = len(st.pc)
        try:
            if decl["kind"] == "CXXConstructorDecl":
                self.ctor_inits(decl, fr, st)
            if body is not None:
                self.ex(body, st, fr)
        finally:
            self.depth -= 1
            self.fnstack.pop()
        outs = [(s, v) for s, v in fr.rets]
        if not st.dead:
            outs.append((st.copy(), None))
        m, p = self.merge_states([s for s, _ in outs], base, [v for _, v in outs])
        st.become(m)
        return p

    def default_arg(self, p, st):
        for c in p.get("inner", []):
            fr = Frame(None, p["_tu"], None, {})
            return self.ev(c, st, fr)
        raise Unsupported("default argument")

    def find_def(self, decl):
        m = decl.get("mangledName")
        for tu in self.tus:
            for f in tu.funcs:
                if m and f.get("mangledName") == m and tu.body(f) is not None:
                    return f
        return None

    def ctor_inits(self, decl, fr, st):
        rec = decl.get("_parent")
        done = set()
        for c in decl.get("inner", []):
            if c.get("kind") != "CXXCtorInitializer":
                continue
            if "anyInit" in c:
                fname = c["anyInit"].get("name", "")
                done.add(fname)
                ftxt = c["anyInit"].get("type", {})
                ft = self.types[fr.tu.uid].parse(ftxt.get("desugaredQualType") or ftxt.get("qualType"))
                e = c.get("inner", [None])[0]
                if e is None:
                    continue
                if e.get("kind") == "CXXDefaultInitExpr":
                    e2 = self.field_init(rec, fname)
                    v = self.ev(e2, st, Frame(None, fr.tu, fr.this, {})) if e2 is not None else self.default(ft)
                    if e2 is not None and e2.get("kind") == "InitListExpr" and not isinstance(v, (Rec, LVal)):
                        pass
                else:
                    v = self.ev(e, st, fr)
                if ft.k == "ref":
                    if not isinstance(v, (LVal, IteL)):
                        v = self.alloc(st, v)
                    v = Ref(self.resolve_ref(st, v))
                else:
                    v = self.rd(st, v)
                    v = self.coerce(v, ft)
                cur = st.mem[fr.this.base] if not fr.this.path else None
                self.write_raw(st, fr.this + ("f", fname), v)
            elif "baseInit" in c:
                bt = self.types[fr.tu.uid].parse(c["baseInit"].get("desugaredQualType") or c["baseInit"]["qualType"])
                if bt.k == "record" and c.get("inner"):
                    e = c["inner"][0]
                    self.construct_into(e, fr.this, st, fr)
                elif bt.n in STD_EXC or bt.n == "std::exception":
                    w = sv("")
                    for e in c.get("inner", []):
                        a = [x for x in e.get("inner", []) if x.get("kind") != "CXXDefaultArgExpr"] if e.get("kind") == "CXXConstructExpr" else [e]
                        if a:
                            w = self.rd(st, self.ev(a[0], st, fr))
                    cur = self.read(st, fr.this)
                    self.write(st, fr.this, Rec(cur.t, dict(cur.f, **{"$what": w})))

    def write_raw(self, st, l, v):
        """write without following Ref at the target"""
        if not isinstance(l, LVal):
            return self.write(st, l, v)
        parent = LVal(l.base, l.path[:-1])
        s = l.path[-1]
        cur = self.read(st, parent)
        if s[0] == "f" and isinstance(cur, Rec):
            self.write(st, parent, cur.with_(s[1], v))
        else:
            self.write(st, l, v)

    def resolve_ref(self, st, l):
        return l

    def field_init(self, rec, fname):
        for c in rec.get("inner", []):
            if c.get("kind") == "FieldDecl" and c.get("name") == fname:
                for x in c.get("inner", []):
                    if x.get("kind", "").endswith(("Expr", "Literal", "Operator")) or x.get("kind") in ("ExprWithCleanups",):
                        return x
        return None

    def uninit_record(self, t):
        """record value with unspecified members (before a constructor runs)"""
        f = {}
        for n, ft in self.fields(t):
            if ft.k == "ref":
                f[n] = Poison("unbound reference")
            else:
                f[n] = self.uninit(ft)
        return Rec(t, f)

    def uninit(self, ft):
        try:
            if ft.k in ("string", "opt", "seq", "map", "set", "tuple", "iter", "ptr", "variant", "fn"):
                return self.default(ft)
            if ft.k == "record":
                return self.default_record(ft)
            if ft.k == "opaque":
                return self.lib_default(ft)
            return self.fresh(ft, "uninit")
        except Unsupported as e:
            return Poison(str(e))

    def default_record(self, t, st=None):
        """default-initialised aggregate/record without running a user constructor"""
        d, tu = self.record(t.n)
        f = {}
        for n, ft in self.fields(t):
            e = self.field_init(d, n)
            if e is not None:
                s2 = st or State()
                v = self.ev(e, s2, Frame(None, tu, None, {}))
                v = self.rd(s2, v)
                f[n] = self.coerce(v, ft)
            else:
                f[n] = self.uninit(ft) if ft.k != "ref" else Poison("ref")
        return Rec(t, f)

    def rd(self, st, v):
        return self.read(st, v) if isinstance(v, (LVal, IteL)) else v

    def coerce(self, v, t):
        """adapt value to a declared type (init-list of scalars, int->real ...)"""
        if isz(v):
            if t.k == "real" and z3.is_int(v):
                return z3.ToReal(v)
            if t.k == "bool" and z3.is_int(v):
                return v != 0
            if t.k in ("int", "char", "enum") and z3.is_bool(v):
                return z3.If(v, iv(1), iv(0))
            if t.k == "opt":
                return Opt(T, v, t.a[0])
        if t.k == "opt" and not isinstance(v, Opt):
            return Opt(T, v, t.a[0])
        if t.k == "variant" and not isinstance(v, Var):
            return self.to_variant(v, t)
        return v

    def to_variant(self, v, t):
        for i, a in enumerate(t.a):
            if self.value_is(v, a):
                al = [None] * len(t.a); al[i] = v
                return Var(iv(i), al, t.a)
        raise Unsupported("variant conversion")

    def value_is(self, v, t):
        if isinstance(v, Rec):
            return v.t == t
        if isz(v):
            s = self.sort_of(t)
            return s is not None and v.sort() == s
        return False

    # ---------- statements
    def ex(self, n, st, fr):
        if st.dead or n is None or not n:
            return
        self.curline = n.get("_line", self.curline)
        m = getattr(self, "ex_" + n["kind"], None)
        if m is not None:
            return m(n, st, fr)
        self.ev(n, st, fr)

    def ex_CompoundStmt(self, n, st, fr):
        def go():
            for c in n.get("inner", []):
                if st.dead:
                    break
                self.ex(c, st, fr)
        self.scoped(go, st, fr)

    # ---------- destructors of local objects
    def scoped(self, go, st, fr):
        mark = len(fr.dtors)
        go()
        if len(fr.dtors) > mark:
            if not st.dead:
                self.run_dtors(fr, mark, st)
            else:
                self.check_dtors(fr, mark)
            del fr.dtors[mark:]

    def check_dtors(self, fr, mark):
        for l, d, k in fr.dtors[mark:]:
            if len(self.throws[-1]) != k:
                raise Unsupported("exception while a local object with a destructor is alive")

    def run_dtors(self, fr, mark, st):
        self.check_dtors(fr, mark)
        for l, d, k in reversed(fr.dtors[mark:]):
            n0 = len(self.throws[-1])
            if not st.dead:
                self.call_fn(d, l, [], st)
            if len(self.throws[-1]) != n0:
                raise Unsupported("exception in a destructor")

    def user_dtor(self, t):
        if t is None or t.k != "record":
            return None
        try:
            rec = self.record(t.n)[0]
        except Unsupported:
            return None
        for m in rec.get("inner", []):
            if m.get("kind") == "CXXDestructorDecl" and not m.get("isImplicit") and not m.get("explicitlyDefaulted"):
                return m
        return None

    def register_dtor(self, c, t, st, fr):
        d = self.user_dtor(t)
        if d is not None and not st.dead:
            fr.dtors.append((fr.env[c["id"]], d, len(self.throws[-1])))

    def ex_NullStmt(self, n, st, fr):
        pass

    def ex_AttributedStmt(self, n, st, fr):
        for c in n.get("inner", []):
            if not c.get("kind", "").endswith("Attr"):
                self.ex(c, st, fr)

    def ex_DeclStmt(self, n, st, fr):
        for c in n.get("inner", []):
            k = c["kind"]
            if k == "VarDecl":
                self.vardecl(c, st, fr)
            elif k == "DecompositionDecl":
                self.decomp(c, st, fr)
            elif k in ("StaticAssertDecl", "TypedefDecl", "TypeAliasDecl", "CXXRecordDecl", "UsingDecl", "UsingDirectiveDecl", "EnumDecl", "UsingEnumDecl", "EmptyDecl"):
                pass
            else:
                raise Unsupported("declaration " + k)

    def init_expr(self, c):
        for x in c.get("inner", []):
            if not x.get("kind", "").endswith("Attr") and x.get("kind") != "BindingDecl":
                return x
        return None

    def vardecl(self, c, st, fr):
        t = self.ty(c)
        e = self.init_expr(c)
        if t.k == "ref":
            v = self.ev(e, st, fr)
            if st.dead:
                return
            if not isinstance(v, (LVal, IteL)):
                v = self.alloc(st, v)
            fr.env[c["id"]] = v
            return
        if e is None:
            if t.k == "record":
                v = self.default_record(t, st)
            elif t.k == "arr":
                v = self.fresh(Ty("string"), c.get("name", "array")) if t.a[0].k == "char" and c.get("storageClass") == "static" else Opaque("array", None)
            elif c.get("storageClass") == "static":
                v = self.fresh(t, "static " + c.get("name", ""))      # whatever earlier calls left there
            else:
                v = self.uninit(t)
            fr.env[c["id"]] = self.alloc(st, v)
            self.register_dtor(c, t, st, fr)
            return
        v = self.ev(e, st, fr)
        if st.dead:
            return
        v = self.rd(st, v)
        if c.get("storageClass") == "static" and not self.const_decl(c):
            v = self.fresh(t, "static " + c.get("name", ""))          # whatever earlier calls left there
        fr.env[c["id"]] = self.alloc(st, self.coerce(v, t))
        self.register_dtor(c, t, st, fr)

    def const_decl(self, c):
        q = c.get("type", {}).get("qualType", "")
        return c.get("constexpr") or q.startswith("const ") or q.endswith("const") or "const std::" in q[:12]

    def decomp(self, c, st, fr):
        e = self.init_expr(c)
        t = self.ty(c)
        v = self.ev(e, st, fr)
        if st.dead:
            return
        if t.k != "ref" or not isinstance(v, (LVal, IteL)):
            v = self.alloc(st, self.rd(st, v))
        val = self.read(st, v)
        names = list(val.f.keys()) if isinstance(val, Rec) else None
        if names is None:
            raise Unsupported("structured binding over " + type(val).__name__)
        i = 0
        for b in c.get("inner", []):
            if b.get("kind") == "BindingDecl":
                fr.env[b["id"]] = v + ("f", names[i])
                # tuple-like: a holding variable is referenced
                for x in b.get("inner", []):
                    hv = self.find_kind(x, "VarDecl")
                    if hv is not None:
                        fr.env[hv["id"]] = v + ("f", names[i])
                i += 1

    def find_kind(self, n, k):
        if not isinstance(n, dict):
            return None
        if n.get("kind") == k:
            return n
        for c in n.get("inner", []):
            r = self.find_kind(c, k)
            if r is not None:
                return r
        return None

    def ex_ReturnStmt(self, n, st, fr):
        v = None
        if n.get("inner"):
            e = n["inner"][0]
            v = self.ev(e, st, fr)
            if st.dead:
                return
            if fr.decl is not None:
                rt = self.ret_type(fr.decl)
                if rt is not None and rt.k != "ref" and isinstance(v, (LVal, IteL)):
                    v = self.read(st, v)
                if rt is not None and rt.k not in ("ref", "void") and v is not None:
                    v = self.coerce(v, rt)
        s2 = st.copy()
        self.run_dtors(fr, 0, s2)
        fr.rets.append((s2, v))
        st.kill()

    def ret_type(self, decl):
        q = decl.get("type", {}).get("qualType", "")
        d = 0
        # return type text precedes the parameter list's opening parenthesis
        i = 0
        for i, ch in enumerate(q):
            if ch == "<":
                d += 1
            elif ch == ">":
                d -= 1
            elif ch == "(" and d == 0:
                break
        s = q[:i].strip()
        if s in ("auto", "decltype(auto)") or "->" in q:
            return None
        try:
            return self.types[decl["_tu"].uid].parse(s)
        except Exception:
            return None

    def ex_IfStmt(self, n, st, fr):
        inner = list(n["inner"])
        if n.get("hasInit"):
            self.ex(inner.pop(0), st, fr)
        if n.get("hasVar"):
            self.ex(inner.pop(0), st, fr)
        if st.dead:
            return
        c = self.cond(inner[0], st, fr)
        if st.dead:
            return
        th, el = inner[1], inner[2] if len(inner) > 2 else None
        if n.get("isConstexpr") and len(inner) < 2:
            return
        self.branch(st, c, lambda s: self.scoped(lambda: self.ex(th, s, fr), s, fr), lambda s: self.scoped(lambda: self.ex(el, s, fr), s, fr) if el is not None else None)

    def cond(self, e, st, fr):
        v = self.rd(st, self.ev(e, st, fr))
        if st.dead:
            return F_
        return self.tobool(v, st)

    def tobool(self, v, st=None):
        if isz(v):
            if z3.is_bool(v):
                return v
            if z3.is_arith(v):
                return v != 0
            if v.sort() == S:
                return T
        if isinstance(v, Ptr):
            return z3.Not(v.null)
        if isinstance(v, Opt):
            return v.has
        raise Unsupported("condition value " + type(v).__name__)

    def ex_SwitchStmt(self, n, st, fr):
        inner = list(n["inner"])
        if n.get("hasInit"):
            self.ex(inner.pop(0), st, fr)
        if n.get("hasVar"):
            self.ex(inner.pop(0), st, fr)
        v = self.rd(st, self.ev(inner[0], st, fr))
        body = inner[1]
        stmts = []      # list of (labels, stmt)

        def flat(x, labels):
            if x["kind"] == "CaseStmt":
                val = x["_tu"]._const(x["inner"][0])
                if val is None:
                    vv = self.rd(st, self.ev(x["inner"][0], st.copy(), fr))
                    val = simp(vv).as_long()
                flat(x["inner"][-1], labels + [val])
            elif x["kind"] == "DefaultStmt":
                flat(x["inner"][-1], labels + ["default"])
            else:
                stmts.append((labels, x))
        for x in body.get("inner", []) if body["kind"] == "CompoundStmt" else [body]:
            flat(x, [])
        allv = [l for ls, _ in stmts for l in ls if l != "default"]
        base = len(st.pc)
        outs = []
        saved = fr.brks
        fr.brks = []
        defc = z3.And([v != iv(l) for l in allv]) if allv else T
        entries = []
        for idx, (ls, _) in enumerate(stmts):
            if not ls:
                continue
            cs = []
            for l in ls:
                cs.append(defc if l == "default" else v == iv(l))
            entries.append((idx, z3.Or(cs) if len(cs) > 1 else cs[0]))
        rem = st
        # sequential dispatch gives complementary path conditions
        for idx, c in entries:
            c = simp(c)
            if z3.is_false(c) or rem.dead:
                continue
            s1 = rem.copy(); s1.assume(c)
            rem = rem.copy(); rem.assume(z3.Not(c))
            if not s1.dead:
                for _, x in stmts[idx:]:
                    if s1.dead:
                        break
                    self.ex(x, s1, fr)
                outs.append(s1)
        brk = fr.brks
        fr.brks = saved
        has_default = any("default" in ls for ls, _ in stmts)
        if not rem.dead and not has_default:
            # enum fully covered?
            outs.append(rem)
        elif not rem.dead and has_default:
            pass
        m, _ = self.merge_states([s for s in outs + brk], base)
        st.become(m)

    def ex_BreakStmt(self, n, st, fr):
        if fr.dtors:
            raise Unsupported("break past a local object with a destructor")
        fr.brks.append(st.copy()); st.kill()

    def ex_ContinueStmt(self, n, st, fr):
        if fr.dtors:
            raise Unsupported("continue past a local object with a destructor")
        fr.conts.append(st.copy()); st.kill()

    def ex_CXXTryStmt(self, n, st, fr):
        base = len(st.pc)
        self.throws.append([])
        body = n["inner"][0]
        self.ex(body, st, fr)
        thrown = self.throws.pop()
        outs = [st.copy()]
        handlers = n["inner"][1:]
        for s, e in thrown:
            handled = False
            for h in handlers:
                hv = h["inner"][0]
                hb = h["inner"][1]
                if hv is None or not hv:
                    match = True
                else:
                    ht = self.ty(hv)
                    if ht.k == "ref":
                        ht = ht.a[0]
                    match = self.exc_matches(e, ht)
                if match:
                    s2 = s
                    if hv and "id" in hv:
                        fr.env[hv["id"]] = self.alloc(s2, e.val if e.val is not None else Opaque("exc", None))
                        self.excobj[fr.env[hv["id"]].base] = e
                    saved = getattr(fr, "curexc", None)
                    fr.curexc = e
                    self.ex(hb, s2, fr)
                    fr.curexc = saved
                    outs.append(s2)
                    handled = True
                    break
            if not handled:
                self.throws[-1].append((s, e))
        m, _ = self.merge_states(outs, base)
        st.become(m)

    def exc_matches(self, e, ht):
        name = ht.n if ht.k in ("record", "opaque", "enum") else None
        if name is None:
            return False
        cur = e.ty
        seen = 0
        norm = lambda x: re.sub(r"<.*>", "", x).split("::")[-1]
        while cur and seen < 10:
            if norm(cur) == norm(name):
                return True
            if cur in STD_EXC:
                cur = STD_EXC[cur]
            else:
                nxt = None
                for tu in self.tus:
                    if cur in tu.records:
                        bs = tu.records[cur].get("bases", [])
                        if bs:
                            bt = bs[0]["type"].get("desugaredQualType") or bs[0]["type"]["qualType"]
                            nxt = bt
                            for q in tu.records:
                                if q == bt or q.endswith("::" + bt):
                                    nxt = q
                        break
                cur = nxt
            seen += 1
        return False

    # ---------- loops
    def ex_ForStmt(self, n, st, fr):
        init, condvar, c, inc, body = (n["inner"] + [None] * 5)[:5]
        if init:
            self.ex(init, st, fr)
        self.loop(n, st, fr, (lambda s: self.cond(c, s, fr)) if c else (lambda s: T),
                  lambda s: self.ex(body, s, fr), (lambda s: self.ev(inc, s, fr)) if inc else None)

    def ex_WhileStmt(self, n, st, fr):
        inner = n["inner"]
        c, body = inner[-2], inner[-1]
        var = inner[0] if len(inner) == 3 else None

        def cnd(s):
            if var is not None and var.get("kind") == "DeclStmt":
                self.ex(var, s, fr)
            return self.cond(c, s, fr)
        self.loop(n, st, fr, cnd, lambda s: self.ex(body, s, fr), None)

    def ex_DoStmt(self, n, st, fr):
        body, c = n["inner"][0], n["inner"][1]
        base = len(st.pc)
        sb, sc = fr.brks, fr.conts
        fr.brks, fr.conts = [], []
        self.ex(body, st, fr)
        brk, con = fr.brks, fr.conts
        fr.brks, fr.conts = sb, sc
        m, _ = self.merge_states([st.copy()] + con, base)
        if not m.dead:
            self.loop(n, m, fr, lambda s: self.cond(c, s, fr), lambda s: self.ex(body, s, fr), None)
        m2, _ = self.merge_states([m] + brk, base)
        st.become(m2)

    def ex_CXXForRangeStmt(self, n, st, fr):
        inner = n["inner"]
        # init?, range decl, begin decl, end decl, cond, inc, loopvar decl, body
        rng = [c for c in inner if c and c.get("kind") == "DeclStmt"]
        if inner[0] and len(inner) == 8 and inner[0]:
            self.ex(inner[0], st, fr)
        rangedecl = inner[-7]
        loopvar = inner[-2]
        body = inner[-1]
        rv = rangedecl["inner"][0]
        e = self.init_expr(rv)
        l = self.ev(e, st, fr)
        if st.dead:
            return
        if not isinstance(l, (LVal, IteL)):
            l = self.alloc(st, l)
        h = self.libs.get("range")
        if h:
            r = h(self, st, self.rd(st, l))
            if r is not NotImplemented:
                l = self.alloc(st, r)
        self.foreach(n, st, fr, l, loopvar, body)

    def bind_elem(self, loopvar, lv, st, fr):
        vd = loopvar["inner"][0]
        t = self.ty(vd)
        if vd["kind"] == "DecompositionDecl":
            val = self.read(st, lv)
            names = list(val.f.keys())
            if t.k != "ref":
                lv = self.alloc(st, val)
            i = 0
            for b in vd.get("inner", []):
                if b.get("kind") == "BindingDecl":
                    fr.env[b["id"]] = lv + ("f", names[i])
                    for x in b.get("inner", []):
                        hv = self.find_kind(x, "VarDecl")
                        if hv is not None:
                            fr.env[hv["id"]] = lv + ("f", names[i])
                    i += 1
            return
        if t.k == "ref":
            fr.env[vd["id"]] = lv
        else:
            fr.env[vd["id"]] = self.alloc(st, self.coerce(self.read(st, lv), t))

    def foreach(self, n, st, fr, l, loopvar, body):
        cont = self.read(st, l)
        if isinstance(cont, (CSeq, Seq)) or (isz(cont) and cont.sort() == S):
            ix = self.alloc(st, iv(0))
            isstr = isz(cont)

            def cnd(s):
                return self.read(s, ix) < self.seqlen(self.read(s, l))

            def bod(s):
                self.bind_elem(loopvar, l + (("c" if isstr else "e"), self.read(s, ix)), s, fr)
                self.ex(body, s, fr)

            def inc(s):
                self.write(s, ix, simp(self.read(s, ix) + 1))
            self.loop(n, st, fr, cnd, bod, inc)
            return
        if isinstance(cont, CMap):
            # known keys: visit them (order: insertion; assumed immaterial unless keys are ordered literals)
            base = len(st.pc)
            sb, sc = fr.brks, fr.conts
            brks = []
            for k, v, pr in cont.d:
                def one(s, k=k):
                    fr.brks, fr.conts = [], []
                    b0 = len(s.pc)
                    tmp = self.alloc(s, Rec(Ty("tuple", [cont.kt] + ([cont.vt] if cont.vt else [])), {"t0": k, "t1": self.step_read(s, self.read(s, l), ("m", k)) if cont.vt else k}))
                    if cont.vt is None:
                        tmp = self.alloc(s, k)
                    else:
                        t0 = self.alloc(s, k)
                        rec = Rec(Ty("tuple", [cont.kt, cont.vt]), {"t0": Ref(t0), "t1": Ref(l + ("m", k))})
                        tmp = self.alloc(s, rec)
                    self.bind_elem(loopvar, tmp, s, fr)
                    self.ex(body, s, fr)
                    m, _ = self.merge_states([s.copy()] + fr.conts, b0)
                    s.become(m)
                    brks.extend(fr.brks)
                self.branch(st, pr, one, lambda s: None)
                if st.dead:
                    break
            fr.brks, fr.conts = sb, sc
            m, _ = self.merge_states([st.copy()] + brks, base)
            st.become(m)
            return
        if isinstance(cont, Map):
            # arbitrary iteration order over an abstract domain
            seenl = self.alloc(st, z3.K(self.key_sort(cont.kt), F_))
            now = [None]

            def cnd(s):
                b = z3.Bool(self.fresh_name("maploop"))
                return b

            def bod(s):
                k = z3.Const(self.fresh_name("mapkey"), self.key_sort(cont.kt))
                cur = self.read(s, l)
                s.assume(z3.Select(cur.dom, k)); s.assume(z3.Not(z3.Select(self.read(s, seenl), k)))
                kv = self.unpack_key(k, cont.kt)
                self._mapkey = now[0] = k
                self.mapkeys.append(k)
                t0 = self.alloc(s, kv)
                if cont.vt is None:
                    tmp = t0
                else:
                    tmp = self.alloc(s, Rec(Ty("tuple", [cont.kt, cont.vt]), {"t0": Ref(t0), "t1": Ref(l + ("m", kv))}))
                self.bind_elem(loopvar, tmp, s, fr)
                self.ex(body, s, fr)

            def inc(s):
                # the key is processed once its iteration ends, by "continue" too
                self.write(s, seenl, z3.Store(self.read(s, seenl), now[0], T))
            self.loop(n, st, fr, cnd, bod, inc, mapseen=(seenl, l))
            return
        raise Unsupported("range-for over " + type(cont).__name__)

    def seqlen(self, v):
        if isinstance(v, CSeq):
            return iv(len(v.xs))
        if isinstance(v, Seq):
            return v.n
        if isz(v) and v.sort() == S:
            return z3.Length(v)
        raise Unsupported("length of " + type(v).__name__)

    def run_body(self, s, fr, body, inc):
        """one iteration; returns (breaks)"""
        b0 = len(s.pc)
        sb, sc = fr.brks, fr.conts
        fr.brks, fr.conts = [], []
        try:
            body(s)
            m, _ = self.merge_states([s.copy()] + fr.conts, b0)
            s.become(m)
            brk = fr.brks
        finally:
            fr.brks, fr.conts = sb, sc
        if inc is not None and not s.dead:
            inc(s)
        return brk

    def loop(self, n, st, fr, cond, body, inc, mapseen=None):
        from .loops import run_loop
        u = self.opts.get("unroll", {})
        k = next((v for f, v in u.items() if self.fnstack and self.fnstack[-1].endswith(f)), None)
        if k is not None and mapseen is None:
            return self.unroll(k, st, cond, lambda s: self.run_body(s, fr, body, inc))
        run_loop(self, n, st, fr, cond, body, inc, mapseen)

    def unroll(self, k, st, cond, body):
        """complete unrolling: that k iterations always suffice is an obligation"""
        base = len(st.pc)
        outs = []
        for i in range(k + 1):
            c = simp(self.tobool(cond(st)))
            if i == k:
                self.oblige("the loop ends within %d iterations" % k, st, z3.Not(c), "safety")
            e = st.copy()
            e.assume(z3.Not(c))
            outs.append(e)
            if i == k or st.dead:
                break
            st.assume(c)
            if st.dead:
                break
            outs += body(st)
        m, _ = self.merge_states(outs, base)
        st.become(m)

    # ---------- expressions
    def ev(self, n, st, fr):
        if st.dead:
            return iv(0)
        k = n["kind"]
        if "_line" in n:
            self.curline = n["_line"]
        m = getattr(self, "ev_" + k, None)
        if m is None:
            raise Unsupported("expression kind %s (line %s)" % (k, self.curline))
        return m(n, st, fr)

    def sub(self, n):
        return n["inner"][0]

    def ev_ExprWithCleanups(self, n, st, fr):
        return self.ev(self.sub(n), st, fr)

    ev_ParenExpr = ev_ExprWithCleanups
    ev_ConstantExpr = ev_ExprWithCleanups
    ev_CXXBindTemporaryExpr = ev_ExprWithCleanups
    ev_SubstNonTypeTemplateParmExpr = lambda self, n, st, fr: self.ev(n["inner"][-1], st, fr)

    def ev_CXXRewrittenBinaryOperator(self, n, st, fr):
        """a > b written as (a <=> b) > 0"""
        def find(m):
            while m["kind"] in ("ParenExpr", "ImplicitCastExpr", "MaterializeTemporaryExpr", "ExprWithCleanups", "CXXBindTemporaryExpr"):
                m = m["inner"][-1] if m["kind"] != "ImplicitCastExpr" else self.sub(m)
            return m

        def name(m):
            if m["kind"] == "BinaryOperator":
                return m.get("opcode"), m["inner"]
            if m["kind"] == "CXXOperatorCallExpr":
                return self.strip(m["inner"][0])["referencedDecl"]["name"].replace("operator", ""), m["inner"][1:]
            return None, []
        op, args = name(find(n["inner"][0]))
        if op in ("<", ">", "<=", ">="):
            for k in (0, 1):
                o2, a2 = name(find(args[k]))
                if o2 == "<=>":
                    x, y = self.rd(st, self.ev(a2[0], st, fr)), self.rd(st, self.ev(a2[1], st, fr))
                    if st.dead:
                        return F_
                    if k == 1:
                        x, y = y, x
                    return self.three_way(op, x, y, n, st)
        return self.ev_ExprWithCleanups(n, st, fr)

    def three_way(self, op, x, y, n, st):
        if isinstance(x, Opt) and not isinstance(y, Opt):
            c = self.three_way(op, x.v, y, n, st) if x.v is not None else F_
            return simp(z3.And(x.has, c)) if op[0] == ">" else simp(z3.Or(z3.Not(x.has), c))
        if isinstance(y, Opt) and not isinstance(x, Opt):
            return self.three_way({"<": ">", ">": "<", "<=": ">=", ">=": "<="}[op], y, x, n, st)
        if isz(x) and isz(y) and z3.is_arith(x) and z3.is_arith(y):
            return {"<": lambda: x < y, ">": lambda: x > y, "<=": lambda: x <= y, ">=": lambda: x >= y}[op]()
        raise Unsupported("three-way comparison")
    ev_FullExpr = ev_ExprWithCleanups

    def ev_MaterializeTemporaryExpr(self, n, st, fr):
        v = self.ev(self.sub(n), st, fr)
        if isinstance(v, (LVal, IteL)):
            return v
        if isinstance(v, Rec) and self.user_dtor(v.t) is not None:
            raise Unsupported("temporary object with a destructor")
        return self.alloc(st, v)

    def ev_IntegerLiteral(self, n, st, fr):
        return iv(int(n["value"]))

    def ev_CharacterLiteral(self, n, st, fr):
        return iv(int(n["value"]))

    def ev_FloatingLiteral(self, n, st, fr):
        from fractions import Fraction
        # the constant denotes the shortest decimal text that reads back as the same double
        return z3.RealVal(str(Fraction(repr(float(n["value"])))))

    def ev_CXXBoolLiteralExpr(self, n, st, fr):
        return z3.BoolVal(bool(n["value"]))

    def ev_CXXNullPtrLiteralExpr(self, n, st, fr):
        return Ptr(None)

    ev_GNUNullExpr = ev_CXXNullPtrLiteralExpr

    def ev_StringLiteral(self, n, st, fr):
        import ast as _ast
        s = n["value"]
        if s.startswith("u8"):
            s = s[2:]
        try:
            val = _ast.literal_eval(s)
        except Exception:
            import json as _json
            try:
                val = _json.loads(s)
            except Exception:
                raise Unsupported("string literal " + s)
        return self.alloc(st, sv(val))

    def ev_UserDefinedLiteral(self, n, st, fr):
        rd = self.strip(n["inner"][0])["referencedDecl"]
        args = n["inner"][1:]
        d = self.user_fn(n["_tu"], rd) or self.cross_fn(rd, n["_tu"])
        if d is None:
            raise Unsupported("user-defined literal " + rd.get("name", ""))
        return self.call_fn(d, None, [self.ev_arg(a, st, fr) for a in args], st, n)

    def ev_CXXReinterpretCastExpr(self, n, st, fr):
        t, f = self.ty(n), self.ty(n["inner"][0])
        if t.k == "ptr" and f.k == "ptr" and t.a[0].k == "char" and f.a[0].k == "char":
            return self.ev(n["inner"][0], st, fr)
        raise Unsupported("reinterpret_cast")

    def ev_CXXThisExpr(self, n, st, fr):
        return Ptr(fr.this)

    def ev_PredefinedExpr(self, n, st, fr):
        return self.alloc(st, sv("fn"))

    def ev_DeclRefExpr(self, n, st, fr):
        rd = n["referencedDecl"]
        i = rd["id"]
        if i in fr.env:
            return fr.env[i]
        k = rd["kind"]
        tu = n["_tu"]
        if k == "EnumConstantDecl":
            if i in tu.enumconst:
                return iv(tu.enumconst[i][2])
            nm = rd["name"]
            et = self.types[tu.uid].parse(rd["type"].get("desugaredQualType") or rd["type"]["qualType"])
            for t2 in self.tus:
                for q, vals in t2.enums.items():
                    if et.k in ("enum", "opaque") and et.n and (q == et.n or q.endswith("::" + et.n.split("::")[-1])) and nm in vals:
                        return iv(vals[nm])
            if "enum:" + nm in self.libs:
                return iv(self.libs["enum:" + nm])      # of a library under contract
            raise Unsupported("enum constant " + nm)
        if k in ("FunctionDecl", "CXXMethodDecl"):
            return FnV(rd)
        if k in ("VarDecl",):
            return self.global_var(i, rd, tu, st)
        if k == "BindingDecl":
            if i in fr.env:
                return fr.env[i]
        raise Unsupported("reference to %s %s" % (k, rd.get("name")))

    def global_var(self, i, rd, tu, st):
        key = (tu.uid, i)
        d = tu.byid.get(i)
        if key in self.globals:
            return LVal(self.globals[key])
        if d is None:
            # library constant (e.g. std::cout) or declared elsewhere
            h = self.libs.get("var:" + rd.get("name", ""))
            if h:
                return h(self, st)
            for t2 in self.tus:
                for dd in t2.byid.values():
                    if dd.get("kind") == "VarDecl" and dd.get("name") == rd.get("name") and self.init_expr(dd) is not None:
                        d = dd
            if d is None:
                raise Unsupported("global " + str(rd.get("name")))
        # a definition with an initialiser
        e = self.init_expr(d)
        if e is None:
            for dd in tu.byid.values():
                if dd.get("kind") == "VarDecl" and dd.get("previousDecl") == i and self.init_expr(dd) is not None:
                    e = self.init_expr(dd); d = dd
        t = self.ty(d)
        q = d.get("type", {}).get("qualType", "")
        s2 = State()
        if e is None:
            v = self.fresh(t, d.get("name", "g"))
        elif not (q.startswith("const ") or d.get("constexpr") or self.lookup_only(i, d, tu)):
            v = self.fresh(t, d.get("name", "g"))
        else:
            v = self.rd(s2, self.ev(e, s2, Frame(None, d["_tu"], None, {})))
            v = self.coerce(v, t)
            for l, x in s2.mem.items():
                self.gmem[l] = x
        loc = next(self.loccnt)
        self.gmem[loc] = v
        self.globals[key] = loc
        return LVal(loc)

    def lookup_only(self, i, d, tu):
        """a non-const table that its translation unit only ever looks things up in keeps its initial value
        (writes by executed code are rejected: the global store is read-only for the executor)"""
        ids = {i, d.get("id"), d.get("previousDecl")}
        ok = [True]
        n0 = [0]

        def walk(n, parents):
            if not isinstance(n, dict):
                return
            if n.get("kind") == "DeclRefExpr" and n.get("referencedDecl", {}).get("id") in ids:
                n0[0] += 1
                good = False
                for p in reversed(parents):
                    k = p.get("kind")
                    if k in ("ParenExpr", "ImplicitCastExpr"):
                        if k == "ImplicitCastExpr" and p.get("type", {}).get("qualType", "").startswith("const "):
                            good = True
                            break
                        continue
                    if k == "MemberExpr":
                        good = p.get("name") in ("count", "find", "at", "begin", "end", "cbegin", "cend", "size", "empty", "contains")
                    elif k == "VarDecl" and p.get("name", "").startswith("__range"):
                        good = True
                    break
                if not good:
                    ok[0] = False
            for c in n.get("inner", []):
                walk(c, parents + [n])
        for dd in tu.docs if hasattr(tu, "docs") else []:
            walk(dd, [])
        return ok[0] and n0[0] > 0

    def ev_MemberExpr(self, n, st, fr):
        b = self.ev(self.sub(n), st, fr)
        name = n.get("name", "")
        tu = n["_tu"]
        md = tu.byid.get(n.get("referencedMemberDecl"))
        if md is not None and md.get("kind") == "VarDecl":
            return self.global_var(md["id"], md, tu, st)
        if n.get("type", {}).get("qualType") == "<bound member function type>":
            raise Unsupported("bound member outside call")
        if n.get("isArrow"):
            b = self.deref(self.rd(st, b) if isinstance(b, (LVal, IteL)) else b, st)
        if isinstance(b, (LVal, IteL)):
            v = self.read(st, b)
            if isinstance(v, Rec) and v.t.k == "tuple":
                name = {"first": "t0", "second": "t1"}.get(name, name)
            return b + ("f", name)
        if isinstance(b, Rec):
            if b.t.k == "tuple":
                name = {"first": "t0", "second": "t1"}.get(name, name)
            return b.f[name]
        raise Unsupported("member %s of %s" % (name, type(b).__name__))

    def deref(self, p, st):
        if isinstance(p, Rec):      # pointer to an immutable object, carried by value
            return self.alloc(st, p)
        if isinstance(p, Ptr):
            if p.l is None:
                self.oblige("null dereference", st, F_, "safety")
                raise Unsupported("dereference of null")
            if self.safety and not z3.is_false(simp(p.null)):
                self.oblige("pointer is not null", st, z3.Not(p.null), "safety")
            return p.l
        if isinstance(p, It):
            v = self.read(st, p.c)
            step = "c" if isz(v) else "e"
            idx = p.i
            if self.safety:
                self.oblige("iterator dereferenced within range", st, z3.And(idx >= 0, idx < self.seqlen(v)), "safety")
            return p.c + (step, idx)
        if isinstance(p, MIt):
            if self.safety:
                self.oblige("map iterator is not end()", st, z3.Not(p.end), "safety")
            if p.c is None:
                raise Unsupported("deref of end")
            cont = self.read(st, p.c)
            if isinstance(cont, (Map, CMap)) and cont.vt is None:
                return self.alloc(st, p.key)
            t0 = self.alloc(st, p.key)
            return self.alloc(st, Rec(Ty("tuple", [cont.kt, cont.vt]), {"t0": Ref(t0), "t1": Ref(p.c + ("m", p.key))}))
        if isinstance(p, Opt):
            raise Unsupported("deref of optional rvalue")
        if isz(p) and p.sort() == S:
            return self.alloc(st, p) + ("c", iv(0))
        raise Unsupported("deref of " + type(p).__name__)

    def ev_ImplicitCastExpr(self, n, st, fr):
        ck = n.get("castKind")
        e = self.sub(n)
        if ck in ("UserDefinedConversion", "ConstructorConversion"):
            return self.ev(e, st, fr)
        if ck in ("FunctionToPointerDecay", "BuiltinFnToFnPtr"):
            return self.ev(e, st, fr)
        v = self.ev(e, st, fr)
        if st.dead:
            return v
        return self.cast(ck, v, n, e, st)

    def cast(self, ck, v, n, e, st):
        if ck == "LValueToRValue":
            return self.rd(st, v)
        if ck in ("NoOp",):
            return v
        if ck in ("DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived"):
            return v
        if ck == "ArrayToPointerDecay":
            x = self.rd(st, v)
            if isz(x) and x.sort() == S:
                return x
            if isinstance(x, (CSeq, Seq)):
                return It(v, iv(0))
            return Ptr(v)
        if ck in ("NullToPointer",):
            return Ptr(None)
        if ck in ("ToVoid",):
            return None
        v = self.rd(st, v)
        if ck == "IntegralCast":
            return self.int_conv(v, self.ty(n), self.ty(e), st)
        if ck == "IntegralToFloating":
            if z3.is_bool(v):
                v = z3.If(v, iv(1), iv(0))
            return z3.ToReal(v)
        if ck == "FloatingCast":
            return v
        if ck == "FloatingToIntegral":
            tr = z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
            t = self.ty(n)
            r = self.leaf_range(t, tr)
            if r is not None and self.safety:
                self.oblige("floating value representable in the integer type", st, r, "arith")
            return simp(tr)
        if ck == "IntegralToBoolean":
            return v if z3.is_bool(v) else v != 0
        if ck == "FloatingToBoolean":
            return v != 0
        if ck == "PointerToBoolean":
            return self.tobool(v)
        if ck == "IntegralToPointer":
            raise Unsupported("int to pointer")
        if ck == "BitCast":
            return v
        if ck == "Dynamic":
            return v
        raise Unsupported("cast " + str(ck))

    def int_conv(self, v, tt, ft, st):
        if z3.is_bool(v):
            v = z3.If(v, iv(1), iv(0))
        if not z3.is_int(v):
            raise Unsupported("integral cast of " + str(v.sort()))
        if tt.k == "bool":
            return v != 0
        if tt.k == "int":
            bits, sg = tt.n
            fb, fs = ft.n if ft.k == "int" else (8, True) if ft.k == "char" else (32, True)
            if z3.is_int_value(v):
                x = v.as_long() % (2 ** bits)
                if sg and x >= 2 ** (bits - 1):
                    x -= 2 ** bits
                return iv(x)
            if not sg and fs:
                if bits >= fb:
                    return simp(z3.If(v < 0, v + iv(2 ** bits), v))
                return v % iv(2 ** bits)
            if sg and not fs and bits > fb or sg == fs and bits >= fb:
                return v
            if not sg:
                return v % iv(2 ** bits)
            m = v % iv(2 ** bits)
            return z3.If(m >= iv(2 ** (bits - 1)), m - iv(2 ** bits), m)
        return v

    def explicit_cast(self, n, st, fr):
        e = n["inner"][-1]
        v = self.ev(e, st, fr)
        if st.dead:
            return v
        ck = n.get("castKind")
        if ck in ("ConstructorConversion", "UserDefinedConversion"):
            return v
        if ck == "ToVoid":
            return None
        return self.cast(ck, v, n, e, st)

    ev_CXXStaticCastExpr = explicit_cast
    ev_CStyleCastExpr = explicit_cast
    ev_CXXFunctionalCastExpr = explicit_cast
    ev_CXXConstCastExpr = explicit_cast
    ev_CXXReinterpretCastExpr = explicit_cast

    def ev_CXXScalarValueInitExpr(self, n, st, fr):
        return self.default(self.ty(n))

    ev_ImplicitValueInitExpr = ev_CXXScalarValueInitExpr

    def arith_check(self, r, n, st):
        if self.opts.get("wrap") and z3.is_int(r) and self.unsigned(n):      # unsigned arithmetic modulo 2^bits
            m = iv(2 ** self.ty(n).n[0])
            return iv(r.as_long() % m.as_long()) if z3.is_int_value(r) else z3.If(z3.And(r >= 0, r < m), r, r % m)
        if not self.safety:
            return r
        t = self.ty(n)
        if t.k == "int":
            rg = self.leaf_range(t, r)
            self.oblige("no integer wrap in '%s'" % n.get("opcode"), st, rg, "arith")
        return r

    def ev_UnaryOperator(self, n, st, fr):
        op = n["opcode"]
        e = self.sub(n)
        if op == "*":
            v = self.ev(e, st, fr)
            if st.dead:
                return v
            return self.deref(self.rd(st, v), st)
        v = self.ev(e, st, fr)
        if st.dead:
            return v
        if op == "&":
            if isinstance(v, (LVal, IteL)):
                return Ptr(v)
            if isinstance(v, FnV):
                return v
            raise Unsupported("address of rvalue")
        if op == "!":
            return z3.Not(self.tobool(self.rd(st, v)))
        if op == "-":
            return self.arith_check(simp(-self.num(self.rd(st, v))), n, st)
        if op == "+":
            return self.num(self.rd(st, v))
        if op == "~":
            x = self.rd(st, v)
            return simp(-x - 1)
        if op in ("++", "--"):
            old = self.rd(st, v)
            if isinstance(old, It):
                new = It(old.c, simp(old.i + (1 if (op == "++") != old.rev else -1)), old.rev)
            elif isz(old) and z3.is_arith(old):
                new = simp(old + 1) if op == "++" else simp(old - 1)
                self.arith_check(new, n, st)
            else:
                raise Unsupported("++ on " + type(old).__name__)
            self.write(st, v, new)
            return old if n.get("isPostfix") else v
        raise Unsupported("unary " + op)

    def num(self, v):
        if isz(v) and z3.is_bool(v):
            return z3.If(v, iv(1), iv(0))
        return v

    def ev_BinaryOperator(self, n, st, fr):
        op = n["opcode"]
        a, b = n["inner"]
        if op == ",":
            self.ev(a, st, fr)
            return self.ev(b, st, fr)
        if op == "&&":
            c = self.cond(a, st, fr)
            if st.dead:
                return F_
            return self.branch(st, c, lambda s: self.cond(b, s, fr), lambda s: F_)
        if op == "||":
            c = self.cond(a, st, fr)
            if st.dead:
                return F_
            return self.branch(st, c, lambda s: T, lambda s: self.cond(b, s, fr))
        if op == "=":
            v = self.rd(st, self.ev(b, st, fr))
            l = self.ev(a, st, fr)
            if st.dead:
                return l
            self.write(st, l, self.coerce(v, self.ty(a)))
            return l
        x = self.rd(st, self.ev(a, st, fr))
        if st.dead:
            return x
        y = self.rd(st, self.ev(b, st, fr))
        if st.dead:
            return y
        return self.binop(op, x, y, n, st)

    def ev_CompoundAssignOperator(self, n, st, fr):
        op = n["opcode"][:-1]
        a, b = n["inner"]
        l = self.ev(a, st, fr)
        y = self.rd(st, self.ev(b, st, fr))
        if st.dead:
            return l
        x = self.rd(st, l)
        r = self.binop(op, x, y, n, st)
        ta = self.ty(a)
        if isz(r) and z3.is_real(r) and ta.k == "int":
            r = z3.If(r >= 0, z3.ToInt(r), -z3.ToInt(-r))
        self.write(st, l, self.coerce(r, ta))
        return l

    def binop(self, op, x, y, n, st):
        if isinstance(x, (Ptr, It, MIt)) or isinstance(y, (Ptr, It, MIt)):
            if op == "==":
                return veq(x, y)
            if op == "!=":
                return z3.Not(veq(x, y))
            if isinstance(x, It) and isz(y) and op in ("+", "-"):
                return It(x.c, simp(x.i + y if (op == "+") != x.rev else x.i - y), x.rev)
            if isinstance(y, It) and isz(x) and op == "+":
                return It(y.c, simp(y.i + x), y.rev)
            if isinstance(x, It) and isinstance(y, It) and op == "-":
                return simp(x.i - y.i) if not x.rev else simp(y.i - x.i)
            if isinstance(x, It) and isinstance(y, It) and op in ("<", "<=", ">", ">="):
                d = (x.i, y.i) if not x.rev else (y.i, x.i)
                return {"<": d[0] < d[1], "<=": d[0] <= d[1], ">": d[0] > d[1], ">=": d[0] >= d[1]}[op]
            raise Unsupported("pointer arithmetic")
        if op == "==" or op == "!=":
            if isz(x) and isz(y):
                if z3.is_bool(x) and not z3.is_bool(y) or z3.is_bool(y) and not z3.is_bool(x):
                    x, y = self.num(x), self.num(y)
                r = veq(x, y)
            else:
                r = veq(x, y)
            return r if op == "==" else z3.Not(r)
        x, y = self.num(x), self.num(y)
        if not (isz(x) and isz(y)):
            raise Unsupported("binary %s on %s" % (op, type(x).__name__))
        if op in ("<", "<=", ">", ">="):
            return {"<": lambda: x < y, "<=": lambda: x <= y, ">": lambda: x > y, ">=": lambda: x >= y}[op]()
        if op == "+" and isz(x) and isz(y) and z3.is_string(x) and z3.is_int(y):
            return z3.SubString(x, y, z3.Length(x) - y)         # pointer into the characters of a text
        if op == "+":
            return self.arith_check(simp(x + y), n, st)
        if op == "-":
            return self.arith_check(simp(x - y), n, st)
        if op == "*":
            return self.arith_check(x * y, n, st)
        if op == "/":
            if z3.is_real(x) or z3.is_real(y):
                if not z3.is_real(x): x = z3.ToReal(x)
                if not z3.is_real(y): y = z3.ToReal(y)
                if self.safety and not z3.is_true(simp(y != 0)) and not self.opts.get("fdiv_ok"):
                    self.oblige("floating division by non-zero", st, y != 0, "fdiv")
                return x / y
            self.oblige("integer division by non-zero", st, y != 0, "safety")
            if self.unsigned(n):
                return simp(x / y)
            q = z3.If(z3.Or(z3.And(x >= 0, y > 0), z3.And(x >= 0, y < 0)), x / y, -((-x) / y))
            return simp(q)
        if op == "%":
            self.oblige("integer remainder by non-zero", st, y != 0, "safety")
            if self.unsigned(n):
                return simp(x % y)
            ay = z3.If(y >= 0, y, -y)
            return simp(z3.If(x >= 0, x % ay, -((-x) % ay)))
        if op in ("&", "|", "^", "<<", ">>"):
            h = self.libs.get("bit:" + op)
            return h(self, x, y, n, st)
        raise Unsupported("binary " + op)

    def unsigned(self, n):
        t = self.ty(n) if n is not None else None
        return t is not None and t.k == "int" and not t.n[1]

    def ev_ConditionalOperator(self, n, st, fr):
        c = self.cond(n["inner"][0], st, fr)
        if st.dead:
            return F_
        return self.branch(st, c, lambda s: self.ev(n["inner"][1], s, fr), lambda s: self.ev(n["inner"][2], s, fr))

    def ev_InitListExpr(self, n, st, fr):
        t = self.ty(n)
        inner = n.get("inner", []) or []
        if n.get("array_filler"):
            inner = [x for x in n["array_filler"] if x.get("kind") != "ImplicitValueInitExpr"]
        if t.k == "record":
            return self.init_record(t, inner, st, fr)
        if t.k == "tuple":
            vs = [self.rd(st, self.ev(x, st, fr)) for x in inner]
            fs = self.fields(t)
            return Rec(t, {nm: self.coerce(v, ft) for (nm, ft), v in zip(fs, vs)})
        if t.k in ("arr",):
            if t.a[0].k == "char" and len(inner) == 1:
                return self.rd(st, self.ev(inner[0], st, fr))
            return CSeq([self.coerce(self.rd(st, self.ev(x, st, fr)), t.a[0]) for x in inner], t.a[0])
        if t.k == "seq":
            if len(inner) == 1 and inner[0].get("kind") == "InitListExpr":
                return self.ev(inner[0], st, fr)
            return CSeq([self.coerce(self.rd(st, self.ev(x, st, fr)), t.a[0]) for x in inner], t.a[0])
        if len(inner) == 1:
            return self.coerce(self.rd(st, self.ev(inner[0], st, fr)), t)
        if not inner:
            return self.default(t)
        raise Unsupported("init list of %r" % t)

    def init_record(self, t, inner, st, fr):
        d, tu = self.record(t.n)
        f = {}
        fs = self.fields(t)
        for i, (nm, ft) in enumerate(fs):
            if i < len(inner):
                e = inner[i]
                if e["kind"] == "ImplicitValueInitExpr":
                    f[nm] = self.default(ft) if ft.k != "record" else self.init_record(ft, [], st, fr)
                    continue
                if e["kind"] == "CXXDefaultInitExpr":
                    e = self.field_init(d, nm)
                v = self.ev(e, st, fr)
                if st.dead:
                    return Rec(t, {})
                if ft.k == "ref":
                    f[nm] = Ref(v if isinstance(v, (LVal, IteL)) else self.alloc(st, v))
                else:
                    f[nm] = self.coerce(self.rd(st, v), ft)
            else:
                e = self.field_init(d, nm)
                if e is not None:
                    f[nm] = self.coerce(self.rd(st, self.ev(e, st, fr)), ft)
                else:
                    f[nm] = self.init_record(ft, [], st, fr) if ft.k == "record" else self.default(ft)
        return Rec(t, f)

    def ev_CXXStdInitializerListExpr(self, n, st, fr):
        return self.ev(self.sub(n), st, fr)

    def ev_CXXDefaultInitExpr(self, n, st, fr):
        raise Unsupported("default init expr")

    def ev_LambdaExpr(self, n, st, fr):
        env = dict(fr.env)
        # by-copy captures
        rec = n["inner"][0]
        fields = [c for c in rec.get("inner", []) if c.get("kind") == "FieldDecl"]
        inits = [c for c in n["inner"][1:] if c.get("kind") != "CompoundStmt"]
        for f, e in zip(fields, inits):
            q = f.get("type", {}).get("qualType", "")
            d = e
            while d.get("inner") and d["kind"] != "DeclRefExpr":
                d = d["inner"][0]
            if d["kind"] == "DeclRefExpr" and not q.endswith("&"):
                i = d["referencedDecl"]["id"]
                if i in env:
                    env[i] = self.alloc(st, self.read(st, env[i]))
        return Clo(n, env, fr.this, n["_tu"])

    def call_closure(self, clo, args, st):
        if isinstance(clo, FnI):
            args = [a if isinstance(a, (LVal, IteL)) else self.alloc(st, a) for a in args]
            return self.branch(st, clo.c, lambda s: self.call_closure(clo.a, args, s), lambda s: self.call_closure(clo.b, args, s))
        if isinstance(clo, FnV):
            return self.call_any(clo.decl, None, args, st, None)
        rec = clo.node["inner"][0]
        tu = clo.tu
        cands = []
        for c in rec.get("inner", []):
            if c.get("kind") == "CXXMethodDecl" and c.get("name") == "operator()":
                cands.append(c)
            if c.get("kind") == "FunctionTemplateDecl" and c.get("name") == "operator()":
                for x in c.get("inner", []):
                    if x.get("kind") == "CXXMethodDecl" and "auto" not in x.get("type", {}).get("qualType", "").split("->")[0].split("(", 1)[-1] and tu.body(x) is not None:
                        cands.append(x)
        cands = [c for c in cands if tu.body(c) is not None]
        if len(cands) > 1:
            cands = [c for c in cands if self.args_match(c, args, st)] or cands
        if not cands:
            raise Unsupported("lambda without instantiation")
        decl = cands[0]
        params = tu.params(decl)
        fr = Frame(decl, tu, clo.this, dict(clo.env))
        for p, a in zip(params, args):
            pt = self.ty(p)
            if pt.k == "ref":
                fr.env[p["id"]] = a if isinstance(a, (LVal, IteL)) else self.alloc(st, a)
            else:
                fr.env[p["id"]] = self.alloc(st, self.coerce(self.rd(st, a), pt))
        base = len(st.pc)
        self.depth += 1
        if self.depth > 40:
            raise Unsupported("closure depth")
        self.ex(tu.body(decl), st, fr)
        self.depth -= 1
        outs = list(fr.rets)
        if not st.dead:
            outs.append((st.copy(), None))
        m, p = self.merge_states([s for s, _ in outs], base, [v for _, v in outs])
        st.become(m)
        return p

    def args_match(self, decl, args, st):
        ps = decl["_tu"].params(decl)
        if len(ps) != len(args):
            return False
        for p, a in zip(ps, args):
            pt = self.ty(p)
            if pt.k == "ref":
                pt = pt.a[0]
            v = self.rd(st, a)
            if isinstance(v, Rec):
                if not (v.t == pt):
                    return False
            elif isz(v):
                s = self.sort_of(pt)
                if s is None or s != v.sort():
                    return False
        return True

    def ev_CXXThrowExpr(self, n, st, fr):
        if not n.get("inner"):
            e = getattr(fr, "curexc", None)
            self.throw(st, e or Exc("unknown", None))
            return iv(0)
        e = self.sub(n)
        t = self.ty(e)
        v = self.ev(e, st, fr)
        if st.dead:
            return iv(0)
        v = self.rd(st, v)
        self.throw(st, Exc(t.n if t.n else repr(t), v))
        return iv(0)

    def ev_UnaryExprOrTypeTraitExpr(self, n, st, fr):
        return z3.Int(self.fresh_name("sizeof"))

    def ev_CXXDynamicCastExpr(self, n, st, fr):
        """pointer to a record: the pointer itself (that the cast succeeds is an assumption of the property using it)"""
        t = self.ty(n)
        if t.k == "ptr" and t.a[0].k == "record" and (self.opts.get("buffers") is not None or self.opts.get("dyncast")):
            return self.ev(self.sub(n), st, fr)
        raise Unsupported("dynamic_cast")

    def ev_ArraySubscriptExpr(self, n, st, fr):
        if self.opts.get("buffers"):
            from . import bufs
            l = bufs.slot(self, n["inner"][0], st, fr)
            if isinstance(l, (LVal, IteL)) and isinstance(self.rd(st, l), Seq):
                i = self.rd(st, self.ev(n["inner"][1], st, fr))
                bufs.inside(self, st, simp(i + 1), self.rd(st, l).n, "element")
                return l + ("e", simp(i))
        a = self.ev(n["inner"][0], st, fr)
        i = self.rd(st, self.ev(n["inner"][1], st, fr))
        a = self.rd(st, a)
        if isinstance(a, It):
            return self.deref(It(a.c, simp(a.i + i), a.rev), st)
        if isz(a) and a.sort() == S:
            return self.alloc(st, a) + ("c", i)
        raise Unsupported("subscript of " + type(a).__name__)

    # construction
    def ev_CXXConstructExpr(self, n, st, fr):
        t = self.ty(n)
        args = n.get("inner", []) or []
        return self.construct(t, n, args, st, fr)

    ev_CXXTemporaryObjectExpr = ev_CXXConstructExpr

    def is_copy_ctor(self, n):
        ct = n.get("ctorType", {}).get("qualType", "")
        return n.get("ctorType")

    def construct(self, t, n, args, st, fr):
        from . import lib
        if t.n in ("json::node", "json::writer") and "json:new" in self.libs:
            args = lib.real_args(args)
            avs = [self.ev(a, st, fr) for a in args]
            if st.dead:
                return iv(0)
            return Ptr(avs[0], F_) if t.n == "json::writer" else self.libs["json:new"](self, st, t, args, avs)
        if t.k == "record":
            if len(args) == 1:
                # copy/move construction
                at = self.ty(args[0])
                if at.k == "ref":
                    at = at.a[0]
                if at == t:
                    return self.rd(st, self.ev(args[0], st, fr))
            hc = self.contracts.get("ctor:" + t.n.split("::")[-1])
            if hc:
                avs = [self.ev_arg(a, st, fr) for a in args]
                if st.dead:
                    return Rec(t, {})
                return hc(self, st, t, avs, None)
            d, tu = self.record(t.n)
            ctor = self.find_ctor(d, tu, n, len(args))
            if ctor is not None:
                c2 = tu.canon_fn.get(ctor["id"], ctor)
                if tu.body(c2) is not None or any(x.get("kind") == "CXXCtorInitializer" for x in c2.get("inner", [])):
                    avs = [self.ev_arg(a, st, fr) for a in args]
                    if st.dead:
                        return Rec(t, {})
                    obj = self.alloc(st, self.uninit_record(t))
                    self.call_fn(c2, obj, avs, st, n)
                    if st.dead:
                        return Rec(t, {})
                    return st.mem[obj.base]
            if not args:
                return self.default_record(t, st)
            h = lib.ctor(self, t, n, args, st, fr)
            if h is not NotImplemented:
                return h
            raise Unsupported("constructor of " + t.n)
        return lib.construct(self, t, n, args, st, fr)

    def construct_into(self, e, target, st, fr):
        v = self.rd(st, self.ev(e, st, fr))
        if isinstance(v, Rec):
            cur = self.read(st, target)
            for k, x in v.f.items():
                if k in cur.f:
                    cur = cur.with_(k, x)
            self.write(st, target, cur)

    def ev_arg(self, a, st, fr):
        if a.get("kind") == "CXXDefaultArgExpr":
            if a.get("inner"):
                return self.ev(a["inner"][0], st, fr)
            return None
        return self.ev(a, st, fr)

    def find_ctor(self, d, tu, n, nargs):
        ct = n.get("ctorType", {}).get("qualType")
        for c in d.get("inner", []):
            if c.get("kind") == "CXXConstructorDecl" and c.get("type", {}).get("qualType") == ct:
                return c
            if c.get("kind") == "FunctionTemplateDecl":
                for x in c.get("inner", []):
                    if x.get("kind") == "CXXConstructorDecl" and x.get("type", {}).get("qualType") == ct:
                        return x
        return None

    def ev_CXXDefaultArgExpr(self, n, st, fr):
        if n.get("inner"):
            return self.ev(n["inner"][0], st, fr)
        return None

    # calls
    def ev_CallExpr(self, n, st, fr):
        callee = n["inner"][0]
        args = n["inner"][1:]
        c = self.strip(callee)
        if c["kind"] == "DeclRefExpr":
            rd = c["referencedDecl"]
            if rd["kind"] in ("FunctionDecl", "CXXMethodDecl"):
                return self.call_named(rd, args, n, st, fr)
            # variable holding a function/closure
            v = self.rd(st, self.ev(c, st, fr))
            avs = [self.ev_arg(a, st, fr) for a in args]
            if isinstance(v, (Clo, FnV)):
                return self.call_closure(v, avs, st)
            raise Unsupported("call through " + type(v).__name__)
        v = self.rd(st, self.ev(c, st, fr))
        if isinstance(v, (Clo, FnV)):
            return self.call_closure(v, [self.ev_arg(a, st, fr) for a in args], st)
        raise Unsupported("indirect call")

    def strip(self, n):
        while n["kind"] in ("ImplicitCastExpr", "ParenExpr", "ExprWithCleanups", "ConstantExpr"):
            n = n["inner"][0]
        return n

    def user_fn(self, tu, rd):
        """function declared in /repo?"""
        d = tu.byid.get(rd["id"])
        if d is not None and d.get("kind") in frontend.FUNCS:
            return d
        return None

    def cross_fn(self, rd, tu):
        """definition of a /repo function in another loaded TU (by name and type)"""
        nm = rd.get("name"); q = rd.get("type", {}).get("qualType")
        for t2 in self.tus:
            for f in t2.funcs:
                if f.get("name") == nm and t2.body(f) is not None and f.get("type", {}).get("qualType") == q:
                    return f
        return None

    def call_named(self, rd, args, n, st, fr):
        from . import lib
        tu = n["_tu"]
        d = self.user_fn(tu, rd)
        if d is not None:
            avs = [self.ev_arg(a, st, fr) for a in args]
            if st.dead:
                return iv(0)
            d2 = tu.canon_fn.get(d["id"], d)
            if tu.body(d2) is None and self.find_def(d2) is None:
                h = lib.user_missing(self, d2, avs, n, st, fr)
                if h is not NotImplemented:
                    return h
            return self.call_fn(d, None, avs, st, n)
        return lib.call_function(self, rd, args, n, st, fr)

    def call_any(self, rd, this, args, st, n):
        from . import lib
        for tu in self.tus:
            d = tu.byid.get(rd["id"])
            if d is not None and d.get("kind") in frontend.FUNCS and d.get("name") == rd.get("name"):
                return self.call_fn(d, this, args, st, n)
        return lib.call_values(self, rd.get("name"), args, st)

    def ev_CXXOperatorCallExpr(self, n, st, fr):
        from . import lib
        c = self.strip(n["inner"][0])
        args = n["inner"][1:]
        rd = c["referencedDecl"]
        tu = n["_tu"]
        d = self.user_fn(tu, rd)
        op = rd["name"]
        if d is not None and not (d.get("isImplicit") or d.get("explicitlyDefaulted")):
            if d["kind"] == "CXXMethodDecl":
                obj = self.ev(args[0], st, fr)
                if st.dead:
                    return iv(0)
                v = self.rd(st, obj)
                avs = [self.ev_arg(a, st, fr) for a in args[1:]]
                if isinstance(v, Clo):
                    return self.call_closure(v, avs, st)
                if not isinstance(obj, (LVal, IteL)):
                    obj = self.alloc(st, obj)
                return self.call_fn(d, obj, avs, st, n)
            avs = [self.ev_arg(a, st, fr) for a in args]
            if st.dead:
                return iv(0)
            d2 = tu.canon_fn.get(d["id"], d)
            if tu.body(d2) is None and self.find_def(d2) is None:
                h = lib.user_missing(self, d2, avs, n, st, fr)
                if h is not NotImplemented:
                    return h
            return self.call_fn(d, None, avs, st, n)
        return lib.operator_call(self, op, args, n, st, fr)

    def ev_CXXMemberCallExpr(self, n, st, fr):
        from . import lib
        m = n["inner"][0]
        while m["kind"] in ("ParenExpr", "ImplicitCastExpr"):
            m = m["inner"][0]
        args = n["inner"][1:]
        if m["kind"] != "MemberExpr":
            raise Unsupported("member call through " + m["kind"])
        tu = n["_tu"]
        objn = self.sub(m)
        obj = self.ev(objn, st, fr)
        if st.dead:
            return iv(0)
        if m.get("isArrow"):
            p = self.rd(st, obj)
            if not isinstance(p, Ptr):
                raise Unsupported("arrow call on " + type(p).__name__)
            obj = self.deref(p, st) if not self._is_this(objn) else p.l
        md = tu.byid.get(m.get("referencedMemberDecl"))
        if md is not None and md.get("kind") in frontend.FUNCS and not md.get("isImplicit"):
            avs = [self.ev_arg(a, st, fr) for a in args]
            if st.dead:
                return iv(0)
            if not isinstance(obj, (LVal, IteL)):
                obj = self.alloc(st, obj)
            d2 = tu.canon_fn.get(md["id"], md)
            if md.get("virtual") and tu.body(d2) is None:
                h = self.contracts.get("virtual:" + md.get("name", ""))
                if h:
                    return h(self, st, obj, avs, d2)
                raise Unsupported("virtual call " + md.get("name", ""))
            if tu.body(d2) is None and self.find_def(d2) is None:
                qn = d2.get("_qn", "")
                if not any(qn == s or qn.endswith("::" + s) for s in self.contracts):
                    h = lib.user_missing(self, d2, avs, n, st, fr, obj)
                    if h is not NotImplemented:
                        return h
            return self.call_fn(md, obj, avs, st, n)
        return lib.member_call(self, m["name"], obj, args, n, st, fr, m)

    def _is_this(self, n):
        n = self.strip(n)
        return n["kind"] == "CXXThisExpr"

    def ev_CXXNewExpr(self, n, st, fr):
        if n.get("isArray") and self.opts.get("buffers"):
            from . import bufs
            return bufs.new_array(self, st, self.ty(n).a[0], self.rd(st, self.ev(n["inner"][0], st, fr)), any(c.get("kind") in ("InitListExpr", "ImplicitValueInitExpr") for c in n["inner"][1:]))
        for c in n.get("inner", []):
            if c.get("kind") in ("CXXConstructExpr", "InitListExpr"):
                v = self.rd(st, self.ev(c, st, fr))
                return Ptr(self.alloc(st, v))
        raise Unsupported("new")

    def ev_CXXDeleteExpr(self, n, st, fr):
        return None

    def ev_CXXNoexceptExpr(self, n, st, fr):
        return T

    def ev_TypeTraitExpr(self, n, st, fr):
        return z3.BoolVal(bool(n.get("value")))

    def ev_OpaqueValueExpr(self, n, st, fr):
        return self.ev(self.sub(n), st, fr)

    def ev_CXXStaticInvoke(self, n, st, fr):
        raise Unsupported("static invoke")

    # ---------- visitors
    def apply_visitor(self, vis, var, st):
        """boost::apply_visitor / std::visit: dispatch on every alternative"""
        v = self.read(st, var)
        if isinstance(v, Opaque) and v.t == "recursive_variant" and self.rec_visitor is not None:
            return self.rec_visitor(st, self.rd(st, vis), v)
        if not isinstance(v, Var):
            raise Unsupported("apply_visitor on " + type(v).__name__)
        base = len(st.pc)
        outs, pays = [], []
        rem = st.copy()
        nalt = len(v.ts)
        for i in range(nalt):
            if rem.dead:
                break
            s1 = rem
            if i < nalt - 1:
                s1 = rem.copy()
                c = simp(v.tag == i)
                s1.assume(c)
                rem.assume(z3.Not(c))
            if s1.dead:
                continue
            p = self.visit_one(vis, var + ("a", i), v.ts[i], s1)
            outs.append(s1); pays.append(p)
        m, p = self.merge_states(outs, base, pays)
        st.become(m)
        return p

    def visit_one(self, vis, lv, t, st):
        vv = self.rd(st, vis)
        if isinstance(vv, Clo):
            return self.call_closure(vv, [lv], st)
        if not isinstance(vv, Rec):
            raise Unsupported("visitor " + type(vv).__name__)
        decl = self.find_method(vv.t, "operator()", [t])
        if decl is None:
            raise Unsupported("no visitor overload for %r in %r" % (t, vv.t))
        obj = vis if isinstance(vis, (LVal, IteL)) else self.alloc(st, vv)
        return self.call_fn(decl, obj, [lv], st)

    def find_method(self, t, name, ptys):
        d, tu = self.record(t.n)
        best = None
        for c in d.get("inner", []):
            cands = []
            if c.get("kind") == "CXXMethodDecl" and c.get("name") == name:
                cands = [c]
            elif c.get("kind") == "FunctionTemplateDecl" and c.get("name") == name:
                cands = [x for x in c.get("inner", []) if x.get("kind") == "CXXMethodDecl"]
            for x in cands:
                x2 = tu.canon_fn.get(x["id"], x)
                ps = tu.params(x)
                if len(ps) != len(ptys):
                    continue
                ok = True
                for p, w in zip(ps, ptys):
                    pt = self.ty(p)
                    if pt.k == "ref":
                        pt = pt.a[0]
                    if pt != w:
                        ok = False
                if ok and tu.body(x2) is not None:
                    if c.get("kind") == "CXXMethodDecl":
                        return x2
                    best = best or x2
        if best is None:
            for b in d.get("bases", []):
                bt = self.types[tu.uid].parse(b["type"].get("desugaredQualType") or b["type"]["qualType"])
                if bt.k == "record":
                    r = self.find_method(bt, name, ptys)
                    if r is not None:
                        return r
        return best


_symcache = {}


def symbols(e):
    """names of the uninterpreted constants/functions in e"""
    k = e.get_id()
    r = _symcache.get(k)
    if r is not None and r[0].eq(e):
        return r[1]
    out = set()
    todo = [e]
    seen = set()
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(d.name() + "/" + str(d.arity()))
            todo.extend(x.children())
        elif z3.is_quantifier(x):
            todo.append(x.body())
    fs = frozenset(out)
    _symcache[k] = (e, fs)
    return fs


def relevant(axioms, seeds):
    seen = set()
    for s in seeds:
        seen |= symbols(s)
    rest = [(a, symbols(a)) for a in axioms]
    out = []
    changed = True
    while changed:
        changed = False
        nr = []
        for a, sy in rest:
            # constants must connect; an axiom over shared function symbols only is kept when its constants are in the cone
            consts = {x for x in sy if x.endswith("/0")}
            if not sy or (consts and consts & seen) or (not consts and sy & seen):
                out.append(a)
                if not sy <= seen:
                    seen |= sy
                    changed = True
            else:
                nr.append((a, sy))
        rest = nr
    return out


def simp_sel(a, i):
    r = z3.Select(a, i)
    # cheap read-over-write on syntactically equal/different constants
    b = a
    while z3.is_store(b):
        j = b.arg(1)
        if j.eq(i):
            return b.arg(2)
        if z3.is_int_value(j) and z3.is_int_value(i) or (z3.is_string_value(j) and z3.is_string_value(i)):
            b = b.arg(0)
            continue
        return z3.Select(b, i)
    if z3.is_K(b):
        return b.arg(0)
    return z3.Select(b, i)

"""Shared vocabulary of the contracts."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import z3
from ncvc import frontend as F
from ncvc import lib, loops, solver
from ncvc.lib import Ty as _Ty
from ncvc.exec import Exec, State, Frame, Exc, T, F_, I, B, R, S, iv, sv, simp
from ncvc.types import Ty
from ncvc.values import *

AND, OR, NOT, IMP, IF = z3.And, z3.Or, z3.Not, z3.Implies, z3.If
P = "parser/fanuc/"


def msg_handler(ex, st, this, args, decl):
    """make_message(name, language, parts...): abstracted as an injective-by-arguments text function
    (its own contract is property C23)"""
    vals = [ex.rd(st, a) for a in args]
    return msg(ex, decl.get("name"), *vals)


def msg(ex, fn, name, lang, *parts):
    f = ex.ufn("%s_%d" % (fn, len(parts)), I, I, *([S] * len(parts) + [S]))
    ps = [lib.as_str(p) for p in parts]
    return f(name, lang, *ps)


class Ctx:
    """one contract verification context (one extraction, one executor)"""

    def __init__(self, title, files, safety=False, msgs=True, filt="parser::", root="parser"):
        self.title = title
        self.tus = [F.load(*f) if isinstance(f, tuple) else F.load(f, filt, root) for f in files]
        self.tu = self.tus[0]
        self.ex = Exec(self.tus)
        self.ex.safety = safety
        self.st = State()
        self.covers = []
        if msgs:
            for nm in ("make_message", "make_message2"):
                self.ex.contracts[nm] = msg_handler

    def ty(self, s):
        return self.ex.parse_ty(s, self.tu)

    def rec(self, s):
        t = self.ty(s)
        if t.k == "opaque":
            raise F.ExtractError("type %s not found" % s)
        return t

    def fresh(self, s, name):
        return self.ex.fresh(self.ty(s) if isinstance(s, str) else s, name)

    def loc(self, v):
        return self.ex.alloc(self.st, v)

    def enum(self, en, name):
        for tu in self.tus:
            for q, vals in tu.enums.items():
                if (q == en or q.endswith("::" + en)) and name in vals:
                    return iv(vals[name])
        raise F.ExtractError("enum %s::%s" % (en, name))

    def fn(self, name, **kw):
        for tu in self.tus:
            r = tu.find_fn(name, **kw)
            if r:
                if len(r) > 1:
                    raise F.ExtractError("ambiguous %s" % name)
                return r[0]
        raise F.ExtractError("no definition of %s" % name)

    def block(self, name="block"):
        """arbitrary block: vector<AttributeVariant>"""
        t = Ty("seq", [self.ty("AttributeVariant")])
        v = self.ex.fresh(t, name)
        self.ex.bounds.append(v.n)
        return v

    def elem(self, blk, k):
        return leafmap(lambda a: z3.Select(a, k), blk.e)

    def assume(self, c):
        self.st.assume(c)

    def call(self, fn, this, args, label=None):
        """symbolically execute; returns (normal state, value, [(state, exc)])"""
        ex = self.ex
        st = self.st.copy()
        if isinstance(fn, str):
            fn = self.fn(fn)
        ex.throws.append([])
        if this is not None and not isinstance(this, (LVal, IteL)):
            this = ex.alloc(st, this)
        r = ex.call_fn(fn, this, args, st)
        th = ex.throws.pop()
        return st, r, th

    def ensure(self, name, st, goal, kind="post"):
        self.ex.oblige(self.title + ": " + name, st, goal, kind)

    def ghost(self, name, init, step, blk):
        g = loops.Ghost(self.ex, name, init, step, lambda k: self.elem(blk, k), blk.n)
        self.ex.ghosts.append(g)
        return g

    def cover(self, name, st, extra=()):
        self.covers.append((self.title + ": " + name, list(st.pc) + list(extra)))

    def sticky(self, g, get, n):
        """lemma by induction over the fold: once the Boolean get(state) holds it holds at every later position.
        The induction step is an obligation; its consequence is then available at every loop iteration."""
        ex = self.ex
        k = z3.Int(ex.fresh_name("ind"))
        pre = leafmap(lambda l: z3.Const(ex.fresh_name("ind_s"), l.sort()), g.init)
        post = g.step(pre, g.elem(k))
        st = self.st.copy()
        st.assume(get(pre))
        self.ensure("lemma: '%s' is never undone" % g.name, st, get(post), "lemma")

        def hook(it):
            ex.axioms.append(IMP(AND(it >= 0, it + 1 <= n, get(g.at(simp(it + 1)))), get(g.at(n))))
            ex.axioms.append(IMP(AND(it >= 0, it <= n, get(g.at(it))), get(g.at(n))))
        ex.it_hooks.append(hook)

    def elem_pre(self, blk, f):
        """precondition on every element of a block (instantiated wherever an element is inspected)"""
        ex = self.ex
        ex.it_hooks.append(lambda it: ex.axioms.append(IMP(AND(it >= 0, it < blk.n), f(self.elem(blk, it)))))

    def only(self, th, *names):
        """every other exception is impossible; yields the exits by one of the named exceptions"""
        out = []
        for s, e in th:
            if e.ty is None or e.ty.split("::")[-1] not in names:
                self.ensure("no exception %s escapes" % e.ty, s, F_)
            else:
                out.append((s, e))
        return out

    def what(self, s, e):
        return self.ex.rd(s, e.val).f["$what"]

    def block_check(self, fn, this, args, blk, g, err, exc, text=None, label="", post=None):
        """fn(block) throws `exc` exactly when the specification fold flags an error"""
        ex = self.ex
        self.sticky(g, err, blk.n)
        st, r, th = self.call(fn, this, args)
        end = g.at(blk.n)
        if not st.dead:
            self.ensure(label + "returns normally only when the specification reports no error", st, NOT(err(end)))
            self.cover("normal return", st)
            if post is not None:
                post(st, end)
        elif True:
            ex.notes.append("no normal path in " + str(fn))
        seen = False
        for s, e in th:
            if e.ty is None or e.ty.split("::")[-1] != exc:
                self.ensure(label + "no exception other than %s (%s)" % (exc, e.ty), s, F_)
                continue
            seen = True
            self.ensure(label + "%s only when the specification reports an error" % exc, s, err(end))
            self.cover("throws " + exc, s)
            if text is not None:
                self.ensure(label + "message text", s, text(s, e))
        return st, th


def is_dec(e):
    return e.tag == 0


def dec(e):
    return e.alts[0].f


def opt_is(o, s):
    return AND(o.has, o.v == s)


def word_is(e, w):
    return AND(e.tag == 0, e.alts[0].f["word"] == sv(w))


def same(a, b):
    """the two values are identical: every leaf, maps and sequences included (extensional array equality)"""
    out = []
    leafmap(lambda x, y: (out.append(x == y), x)[1], a, b)
    return AND(out or [T])

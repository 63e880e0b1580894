"""String abstraction: texts become integers (distinct literals distinct numbers), string operations uninterpreted functions.

Sound for proving (a formula unsatisfiable for every interpretation of the operations is unsatisfiable for theirs);
a satisfiable abstraction says nothing and is always followed by the exact query."""
import z3

KINDS = {getattr(z3, n) for n in ("Z3_OP_SEQ_CONCAT", "Z3_OP_SEQ_EXTRACT", "Z3_OP_SEQ_INDEX", "Z3_OP_SEQ_LENGTH", "Z3_OP_SEQ_IN_RE", "Z3_OP_SEQ_CONTAINS", "Z3_OP_SEQ_PREFIX", "Z3_OP_SEQ_SUFFIX",
                                 "Z3_OP_SEQ_REPLACE", "Z3_OP_SEQ_AT", "Z3_OP_SEQ_NTH", "Z3_OP_STR_TO_INT", "Z3_OP_INT_TO_STR", "Z3_OP_SEQ_LAST_INDEX", "Z3_OP_STR_TO_CODE", "Z3_OP_STR_FROM_CODE", "Z3_OP_STRING_LT", "Z3_OP_STRING_LE") if hasattr(z3, n)}


S, I = z3.StringSort(), z3.IntSort()


class Abs:
    def __init__(self):
        self.cache = {}
        self.keep = []
        self.fns = {}
        self.lits = {}
        self.extra = []
        self.sorts = {}

    def srt(self, s):
        if s == S:
            return I
        if s.kind() == z3.Z3_ARRAY_SORT:
            return z3.ArraySort(self.srt(s.domain()), self.srt(s.range()))
        if s.kind() == z3.Z3_DATATYPE_SORT:
            for j in range(s.num_constructors()):
                c = s.constructor(j)
                for k in range(c.arity()):
                    if self.srt(c.domain(k)) != c.domain(k):
                        raise ValueError("text inside a key")
        return s

    def fn(self, name, dom, rng):
        k = (name, tuple(map(str, dom)), str(rng))
        if k not in self.fns:
            self.fns[k] = z3.Function("abs_%s_%d" % (name, len(self.fns)), *dom, rng)
        return self.fns[k]

    def lit(self, e):
        t = e.as_string()
        if t not in self.lits:
            self.lits[t] = z3.IntVal(len(self.lits))
        return self.lits[t]

    def __call__(self, e):
        cache = self.cache
        stack = [e]
        while stack:
            x = stack[-1]
            i = x.get_id()
            if i in cache:
                stack.pop(); continue
            if z3.is_string_value(x):
                cache[i] = self.lit(x); self.keep.append(x); stack.pop(); continue
            if z3.is_quantifier(x) and x.is_lambda():
                v = [z3.Const("bound!%d!%d" % (i, q), x.var_sort(q)) for q in range(x.num_vars())]
                mark = len(self.extra)
                body = self(z3.substitute_vars(x.body(), *reversed(v)))
                del self.extra[mark:]       # facts about the bound position are dropped (fewer assumptions)
                cache[i] = z3.Lambda([z3.Const("bound!%d!%d" % (i, q), self.srt(x.var_sort(q))) for q in range(x.num_vars())], body)
                self.keep.append(x); stack.pop(); continue
            if not z3.is_app(x):
                raise ValueError("quantifier")
            k = x.decl().kind()
            if x.num_args() == 0:
                r = x
                if k == z3.Z3_OP_UNINTERPRETED and self.srt(x.sort()) != x.sort():
                    r = z3.Const("abs!" + x.decl().name(), self.srt(x.sort()))
                cache[i] = r; self.keep.append(x); stack.pop(); continue
            ch = x.children()
            if k == z3.Z3_OP_SEQ_IN_RE:
                todo = [ch[0]] if ch[0].get_id() not in cache else []
            else:
                todo = [c for c in ch if c.get_id() not in cache]
            if todo:
                stack += todo
                continue
            if k == z3.Z3_OP_SEQ_IN_RE:
                r = self.fn("inre" + ch[1].sexpr(), [I], x.sort())(cache[ch[0].get_id()])
            else:
                args = [cache[c.get_id()] for c in ch]
                if k == z3.Z3_OP_SEQ_CONCAT:
                    r = self.cat([(z3.BoolVal(True), [])], ch)
                elif k in KINDS:
                    r = self.fn(x.decl().name(), [a.sort() for a in args], self.srt(x.sort()))(*args)
                    if k == z3.Z3_OP_SEQ_LENGTH:
                        self.extra.append(r >= 0)
                    elif k == z3.Z3_OP_SEQ_INDEX and z3.is_int_value(args[2]) and args[2].as_long() == 0:
                        # found from the start exactly when contained; texts are shorter than 2^63
                        self.extra.append(z3.And(r >= -1, r < 2 ** 63, (r >= 0) == self.fn("str.contains", [I, I], z3.BoolSort())(args[0], args[1])))
                    elif k == z3.Z3_OP_SEQ_EXTRACT:
                        ln = self.fn("str.len", [I], I)
                        self.extra.append(z3.Implies(z3.And(args[1] >= 0, args[2] >= 0, args[1] + args[2] <= ln(args[0])), ln(r) == args[2]))
                elif all(a.eq(c) for a, c in zip(args, ch)) and self.srt(x.sort()) == x.sort():
                    r = x
                elif k == z3.Z3_OP_UNINTERPRETED:
                    r = self.fn(x.decl().name(), [a.sort() for a in args], self.srt(x.sort()))(*args)
                elif k == z3.Z3_OP_EQ:
                    r = args[0] == args[1]
                elif k == z3.Z3_OP_ITE:
                    r = z3.If(*args)
                elif k == z3.Z3_OP_DISTINCT:
                    r = z3.Distinct(*args)
                elif k == z3.Z3_OP_SELECT:
                    r = z3.Select(*args)
                elif k == z3.Z3_OP_STORE:
                    r = z3.Store(*args)
                elif k == z3.Z3_OP_CONST_ARRAY:
                    r = z3.K(self.srt(x.sort().domain()), args[0])
                elif all(a.sort() == c.sort() for a, c in zip(args, ch)):
                    r = x.decl()(*args)
                else:
                    raise ValueError("abstraction of " + x.decl().name())
            cache[i] = r; self.keep.append(x); stack.pop()
        return cache[e.get_id()]

    def cat(self, _, ch):
        """concatenation in a normal form: flattened, adjacent literals joined, choices lifted outwards (bounded)"""
        self.budget = 16

        def lift(done, todo):
            while todo:
                c = todo[0]
                k = c.decl().kind() if z3.is_app(c) else None
                if k == z3.Z3_OP_SEQ_CONCAT:
                    todo = c.children() + todo[1:]
                elif k == z3.Z3_OP_ITE and self.budget > 0:
                    self.budget -= 1
                    return z3.If(self(c.arg(0)), lift(done, [c.arg(1)] + todo[1:]), lift(done, [c.arg(2)] + todo[1:]))
                elif z3.is_string_value(c):
                    a = c.as_string()
                    done = (done[:-1] + [done[-1] + a] if done and isinstance(done[-1], str) else done + [a]) if a else done
                    todo = todo[1:]
                else:
                    done = done + [self(c)]
                    todo = todo[1:]
            out = [self.lit(z3.StringVal(a)) if isinstance(a, str) else a for a in done]
            f = self.fn("cat", [I, I], I)
            r = out[-1] if out else self.lit(z3.StringVal(""))
            for a in reversed(out[:-1]):
                r = f(a, r)
            return r
        return lift([], list(ch))

    def all(self, es):
        return [self(e) for e in es] + self.extra

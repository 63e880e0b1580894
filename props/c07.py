"""C07 – macro expressions evaluate to their G-code arithmetic value."""
from .common import *
from . import macros as MM

FILES = [P + "ValueCalculator.cpp"]
ASSUME = ["the standard mathematical functions (std::sin, std::acos, std::exp ...) compute the functions of that name; doubles are treated as real numbers",
          "operands of AND OR XOR MOD lie in the int range, variable numbers and BCD/BIN arguments in the unsigned range",
          "the Boost.Spirit grammar that turns text into the expression tree is outside the verifier's reach (bounded companion)"]
BOUNDED = ["text -> expression tree (precedence, associativity, brackets): sampled expression texts with at most 12 operations"]
PI = z3.RealVal("3.141592653589793")
PREC = 2 ** 31


def setup(run, title):
    c = run.ctx(title, FILES)
    ex = c.ex
    OP = z3.DeclareSort("Opaque")
    val, bad, why = z3.Function("sem_value", OP, R), z3.Function("sem_bad", OP, B), z3.Function("sem_why", OP, S)

    def visit(st, vis, x):
        """induction hypothesis: visiting a sub-expression yields its value or reports its error"""
        s = st.copy()
        t = c.rec("eval_exception")
        ex.throw(st, Exc(t.n, ex.alloc(s, Rec(t, {"$what": why(x.d)})) if False else Rec(t, {"$what": why(x.d)})), bad(x.d))
        return val(x.d)
    ex.rec_visitor = visit
    m = c.fresh("macro_map", "macros")
    lang, line = z3.Int("lang"), z3.Int("line")
    ev = Rec(c.rec("eval"), {"macro_val": Ref(c.loc(m)), "language": lang, "line": line})
    return c, ex, (val, bad, why), m, lang, line, ev


def results(c, st, r, th):
    """(value on normal return, list of (state, text) of eval_exception exits)"""
    ex = c.ex
    out = [(s, c.what(s, e)) for s, e in c.only(th, "eval_exception")]
    return ex.rd(st, r) if not st.dead else None, out


def binary(run):
    c, ex, (val, bad, why), m, lang, line, ev = setup(run, "binary operation")
    x = c.fresh("operation", "x")
    lhs = z3.Real("lhs")
    op, rhs = x.f["operator_name"], val(x.f["operand"].d)
    isbad = bad(x.f["operand"].d)
    for v in (lhs, rhs):
        c.assume(AND(v > -PREC, v < PREC))
    l, r = lib.trunc(lhs), lib.trunc(rhs)
    fn = c.fn("eval::operator()", ptypes=["operation", "double"]) if False else [f for f in c.tu.find_fn("eval::operator()") if len(c.tu.params(f)) == 2][0]
    st, ret, th = c.call(fn, ev, [c.loc(x), lhs])
    v, exits = results(c, st, ret, th)
    bit = {n: ex.ufn("bit_" + n, I, I, I)(l, r) for n in ("and", "or", "xor")}
    table = {"+": lhs + rhs, "-": lhs - rhs, "*": lhs * rhs, "/": lhs / rhs, "AND": z3.ToReal(bit["and"]), "OR": z3.ToReal(bit["or"]), "XOR": z3.ToReal(bit["xor"])}
    for k, e in table.items():
        c.ensure("%s is evaluated" % k, st, IMP(op == sv(k), v == e))
    # MOD: remainder with the sign of the dividend
    ar = lib.m_abs(r)
    rem = IF(l >= 0, l % ar, -((-l) % ar))
    c.ensure("MOD leaves the remainder of truncated division, with the sign of the dividend", st, IMP(AND(op == sv("MOD"), r != 0, r != -1), v == z3.ToReal(rem)))
    c.ensure("MOD by minus one leaves nothing", st, IMP(AND(op == sv("MOD"), r == -1), v == 0))
    c.ensure("only known operators with a valid operand return", st, AND(NOT(isbad), OR([op == sv(k) for k in table] + [AND(op == sv("MOD"), r != 0)])))
    c.cover("returns", st)
    c.cover("MOD", st, [op == sv("MOD")])
    err = msg(ex, "make_message", c.enum("MessageName", "UnsupportedBinaryOperation"), lang, op)
    for s, t in exits:
        c.ensure("an error is the operand's, an unknown operator or a zero divisor", s, IF(isbad, t == why(x.f["operand"].d), AND(t == err, NOT(OR([op == sv(k) for k in table])), IMP(op == sv("MOD"), r == 0))))


def unary(run):
    c, ex, (val, bad, why), m, lang, line, ev = setup(run, "sign and variable")
    x = c.fresh("signed_type", "x")
    rhs = val(x.f["operand"].d)
    isbad = bad(x.f["operand"].d)
    sg = x.f["sign"]
    c.assume(IMP(sg == 35, AND(rhs >= 0, rhs < 2 * PREC)))
    fn = [f for f in c.tu.find_fn("eval::operator()") if "signed_type" in str(f.get("type", {}).get("qualType"))][0]
    st, ret, th = c.call(fn, ev, [c.loc(x)])
    v, exits = results(c, st, ret, th)
    has, mv = MM.mac(ex, m, lib.trunc(rhs), line)
    c.ensure("minus negates", st, IMP(sg == 45, v == -rhs))
    c.ensure("plus keeps", st, IMP(sg == 43, v == rhs))
    c.ensure("# reads the variable as of the line", st, IMP(sg == 35, AND(has, v == mv)))
    c.ensure("only known operators with a valid operand return", st, AND(NOT(isbad), OR(sg == 45, sg == 43, sg == 35)))
    for k in (45, 43, 35):
        c.cover(chr(k), st, [sg == k])
    e1 = msg(ex, "make_message", c.enum("MessageName", "ValueMissing"), lang, lib.to_string(ex, lib.trunc(rhs)))
    for s, t in exits:
        c.ensure("an error is the operand's, an unassigned variable or an unknown sign", s, IF(isbad, t == why(x.f["operand"].d), IF(sg == 35, AND(NOT(has), t == e1), AND(sg != 45, sg != 43))))


def function(run):
    c, ex, (val, bad, why), m, lang, line, ev = setup(run, "function")
    x = c.fresh("function_type", "x")
    rhs = val(x.f["operand"].d)
    isbad = bad(x.f["operand"].d)
    nm = x.f["name"]
    U = lambda n, a: ex.ufn("m_" + n, R, R)(a)
    enc, decd = ex.ufn("bcd_pack", I, I), ex.ufn("bcd_unpack", I, I)
    ex.contracts["uint32_to_bcd"] = lambda ex_, st, this, args, decl: enc(ex.rd(st, args[0]))
    ex.contracts["bcd_to_ui32"] = lambda ex_, st, this, args, decl: decd(ex.rd(st, args[0]))
    deg = rhs * PI / 180
    fl, ce = z3.ToReal(z3.ToInt(rhs)), -z3.ToReal(z3.ToInt(-rhs))
    sq = U("sqrt", rhs)
    table = {"abs": lib.m_abs(rhs), "acos": U("acos", rhs) * 180 / PI, "asin": U("asin", rhs) * 180 / PI, "atan": U("atan", rhs) * 180 / PI,
             "ceil": IF(rhs < 0, fl, ce), "floor": IF(rhs < 0, ce, fl), "cos": U("cos", deg), "sin": U("sin", deg), "tan": U("tan", deg),
             "cosh": U("cosh", deg), "sinh": U("sinh", deg), "tanh": U("tanh", deg), "exp": U("exp", rhs), "log10": U("log10", rhs), "log": U("log", rhs),
             "sqrt": sq, "round": lib.m_round(rhs)}
    fn = [f for f in c.tu.find_fn("eval::operator()") if "function_type" in str(f.get("type", {}).get("qualType"))][0]
    st, ret, th = c.call(fn, ev, [c.loc(x)])
    v, exits = results(c, st, ret, th)
    for k, e in table.items():
        c.ensure("%s is evaluated" % k, st, IMP(nm == sv(k), v == e))
        c.cover(k, st, [nm == sv(k)])
    c.ensure("bcd is evaluated", st, IMP(AND(nm == sv("bcd"), rhs >= 0, rhs < 2 ** 63), v == z3.ToReal(decd(z3.ToInt(rhs)))))
    c.ensure("bin is evaluated", st, IMP(AND(nm == sv("bin"), rhs >= 0, rhs < 2 ** 32), v == z3.ToReal(enc(z3.ToInt(rhs)))))
    c.ensure("only known functions of a valid operand return", st, AND(NOT(isbad), OR([nm == sv(k) for k in list(table) + ["bcd", "bin"]])))
    err = msg(ex, "make_message", c.enum("MessageName", "UnsupportedFunction"), lang, nm)
    for s, t in exits:
        c.ensure("an error is the operand's or an unknown function", s, IF(isbad, t == why(x.f["operand"].d), AND(t == err, NOT(OR([nm == sv(k) for k in list(table) + ["bcd", "bin"]])))))


def programme(run):
    """left-to-right folding of a chain of operations"""
    c, ex, (val, bad, why), m, lang, line, ev = setup(run, "operation chain")
    x = c.fresh("program", "x")
    rest = x.f["rest"]
    ex.bounds.append(rest.n)
    f = ex.ufn("apply_value", S, R, R, R)
    fb = ex.ufn("apply_bad", S, R, R, B)
    fw = ex.ufn("apply_why", S, R, R, S)
    t = c.rec("eval_exception")

    def step1(ex_, st, this, args, decl):
        if len(args) != 2:
            raise F.ExtractError("unexpected overload")
        o, l = ex.rd(st, args[0]), ex.rd(st, args[1])
        d = o.f["operand"].d
        b = OR(bad(d), fb(o.f["operator_name"], l, val(d)))
        ex.throw(st, Exc(t.n, Rec(t, {"$what": IF(bad(d), why(d), fw(o.f["operator_name"], l, val(d)))})), b)
        return f(o.f["operator_name"], l, val(d))
    real = ex.call_fn

    def call_fn(decl, this, args, st, node=None, ctor_of=None):
        if decl.get("_qn", "").endswith("eval::operator()") and len(args) == 2:
            return step1(ex, st, this, args, decl)
        return real(decl, this, args, st, node, ctor_of) if ctor_of is not None else real(decl, this, args, st, node)
    ex.call_fn = call_fn

    def step(s, e):
        d = e.f["operand"].d
        b = OR(bad(d), fb(e.f["operator_name"], s.f["v"], val(d)))
        return Rec(None, {"v": f(e.f["operator_name"], s.f["v"], val(d)), "bad": OR(s.f["bad"], b)})
    g = c.ghost("chain", Rec(None, {"v": val(x.f["first"].d), "bad": F_}), step, rest)
    c.sticky(g, lambda s: s.f["bad"], rest.n)
    fn = [q for q in c.tu.find_fn("eval::operator()") if "program" in str(q.get("type", {}).get("qualType"))][0]
    st, ret, th = c.call(fn, ev, [c.loc(x)])
    v, exits = results(c, st, ret, th)
    end = g.at(rest.n).f
    b0 = bad(x.f["first"].d)
    c.ensure("the chain is folded from left to right", st, v == end["v"])
    c.ensure("a value only when every part has one", st, AND(NOT(b0), NOT(end["bad"])))
    c.cover("returns", st)
    for s, w in exits:
        c.ensure("an error only when a part has one", s, OR(b0, end["bad"]))


def bcd(run):
    c = run.ctx("BCD packing", FILES)
    ex = c.ex
    ex.opts.update(unroll={"uint32_to_bcd": 10}, wrap=True)
    es = [z3.Int("e%d" % k) for k in range(10)]
    us = [z3.Int("n_div_10_%d" % k) for k in range(10)] + [iv(0)]      # us[k] = n div 10^k, es[k] = its last digit
    c.assume(us[0] < 2 ** 32)
    for k, d in enumerate(es):
        c.assume(AND(d >= 0, d <= 9, us[k] == 10 * us[k + 1] + d))
    for k in range(10):
        c.ensure("lemma: dividing drops digit %d" % k, c.st, AND(us[k] / 10 == us[k + 1], us[k] % 10 == es[k], us[k] >= 0), "lemma")
    for k in range(10):
        c.assume(AND(us[k] / 10 == us[k + 1], us[k] % 10 == es[k], us[k] >= 0))
    st, r, th = c.call("uint32_to_bcd", None, [us[0]])
    got = ex.rd(st, r)
    for k in range(10):                 # rewriting with the lemmas above
        got = z3.substitute(got, (us[k] / 10, us[k + 1]), (us[k] % 10, es[k]))
    for j in range(1, 11):
        c.ensure("the digits of a number of at most %d digits are packed four bits each" % j, st,
                 IMP(AND([us[k] == 0 for k in range(j, 11)] + [es[k] == 0 for k in range(j, 10)] + [us[k] > 0 for k in range(0, j) if k]), got == z3.Sum([es[k] * iv(16 ** k) for k in range(j)])))
    c.ensure("every number has at most ten digits", c.st, OR([AND([us[k] == 0 for k in range(j, 11)] + [es[k] == 0 for k in range(j, 10)] + [us[k] > 0 for k in range(0, j) if k]) for j in range(1, 11)]), "lemma")
    c.only(th)
    # unpacking, for every packed number of ten digits
    c = run.ctx("BCD unpacking", FILES)
    ex = c.ex
    ex.opts.update(unroll={"bcd_to_ui32": 16}, wrap=True)
    ds = [z3.Int("d%d" % k) for k in range(10)]
    bs = [z3.Int("rest%d" % k) for k in range(10)] + [iv(0)]           # bs[k] = packed digits k.. by definition
    for k, d in enumerate(ds):
        c.assume(AND(d >= 0, d <= 9, bs[k] == 16 * bs[k + 1] + d))
    num = z3.Sum([d * iv(10 ** k) for k, d in enumerate(ds)])
    for k in range(10):
        c.ensure("lemma: shifting drops digit %d" % k, c.st, AND(bs[k] / 16 == bs[k + 1], bs[k] % 16 == ds[k]), "lemma")
    c.assume(num < 2 ** 32)
    for k in range(10):
        c.assume(AND(bs[k] / 16 == bs[k + 1], bs[k] % 16 == ds[k]))
    st2, r2, th2 = c.call("bcd_to_ui32", None, [bs[0]])
    c.ensure("packed digits give back the number", st2, ex.rd(st2, r2) == num)
    c.only(th2)


PARTS = [("binary operators", binary), ("signs and variables", unary), ("functions", function), ("chains", programme), ("BCD", bcd)]


# ---------- bounded companion
FUN = ["ABS", "ACOS", "ASIN", "ATAN", "FUP", "COS", "COSH", "EXP", "FIX", "LOG10", "LOG", "SIN", "SINH", "SQRT", "TAN", "TANH", "ROUND", "BCD", "BIN"]
RULE = "seeded random expression trees printed to text, evaluated by the real calculator and by an independent evaluator; directed checks of every function and operator; non-trivial = has an operator"


class EvalError(Exception):
    pass


class Skip(Exception):
    pass


def frag(x, half=False):
    """values whose truncation hangs on the last bit of a transcendental function are not compared"""
    y = x - 0.5 if half else x
    if x == x and abs(x) < 1e300 and y != round(y) and abs(y - round(y)) < 1e-7 * max(1, abs(y)) or abs(x) > 2 ** 53:
        raise Skip()


def fn_eval(name, x):
    import math
    nan = float("nan")

    def dom(f, *a):
        try:
            return f(*a)
        except ValueError:
            return nan
        except OverflowError:
            return float("inf")
    r = math.radians
    if name in ("SIN", "COS", "TAN", "COSH", "SINH", "TANH") and not abs(x) < 1e6:
        raise Skip()
    if name in ("FIX", "FUP", "ROUND", "BCD", "BIN"):
        frag(x, name == "ROUND")
    if name in ("FIX", "FUP", "ROUND", "BCD", "BIN") and (math.isnan(x) or math.isinf(x)):
        raise Skip()
    if name == "ABS": return abs(x)
    if name == "ACOS": return dom(lambda: math.degrees(math.acos(x)))
    if name == "ASIN": return dom(lambda: math.degrees(math.asin(x)))
    if name == "ATAN": return math.degrees(math.atan(x))
    if name == "FUP": return math.copysign(math.ceil(abs(x)), x)
    if name == "FIX": return float(math.trunc(x))
    if name in ("COS", "SIN", "TAN") and math.isinf(x): return nan
    if name == "COS": return math.cos(r(x))
    if name == "SIN": return math.sin(r(x))
    if name == "TAN":
        if abs(math.tan(r(x))) > 1e9: raise Skip()
        return math.tan(r(x))
    if name == "COSH": return dom(math.cosh, r(x))
    if name == "SINH":
        v = dom(math.sinh, r(x)); return -v if math.isinf(v) and x < 0 else v
    if name == "TANH": return math.tanh(r(x))
    if name == "EXP": return dom(math.exp, x)
    if name in ("LOG", "LOG10"):
        if x == 0: return float("-inf")
        return dom(math.log if name == "LOG" else math.log10, x)
    if name == "SQRT": return dom(math.sqrt, x)
    if name == "ROUND": return math.copysign(math.floor(abs(x) + 0.5), x)
    if name == "BIN":
        if not 0 <= x < 2 ** 32: raise Skip()
        return float(int(str(int(x)), 16))
    if name == "BCD":
        if not 0 <= x < 2 ** 40: raise Skip()
        s = "%x" % int(x)
        if not s.isdigit() or int(s) >= 2 ** 32: raise Skip()
        return float(int(s))


def bin_eval(op, a, b, err):
    import math
    if op in ("AND", "OR", "XOR", "MOD"):
        if any(math.isnan(v) or abs(v) >= 2 ** 31 for v in (a, b)):
            raise Skip()
        frag(a); frag(b)
        a, b = math.trunc(a), math.trunc(b)
        if op == "MOD":
            if b == 0:
                raise EvalError(err("UnsupportedBinaryOperation", "MOD"))
            return math.copysign(abs(a) % abs(b), a)
        return float(a & b if op == "AND" else a | b if op == "OR" else a ^ b)
    try:
        return a + b if op == "+" else a - b if op == "-" else a * b if op == "*" else a / b
    except ZeroDivisionError:
        return float("nan") if a == 0 or a != a else math.copysign(float("inf"), a) * math.copysign(1, b)


def harness(h):
    import math
    from harness import build
    from harness.hx import hx, Tok, Msgs
    from .c06 import latest
    from .c08 import enc_macros
    rng = h.rng
    exe = build.tok()
    ms = Msgs(exe)

    def gen(depth):
        """factor -> (text, thunk)"""
        k = rng.random()
        if depth <= 0 or k < 0.4:
            s = rng.choice(["0", "1", "2", "3", "7", "12", "45", "90", "0.5", "2.5", "100", "255", "1000.125", ".25", "30"])
            return s, lambda env: float(s)
        if k < 0.5:
            i = rng.choice([1, 2, 5, 9])

            def rd(env):
                v = latest(env["mac"], i, env["line"])
                if v is None:
                    raise EvalError(env["err"]("ValueMissing", str(i)))
                return v
            return "#%d" % i, rd
        if k < 0.7:
            t, f = expr(depth - 1)
            o, c = rng.choice(["[]", "()", "[]"])
            return o + t + c, f
        if k < 0.8:
            t, f = gen(depth - 1)
            if not (t[0].isdigit() or t[0] == "."):
                return "-" + t, lambda env: -f(env)
            return "-" + t, lambda env: -f(env)
        n = rng.choice(FUN)
        t, f = expr(depth - 1)
        o, c = rng.choice(["[]", "()"])
        return n + o + t + c, lambda env: fn_eval(n, f(env))

    def chain(sub, ops, depth, p):
        t, f = sub(depth)
        items = []
        while rng.random() < p and len(items) < 3:
            op = rng.choice(ops)
            t2, f2 = sub(depth)
            sp = rng.choice(["", "", " "])
            t += sp + op + sp + t2
            items.append((op, f2))

        def ev(env):
            v = f(env)
            for op, g in items:
                v = bin_eval(op, v, g(env), env["err"])
            return v
        return t, (ev if items else f)

    def term(depth):
        return chain(gen, ["*", "/", "AND", "MOD"], depth, 0.35)

    def expr(depth):
        return chain(term, ["+", "-", "OR", "XOR"], depth, 0.45)

    def case(t, f, mac, lang, nontrivial=True):
        env = {"mac": mac, "line": 2 ** 31 - 1, "err": lambda n, a: ms.mk(n, lang, a)}
        try:
            exp = f(env)
            if isinstance(exp, complex):
                return None
        except EvalError as e:
            exp = e
        except Skip:
            return None

        def chk(o):
            q = Tok(o)
            ok, m, v = q.n(), q.s(), q.next()
            if isinstance(exp, EvalError):
                return None if not ok and m == exp.args[0] else {"expected refusal": exp.args[0], "got": [ok, m, v]}
            v = float(v)
            same = ok and (abs(v - exp) <= 1e-7 * max(1.0, abs(exp)) or (v != v and exp != exp) or v == exp)
            return None if same else {"expected": exp, "got": [ok, m, v]}
        return ("calc %d 1 %s %s" % (lang, enc_macros(mac), hx(t)), chk, "expression %r with variables %r" % (t, mac), nontrivial)
    cases = []
    for _ in range(h.n(6000)):
        t, f = expr(rng.choice([0, 1, 1, 2, 3]))
        if len(t) > 150:
            continue
        mac = {(i, rng.randint(0, 5)): rng.choice([1.0, -3.0, 0.5, 30.0, 7.0, 16.0]) for i in rng.sample([1, 2, 5, 9], rng.randint(0, 4))}
        q = case(t, f, mac, rng.randint(0, 1))
        if q:
            cases.append(q)
    # directed: every function and every operator
    for n in FUN:
        for x in [0, 1, -1, 0.5, -0.5, 2.4, 2.5, 2.6, -2.4, -2.5, -2.6, 10, 30, 45, 60, 89, 90, 180, 360, -45, 99, 100, 255, 1234, 4660, 123456789, 4294967295]:
            for s in (("%s[%s]" % (n, x)), ("%s(%s)" % (n, x))):
                q = case(s, lambda env, n=n, x=x: fn_eval(n, float(x)), {}, 0)
                if q:
                    cases.append(q)
    for op in ("+", "-", "*", "/", "AND", "OR", "XOR", "MOD"):
        for a in (0, 1, 7, 6.9, 12, 100, 2147483647, -7):
            for b in (0, 0.5, 1, 3, -3, -1, 5.5, 7, 4096):
                q = case("[%s]%s[%s]" % (a, op, b), lambda env, a=a, b=b, op=op: bin_eval(op, float(a), float(b), env["err"]), {}, 0)
                if q:
                    cases.append(q)
    # packing and unpacking are inverse
    for x in [0, 1, 9, 10, 99, 100, 65535, 99999999, 123456789, 4294967295] + [rng.randint(0, 2 ** 32 - 1) for _ in range(200)]:
        cases.append(case("BCD[BIN[%d]]" % x, lambda env, x=x: float(x), {}, 0))
    for t in ("1+", "[1+2", "SIN[", "2*", "#", "SIN", "-", "1 MOD"):
        def chk(o, t=t):
            q = Tok(o)
            ok, m = q.n(), q.s()
            return None if not ok and m else {"expected": "refused with a message", "got": [ok, m]}
        cases.append(("calc 0 1 0 " + hx(t), chk, "incomplete expression %r" % t, True))
    h.run(exe, cases, "ValueCalculator calls")
    h.bounds.append("expression texts of at most 150 characters, nesting at most 4")

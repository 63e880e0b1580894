"""C06 – a macro variable reads as its latest assignment at or before the line."""
from .common import *
from . import pipe, printing
from . import macros as MM

FILES = [P + "MacroEvaluatedCodeVerifier.cpp", P + "MacroEvaluator.cpp", P + "AllAttributesParser.cpp", P + "ValueCalculator.cpp", P + "CodeGroupsVerifier.cpp"]
ASSUME = ["std::map::lower_bound returns the first key not ordered before the argument (contract instantiated with the real comparator)",
          "a macro mark is followed by its number and digits of a number are well formed (grammar), so std::stoi succeeds",
          "std::to_string prints a number as digits, a point and six digits",
          "ValueCalculator::parse is used through its contract (C07)"]
SKIP = ("#", "=", "+", "-", "*", "/", ":", "N", "GOTO")


def oc(o):
    return IF(o.has, lib.as_str(o.v), sv(""))


def substitution(run):
    c = run.ctx("MacroEvaluatedCodeVerifier", FILES[:1])
    ex = c.ex
    ex.contracts["to_string_trunc"] = lambda ex_, st, this, args, decl: ex.ufn("trunc_text", R, S)(lib.to_real(ex.rd(st, args[0])))
    blk = c.block()
    lang, line = z3.Int("lang"), z3.Int("line")
    m = c.fresh("macro_map", "macros")
    ops = c.fresh(Ty("seq", [Ty("string")]), "ops")
    ex.bounds.append(ops.n)
    mem = z3.Const("allowed", z3.ArraySort(S, B))
    wit = ex.ufn("allowed_at", S, I)
    # `allowed` is exactly the set of listed operations
    ex.find_hooks.append(lambda st, cl, r, end: ex.axiom(IMP(AND(r >= 0, r < ops.n), z3.Select(mem, z3.Select(ops.e, r)))))

    def listed(it):
        w = dec(c.elem(blk, it))["word"]
        ex.axiom(IMP(z3.Select(mem, w), AND(wit(w) >= 0, wit(w) < ops.n, z3.Select(ops.e, wit(w)) == w)))
        ex.index_instances.append(wit(w))
    ex.it_hooks.append(listed)
    c.elem_pre(blk, lambda e: IMP(AND(is_dec(e), dec(e)["macro"].has), AND(dec(e)["value"].has, lib.stoi_ok(ex, dec(e)["value"].v), lib.stoi_val(ex, dec(e)["value"].v) >= 0)))

    def step(s, e):
        d = dec(e)
        live = AND(is_dec(e), NOT(s.f["err"]))
        intr = OR(s.f["intr"], AND(live, NOT(OR([d["word"] == sv(w) for w in SKIP])), NOT(z3.Select(mem, d["word"]))))
        sub = AND(live, intr, d["macro"].has)
        has, val = MM.mac(ex, m, lib.stoi_val(ex, d["value"].v), line)
        head = z3.Concat(s.f["text"], d["word"], oc(d["sign"]), oc(d["open_bracket"]))
        body = IF(sub, ex.ufn("trunc_text", R, S)(val), z3.Concat(oc(d["value"]), oc(d["dot"]), oc(d["value2"])))
        return Rec(None, {"intr": intr, "mod": OR(s.f["mod"], AND(sub, has)), "err": OR(s.f["err"], AND(sub, NOT(has))),
                          "text": IF(AND(live, NOT(AND(sub, NOT(has)))), z3.Concat(head, body, oc(d["close_bracket"])), s.f["text"])})
    g = c.ghost("code", Rec(None, {"intr": F_, "mod": F_, "err": F_, "text": sv("")}), step, blk)
    c.sticky(g, lambda s: s.f["err"], blk.n)
    st, r, th = c.call("MacroEvaluatedCodeVerifier::operator()", Rec(c.rec("MacroEvaluatedCodeVerifier"), {}), [c.loc(ops), c.loc(m), line, c.loc(blk), lang])
    end = g.at(blk.n).f
    c.ensure("accepted only when every variable used in the block is assigned", st, NOT(end["err"]))
    c.ensure("each variable is replaced by its latest value, everything else is unchanged; nothing when no variable is used", st, ex.rd(st, r) == IF(end["mod"], end["text"], sv("")))
    c.cover("accepted", st)
    for s, e in c.only(th, "macro_evaluated_code_exception"):
        c.ensure("unset is reported only for an unassigned variable", s, end["err"])
        d = dec(c.elem(blk, ex.its[-1]))
        c.ensure("the unset variable is named", s, c.what(s, e) == msg(ex, "make_message", c.enum("MessageName", "MissingValue"), lang, z3.Concat(sv("#"), d["value"].v)))
        c.cover("unset", s)


def assignment(run):
    c = run.ctx("MacroEvaluator", FILES[1:2])
    ex = c.ex
    ok, val, m1 = ex.ufn("calc_ok", S, I, B), ex.ufn("calc_val", S, I, R), ex.ufn("calc_msg", S, I, S)
    blk = c.block()
    lang, line = z3.Int("lang"), z3.Int("line")
    m = c.fresh("macro_map", "macros")

    def calc(ex_, st, this, args, decl):
        t = ex.rd(st, args[0])
        mm = ex.rd(st, args[3])
        c.ensure("the expression is evaluated against the variables as they were before the block", st, AND(mm.dom == m.dom, mm.e == m.e), "pre")
        ln = ex.rd(st, args[6]) if len(args) > 6 else iv(2 ** 31 - 1)
        ex.write(st, args[4], IF(ok(t, ln), val(t, ln), ex.rd(st, args[4])))
        ex.write(st, args[1], IF(ok(t, ln), ex.rd(st, args[1]), m1(t, ln)))
        return ok(t, ln)
    ex.contracts["ValueCalculator::parse"] = calc
    ex.contracts["ValueCalculator::ValueCalculator"] = lambda ex_, st, this, args, decl: None
    c.elem_pre(blk, lambda e: IMP(AND(is_dec(e), dec(e)["word"] == sv("#"), dec(e)["value"].has), AND(lib.stoi_ok(ex, dec(e)["value"].v), lib.stoi_val(ex, dec(e)["value"].v) >= 0)))

    def step(s, e):
        d = dec(e)
        ishash = AND(is_dec(e), NOT(s.f["eq"]), d["word"] == sv("#"))
        eq = OR(s.f["eq"], AND(is_dec(e), NOT(ishash), s.f["macro"] != -1, d["word"] == sv("=")))
        tail = z3.Concat(oc(d["sign"]), oc(d["open_bracket"]), oc(d["macro"]), oc(d["value"]), oc(d["dot"]), oc(d["value2"]), oc(d["close_bracket"]))
        take = AND(is_dec(e), NOT(ishash), OR(s.f["eq"], s.f["macro"] != -1))
        return Rec(None, {"macro": IF(AND(ishash, d["value"].has), lib.stoi_val(ex, d["value"].v), s.f["macro"]), "eq": eq,
                          "text": IF(take, z3.Concat(s.f["text"], IF(s.f["eq"], d["word"], sv("")), tail), s.f["text"])})
    g = c.ghost("def", Rec(None, {"macro": iv(-1), "eq": F_, "text": sv("")}), step, blk)
    ml, sl = c.loc(m), c.loc(z3.String("msg0"))
    st, r, th = c.call("MacroEvaluator::evaluate", None, [ml, line, c.loc(blk), sl, z3.Bool("single"), lang])
    end = g.at(blk.n).f
    isdef = end["macro"] != -1
    good = AND(end["text"] != sv(""), ok(end["text"], line))
    k = MM.mkey(ex, m, end["macro"], line)
    now = ex.rd(st, ml)
    c.ensure("succeeds exactly when the block assigns nothing or its expression has a value as of this line", st, ex.tobool(ex.rd(st, r)) == OR(NOT(isdef), good))
    c.ensure("stores the value under exactly this variable and line, nothing else", st, AND(now.dom == IF(AND(isdef, good), z3.Store(m.dom, k, T), m.dom), now.e == IF(AND(isdef, good), z3.Store(m.e, k, val(end["text"], line)), m.e)))
    c.ensure("a refused definition is explained", st, IMP(AND(isdef, end["text"] == sv("")), ex.rd(st, sl) == msg(ex, "make_message", c.enum("MessageName", "WrongMacroDefinition"), lang, lib.to_string(ex, end["macro"]))))
    c.ensure("an expression without a value keeps the calculator's explanation", st, IMP(AND(isdef, end["text"] != sv(""), NOT(ok(end["text"], line))), ex.rd(st, sl) == m1(end["text"], line)))
    c.cover("assigned", st, [isdef, good])
    c.only(th)


PARTS = [("key order", lambda run: MM.key_order(run, FILES[1:2])), ("lookup is the latest assignment", lambda run: MM.lookup_lemma(run, FILES[1:2])),
         ("substitution in the block", substitution), ("value printed", printing.printed(FILES[:1])), ("assignment", assignment), pipe.part_for("macro")]
ASSUME += pipe.PIPE_ASSUME


# ---------- bounded companion
def latest(mac, i, line):
    ls = [l for (k, l) in mac if k == i and l <= line]
    return mac[(i, max(ls))] if ls else None


class Unset(Exception):
    pass


def harness(h):
    from harness import build
    from harness.hx import D, St, hx, enc_block, Msgs, fmt_trunc
    from harness.sess import Cfg, sess, parse, chunks, res
    from .c08 import enc_macros, parse_macros
    rng = h.rng
    exe, tokx = build.parser(), build.tok()
    ms = Msgs(tokx)
    cfg = Cfg("fanuc_mill")
    ids = [1, 2, 3, 33, 100, 101, 500, 999]
    # histories of assignments on arbitrary lines (documents are edited), read back through the real parser
    cases = [(cfg.line(), lambda o: None, "configuration", False)]
    for _ in range(h.n(600)):
        mac = {}
        ops, want, txt = [], [], []
        lang = rng.randint(0, 1)
        pool = rng.sample(ids, rng.choice([1, 2, 3, 5]))
        maxl = rng.choice([3, 6, 40])

        def rd(i, line):
            v = latest(mac, i, line)
            if v is None:
                raise Unset(ms.mk("ValueMissing", lang, str(i)))
            return v
        for _ in range(rng.choice([2, 4, 8, 20])):
            line = rng.randint(1, maxl)
            i, j = rng.choice(pool), rng.choice(pool)
            n = rng.choice([0, 1, 7, 2.5, 0.125, 1234])
            k = rng.random()
            try:
                if k < 0.35:
                    t, v = "#%d=%s" % (i, n), float(n)
                elif k < 0.5:
                    t, v = "#%d=#%d" % (i, j), None
                    v = rd(j, line)
                elif k < 0.6:
                    t, v = "#%d=#%d+%s" % (i, j, n), None
                    v = rd(j, line) + n
                elif k < 0.68:
                    a = lambda: "#%d" % rng.choice(pool) if rng.random() < 0.6 else str(n)

                    def ex_(d=0):
                        x = rng.choice(["%s", "-%s", "+%s"])
                        b = "[%s]" % ex_(d + 1) if d < 2 and rng.random() < 0.45 else a()
                        x = x % b
                        for _ in range(rng.choice([0, 0, 1, 2])):
                            x += rng.choice("+-*") + ("[%s]" % ex_(d + 1) if d < 2 and rng.random() < 0.3 else a())
                        return x
                    e = ex_()
                    t, v = "#%d=%s" % (i, e), None
                    v = float(pyval(e, rd, line))
                elif k < 0.7:
                    t, v = "#%d=[#%d*2]-#%d" % (i, j, i), None
                    v = rd(j, line) * 2 - rd(i, line)
                elif k < 0.8:
                    t, v = "#%d=-#%d" % (i, j), None
                    v = -rd(j, line)
                else:
                    t = "X#%d" % j
                    v = latest(mac, j, line)
                    want.append((v is not None, "" if v is not None else ms.mk("MissingValue", lang, "#%d" % j)))
                    ops.append(parse(line, t)); txt.append((line, t))
                    continue
                if abs(v) > 4000 or abs(v * 1000 - round(v * 1000)) > 1e-9:       # keep every number inside the format of the words that use it
                    t, v = "#%d=%s" % (i, n), float(n)
                mac[(i, line)] = v
                want.append((True, ""))
            except Unset as e:
                want.append((False, e.args[0]))
            ops.append(parse(line, t)); txt.append((line, t))
        ops.append("macros")

        def chk(o, want=want, mac=dict(mac), txt=txt):
            cs = chunks(o)
            for w, c, t in zip(want, cs, txt):
                r = res(c)
                if r[:2] != w:
                    return {"line": t, "expected": w, "got": r[:2]}
            got = parse_macros(cs[-1])
            if set(got) != set(mac) or any(abs(got[k] - mac[k]) > 1e-9 * max(1, abs(mac[k])) for k in mac):
                return {"expected variables": sorted(mac.items()), "got": sorted(got.items())}
        cases.append((sess(cfg, ops, lang=lang, plain=1), chk, "lines in this order (line number, text): %r" % txt))
    h.run(exe, cases, "sessions on AllAttributesParser")
    # resetting
    cases = [(cfg.line(), lambda o: None, "configuration", False)]
    for init in (0, 1):
        def chk(o, init=init):
            got = parse_macros(chunks(o)[-1])
            exp = {(3101, -1): 3.141592653589793, (3102, -1): 2.718281828459045} if init else {}
            return None if got == exp else {"expected": exp, "got": got}
        cases.append((sess(cfg, [parse(3, "#1=2"), "mreset %d" % init, "macros"], plain=1), chk, "assign then reset(init=%d)" % init))
    h.run(exe, cases, "reset")
    # substitution in a block
    cases = []
    wordsx = ["G", "X", "M", "F", "#", "=", "+", "-", "*", "/", ":", "N", "GOTO", "SIN", "IF", "EQ", "[", "A"]
    for _ in range(h.n(2500)):
        lang, line = rng.randint(0, 1), rng.randint(0, 9)
        ops_ = rng.sample(["SIN", "IF", "EQ", "MOD", "AND"], rng.randint(0, 4))
        mac = {(rng.choice(ids[:4]), rng.randint(-1, 10)): rng.choice([0.0, 1.0, -2.5, 1 / 3, 1000000.0, 3.14159265, 0.0000001]) for _ in range(rng.choice([0, 1, 3, 6, 12]))}
        blk = []
        for _ in range(rng.choice([0, 1, 2, 3, 5, 8])):
            if rng.random() < 0.06:
                blk.append(St("(", "X#1")); continue
            m = rng.random() < 0.4
            blk.append(D(rng.choice(wordsx), macro="#" if m else None, value=str(rng.choice(ids[:4])) if m or rng.random() < 0.9 else None, sign=rng.choice([None, None, "-", "+"]),
                         open=rng.choice([None, None, None, "[", "[["]), close=rng.choice([None, None, None, "]"]), dot=None if m else rng.choice([None, "."]), value2=None))
        out, intr, mod, err = "", False, False, None
        for e in blk:
            if not isinstance(e, D):
                continue
            if e.word not in SKIP and e.word not in ops_:
                intr = True
            out += e.word + (e.sign or "") + (e.open or "")
            if intr and e.macro:
                v = latest(mac, int(e.value), line)
                if v is None:
                    err = ms.mk("MissingValue", lang, "#" + e.value); break
                out += fmt_trunc(v); mod = True
            else:
                out += (e.value or "") + (e.dot or "") + (e.value2 or "")
            out += e.close or ""
        exp = "ex macro_evaluated_code_exception " + hx(err) if err else "ok " + hx(out if mod else "")
        from harness.hx import expect
        cases.append(("mecv %d %d %d %s %s %s" % (lang, line, len(ops_), " ".join(map(hx, ops_)), enc_macros(mac), enc_block(blk)), expect(" ".join(exp.split())), "line %d operations %r variables %r block %r" % (line, ops_, mac, blk), mod or bool(err)))
    h.run(tokx, cases, "MacroEvaluatedCodeVerifier calls")
    h.bounds.append("histories of at most 20 lines over at most 8 variables; blocks of at most 8 words")


def pyval(e, rd, line):
    """value of an expression over + - * [ ] and variables, read left to right like the language"""
    import re
    return eval(re.sub(r"#(\d+)", lambda m: "(rd(%s, line))" % m.group(1), e).replace("[", "(").replace("]", ")"), {"rd": rd, "line": line})


RULE = "seeded histories of assignments on arbitrary lines through the real parser, and component calls, against an executable model; non-trivial = every history"

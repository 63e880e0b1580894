"""C13 – format and range of a word's value; the verdict on a line does not depend on earlier lines."""
from .common import *

from . import pipe

FILES = [P + "AllAttributesParserGrammar.cpp"]
ASSUME = ["std::stoi of a digit sequence is the non-negative number it denotes (checked against the library by the bounded harness); longer than an int it throws, which the parser reports as a rejected line",
          "the Spirit grammar calls the checked semantic action for every numeric word it recognises and fails where the action sets _pass to false (the grammar expression templates themselves are outside the verifier's reach; bounded harness)"]


def rng(g, v):
    return AND(v >= g["range_from"], v <= g["range_to"])


def words(run):
    c = run.ctx("verify_range", FILES)
    ex = c.ex
    ex.opts["abstract_strings"] = True
    lang = z3.Int("lang")
    table = c.fresh("word_map", "table")
    d0 = c.fresh("DecimalAttributeData", "word")
    st0 = c.fresh("status", "st")
    m0 = z3.String("message")
    d, s0 = d0.f, st0.f
    g = leafmap(lambda a: z3.Select(a, d["word"]), table.e).f
    known = z3.Select(table.dom, d["word"])
    hg = leafmap(lambda a: z3.Select(a, d["macro"].v), table.e).f
    hknown = z3.Select(table.dom, d["macro"].v)
    iVal = lambda o: lib.stoi_val(ex, o.v)
    for o in ("value", "value2"):
        c.assume(IMP(AND(d[o].has, lib.stoi_ok(ex, d[o].v)), iVal(d[o]) >= 0))     # digits only
    for o in ("open_bracket", "close_bracket"):
        c.assume(IMP(d[o].has, z3.Length(d[o].v) < 2 ** 31))     # a line is shorter than 2^31 characters
    w = d["word"]
    sz = lambda o: IF(o.has, z3.Length(o.v), iv(0))
    op = OR(*[w == sv(x) for x in "+-*/"])
    calc = OR(op, w == sv("="))
    open1, close1 = s0["open_bracket"] + sz(d["open_bracket"]), s0["close_bracket"] + sz(d["close_bracket"])
    mac1 = OR(s0["was_macro"], w == sv("#"))
    eq1 = OR(s0["was_macro_equal"], AND(w != sv("#"), s0["was_macro"], w == sv("=")))
    v = IF(AND(d["sign"].has, d["sign"].v == iv(ord("-"))), -iVal(d["value"]), iVal(d["value"]))
    hv = iVal(d["value"])
    M = lambda n, *a: z3.Concat(m0, msg(ex, "make_message", c.enum("MessageName", n), lang, *a))
    ts = lambda x: lib.to_string(ex, x)
    word = g["word"]
    notin = lambda gg, x: M("ValueNotInRange", ts(x), ts(gg["range_from"]), ts(gg["range_to"]), gg["word"])
    # (applies, accepted, message) in order of precedence
    rules = []
    rule = lambda when, ok, text: rules.append((when, ok, text))
    rule(NOT(known), T, m0)
    rule(AND(d["close_bracket"].has, open1 < close1), F_, M("NonMatchingCloseBracket"))
    rule(AND(d["macro"].has, NOT(d["value"].has)), F_, M("ValueMissingForHash"))
    huge = AND(d["macro"].has, NOT(lib.stoi_ok(ex, d["value"].v)))
    rule(huge, F_, None)
    rule(d["macro"].has, OR(NOT(hknown), rng(hg, hv)), notin(hg, hv))
    skip = AND(w == sv("/"), NOT(mac1))
    rule(AND(skip, d["value"].has, OR(hv < 1, hv > 9)), F_, M("ValueNotInRangeForOptionalBlock", ts(hv)))
    rule(skip, NOT(OR(d["sign"].has, d["dot"].has, d["value2"].has)), M("ForbiddenCharsInOptionalBlock"))
    rule(AND(d["value"].has, NOT(rng(g, v))), F_, notin(g, v))
    rule(AND(d["value"].has, op, open1 > 0), T, m0)
    rule(AND(d["value"].has, op, NOT(AND(mac1, eq1))), F_, m0)
    whole = g["decimal_to"] == 0
    rule(AND(d["value"].has, whole), NOT(d["dot"].has), M("ExpectedInteger", word))
    need = OR(open1 != 0, calc)
    rule(AND(NOT(d["value"].has), whole), need, M("ValueMissing", word))
    rule(AND(d["value"].has, NOT(d["value2"].has)), T, m0)
    rule(NOT(d["value2"].has), need, M("ValueMissing", word))
    rule(OR(NOT(d["dot"].has), d["dot"].v != iv(ord("."))), F_, M("DecimalSeparatorMissing", word))
    v2 = iVal(d["value2"])
    rule(T, AND(v2 >= g["decimal_from"], v2 <= g["decimal_to"]), M("ValueAfterDecimalSeparatorNotInRange", d["value2"].v, ts(g["decimal_from"]), ts(g["decimal_to"]), word))
    okx, texts, before = F_, [], []
    for when, ok, text in rules:
        here = AND(when, *[NOT(b) for b in before]) if before else when
        okx = OR(okx, AND(here, ok))
        texts.append((here, ok, text))
        before.append(when)
    c.assume(AND(g["decimal_from"] >= 0, g["decimal_to"] >= 0, s0["open_bracket"] >= 0, s0["close_bracket"] >= 0))
    ml, sl = c.loc(m0), c.loc(st0)
    st, r, th = c.call(c.fn("verify_range", nparams=5, ptypes=["word_map", "basic_string"]), None, [c.loc(table), c.loc(d0), ml, lang, sl])
    ret = ex.tobool(ex.rd(st, r)) if not z3.is_expr(r) else ex.tobool(r)
    c.ensure("a word is accepted exactly when its format and range allow it", st, ret == okx)
    c.ensure("the message names the violated rule and is untouched on acceptance", st,
             AND(*[IMP(here, ex.rd(st, ml) == IF(ok, m0, text)) for here, ok, text in texts if text is not None]))
    n = ex.rd(st, sl).f
    dropped = AND(known, op, NOT(skip), NOT(d["macro"].has), d["value"].has, rng(g, v), open1 > 0, NOT(AND(d["close_bracket"].has, open1 < close1)))
    c.ensure("brackets and the assignment mark of the line are carried on", st,
             AND(n["open_bracket"] == IF(dropped, open1 - sz(d["close_bracket"]), open1), n["was_macro"] == IF(known, mac1, s0["was_macro"]),
                 n["was_macro_equal"] == IF(known, eq1, s0["was_macro_equal"]), n["close_bracket"] == IF(known, IF(dropped, close1 - sz(d["close_bracket"]), close1), s0["close_bracket"])))
    c.cover("accepted", st, [ret])
    c.cover("rejected", st, [NOT(ret)])
    for s, e in c.only(th, "invalid_argument", "out_of_range"):
        c.ensure("only a number too long for an int escapes, as an exception the parser reports", s, OR(*[AND(d[o].has, NOT(lib.stoi_ok(ex, d[o].v))) for o in ("value", "value2")]))


def fresh_line(run):
    c = run.ctx("all_attributes_grammar::clear_message", FILES)
    ex = c.ex
    t = None
    for tu in c.tus:
        for q, rec in tu.records.items():
            if "all_attributes_grammar<" in q:
                t = q
    g = Rec(Ty("grammar"), {"message": z3.String("message"), "st": c.fresh("status", "st")})
    l = c.loc(g)
    fns = [f for f in c.tu.find_fn("clear_message") if 1]
    if not fns:
        fns = [f for f in c.tu.funcs if f["_qn"].endswith("::clear_message") and "<" in f["_qn"] and c.tu.body(f) is not None]
    st, r, th = c.call(fns[-1], l, [])
    n = ex.rd(st, l)
    s = n.f["st"].f
    c.ensure("a line starts without message, open brackets or assignment mark", st, AND(n.f["message"] == sv(""), s["open_bracket"] == 0, s["close_bracket"] == 0, NOT(s["was_macro"]), NOT(s["was_macro_equal"])))
    c.cover("called", st)


PARTS = [("verify_range", words), ("line start", fresh_line), pipe.part_for("clear", "parse", "reparse", "select2", "select", general=True)]
ASSUME += pipe.PIPE_ASSUME


# ---------- bounded companion

def verdict(g, sign, ip, dot, frac):
    """documented format rules for a literal value of word g outside brackets"""
    if ip:
        v = int(ip) * (-1 if sign == "-" else 1)
        if int(ip) > 2 ** 31 - 1:
            return False, None
        if not g["range_from"] <= v <= g["range_to"]:
            return False, ("ValueNotInRange", str(v), str(g["range_from"]), str(g["range_to"]), g["word"])
        if g["decimal_to"] == 0:
            return (False, ("ExpectedInteger", g["word"])) if dot else (True, None)
        if not frac:
            return True, None
    else:
        if g["decimal_to"] == 0 or not frac:
            return False, ("ValueMissing", g["word"])
    if not dot:
        return False, ("DecimalSeparatorMissing", g["word"])
    if int(frac) > 2 ** 31 - 1:
        return False, None
    if not g["decimal_from"] <= int(frac) <= g["decimal_to"]:
        return False, ("ValueAfterDecimalSeparatorNotInRange", frac, str(g["decimal_from"]), str(g["decimal_to"]), g["word"])
    return True, None


def harness(h):
    from harness import build, sess as S_
    from harness.hx import Msgs, run_lines, hx, fmt_trunc
    exe = build.parser()
    ms = Msgs(build.tok())
    rng = h.rng
    cfgs = [S_.Cfg(d) for d in S_.DRV]
    for i in range(6):
        c = S_.Cfg(rng.choice(S_.DRV)); c.drv = "rnd%d" % i
        for t in (c.metric, c.imperial):
            for w in t.values():
                if w["type"] in ("misc", "length", "feed", "angle", "code", "numbering") and w["word"].isalpha() and len(w["word"]) == 1:
                    a = rng.choice([0, 1, -1, 5, -9999, rng.randint(-99999, 99999)])
                    w["range_from"], w["range_to"] = a, a + rng.choice([0, 1, 10, 999, rng.randint(0, 99999)])
                    w["decimal_from"] = rng.choice([0, 0, 0, 1, 5])
                    w["decimal_to"] = rng.choice([0, 0, w["decimal_from"], 9, 999, 9999, 99999999])
        cfgs.append(c)
    for c in cfgs:
        for w in list(c.metric) + list(c.imperial):
            for t in (c.metric, c.imperial):
                if w in t:
                    t[w].setdefault("word", w)
    letters = {c.drv: [w for w in c.metric if len(w) == 1 and w.isalpha() and c.metric[w]["type"] != "assignable" and w not in "%O/"] for c in cfgs}
    assign = {c.drv: [w for w in c.metric if c.metric[w]["type"] == "assignable"] for c in cfgs}

    def value(g):
        ip = rng.choice([str(abs(x)) for x in (g["range_from"], g["range_to"], g["range_from"] - 1, g["range_to"] + 1)] + ["", "0", "00", "007", "1", str(rng.randint(0, 99999)), str(rng.randint(0, 9)), "2147483647", "99999999999"])
        sign = rng.choice(["", "", "", "-", "-", "+"])
        dot, frac = rng.choice([("", ""), ("", ""), (".", ""), (".", "f"), (".", "f")])
        if frac:
            frac = rng.choice([str(g["decimal_to"]), str(g["decimal_to"] + 1), str(max(0, g["decimal_from"] - 1)), str(g["decimal_from"]), "0", "00", "5", "0001", str(rng.randint(0, 99999)), "99999999999"])
        return sign, ip, dot, frac
    junk = ["#1=[1+2", "G1 X[1", "#2=5 G1", "G0 X[[1+2]", "/ G1", "(abc) G1", "#5=#6=7", "X1]", "G1 X1 Y2", "N10 G0 X1.5", "%", "O1234", "??", "M999999", "#1=3*[2+4]", "#7=+", "S[", "T1 M6", "/2 N5 G1", "G1 X+", "+5", "#3=-2 *3"]
    lines, todo = [], []
    for c in cfgs:
        lines.append(c.line()); todo.append(None)
    n = h.n(700)
    for i in range(n):
        c = rng.choice(cfgs)
        ops, want = [], []
        lang = rng.randint(0, 1)
        for _ in range(rng.randint(1, 6)):
            k = rng.random()
            if k < 0.25:
                ops.append(S_.parsef(S_.flags(macro=0), 1, rng.choice(junk))); want.append(None)
                continue
            if k < 0.45:
                # the value comes from a macro variable
                w = rng.choice([x for x in letters[c.drv] if x != "N" and not any(y.startswith(x) for y in assign[c.drv])]); g = c.metric[w]
                d = rng.choice([g["range_from"], g["range_to"], g["range_from"] - 1, g["range_to"] + 1, rng.randint(-99, 9999), 0, 1.5, -1.5, 0.25, 12.125, rng.randint(-999, 999) / 8])
                t = fmt_trunc(float(d))
                if abs(int(d)) > 99999:
                    continue
                s_, b = ("-", t[1:]) if t.startswith("-") else ("", t)
                ip, _, fr = b.partition(".")
                ok, m = verdict(g, s_, ip, "." in b, fr)
                ops.append(S_.parsef(S_.flags(groups=0), 1, "#1=" + (t if not t.startswith("-") else "-" + t[1:]))); want.append(("set", None, t))
                hg = c.metric.get("#")
                ops.append(S_.parsef(S_.flags(groups=0), 2, w + "#1")); want.append((ok, None, "%s#1 with #1=%s" % (w, t)))
                continue
            ws = rng.sample(letters[c.drv], rng.randint(1, min(4, len(letters[c.drv]))))
            text, allok, first = "", True, None
            for w in ws:
                if rng.random() < 0.1 and assign[c.drv]:
                    w = rng.choice(assign[c.drv]); head = w + "="
                    if head in text:
                        continue
                else:
                    head = w
                g = c.metric[w]
                for _ in range(3 if allok else 1):
                    s_, ip, dot, fr = value(g)
                    ok, m = verdict(g, s_, ip, dot == ".", fr)
                    if ok:
                        break
                text += head + s_ + ip + dot + fr + rng.choice(["", " ", "  "])
                if not ok and allok:
                    allok, first = False, m
            ops.append(S_.parsef(S_.flags(macro=0), 1, text)); want.append((allok, first, text))
        if ops:
            lines.append(S_.sess(c, ops, lang=lang, plain=1)); todo.append((c, ops, want, lang))
    # the same line alone and after other lines
    for i in range(h.n(250)):
        c = rng.choice(cfgs)
        x = rng.choice(junk)
        pre = [S_.parsef(S_.flags(macro=0), k, rng.choice(junk)) for k in range(rng.randint(1, 5))]
        lines.append(S_.sess(c, [S_.parsef(S_.flags(macro=0), 9, x)], plain=1)); todo.append(("alone",))
        lines.append(S_.sess(c, pre + [S_.parsef(S_.flags(macro=0), 9, x)], plain=1)); todo.append(("after", x, c, pre))
    out = run_lines(exe, lines)
    alone = None
    for ln, o, td in zip(lines, out, todo):
        if td is None:
            continue
        cs = S_.chunks(o)
        if td[0] == "alone":
            alone = S_.res(cs[-1]); continue
        if td[0] == "after":
            r = S_.res(cs[-1])
            if r != alone:
                h.fail(ln, "line %r of %s gives %r alone but %r after other lines" % (td[1], td[2].drv, alone[:2], r[:2]))
            else:
                h.ok(ln)
            continue
        c, ops, want, lang = td
        skip = False
        for cc, wt in zip(cs, want):
            if wt is None:
                continue
            r = S_.res(cc)
            if wt[0] == "set":
                skip = not (r[0] is True)
                continue
            if wt[2].find("#1") >= 0 and skip:
                continue
            ok, m, text = wt
            if r[0] == "EX" or r[0] != ok:
                h.fail(ln, "%s: %r is %s but %s (message %r)" % (c.drv, text, "accepted" if r[0] is True else "rejected", "the word tables allow it" if ok else "they do not allow it: %r" % (m,), r[1]))
                return
            if not ok and m is not None and ms.mk(m[0], lang, *m[1:]) not in r[1]:
                h.fail(ln, "%s: %r is rejected with %r, which does not say %r" % (c.drv, text, r[1], ms.mk(m[0], lang, *m[1:])))
                return
            h.ok(text, not ok)
    # known finding: the evaluated text of a later word is read again, but a failure to read it is not reported
    c = cfgs[0]
    o = S_.chunks(run_lines(exe, [c.line(), S_.sess(c, [S_.parsef(S_.flags(groups=0), 1, "#1=1.5"), S_.parsef(S_.flags(groups=0), 2, "G1 S#1")], plain=1)])[1])
    if S_.res(o[1])[0] is not False:
        h.fail("#1=1.5 / G1 S#1", "the line is accepted although S1.5 is not a value the word S allows; it is also not checked any further", finding="C13-evaluated-text")
    h.bounds.append("lines of up to 4 words of the 11 shipped and 6 random word tables, values at and around every boundary, literal or from a macro variable; up to 6 lines per session")


RULE = "literal and macro-valued words at and around each table boundary, plus unrelated lines before them; accepted/rejected and the message"
BOUNDED = ["the Spirit grammar around verify_range (which text reaches it) is only exercised, not proved"]

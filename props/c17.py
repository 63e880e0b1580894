"""C17 – setting values and their texts."""
from .common import *

G, H, FA = "parser/GeneralParserDefines.cpp", "parser/heidenhain/AllAttributesParserDefines.cpp", P + "AllAttributesParserDefines.cpp"
FILES = [G, FA, H]
ASSUME = ["an enumeration object holds one of its enumerators (static_cast from other integers excluded)"]
# further names the configuration accepts for a value (documented in the enumeration's comments)
SYN = {"ERotationDirection": {"M03": "Right", "CLW": "Right", "M04": "Left", "CCLW": "Left", "M05": "Stop"}}
# the texts the shipped configuration files, directories and the command line use
TEXT = {
    "ECncType": "Fanuc=fanuc Generic=generic Haas=haas Heidenhain=heidenhain Makino=makino",
    "EFanucParserType": "FanucLatheSystemA=fanuc_lathe_system_a FanucLatheSystemB=fanuc_lathe_system_b FanucLatheSystemC=fanuc_lathe_system_c FanucMill=fanuc_mill FanucMillturnSystemA=fanuc_millturn_system_a FanucMillturnSystemB=fanuc_millturn_system_b GenericLathe=generic_lathe GenericMill=generic_mill HaasLathe=haas_lathe HaasMill=haas_mill MakinoMill=makino_mill",
    "EMachineToolType": "Mill=mill Lathe=lathe Millturn=millturn",
    "ELanguage": "English=English Polish=Polish", "EDriverUnits": "Millimeter=millimeter Inch=inch", "UnitConversionType": "metric_to_imperial=m2i imperial_to_metric=i2m",
    "AxesRotatingOption": " ".join("%srotate%ddegrees=%s%d" % (a, d, a, d) for a in "XYZ" for d in (90, 180, 270)),
    "EMotion": "RapidTraverse=rapid_traverse LinearInterpolation=linear_interpolation", "EWorkPlane": "XY=XY XZ=XZ YZ=YZ",
    "EProgrammingType": "Absolute=absolute Incremental=incremental", "EFeedMode": "PerMinute=feed_per_minute PerRevolution=feed_per_revolution",
    "ERotationDirection": "Right=right Left=left Stop=stop", "EDepthProgrammingType": "Absolute=absolute Incremental=incremental",
    "EDrillGreturnMode": "G98=beginning G99=point_r", "WordType": " ".join("%s=%s" % (x, x) for x in "misc angle calc code feed length macro numbering assignable".split()),
    "EBeginEnd": "begin=begin end=end", "EUnit": "mm=mm inch=inch"}
TEXT = {k: dict(x.split("=") for x in v.split()) for k, v in TEXT.items()}
TEXT["EMachineTool"] = {n: n.replace("millturn_", "mill-turn_") for n in (
    "mill_3axis mill_4axis mill_4axis_horizontal mill_4axis_horizontal_pinola mill_4axis_head_gantry mill_5axis_head_head_gantry mill_5axis_head_table_gantry mill_5axis_table_table "
    "mill_5axis_table_tilt mill_5axis_head_table mill_5axis_horizontal_table_table mill_5axis_horizontal_table_table_pinola lathe_zx lathe_zxc lathe_zxcy lathe_zxcy_steady millturn_XYZBC "
    "millturn_XYZBC_steady millturn_XYZBC_C2 millturn_XYZBC_C2_steady millturn_XYZBC_C2_Lower_Left_Turret millturn_XYZBC_C2_Lower_Right_Turret millturn_XYZBC_C2_Lower_LeftRight_Turret").split()}


def names(tu):
    """every enumeration with a converter from text"""
    out = []
    for f in tu.funcs:
        q = f["_qn"].split("::")[-1]
        if q.startswith("to_") and q[3:4].isupper() and tu.body(f) is not None and any(k.split("::")[-1] == q[3:] for k in tu.enums) and q[3:] not in out:
            out.append(q[3:])
    return out


def one(run, en, f):
    c = run.ctx(en, [f] + ([G] if f != G else []))
    ex = c.ex
    tu = c.tus[0]
    vals = [v for q, v in tu.enums.items() if q.split("::")[-1] == en][0]
    ts = [g for g in tu.find_fn("to_string") if len(tu.params(g)) == 1 and tu.params(g)[0]["type"]["qualType"].split("::")[-1] == en]
    if len(ts) != 1:
        raise F.ExtractError("to_string(%s) not found" % en)
    member = lambda e: OR([e == iv(x) for x in vals.values()])
    distinct = len(set(vals.values())) == len(vals)
    c.ensure("enumerators are distinct", c.st, z3.BoolVal(distinct), "lemma")
    # value -> text
    e, e2, s = z3.Int("e"), z3.Int("e2"), z3.String("s")
    c0 = c.st
    c.st = c0.copy(); c.assume(member(e))
    st, r, th = c.call(ts[0], None, [e])
    c.only(th)
    text = ex.rd(st, r)
    c.ensure("every value has a text", st, NOT(z3.BoolVal(bool(st.dead))))
    tab = TEXT.get(en, {})
    for n, v in vals.items():
        if n in tab:
            c.ensure("text of %s" % n, st, IMP(e == iv(v), text == sv(tab[n])))
    c.cover("text", st)
    # distinct values, distinct texts
    t2 = z3.substitute(text, (e, e2))
    s2 = st.copy(); s2.assume(AND(member(e2), e2 != e))
    for p in st.pc:
        s2.assume(z3.substitute(p, (e, e2)))
    c.ensure("distinct values have distinct texts", s2, text != t2)
    # text -> value
    c.st = c0.copy()
    sl = c.loc(s)
    syn = SYN.get(en, {})
    st3, r3, th3 = c.call("to_" + en, None, [sl])
    v = ex.rd(st3, r3)
    known = lambda z: OR([z == sv(tab[n]) for n in vals if n in tab] + [z == sv(x) for x in syn])
    if set(vals) <= set(tab):
        c.ensure("accepts only the texts of values", st3, known(s))
        for st4, e4 in c.only(th3, "invalid_argument"):
            c.ensure("rejects with an error only texts of no value", st4, NOT(known(s)))
            c.cover("rejects", st4)
    else:
        for st4, e4 in c.only(th3, "invalid_argument"):
            c.cover("rejects", st4)
    for n, x in list(tab.items()) + [(b, a) for a, b in syn.items()]:
        if n in vals:
            c.ensure("%s reads as %s" % (x, n), st3, IMP(s == sv(x), v == iv(vals[n])))
    c.ensure("the value read is one of the enumeration", st3, member(v))
    c.cover("reads", st3)
    # round trip of every value: the text produced is read back as the same value
    st5 = st3.copy(); st5.assume(member(e)); st5.assume(s == text)
    for p in st.pc:
        st5.assume(p)
    c.ensure("the text of a value is read back as that value", st5, v == e)
    for st4, e4 in th3:
        s6 = st4.copy(); s6.assume(member(e)); s6.assume(s == text)
        for p in st.pc:
            s6.assume(p)
        c.ensure("the text of a value is never rejected", s6, F_)
    # a text that is read is the text of the value (or one of its further names)
    back = z3.substitute(text, (e, v))
    c.ensure("only the value's own text (or a documented further name) reads as it", st3, OR([back == s] + [s == sv(x) for x in syn]))


def part(f):
    def go(run):
        tu = F.load(f, "parser::", "parser")
        ns = names(tu)
        if not ns:
            raise F.ExtractError("no converters found in " + f)
        for n in ns:
            one(run, n, f)
    return go


PARTS = [("parser settings", part(G)), ("word types", part(FA)), ("heidenhain", part(H))]
RULE = "every enumerator of every enumeration round-trips; every text of an enumeration, its neighbours and random texts are accepted exactly if they name a value"


def harness(h):
    from harness import build
    from harness.hx import hx
    exe = build.enums(); rng = h.rng
    vals = {}
    for f in FILES:
        tu = F.load(f, "parser::", "parser")
        for q, v in tu.enums.items():
            if q.split("::")[-1] in TEXT:
                vals[q.split("::")[-1]] = v
    every = sorted({t for m in TEXT.values() for t in m.values()} | {s for m in SYN.values() for s in m})
    cases = []
    for en, tab in TEXT.items():
        v = vals.get(en, {})
        for n, x in v.items():
            if n in tab:
                def chk(o, t=tab[n]):
                    g = o.split()
                    return None if g == ["ok", hx(t), hx(t)] else {"expected": t, "got": o}
                cases.append(("%s w %d" % (en, x), chk, "text of %s::%s" % (en, n)))
        known = {t: v[n] for n, t in tab.items() if n in v}
        known.update({s: v[n] for s, n in SYN.get(en, {}).items() if n in v})
        texts = list(every) + ["", " ", "0", "1", "fanuc_", "_", "absolut", "absolutes"]
        for t in list(known):
            texts += [t.upper(), t.lower(), t[:-1], t[1:], t + "x", "x" + t, t.replace("_", "-"), t.capitalize(), t + " "]
        for _ in range(h.n(100)):
            t = list(rng.choice(list(known)))
            t[rng.randrange(len(t))] = rng.choice("abxyZ_0 ")
            texts.append("".join(t))
        for t in dict.fromkeys(texts):
            w = t.split()[0] if t.split() else ""

            def chk(o, a=known.get(t), b=known.get(w), w=w):
                exp = (["ok", str(a)] if a is not None else ["ex"]) + (["ok", str(b)] if b is not None else ["ex"])
                return None if o.split() == exp else {"expected (converter, stream)": exp, "got": o}
            cases.append(("%s r %s" % (en, hx(t)), chk, "%s from text %r" % (en, t), t in known))
    h.run(exe, cases, "converters and streams")
    h.bounds.append("texts: all texts of all enumerations, their near variants and random single-character changes")

"""C23 – message texts and the places they reserve for arguments."""
import re
from .common import *
MT, EN, PL = P + "MessageText.cpp", P + "MessageText_en.cpp", P + "MessageText_pl.cpp"
INST = F.VERIF + "/harness/inst/msg.cpp"
TABLES = [EN, PL, (PL, 'operator""_C', "")]
USERS = [P + f for f in ("AllAttributesParser.cpp", "AttributesPathCalculator.cpp", "CodeGroupsVerifier.cpp", "FileSplitter.cpp", "MacroEvaluatedCodeVerifier.cpp", "MacroEvaluator.cpp",
                         "RangeVerifier.cpp", "RotationVerifier.cpp", "SameWordInBlockVerifier.cpp", "UniqueCode.cpp", "ValueCalculator.cpp")]
FILES = [INST, MT, EN, PL] + USERS
ASSUME = ["a MessageName object holds one of its enumerators other than COUNT", "an ELanguage object holds one of its enumerators",
          "texts are byte sequences: a u8 literal is its UTF-8 bytes"]
TEMPLATES = ("make_message", "make_message2", "make_stream_message")


# the arguments each message stands for
ARGS = dict(UnsupportedOperation=1, ValueMissingForHash=0, ForbiddenCharsInOptionalBlock=0, CannotSplitFileNumberOfBlocks=0, CannotSplitFileToolPathLength=0,
            CannotSplitFileToolTime=0, SNotAllowedWhenOperatorTurnsRotation=0, M3M4NotAllowedWhenOperatorTurnsRotation=0, NonMatchingCloseBracket=0, ParseError=1, ValueNotInRange=4, ValueNotInRangeForOptionalBlock=1, ExpectedInteger=1, ValueMissing=1, DecimalSeparatorMissing=1, ValueAfterDecimalSeparatorNotInRange=4, TNotWithG=1, MissingValue=1,
            MissingPreviousValue=1, MissingPreviousValueForEither=2, ValueNotSet=1, ValueNotSetForEither=2, ValueNotSetForEitherEither=3, MissingInCodeGroups=1, InSameCodeGroup=3, WrongMacroDefinition=1,
            ValueHigherThanAllowed=3, ValueOutOfRange=4, CodeNotUnique=1, UnsupportedBinaryOperation=1, UnsupportedUnaryOperation=1, UnsupportedFunction=1, DuplicateAddress=1)


def tables(run, title, extra=()):
    c = run.ctx(title, list(extra) + TABLES, msgs=False)
    c.ex.opts["unroll"] = {k: 16 for k in TEMPLATES}
    names = [v for q, v in c.tus[0].enums.items() if q.split("::")[-1] == "MessageName"]
    if not names:
        raise F.ExtractError("MessageName")
    names = names[0]
    count = names["COUNT"]
    out = {}
    for l in ("en", "pl"):
        st, r, th = c.call("get_message_text_" + l, None, [])
        v = c.ex.rd(st, r)
        if not isinstance(v, CSeq):
            raise Unsupported("message table of unknown size")
        out[l] = []
        for x in v.xs:
            m, ps = x.f["msg_name"], x.f["msg_list"]
            if not z3.is_int_value(simp(m)) or not isinstance(ps, CSeq):
                raise Unsupported("message table entry")
            out[l].append((simp(m).as_long(), [text(p) for p in ps.xs]))
    return c, {k: v for k, v in names.items() if k != "COUNT"}, count, out


def text(p):
    p = simp(lib.as_str(p))
    if not z3.is_string_value(p):
        raise Unsupported("message part")
    return p.as_string()


def parts_of(tab, m):
    return next((ps for k, ps in tab if k == m), None)


def t_tables(run):
    c, names, count, tab = tables(run, "message tables")
    for l in tab:
        c.ensure("%s: as many entries as messages" % l, c.st, z3.BoolVal(len(tab[l]) == count == len(names)), "lemma")
        for n, v in names.items():
            k = [ps for m, ps in tab[l] if m == v]
            c.ensure("%s: exactly one text for %s" % (l, n), c.st, z3.BoolVal(len(k) == 1 and any(k[0])), "lemma")
        for n, k in ARGS.items():
            ps = parts_of(tab[l], names[n]) if n in names else None
            if ps:
                p_ = (k, k + 1) if n not in ("MissingInCodeGroups", "InSameCodeGroup") else (k, k - 1)
                c.ensure("%s: %s reserves %d places" % (l, n, k), c.st, z3.BoolVal(len(ps) in p_ if k else len(ps) == 1), "lemma")
    # the marks a text sets around its places are the same in both languages
    mark = lambda s: re.sub(r"\\u\{[0-9a-f]+\}", "x", s)
    for n, v in names.items():
        a, b = parts_of(tab["en"], v), parts_of(tab["pl"], v)
        if a and b and len(a) == len(b):
            f = lambda s: re.findall(r"[\[\]#=/]|\d+", mark(s))
            c.ensure("%s: the same places between the same marks in both languages" % n, c.st, z3.BoolVal([f(s) for s in a] == [f(s) for s in b]), "lemma")


def weave(ps, args, first):
    """the text: parts and arguments alternate, what is left over follows"""
    out = []
    a, b = (ps, args) if first else (args, ps)
    for i in range(max(len(a), len(b))):
        out += [x[i] for x in (a, b) if i < len(x)]
    out = [sv("")] + out
    return z3.Concat(*out) if len(out) > 1 else out[0]


def formatter(nm, n):
    def go(run):
        c, names, count, tab = tables(run, "%s of %d arguments" % (nm, n), [INST, MT])
        ex = c.ex
        lang = z3.Int("language")
        en, pl = c.enum("ELanguage", "English"), c.enum("ELanguage", "Polish")
        c.assume(OR(lang == en, lang == pl))
        args = [z3.String("argument%d" % i) for i in range(n)]
        locs = [c.loc(a) for a in args]
        f = c.fn("i%d_%s" % (n, nm))
        for k, v in names.items():
            st, r, th = c.call(f, None, [iv(v), lang] + locs)
            c.only(th)
            got = ex.rd(st, r)
            w = lambda l: weave([lit(p) for p in (parts_of(tab[l], v) or [])], args, nm != "make_message2")
            c.ensure("%s: parts and arguments alternate" % k, st, got == IF(lang == en, w("en"), w("pl")))
            for p_, a in enumerate(args):
                c.ensure("%s: argument %d is unchanged" % (k, p_ + 1), st, ex.rd(st, locs[p_]) == a)
        c.cover("formatter", c.st)
    return go


def lit(s):
    return z3.StringVal(s)


def callee(n):
    while n.get("inner") and n["kind"] in ("ImplicitCastExpr", "ParenExpr"):
        n = n["inner"][0]
    if n.get("kind") == "DeclRefExpr":
        return n["referencedDecl"].get("name")
    if n.get("kind") in ("UnresolvedLookupExpr", "UnresolvedMemberExpr", "CXXDependentScopeMemberExpr"):
        return n.get("name")
    return None


def enumerator(n):
    while n.get("inner") and n["kind"] in ("ImplicitCastExpr", "ParenExpr", "ConstantExpr", "ExprWithCleanups", "CXXBindTemporaryExpr", "MaterializeTemporaryExpr"):
        n = n["inner"][0]
    if n.get("kind") == "DeclRefExpr" and n["referencedDecl"]["kind"] == "EnumConstantDecl":
        return n["referencedDecl"]["name"]
    return None


def calls(tu):
    """every call of a formatter with (message, language, arguments…), templates' patterns included"""
    out = []

    def walk(n, fn):
        if not isinstance(n, dict):
            return
        if n.get("kind") in F.FUNCS:
            fn = n.get("name")
        if n.get("kind") == "CallExpr" and n.get("inner"):
            nm = callee(n["inner"][0])
            if nm in TEMPLATES and fn not in TEMPLATES:
                out.append((nm, n["inner"][1:], n.get("_line"), fn))
        for x in n.get("inner") or []:
            walk(x, fn)
    for d in tu.docs:
        walk(d, None)
    return out


def sites(f):
    def go(run):
        c, names, count, tab = tables(run, "arguments of the messages of " + f.split("/")[-1], [f])
        seen = {}
        for nm, args, line, fn in calls(c.tus[0]):
            args = [a for a in args if a.get("kind") != "CXXDefaultArgExpr"]
            m = enumerator(args[0]) if args else None
            if m is None:
                raise Unsupported("message chosen at run time at line %s" % line)
            if any(a.get("kind") == "PackExpansionExpr" for a in args):
                raise Unsupported("argument pack at line %s" % line)
            seen.setdefault((nm, m, len(args) - 2), line)
        for (nm, m, n), line in sorted(seen.items()):
            for l in ("en", "pl"):
                ps = parts_of(tab[l], names[m]) or []
                ok = len(ps) in ((n, n + 1) if nm != "make_message2" else (n, n - 1))
                if n == 0:
                    ok = len(ps) == 1
                ok = ok and ARGS.get(m, n) == n
                c.ensure("%s of %s with %d arguments (line %s): %s reserves exactly one place for each" % (nm, m, n, line, l), c.st, z3.BoolVal(ok), "pre")
        if not seen:
            raise Unsupported("no message is made here")
    return go


PARTS = [("tables", t_tables)] + [("%s/%d" % (nm, n), formatter(nm, n)) for nm in TEMPLATES for n in (1, 2, 3, 4)] + [("make_message/0", formatter("make_message", 0))] + \
        [("call sites " + f.split("/")[-1], sites(f)) for f in USERS]
RULE = "every message of both languages with 0..4 distinct marker arguments: the text is the parts and markers alternating, and both languages set the same marks around the places"
BOUNDED = ["the formatter templates are instantiated for 0..4 text arguments (the most any call site passes is 4)"]
FIRST = ("MissingInCodeGroups", "InSameCodeGroup")


def harness(h):
    from harness import build
    from harness.hx import hx, Msgs, Tok
    exe = build.tok()
    ms = Msgs(exe)
    rng = h.rng
    cases = []
    for name, m in ms.names.items():
        for lang in (0, 1):
            def chk0(o, name=name, lang=lang):
                return None if ms.tab[lang].get(ms.names[name]) else {"expected": "a text for " + name, "got": "none"}
            cases.append(("mk 0 %d %d 0" % (m, lang), chk0, "a text for %s" % name))
            for kind in (0, 1, 2):
                for n in range(0 if kind == 0 else 1, 5 if kind == 0 else 4):
                    odd = ["", "0", "-1", "X", " ", "] [", "%s", "#", "a" * 300] + [p for p in ms.tab[lang].get(m) or [] if p.isascii()]
                    same = rng.choice(odd)
                    for a in (["<%s%d>" % ("".join(rng.choice("ABC xyz#[]=,") for _ in range(rng.choice([0, 1, 5]))), i) for i in range(n)],
                              [rng.choice(odd) for i in range(n)], [same] * n)[:3 if n else 1]:
                        want = ms.mk(name, lang, *a, values_first=kind == 1) if ms.tab[lang].get(m) else None
                        cases.append(("mk %d %d %d %d %s" % (kind, m, lang, n, " ".join(hx(x) for x in a)),
                                      lambda o, w=want: None if o.split() == [hx(w or "")] else {"expected": w, "got": o}, "%s language %d arguments %r" % (name, lang, a)))
            n = ARGS.get(name)
            if n:
                a = ["<%d>" % i for i in range(n)]
                first = name in FIRST

                def chk(o, a=a, first=first):
                    t = Tok(o).s()
                    ps, rest = [], t
                    for x in a:
                        if rest.count(x) != 1:
                            return {"expected": "every argument once, in order", "got": t}
                        b, rest = rest.split(x)
                        ps.append(b)
                    ps.append(rest)
                    ok = all(ps[1:]) and not ps[0] if first and len(a) == 1 else all(ps[1:-1]) and (bool(ps[0]) != first)
                    return None if ok else {"expected": "a reserved place for every argument", "got": t}
                cases.append(("mk %d %d %d %d %s" % (1 if first else 0, m, lang, n, " ".join(hx(x) for x in a)), chk, "%s language %d places" % (name, lang)))
    h.run(exe, cases, "message texts")
    for name, m in ms.names.items():
        a, b = (ms.tab[l].get(m) or [] for l in (0, 1))
        mark = lambda ps: [re.findall(r"[\[\]#=/]|\d+", p) for p in ps]
        if a and b and len(a) == len(b) and mark(a) != mark(b):
            h.fail("message " + name, {"expected": mark(a), "got": mark(b)}, "marks around the places differ between the languages")
    h.bounds.append("0..4 arguments")

"""Contract of AllAttributesParser::parse: which checks a line goes through, on what, in what order.

Every component is used through its contract (an arbitrary result, or its exception); that the components do what they
should is proved separately (C06, C08–C13).  What is proved here is the composition: the line is started afresh, every
check that the settings ask for is really made, on the block that resulted from evaluating the macros, with the group
tables, limits, variables and line that belong to this parser, in the documented order, and a line is accepted only
when no check rejected it."""
from .common import *

FILES = [P + "AllAttributesParser.cpp"]
ASSUME = ["qi::phrase_parse is used through an arbitrary contract: any block, any result, or an expectation failure"]


def run_parse(run, title="AllAttributesParser::parse", mine=()):
    c = run.ctx(title, FILES)
    ex = c.ex
    ex.opts["abstract_strings"] = True
    t = c.rec("AllAttributesParser")
    calc_t = c.rec("AttributesPathCalculator")
    f = {n: Poison("member " + n) for n, _ in ex.fields(t)}
    lang = z3.Int("lang")
    kin, cnc = c.fresh("Kinematics", "kinematics"), c.fresh("CncDefaultValues", "defaults")
    cf = {n: Poison("calc member " + n) for n, _ in ex.fields(calc_t)}
    cf.update({"kinematics": kin, "cnc_default_values": cnc, "word_range": c.fresh("word_range_map", "word_range")})
    calc_null = z3.Bool("no_calculator")
    calc = c.loc(Rec(calc_t, cf))
    gram = c.loc(Rec(Ty("grammar"), {"message": z3.String("old_message")}))
    wg = c.fresh("FanucWordGrammar", "word_grammar")
    oset = c.fresh("OtherSettings", "other")
    pset = c.fresh("ParserSettings", "settings")
    f.update({"word_grammar": wg, "other_settings": oset, "zero_point": c.fresh("ZeroPoint", "zero"), "machine_tool_type": z3.Int("machine_tool_type"),
              "attr_path_calc": Ptr(calc, calc_null), "all_attr_grammar": Ptr(gram), "gcode_groups": c.fresh("code_groups_map", "gcodes"), "mcode_groups": c.fresh("code_groups_map", "mcodes"),
              "macro_values": c.fresh("macro_map", "macros"), "fanuc_parser_type": c.fresh("EFanucParserType", "parser_type"),
              "allowed_operations": c.fresh(Ty("seq", [Ty("string")]), "operations"), "rotation_verifier": Rec(c.rec("RotationVerifier"), {n: Poison("rv " + n) for n, _ in ex.fields(c.rec("RotationVerifier"))})})
    me = c.loc(Rec(t, f))
    gw = LVal(me.base, me.path + (("f", "word_grammar"),)) if hasattr(me, "path") else None
    mem = c.st.mem[me.base]
    mem.f["active_word_grammar"] = Ptr(gw + ("f", "metric"), F_)
    clock = c.loc(iv(0))
    blk_t = Ty("seq", [c.ty("AttributeVariant")])
    names = ["clear", "parse", "unique", "macro", "code", "reparse", "select2", "system", "range", "rotation", "groups", "same", "path", "travel", "select"]
    ghost = c.loc(Rec(Ty("ghost"), dict({"called " + n: F_ for n in names}, **{"at " + n: iv(-1) for n in names})))
    rejects = {n: z3.Bool(n + "_rejects") for n in names}
    texts = {n: z3.String(n + "_text") for n in names}
    line, single, data = z3.Int("line"), z3.Bool("single_line"), z3.String("data")
    msg0, got_msg = z3.String("message"), z3.String("grammar_message")
    parsed, evaluated = c.fresh(blk_t, "parsed"), c.fresh(blk_t, "evaluated")
    code = z3.String("evaluated_code")
    macros = [f["macro_values"], c.fresh("macro_map", "macros_evaluated"), c.fresh("macro_map", "macros_system"), c.fresh("macro_map", "macros_path")]
    words = IF(code == sv(""), T, F_)
    active = IF(code == sv(""), T, F_)
    imp2, imp = z3.Bool("evaluated_selects_imperial"), z3.Bool("selects_imperial")
    block = merge(code == sv(""), parsed, evaluated)
    self_f = lambda st, n: ex.rd(st, me).f[n]

    def mark(st, n):
        g = ex.rd(st, ghost)
        k = ex.rd(st, clock)
        if n in mine:
            c.ensure("%s is made once" % n, st, NOT(g.f["called " + n]))
        ex.write(st, ghost, Rec(g.t, dict(g.f, **{"called " + n: T, "at " + n: k})))
        ex.write(st, clock, simp(k + 1))

    def must(st, n, *pairs):
        for nm, got, want in pairs if n in mine else ():
            c.ensure("%s: given %s" % (n, nm), st, same(got, want))

    def exc(st, n, ty):
        ex.throw(st, Exc(ty, Rec(Ty("exc"), {"$what": texts[n]})), rejects[n])
    V = lambda st, a: ex.rd(st, a)
    h = ex.contracts

    def clear(ex_, st, this, args, decl):
        mark(st, "clear")
        return None
    h["clear_message"] = clear
    h["get_message"] = lambda ex_, st, this, args, decl: got_msg

    def phrase(ex_, st, this, args, decl):
        first = ex.rd(st, ghost).f["called parse"]
        again = z3.is_true(simp(first))
        n = "reparse" if again else "parse"
        mark(st, n)
        ex.throw(st, Exc("boost::spirit::qi::expectation_failure", Rec(Ty("exc"), {"first": Opaque("pos", None), "last": Opaque("pos", None)})), z3.Bool(n + "_expectation"))
        ex.write(st, args[4], evaluated if again else parsed)
        return NOT(rejects[n])
    ex.libs["fn:phrase_parse"] = phrase

    def unique(ex_, st, this, args, decl):
        mark(st, "unique")
        must(st, "unique", ("the active word table", V(st, args[0]), wg.f["metric"]), ("the parsed block", V(st, args[1]), parsed), ("the language", V(st, args[2]), lang_v))
        exc(st, "unique", "parser::fanuc::unique_code_exception")
    h["UniqueCode::operator()"] = unique

    def macro(ex_, st, this, args, decl):
        mark(st, "macro")
        must(st, "macro", ("the parser's variables", V(st, args[0]), macros[0]), ("the line", V(st, args[1]), line), ("the parsed block", V(st, args[2]), parsed), ("the language", V(st, args[5]), lang_v))
        ex.write(st, args[0], macros[1])
        ex.write(st, args[3], IF(rejects["macro"], texts["macro"], V(st, args[3])))
        return NOT(rejects["macro"])
    h["MacroEvaluator::evaluate"] = macro

    def codev(ex_, st, this, args, decl):
        mark(st, "code")
        must(st, "code", ("the parser's operations", V(st, args[0]), f["allowed_operations"]), ("the variables after this line's assignments", V(st, args[1]), macros[1]), ("the line", V(st, args[2]), line), ("the parsed block", V(st, args[3]), parsed), ("the language", V(st, args[4]), lang_v))
        exc(st, "code", "parser::fanuc::macro_evaluated_code_exception")
        return code
    h["MacroEvaluatedCodeVerifier::operator()"] = codev

    def select(ex_, st, this, args, decl):
        g = ex.rd(st, ghost)
        late = z3.is_true(simp(g.f["called system"]))
        n = "select" if late else "select2"
        mark(st, n)
        must(st, n, ("the word tables", V(st, args[0]), wg), ("the block", V(st, args[2]), block if late else evaluated))
        return None
    h["GrammarSelector::operator()"] = select

    def system(ex_, st, this, args, decl):
        mark(st, "system")
        must(st, "system", ("the variables after this line's assignments", V(st, args[0]), macros[1]), ("the line", V(st, args[1]), line), ("the evaluated block", V(st, args[2]), block))
        ex.write(st, args[0], macros[2])
    h["SystemMacroAssigner::operator()"] = system

    def rangev(ex_, st, this, args, decl):
        ps = [p.get("type", {}).get("qualType", "") for p in decl["_tu"].params(decl)]
        if "EMachineToolType" in ps[0]:
            mark(st, "range")
            must(st, "range", ("the machine type", V(st, args[0]), f["machine_tool_type"]), ("the kinematics", V(st, args[1]), kin), ("the evaluated block", V(st, args[2]), block), ("the language", V(st, args[3]), lang_v))
            exc(st, "range", "parser::fanuc::range_verifier_exception")
        else:
            mark(st, "travel")
            must(st, "travel", ("the kinematics", V(st, args[0]), kin), ("the zero point", V(st, args[1]), f["zero_point"]), ("the positions after the block", V(st, args[2]), after_range), ("the language", V(st, args[3]), lang_v))
            exc(st, "travel", "parser::fanuc::range_verifier_exception")
    h["RangeVerifier::operator()"] = rangev

    def rot(ex_, st, this, args, decl):
        mark(st, "rotation")
        must(st, "rotation", ("the machine's defaults", V(st, args[0]), cnc), ("the evaluated block", V(st, args[1]), block), ("the language", V(st, args[2]), lang_v))
        exc(st, "rotation", "parser::fanuc::rotation_verifier_exception")
    h["RotationVerifier::operator()"] = rot

    def groups(ex_, st, this, args, decl):
        mark(st, "groups")
        must(st, "groups", ("the variables", V(st, args[0]), macros[2]), ("the G groups", V(st, args[1]), f["gcode_groups"]), ("the M groups", V(st, args[2]), f["mcode_groups"]), ("the line", V(st, args[3]), line),
             ("the evaluated block", V(st, args[4]), block), ("the language", V(st, args[5]), lang_v))
        exc(st, "groups", "parser::fanuc::code_groups_exception")
    h["CodeGroupsVerifier::operator()"] = groups

    def samew(ex_, st, this, args, decl):
        mark(st, "same")
        must(st, "same", ("the word M", lib.as_str(V(st, args[0])), sv("M")), ("the evaluated block", V(st, args[1]), block), ("the language", V(st, args[2]), lang_v))
        exc(st, "same", "parser::fanuc::same_word_verifier_exception")
    h["SameWordInBlockVerifier::operator()"] = samew
    after_range = c.fresh("word_range_map", "range_after")

    def path(ex_, st, this, args, decl):
        mark(st, "path")
        must(st, "path", ("the evaluated block", V(st, args[0]), block), ("the variables", V(st, args[2]), macros[2]), ("the line", V(st, args[3]), line))
        ex.write(st, args[2], macros[3])
        ex.write(st, this + ("f", "word_range"), after_range)
        exc(st, "path", "parser::fanuc::path_calc_exception")
    h["AttributesPathCalculator::evaluate"] = path
    ex.libs["fn:get_column"] = lambda ex_, st, this, args, decl: z3.Int("column")
    ex.libs["fn:get_line"] = lambda ex_, st, this, args, decl: z3.Int("error_line")
    ex.libs["string_range"] = lambda ex_, st_, a, b: z3.String("rest_of_line")
    lang_v = oset.f["language"]
    ex.libs["var:blank"] = lambda ex_, st_: Opaque("blank", None)
    ex.libs["construct:line_pos_iterator"] = lambda ex_, t_, rv, st_: Opaque("pos", None)
    c.assume(IMP(pset.f["ncsettings_code_analysis"], NOT(calc_null)))
    vl, ml, pl = c.loc(Seq(iv(0), parsed.e, blk_t)), c.loc(msg0), c.loc(pset)
    st, r, th = c.call(c.fn("AllAttributesParser::parse", nparams=6, ptypes=["int", "std::string_view", "std::vector"]), me, [line, data, vl, ml, single, pl])
    return c, locals()


ALL = ("clear", "parse", "unique", "macro", "code", "reparse", "select2", "system", "range", "rotation", "groups", "same", "path", "travel", "select")


def pipeline(mine, general=False):
    """part: the obligations of the composition that concern the named components"""
    def part(run):
        c, L = run_parse(run, mine=mine)
        ex, st, r, th, ghost, rejects, pset, f = (L[k] for k in ("ex", "st", "r", "th", "ghost", "rejects", "pset", "f"))
        if general:
            c.only(th)
        g = ex.rd(st, ghost).f
        ret = ex.tobool(r if z3.is_expr(r) else ex.rd(st, r))
        done = lambda n: AND(g["called " + n], NOT(rejects[n]) if n not in ("system", "select", "clear") else T)
        haas = OR(f["fanuc_parser_type"] == c.enum("EFanucParserType", "HaasLathe"), f["fanuc_parser_type"] == c.enum("EFanucParserType", "HaasMill"))
        calc = NOT(L["calc_null"])
        p = pset.f
        again = L["code"] != sv("")
        unread = z3.Bool("reparse_expectation")     # known finding C13-evaluated-text: a line whose evaluated text does not read is let through
        need = [("unique", T), ("macro", T), ("code", T), ("reparse", again), ("system", T), ("range", p["ncsettings_code_analysis"]), ("rotation", p["ncsettings_code_analysis"]),
                ("groups", p["verify_code_groups"]), ("same", haas), ("path", AND(p["calculate_path"], calc)), ("travel", AND(p["calculate_path"], p["zero_point_analysis"], calc))]
        if "clear" in mine:
            c.ensure("every line starts afresh, before it is read", st, AND(g["called clear"], g["called parse"], g["at clear"] < g["at parse"]))
        for n, when in need:
            if n not in mine:
                continue
            ev = T if n == "unique" else p["evaluate_macro"]
            ok = T if n == "reparse" else NOT(AND(p["evaluate_macro"], again, unread)) if n not in ("unique", "macro", "code") else T
            rej = AND(rejects["reparse"]) if n == "reparse" else T
            if n == "reparse":
                c.ensure("an accepted line has been read again after its variables were filled in", st, IMP(AND(ret, ev, when), AND(g["called reparse"], NOT(AND(rejects["reparse"], NOT(unread))))))
                continue
            c.ensure("an accepted line has passed the %s check when it applies" % n, st, IMP(AND(ret, ev, when, ok), done(n)))
            if n in rejects and n not in ("system",):
                c.ensure("the %s check is made on a line that reaches it exactly when it applies" % n, st, IMP(g["called " + n], AND(ev, when)))
        m = ex.rd(st, L["ml"])
        order = list(ALL)
        for n in mine:
            if n in ("clear", "parse", "reparse", "select", "select2", "system"):
                continue
            c.ensure("the message is the text of the %s check when it rejects the line" % n, st, IMP(AND(g["called " + n], rejects[n], *[NOT(g["called " + b]) for b in order[order.index(n) + 1:]]), AND(NOT(ret), m == L["texts"][n])))
        if general:
            c.ensure("a line is rejected only by its grammar or by a check that applies", st,
                     IMP(NOT(ret), OR(AND(g["called parse"], OR(rejects["parse"], z3.Bool("parse_expectation"))), AND(g["called reparse"], OR(rejects["reparse"], unread)),
                                      *[AND(g["called " + n], rejects[n]) for n, when in need if n not in ("parse", "reparse", "system")])))
            c.ensure("an accepted line that is evaluated selects the unit system for the next line", st, IMP(AND(ret, p["evaluate_macro"], NOT(AND(again, unread))), g["called select"]))
            c.ensure("an accepted line leaves the message alone", st, IMP(AND(ret, p["evaluate_macro"], NOT(AND(again, unread))), m == L["msg0"]))
        c.cover("accepted", st, [ret, p["evaluate_macro"]])
        c.cover("rejected", st, [NOT(ret)])
    return part


def part_for(*mine, general=False):
    return ("AllAttributesParser::parse", pipeline(mine, general))


PIPE_FILES = FILES
PIPE_ASSUME = ["AllAttributesParser::parse is checked against the contracts of its components (any result of each); boost::spirit's phrase_parse is an arbitrary function of the line"]
PARTS = [part_for(*ALL, general=True)]

"""C19 – one diagnostic per rejected line, at that line."""
from .common import *
from . import server

N = "nclangsrv/NCParser.cpp"
SRC = [(N, "nclangsrv::", "nclangsrv"), (N, "parser::", "parser")]
FILES = [N, "nclangsrv/JsonMessageHandler.cpp"]
ASSUME = ["the parser's answer to a line (verdict, message, figures) is arbitrary: what it is, is the subject of C01-C18 and C23",
          "the parser object is the one created for the document (no other code holds it); a document has fewer than 2^31 lines",
          "rapidjson, std::getline, atoi and find as in props/json.py and props/server.py; a message of the editor is JSON with the members the protocol requires"]


def first_of(v):
    return lib.as_str(v.xs[0]) if isinstance(v, CSeq) else z3.Select(v.e, 0)


class Doc:
    """NCParser::parse in front of an arbitrary document"""

    def __init__(self, run, title, path_time, loaded=True):
        c = self.c = run.ctx(title, SRC)
        ex = self.ex = c.ex
        ex.opts["abstract_strings"] = False
        ex.opts["dyncast"] = True
        L = self.L = z3.Int("line")
        ex.index_instances.append(L)
        lines = self.lines = c.fresh(Ty("seq", [Ty("string")]), "lines")
        ex.bounds.append(lines.n)
        so = z3.ArraySort
        self.ret, self.msg = z3.Const("accepted", so(I, B)), z3.Const("message", so(I, S))
        self.paths = c.fresh(Ty("seq", [c.rec("PathResult")]), "paths")
        self.times = c.fresh(Ty("seq", [c.rec("TimeResult")]), "times")
        self.macros = c.fresh("macro_map", "macros")
        t = c.rec("NCParser")
        f = {}
        for n, ft in ex.fields(t):
            if ft.k == "ref":
                f[n] = Ref(c.loc(self.reader(ft.a[0], n)))
            elif n == "mLogger":
                f[n] = Ptr(None)
            elif ft.k == "ptr":
                f[n] = Ptr(c.loc(self.reader(ft.a[0], n)), F_) if loaded else Ptr(None)
            else:
                f[n] = ex.fresh(ft, n)
        # the object's constructor (part "parser object")
        f["convert_length"] = f["rotate"] = F_
        f["single_line_output"] = T
        f["calculate_path_time"] = z3.BoolVal(path_time)
        self.f = f
        self.this = c.loc(Rec(t, f))
        self.its = {}
        ex.contracts["splitLines"] = lambda ex_, st, t, a, d: self.split(st, a)
        ex.contracts["virtual:parse"] = self.parse
        ex.contracts["ctor:AllAttributesParser"] = self.made
        for m in ("set_ncsettings", "get_path_result", "get_time_result", "reset_macro_values", "get_macro_values"):
            ex.contracts["virtual:" + m] = ex.contracts[m] = getattr(self, m)
        for m in ("parse", "set_ncsettings", "get_path_result", "get_time_result", "reset_macro_values", "get_macro_values"):
            ex.libs["method:" + m] = lambda ex_, st, obj, v, vals, n, h=getattr(self, m): h(ex_, st, obj, vals, None)
        ex.contracts["formatPathTimeResult"] = self.figures
        ex.contracts["NCSettingsReader::read"] = self.settings_read
        e = lambda a, k: z3.Select(a, k)
        rd_ = lambda r, k: leafmap(lambda a: e(a, k), r.e)
        self.path, self.time = (lambda k: rd_(self.paths, k)), (lambda k: rd_(self.times, k))
        # specification: which lines are handed on, which are rejected, and the running sums of the figures
        RV0 = z3.RealVal(0)

        def step(s, x):
            i = s.f["i"]
            s = s.f
            some = NOT(x == sv(""))
            p, q = self.path(i).f, self.time(i).f
            adv = AND(some, q["total"] != s["prev"])
            add = lambda a, b: IF(adv, a + b, a)
            return Rec(None, {"i": i + 1, "calls": s["calls"] + IF(some, 1, 0), "bad": s["bad"] + IF(AND(some, NOT(e(self.ret, i))), 1, 0), "prev": IF(adv, q["total"], s["prev"]),
                              "pw": add(s["pw"], p["work_motion"]), "pf": add(s["pf"], p["fast_motion"]), "tw": add(s["tw"], q["work_motion"]), "tf": add(s["tf"], q["fast_motion"])})
        g = self.g = loops.Ghost(ex, "document", Rec(None, {"i": iv(0), "calls": iv(0), "bad": iv(0), "prev": RV0, "pw": RV0, "pf": RV0, "tw": RV0, "tf": RV0}), step, lambda k: e(lines.e, k), lines.n)
        ex.ghosts.append(g)
        self.pt = path_time
        self.some = NOT(e(lines.e, L) == sv(""))
        self.rejected = AND(self.some, NOT(e(self.ret, L)))
        m, nr = e(self.msg, L), lib.to_string(ex, L + 1)
        self.text = IF(m == sv(""), z3.Concat(nr, sv(": '"), e(lines.e, L), sv("'")), IF(z3.PrefixOf(sv("1"), m), z3.Concat(nr, z3.SubString(m, 1, z3.Length(m) - 1)), z3.Concat(nr, sv(": "), m)))
        g.unfold(L)
        ex.loop_invs.append(self.inv)

    def split(self, st, a):
        self.c.ensure("the lines are those of the document", st, self.ex.rd(st, a[0]) == z3.String("code"))
        return self.lines

    def inv(self, ex, head, it, leaves, mapseen):
        if mapseen is not None:
            return []
        d = len(ex.loop_frames)
        self.its[d] = it
        if d != 1:
            return []
        g, L = self.g, self.L
        g.unfold(it); g.unfold(L)
        s = g.at(it).f
        out = [("position", s["i"] == it), ("rejected before", IMP(AND(L >= 0, L < it, self.rejected), g.at(L).f["bad"] < s["bad"])), ("counts", AND(s["bad"] >= 0, s["bad"] <= it)), ("count at the line", IMP(AND(L >= 0, L <= it), AND(g.at(L).f["bad"] >= 0, g.at(L).f["bad"] <= L)))]
        out.append(("position of the line", IMP(AND(L >= 0, L <= it), g.at(L).f["i"] == L)))
        for (l, p, c_, i0, g_, hv) in leaves:
            if c_.sort() == I:
                for k in ("calls", "bad", "i"):
                    out.append(("count " + k, c_ == s[k]))
            if c_.sort() == R:
                for k in ("prev", "pw", "pf", "tw", "tf"):
                    out.append(("sum " + k, c_ == s[k]))
            if c_.sort() == z3.ArraySort(I, S) and "mval" not in map(str, p):
                out.append(("message of the line", IMP(AND(L >= 0, L < it, self.rejected), z3.Select(c_, g.at(L).f["bad"]) == self.text)))
            if c_.sort() == z3.ArraySort(I, B):
                out.append(("figures of the line", z3.Select(c_, L) == AND(L >= 0, L < it, self.shown())))
            if c_.sort() == z3.ArraySort(I, S):
                out.append(("figure texts", IMP(AND(L >= 0, L < it, self.shown()), z3.Select(c_, L) == self.figure_text())))
        return out

    def shown(self):
        return AND(self.some, self.time(self.L).f["total"] != self.g.at(self.L).f["prev"])

    def fmt(self, p, q, *sums):
        ls = []
        for v in (p, q):
            leafmap(lambda l: ls.append(l) or l, v)
        ls += [lib.to_real(x) for x in sums]
        return self.ex.ufn("figures_text", *[l.sort() for l in ls], S)(*ls)

    def figure_text(self):
        s = self.g.at(simp(self.L + 1)).f
        return self.fmt(self.path(self.L), self.time(self.L), s["pw"], s["tw"], s["pf"], s["tf"])

    def pos(self):
        if 1 in self.its:
            return self.its[1]
        if not self.ex.loop_frames:
            raise Unsupported("a line parsed outside the loop over the lines")
        return z3.Int("some_line")      # the loop is only being asked what it changes

    def figures(self, ex, st, this, args, decl):
        return self.fmt(*[ex.rd(st, a) for a in args])

    def parse(self, ex, st, this, args, decl):
        it = self.pos()
        c = self.c
        v = [ex.rd(st, a) for a in args]
        if len(args) not in (4, 5):
            raise Unsupported("another parse operation")
        nr, text, single = v[0], lib.as_str(v[1]), v[-1]
        ml = args[-2]
        c.ensure("the line is handed on with its text and number", st, AND(nr == it + 1, text == z3.Select(self.lines.e, it), text != sv("")))
        c.ensure("its message starts empty and is asked for on one line", st, AND(ex.rd(st, ml) == sv(""), single))
        cl = this + ("f", "calls")
        c.ensure("every line before it has been handed on once", st, ex.rd(st, cl) == self.g.at(it).f["calls"])
        ex.write(st, cl, simp(ex.rd(st, cl) + 1))
        ex.write(st, ml, z3.Select(self.msg, it))
        if len(args) == 5 and isinstance(args[2], (LVal, IteL)):
            pass        # what the line is made of is not used
        return z3.Select(self.ret, it)

    def member(self, st, reader, n):
        """the data of a reader at this point"""
        p = self.ex.read(st, self.this + ("f", reader))
        while isinstance(p, (Ref, Ptr)):
            p = self.ex.read(st, p.l)
        return p.f[n]

    def absent(self, st, what):
        """the description is not kept, so that the next document has it read again (or reports it again)"""
        n = {"word grammar": "mWordGrammarReader", "G code groups": "mGCodeGroupsReader", "M code groups": "mMCodeGroupsReader"}[what]
        p = self.ex.read(st, self.this + ("f", n))
        return T if p.l is None else p.null if isz(p.null) else z3.BoolVal(bool(p.null))

    def made(self, ex, st, t, args, decl):
        if "heidenhain" in t.n:
            self.c.ensure("no driver selects the Heidenhain language", st, F_)
            return Rec(t, {"calls": iv(0)})
        v = [ex.rd(st, a) for a in args]
        want = [("mWordGrammarReader", "mWordGrammar"), ("mWordGrammarReader", "mOperations"), ("mGCodeGroupsReader", "mCodeGroups"), ("mMCodeGroupsReader", "mCodeGroups")]
        for x, w, what in zip(v, want, ("word grammar", "operations", "G code groups", "M code groups")):
            self.c.ensure("the parser gets the machine's " + what, st, same(x, self.member(st, *w)))
        self.c.ensure("every verification is switched on", st, AND(*[v[4].f[n] for n in ("evaluate_macro", "verify_code_groups", "calculate_path", "ncsettings_code_analysis", "zero_point_analysis")]))
        self.c.ensure("the texts are in the server's language and the dialect is the machine's", st, AND(v[5].f["language"] == ex.rd(st, self.this + ("f", "mLanguage")), v[6] == self.member(st, "mNcSettingsReader", "mFanucParserType")))
        return Rec(t, {"calls": iv(0)})

    def set_ncsettings(self, ex, st, this, args, decl):
        v = [ex.rd(st, a) for a in args]
        for x, n in zip(v, ("mMachineTool", "mMachineToolType", "mMachinePointsData", "mKinematics", "mCncDefaultValues", "mZeroPoint")):
            self.c.ensure("the parser gets the settings' " + n[1:], st, same(x, self.member(st, "mNcSettingsReader", n)))
        self.c.ensure("the machine's settings are set before the first line", st, ex.rd(st, this + ("f", "calls")) == 0)
        return None

    def settings_read(self, ex, st, this, args, decl):
        """reads the file again: every figure of the settings may change"""
        for n, t in ex.fields(self.c.rec("NCSettingsReader")):
            if n not in ("mLogger", "mNcSettingsPath"):
                ex.write(st, this + ("f", n), ex.fresh(t, "read." + n))
        return z3.Bool("settings_good")

    def reset_macro_values(self, ex, st, this, args, decl):
        return None

    def get_macro_values(self, ex, st, this, args, decl):
        self.c.ensure("the variables are those after the last line", st, ex.rd(st, this + ("f", "calls")) == self.g.at(self.lines.n).f["calls"])
        return self.macros

    def get_path_result(self, ex, st, this, args, decl):
        self.asked(ex, st, this)
        return ex.alloc(st, self.path(self.pos()))

    def get_time_result(self, ex, st, this, args, decl):
        self.asked(ex, st, this)
        return ex.alloc(st, self.time(self.pos()))

    def asked(self, ex, st, this):
        self.c.ensure("the figures are asked for after the line", st, ex.rd(st, this + ("f", "calls")) == self.g.at(self.pos()).f["calls"] + 1)

    def reader(self, t, n):
        return Rec(t, {k: Ptr(None) if x.k == "ptr" else self.ex.fresh(x, n + "." + k) for k, x in self.ex.fields(t)})


def doc(pt):
    def part(run):
        d = Doc(run, "lines and messages" + (", figures" if pt else ""), pt)
        c, ex, L = d.c, d.ex, d.L
        good = z3.Bool("settings_good")
        fn = [f for f in c.tus[0].find_fn("NCParser::parse") if c.tus[0].body(f) is not None]
        if len(fn) != 1:
            raise F.ExtractError("NCParser::parse not found")
        code = z3.String("code")
        rd0 = ex.rd(c.st, d.f["mNcSettingsReader"].l).f
        ok = OR(rd0["mNcSettingsPath"] == sv(""), good)
        s0 = c.st
        c.st = s0.copy(); c.assume(ok)
        st, r, th = c.call(fn[0], d.this, [c.loc(code)])
        c.only(th)
        v = ex.rd(st, r)
        msgs, mac, fig = v.f["t0"], v.f["t1"], v.f["t2"]
        end = d.g.at(d.lines.n).f
        c.ensure("as many messages as rejected lines", st, msgs.n == end["bad"])
        here = AND(L >= 0, L < d.lines.n, d.rejected)
        c.ensure("the message of a rejected line, at its place among them", st, IMP(here, AND(d.g.at(L).f["bad"] < msgs.n, z3.Select(msgs.e, d.g.at(L).f["bad"]) == d.text)))
        c.ensure("the variables", st, same(mac, d.macros))
        if pt:
            c.ensure("figures exactly at the lines where time passes", st, z3.Select(fig.dom, L) == AND(L >= 0, L < d.lines.n, d.shown()))
            c.ensure("the figures denote the line's results and the sums so far", st, IMP(AND(L >= 0, L < d.lines.n, d.shown()), z3.Select(fig.e, L) == d.figure_text()))
        c.cover("a line rejected", st, [here])
        c.st = s0.copy(); c.assume(NOT(ok))
        st, r, th = c.call(fn[0], d.this, [c.loc(code)])
        c.only(th)
        v = ex.rd(st, r)
        c.ensure("settings that cannot be read are reported and nothing is checked against them", st, AND(ex.seqlen(v.f["t0"]) == 1, z3.PrefixOf(sv("ERROR"), first_of(v.f["t0"]))))
    return part


def first(run):
    """the first document: the descriptions of the machine's words and code groups are read, for the machine's driver"""
    d = Doc(run, "first document", False, loaded=False)
    c, ex = d.c, d.ex
    below, real, good = ex.ufn("below", S, S, S), ex.ufn("canonical", S, S), ex.ufn("description_good", S, B)
    text = lib.as_str
    ex.libs["construct:path"] = lambda ex_, t, rv, st: text(rv[0])
    ex.libs["op:/"] = lambda ex_, st, vals, n: below(*[text(ex_.rd(st, v)) for v in vals])
    ex.libs["fn:canonical"] = lambda ex_, st, obj, vals, n: real(text(ex_.rd(st, vals[0])))
    ex.libs["method:string"] = lambda ex_, st, obj, v, vals, n: v if isz(v) and z3.is_string(v) else NotImplemented
    driver = ex.ufn("driver_name", I, S)         # C17
    ex.libs["stream_enum"] = lambda ex_, t, v: driver(v) if t.n.endswith("EFanucParserType") else sv("?")
    folder = lambda n: real(below(below(below(d.f["mRootPath"], sv("conf")), driver(d.member(c.st, "mNcSettingsReader", "mFanucParserType"))), sv(n)))
    asked = []
    set_path = d.member(c.st, "mNcSettingsReader", "mNcSettingsPath")

    def made(kind):
        def f(ex_, st, this, vals, decl):
            return d.reader(c.rec(kind), ex_.fresh_name(kind)).with_("mPath", text(ex_.rd(st, vals[0])))
        return f

    def read(ex_, st, this, args, decl):
        path = ex_.rd(st, this).f["mPath"]
        names = ["grammar.json", "gcode_groups.json", "mcode_groups.json"]
        if len(asked) < 3:
            c.ensure("reads %s of the machine's driver" % names[len(asked)], st, path == folder(names[len(asked)]))
        asked.append(path)
        return good(path)
    for k in ("WordGrammarReader", "CodeGroupsReader"):
        ex.contracts["make:" + k] = made(k)
        ex.contracts[k + "::read"] = read
    fn = [f for f in c.tus[0].find_fn("NCParser::parse") if c.tus[0].body(f) is not None]
    c.assume(set_path == sv(""))        # with a settings file the driver is the one it names; see "lines and messages"
    st, r, th = c.call(fn[0], d.this, [c.loc(z3.String("code"))])
    c.only(th)
    v = ex.rd(st, r)
    c.ensure("the three descriptions are read", st, z3.BoolVal(len(asked) == 3))
    for n, what in (("grammar.json", "word grammar"), ("gcode_groups.json", "G code groups"), ("mcode_groups.json", "M code groups")):
        bad = NOT(good(folder(n)))
        c.ensure("a description of the %s that cannot be read is reported and nothing is checked" % what, st, IMP(bad, AND(ex.seqlen(v.f["t0"]) == 1, z3.PrefixOf(sv("ERROR"), first_of(v.f["t0"])))))
        c.ensure("the next document is not checked against a %s that could not be read" % what, st, IMP(bad, d.absent(st, what)))
    c.cover("all read", st, [good(folder(n)) for n in ("grammar.json", "gcode_groups.json", "mcode_groups.json")])


def published(run):
    """publishDiagnostics: the document is kept and every message becomes one diagnostic, in order"""
    c = run.ctx("diagnostics", server.SRC)
    ex = c.ex
    ex.opts["abstract_strings"] = True
    sv_ = server.Server(c)
    j, this = sv_.j, c.loc(Rec(sv_.t, sv_.f))
    msg = server.Message(ex)
    text, uri, other, K = z3.String("content"), z3.String("uri"), z3.String("other_uri"), z3.Int("K")
    ex.index_instances.append(K)
    ls = server.Lines(c, text)
    messages = c.fresh(Ty("seq", [Ty("string")]), "messages")
    ex.bounds.append(messages.n)
    docs = sv_.f["mFileContexts"]
    macros = c.fresh("macro_map", "macros")
    figures = leafmap(lambda a: z3.Const(ex.fresh_name("fig"), a.sort().range()), docs.e).f["pathTimeResult"]

    def parse(ex_, st, this_, args, decl):
        c.ensure("the parser is given the document", st, ex_.rd(st, args[0]) == text)
        return Rec(Ty("tuple", [messages.ty if hasattr(messages, "ty") else Ty("seq", [Ty("string")]), c.ty("macro_map"), Ty("opaque")], n="tuple"), {"t0": messages, "t1": macros, "t2": figures})
    ex.contracts["NCParser::parse"] = parse
    bad, why = z3.Bool("user_descriptions_bad"), z3.String("user_descriptions_error")

    def fetch(ex_, st, this_, args, decl):
        ex_.throw(st, Exc("nclangsrv::json_parser_exception", Rec(c.rec("json_parser_exception"), {"$what": why})), bad)
        return None
    ex.contracts["fetch_macrosDesc"] = fetch
    reported = ex.ufn("description_diagnostic", S, I)
    ex.contracts["prepareMacroDescDiagnostic"] = lambda ex_, st, this_, a, d: reported(lib.as_str(ex_.rd(st, a[0])))

    def diag(m):
        l, ch, t = msg.parts(m)
        return OR(l != 0, ch != 0, NOT(lib.is_empty(ex, t))), j.obj(severity=j.num(1), range=j.range(l, ch, ch), message=j.text(t))

    def step(s, m):
        some, d = diag(m)
        return Rec(None, {"d": IF(some, j.item(s.f["d"], d), s.f["d"])})
    start = IF(AND(bad, NOT(lib.is_empty(ex, why))), j.item(j.empty(4), reported(why)), j.empty(4))
    g = loops.Ghost(ex, "diagnostics", Rec(None, {"d": start}), step, lambda k: z3.Select(messages.e, k), messages.n)
    ex.ghosts.append(g)

    def inv(ex, head, it, leaves, mapseen):
        if mapseen is not None:
            return []
        g.unfold(it); ls.g.unfold(it); ls.g.unfold(K)
        s = ls.g.at(it).f
        out = [("lines counted", s["n"] == it), ("position", s["k"] == it), ("position of the line", IMP(AND(K >= 0, K <= it), ls.g.at(K).f["k"] == K)), ("there is a line", IMP(AND(K >= 0, K < it), ls.g.at(K).f["rest"] != sv("")))]
        for (l, p, c_, i0, g_, hv) in leaves:
            if c_.sort() == I:
                out += [("count", c_ == it), ("diagnostics", c_ == g.at(it).f["d"])]
            if c_.sort() == S:
                out.append(("text left", c_ == s["rest"]))
            if c_.sort() == z3.ArraySort(I, S):
                out.append(("line", IMP(AND(K >= 0, K < it), z3.Select(c_, K) == ls.line(ls.g.at(K).f["rest"]))))
        return out
    ex.loop_invs.append(inv)
    st, r, th = c.call("JsonMessageHandler::textDocument_publishDiagnostics", this, [c.loc(uri), c.loc(text)])
    c.only(th)
    want = j.obj(jsonrpc=j.text(sv("2.0")), method=j.text(sv("textDocument/publishDiagnostics")), params=j.obj(uri=j.text(uri), diagnostics=g.at(messages.n).f["d"]))
    c.ensure("one answer", st, z3.BoolVal(len(j.out) == 1))
    s, d = j.out[0]
    c.ensure("a diagnostic per message, in order, at its line and character, with its text", s, d == want)
    c.ensure("the answer is sent, preceded by its length", st, ex.rd(st, j.cout).f["text"] == server.framed(j, d))
    after = ex.rd(st, this).f["mFileContexts"]
    doc = leafmap(lambda a: z3.Select(a, uri), after.e).f
    c.ensure("the document is known", st, z3.Select(after.dom, uri))
    c.ensure("its variables and figures are those the parser returned", st, AND(same(doc["macroMap"], macros), same(doc["pathTimeResult"], figures)))
    rest = ls.g.at(K).f["rest"]
    c.ensure("its lines are kept", st, IMP(AND(K >= 0, K < doc["contentLines"].n), AND(rest != sv(""), z3.Select(doc["contentLines"].e, K) == ls.line(rest))))
    c.ensure("up to the last", st, AND(ls.g.at(doc["contentLines"].n).f["rest"] == sv(""), doc["contentLines"].n >= 0))
    c.ensure("every other document is as it was", st, IMP(other != uri, AND(z3.Select(after.dom, other) == z3.Select(docs.dom, other), same(leafmap(lambda a: z3.Select(a, other), after.e), leafmap(lambda a: z3.Select(a, other), docs.e)))))
    c.cover("messages", st, [messages.n > 1])


def requests(run):
    """what the server does with a message of the editor: the documents it names are parsed, or forgotten, and nothing else
    touches them"""
    c = run.ctx("requests", server.SRC)
    ex = c.ex
    sv_ = server.Server(c)
    j = sv_.j
    done = c.loc(Rec(None, {"n": iv(0), "what": iv(0)}))
    message = z3.String("message")
    req = ex.ufn("json_parsed", S, I)(message)
    T_ = Ty("opaque", n="ParseResult")

    def parsed(ex_, st, obj, v, vals, n):
        c.ensure("the message is read as it came", st, lib.as_str(ex_.rd(st, vals[0])) == message)
        ex_.write(st, obj, req)
        return obj
    ex.libs["method:Parse"] = parsed
    ex.libs["method:operator ParseResult"] = lambda ex_, st, obj, v, vals, n: Opaque("parse result")
    ex.libs["method:operator bool"] = lambda ex_, st, obj, v, vals, n: T if isinstance(v, Opaque) else NotImplemented
    for k, f in (("IsInt", B), ("IsString", B), ("GetStringLength", I)):
        g = ex.ufn("json_" + k, I, f)
        ex.libs["method:" + k] = lambda ex_, st, obj, v, vals, n, g=g: g(v)
    handlers = ["initialize", "initialized", "workspace/didChangeConfiguration", "textDocument/didOpen", "textDocument/didChange", "textDocument/didClose", "textDocument/completion",
                "completionItem/resolve", "textDocument/hover", "textDocument/codeLens", "codeLens/resolve", "$/cancelRequest", "shutdown"]

    def handled(k, name, takes):
        def f(ex_, st, this, args, decl):
            if takes:
                c.ensure(name + " is handled with the message", st, ex_.rd(st, args[0]) == req)
            r = ex_.rd(st, done)
            ex_.write(st, done, Rec(None, {"n": simp(r.f["n"] + 1), "what": iv(k)}))
            return None
        return f
    for k, name in enumerate(handlers):
        fn = name.replace("$/", "").replace("/", "_")
        ex.contracts["JsonMessageHandler::" + fn] = handled(k + 1, name, "/" in name and name[0] != "$" and name != "textDocument/completion")
    method = j.child(req, sv("method"))
    text = j.as_text(method)
    c.assume(AND(j.has(req, sv("method")), ex.ufn("json_GetStringLength", I, I)(method) == z3.Length(text), z3.Length(text) < 2 ** 31))
    this = c.loc(Rec(sv_.t, sv_.f))
    s0 = c.st
    c.st = s0.copy()
    st, r, th = c.call("JsonMessageHandler::parse", this, [c.loc(message)])
    c.only(th)
    d = ex.rd(st, done).f
    want = iv(0)
    for k, name in enumerate(handlers):
        want = IF(text == sv(name), k + 1, want)
    c.ensure("every message is handled once, by the operation it names", st, AND(d["what"] == want, d["n"] == IF(want == 0, 0, 1)))
    c.ensure("the documents are left to the operations", st, same(ex.rd(st, this).f["mFileContexts"], sv_.f["mFileContexts"]))
    c.ensure("the server ends only when told to", st, ex.rd(st, this).f["mExit"] == OR(sv_.f["mExit"], text == sv("exit")))
    for n in handlers:
        del ex.contracts["JsonMessageHandler::" + n.replace("$/", "").replace("/", "_")]
    # the three operations on documents
    doc = server.get(j, req, "params", "textDocument")
    uri, other = j.as_text(server.get(j, doc, "uri")), z3.String("other_uri")
    given = []

    def publish(ex_, st, this_, args, decl):
        given.append((st.copy(), [lib.as_str(ex_.rd(st, a)) for a in args]))
        return None
    ex.contracts["JsonMessageHandler::textDocument_publishDiagnostics"] = publish
    for op, new in (("didOpen", server.get(j, doc, "text")), ("didChange", j.child(j.nth(server.get(j, req, "params", "contentChanges"), iv(0)), sv("text")))):
        c.st = s0.copy()
        given.clear()
        st, r, th = c.call("JsonMessageHandler::textDocument_" + op, this, [c.loc(req)])
        c.only(th)
        c.ensure(op + ": the document is checked once", st, z3.BoolVal(len(given) == 1))
        for s, (u, t) in given:
            c.ensure(op + ": with the text the editor sent", s, AND(u == uri, t == j.as_text(new)))
    c.st = s0.copy()
    given.clear()
    st, r, th = c.call("JsonMessageHandler::textDocument_didClose", this, [c.loc(req)])
    c.only(th)
    a, b = sv_.f["mFileContexts"], ex.rd(st, this).f["mFileContexts"]
    c.ensure("didClose: the document is forgotten and no other", st, AND(NOT(z3.Select(b.dom, uri)), IMP(other != uri, AND(z3.Select(b.dom, other) == z3.Select(a.dom, other), same(leafmap(lambda x: z3.Select(x, other), b.e), leafmap(lambda x: z3.Select(x, other), a.e))))))
    c.ensure("didClose: nothing is checked", st, z3.BoolVal(not given))


def trim(run):
    """rtrim: a line without the white space at its end"""
    c = run.ctx("end of a line", SRC)
    ex = c.ex
    text, k = z3.String("text"), z3.Int("k")
    space = lambda x: OR(x == 32, AND(x >= 9, x <= 13))
    at = lambda s, i: z3.StrToCode(z3.SubString(s, i, 1))

    def inv(ex, head, it, leaves, mapseen):
        out = []
        for (l, p, c_, i0, g_, hv) in leaves:
            if c_.sort() == S:
                out.append(("a part of it", z3.PrefixOf(c_, text)))
                out.append(("only white space cut off", IMP(AND(k >= z3.Length(c_), k < z3.Length(text)), space(at(text, k)))))
        return out
    ex.loop_invs.append(inv)
    st, r, th = c.call("rtrim", None, [text])
    c.only(th)
    r = lib.as_str(ex.rd(st, r))
    c.ensure("the beginning of the line", st, z3.PrefixOf(r, text))
    c.ensure("what is cut off is white space", st, IMP(AND(k >= z3.Length(r), k < z3.Length(text)), space(at(text, k))))
    c.ensure("no white space is left at its end", st, OR(r == sv(""), NOT(space(at(r, z3.Length(r) - 1)))))
    c.cover("something cut off", st, [r != text])


def split(run):
    """splitLines: the stretches between the newlines, in order"""
    c = run.ctx("lines of a document", SRC)
    ex = c.ex
    code, P = z3.String("code"), z3.Int("newline")
    ex.index_instances.append(P)
    n = z3.Length(code)
    cut = ex.ufn("without_trailing_space", S, S)
    ex.contracts["rtrim"] = lambda ex_, st, this, a, d: cut(lib.as_str(ex_.rd(st, a[0])))
    at = lambda i: z3.StrToCode(z3.SubString(code, i, 1))
    # specification: number of newlines before a position, and the position behind the last of them
    g = loops.Ghost(ex, "lines", Rec(None, {"i": iv(0), "n": iv(0), "start": iv(0)}), lambda s, x: Rec(None, {"i": s.f["i"] + 1, "n": s.f["n"] + IF(x == 10, 1, 0), "start": IF(x == 10, s.f["i"] + 1, s.f["start"])}), at, n)
    ex.ghosts.append(g)
    g.unfold(P)
    line = lambda a, b: cut(z3.SubString(code, a, b - a))
    here = lambda it: AND(P >= 0, P < it, at(P) == 10)

    def inv(ex, head, it, leaves, mapseen):
        g.unfold(P)
        out = []
        pos = [c_ for (l, p, c_, i0, g_, hv) in leaves if c_.sort() == I]
        for e in pos:
            g.unfold(e)
            s = g.at(e).f
            out += [("in the document", AND(e >= 0, e <= n)), ("position", s["i"] == e), ("start before", AND(s["start"] >= 0, s["start"] <= e, s["n"] >= 0)), ("order", IMP(here(e), AND(g.at(P).f["n"] >= 0, g.at(P).f["n"] < s["n"], g.at(P).f["i"] == P, g.at(P).f["start"] <= P, g.at(P).f["start"] >= 0)))]
            for x in pos:
                if x is not e:
                    out += [("start", x == s["start"]), ("count", x == s["n"])]
            for (l, p, c_, i0, g_, hv) in leaves:
                if c_.sort() == z3.ArraySort(I, S):
                    out.append(("line", IMP(here(e), z3.Select(c_, g.at(P).f["n"]) == line(g.at(P).f["start"], P))))
        return out
    ex.loop_invs.append(inv)
    st, r, th = c.call("splitLines", None, [c.loc(code)])
    c.only(th)
    r = ex.rd(st, r)
    end = g.at(n).f
    c.ensure("a line per newline and one behind the last, unless nothing follows", st, r.n == end["n"] + IF(end["start"] < n, 1, 0))
    c.ensure("the line before a newline", st, IMP(here(n), z3.Select(r.e, g.at(P).f["n"]) == line(g.at(P).f["start"], P)))
    c.ensure("the line behind the last newline", st, IMP(end["start"] < n, z3.Select(r.e, end["n"]) == line(end["start"], n)))
    c.cover("several lines", st, [end["n"] > 1])


def made(pt):
    def part(run):
        """the parser object of a server"""
        c = run.ctx("parser object", SRC)
        ex = c.ex
        t = c.rec("NCParser")
        this = c.loc(ex.uninit_record(t))
        d = Doc.__new__(Doc)
        d.ex = ex
        reader = c.loc(d.reader(c.rec("NCSettingsReader"), "settings"))
        calc = z3.Bool("calculate")
        st, r, th = c.call(c.fn("NCParser::NCParser", nparams=4), this, [Ptr(None), c.loc(z3.String("root")), Ref(reader), calc])
        c.only(th)
        v = ex.rd(st, this).f
        c.ensure("neither converts nor rotates, messages on one line, figures on request", st, AND(NOT(v["convert_length"]), NOT(v["rotate"]), v["single_line_output"], v["calculate_path_time"] == calc))
        c.ensure("texts in English, settings below the given folder", st, AND(v["mLanguage"] == c.enum("ELanguage", "English"), v["mRootPath"] == z3.String("root")))
    return part


PARTS = [("diagnostics", published), ("requests", requests), ("lines and messages", doc(False)), ("first document", first), ("figures", doc(True)), ("end of a line", trim), ("lines of a document", split), ("parser object", made(False))]

RULE = "random documents (1-3 edits, LF and CRLF, with and without settings files) opened or changed in the server's message handler; the published diagnostics are compared with a line-by-line parse"
BOUNDED = ["the JSON library (rapidjson), std::getline and the diagnostic about the user's own descriptions (prepareMacroDescDiagnostic): random documents and histories"]
LEVEL = "proof"
NOTE = ("NCParser::parse (loop over the lines, numbering, message prefix, figures, what the parser is created with), splitLines, rtrim, the constructor, and in the message handler the dispatch of messages, didOpen/didChange/didClose "
        "and publishDiagnostics are under contract: all obligations discharged for every document, message and history of documents; the JSON library is a library contract (props/json.py), exercised by the bounded harness. Assumptions are in the evidence file.")


def harness(h):
    import json, os, re, tempfile
    from harness import build, srv
    from harness.hx import run_lines
    rng = h.rng
    exe = build.server()
    with tempfile.TemporaryDirectory(prefix="c19-") as tmp:
        files = {}
        for d in srv.DRV:
            files[d] = os.path.join(tmp, d + ".json")
            json.dump(srv.settings(d), open(files[d], "w"))
        plans = []
        for k in range(h.n(60, 1500)):
            nc = rng.choice([""] * 3 + list(files.values()))
            docs = [srv.document(rng, rng.randint(0, 14)) for _ in range(rng.randint(1, 3))]
            plans.append((nc, rng.randint(0, 1), docs))
        flat = [(nc, d) for nc, c, ds in plans for d in ds]
        refs = run_lines(exe, [srv.ref(srv.split(d), nc) for nc, d in flat])
        it = iter(refs)
        cases = []
        for nc, calc, docs in plans:
            want, msgs, skip = [], [], False
            for j, d in enumerate(docs):
                o = next(it)
                ls = srv.split(d)
                if o.startswith("!") or o.split()[0] != "1":
                    skip = True
                    continue
                r = srv.Ref(o, ls)
                w = []
                for n, text in ls:
                    x = r.res[n]
                    if x["ok"]:
                        continue
                    m = re.match(r"1:(\d+):(.*)$", x["msg"], re.S)
                    if m:
                        w.append((n - 1, max(int(m.group(1)) - 1, 0), m.group(2).strip()))
                    else:
                        w.append((n - 1, 0, x["msg"].strip() if x["msg"] else "'%s'" % text))
                want.append(w)
                u = "file:///d%d" % rng.randint(0, 1)
                msgs.append((u, srv.opened(u, d, j > 0 and rng.random() < 0.5)))
            if skip:
                continue

            def check(o, want=want, msgs=msgs):
                rep = srv.replies(o)
                for w, (u, _), a in zip(want, msgs, rep):
                    if isinstance(a, tuple):
                        return "the server fails with %r" % (a[1],)
                    if len(a) != 1 or a[0].get("method") != "textDocument/publishDiagnostics" or a[0]["params"]["uri"] != u:
                        return "answers %r" % (a,)
                    g = [(x["range"]["start"]["line"], x["range"]["start"]["character"], x["message"]) for x in a[0]["params"]["diagnostics"]]
                    if g != w:
                        return "diagnostics (line, character, text) %r, the rejected lines give %r" % (g, w)
                    for x in a[0]["params"]["diagnostics"]:
                        if x["range"]["end"]["line"] != x["range"]["start"]["line"]:
                            return "a diagnostic spans lines: %r" % (x,)
            cases.append((srv.srv([m for _, m in msgs], calc, nc), check, repr([m["params"] for _, m in msgs])[:3000], any(want)))
        h.run(exe, cases, "open or change documents, compare the published diagnostics with a line-by-line parse")

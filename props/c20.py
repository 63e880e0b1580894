"""C20 – hover shows the code or variable under the cursor and its value there."""
from .common import *
from . import json as J, c19, printing
from .server import Server

H = "nclangsrv/JsonMessageHandler.cpp"
SRC = [(H, "nclangsrv::", "nclangsrv"), (H, "parser::", "parser")]
FILES = [H]
ASSUME = ["std::regex finds the leftmost match; the patterns mean what std::regex makes of them (props/json.py Regex)",
          "rapidjson builds and reads values as documented (props/json.py); a request has the members the protocol requires, with positions from 0 to 2^31",
          "descriptions are shorter than 2^31 characters",
          "the values of the variables are those the parser returned for the document (C07); descriptions are those of the files (C22); std::to_string prints a number as digits, a point and six digits"]


def rng(run):
    c = run.ctx("range", SRC)
    j = J.install(c)
    ln, a, b = z3.Ints("line from to")
    st, r, th = c.call("makeRange", None, [ln, a, b, c.loc(Opaque("allocator"))])
    c.only(th)
    c.ensure("a range on the line", st, c.ex.rd(st, r) == j.range(ln, a, b))
    out = c.loc(j.empty(3))
    st, r, th = c.call("hoverMakeResult", None, [c.loc(z3.String("contents")), ln, a, b, out, c.loc(Opaque("allocator"))])
    c.only(th)
    c.ensure("the answer holds the text and the range", st, c.ex.rd(st, out) == j.obj(contents=j.text(z3.String("contents")), range=j.range(ln, a, b)))


def search(run):
    """the word at a position: of the words found one after the other, the one whose characters contain it"""
    c = run.ctx("word at the cursor", SRC)
    ex = c.ex
    rx = J.Regex(c)
    pat, line, ch, K = z3.String("pattern"), z3.String("text"), z3.Int("cursor"), z3.Int("K")
    size = z3.Length(line)
    ex.index_instances.append(K)

    def step(s, x):
        h, a, l, w = rx.about(pat, s.f["t"])
        return Rec(None, {"t": z3.SubString(s.f["t"], a + l, z3.Length(s.f["t"]) - a - l), "o": s.f["o"] + a + l, "on": AND(s.f["on"], h)})
    g = loops.Ghost(ex, "words", Rec(None, {"t": line, "o": iv(0), "on": T}), step, lambda k: k, z3.Int("unbounded"))
    ex.ghosts.append(g)

    def word(k):
        s = g.at(k).f
        h, a, l, w = rx.about(pat, s["t"])
        return AND(s["on"], h), s["o"] + a, s["o"] + a + l

    def other(k):
        h, a, b = word(k)
        return IMP(h, NOT(AND(ch >= a, ch < b)))

    def inv(ex, head, it, leaves, mapseen):
        g.unfold(it); g.unfold(K)
        s = g.at(it).f
        out = [("left of it", AND(s["o"] >= 0, s["o"] <= size, s["t"] == z3.SubString(line, s["o"], size - s["o"]))), ("on", s["on"]), ("none before", IMP(AND(K >= 0, K < it), other(K)))]
        for (l, p, c_, i0, g_, hv) in leaves:
            if c_.sort() == S:
                out.append(("rest", c_ == s["t"]))
            if c_.sort() == I:
                out.append(("offset", c_ == s["o"]))
        return out
    ex.loop_invs.append(inv)
    # once no word is left none is found later: induction over the positions, the step being an obligation
    pre = leafmap(lambda l: z3.Const(ex.fresh_name("ind"), l.sort()), g.init)
    c.ensure("lemma: after the last word there is none", c.st, IMP(NOT(pre.f["on"]), NOT(step(pre, None).f["on"])), "lemma")
    ex.it_hooks.append(lambda it: (g.unfold(it), ex.axioms.append(IMP(AND(it >= 0, it < K, NOT(g.at(simp(it + 1)).f["on"])), NOT(g.at(K).f["on"])))))
    c.assume(AND(size < 2 ** 31, ch < 2 ** 31, ch >= -2 ** 31))
    fr, to = c.loc(iv(0)), c.loc(iv(0))
    st, r, th = c.call("searchPattern", None, [c.loc(Opaque("regex", pat)), c.loc(line), ch, fr, to])
    c.only(th)
    r, a, b = lib.as_str(ex.rd(st, r)), ex.rd(st, fr), ex.rd(st, to)
    hit = r != sv("")
    c.ensure("the characters contain the cursor and are those of the range", st, IMP(hit, AND(a >= 0, a <= ch, ch < b, b <= size, r == z3.SubString(line, a, b - a))))
    c.ensure("they are a word of the pattern", st, IMP(hit, rx.word(pat, r)))
    h, x, y = word(K)
    c.ensure("no answer only when no word contains the cursor", st, IMP(AND(NOT(hit), K >= 0, h), NOT(AND(ch >= x, ch < y))))
    c.cover("a word", st, [hit, a > 3])
    c.cover("none", st, [NOT(hit)])


def hover(run):
    """the answer to a hover request"""
    from . import macros
    c = run.ctx("answer", SRC)
    ex = c.ex
    sv_ = Server(c)
    j = sv_.j
    this = c.loc(Rec(sv_.t, sv_.f))
    req = z3.Int("request")
    get = lambda v, *ks: (get(j.child(v, sv(ks[0])), *ks[1:]) if ks else v)
    pos = get(req, "params", "position")
    line, ch = j.as_int(get(pos, "line")), j.as_int(get(pos, "character"))
    uri = j.as_text(get(req, "params", "textDocument", "uri"))
    c.assume(AND(line >= 0, line < 2 ** 31 - 1, ch >= 0, ch < 2 ** 31))
    docs = sv_.f["mFileContexts"]
    doc = leafmap(lambda a: z3.Select(a, uri), docs.e).f
    there = AND(z3.Select(docs.dom, uri), line < doc["contentLines"].n)
    text = IF(there, z3.Select(doc["contentLines"].e, line), sv(""))
    st, r, th = c.call("JsonMessageHandler::textDocument_hover", this, [c.loc(req)])
    c.only(th)
    # specification
    letter = lambda w: z3.SubString(w, 0, 1)
    h1, w1, a1, b1 = sv_.at(sv(r"[GgMm]\d+\.?\d?"), text, ch)
    h2, w2, a2, b2 = sv_.at(sv(r"[GgMm]#\d+"), text, ch)
    h3, w3, a3, b3 = sv_.at(sv(r"#\d+"), text, ch)
    ex.axioms.append(IMP(h2, AND(z3.Length(w2) > 2, OR(*[letter(w2) == sv(x) for x in "GgMm"]))))        # every word of that pattern
    ans = lambda t, a, b: j.obj(contents=j.text(t), range=j.range(line, a, b))
    code = sv_.table(st, letter(w1), sv_.code(z3.SubString(w1, 1, z3.Length(w1) - 1)), w1)
    i2 = sv_.id(sv_.code(z3.SubString(w2, 2, z3.Length(w2) - 2)))
    k2, v2 = macros.mac(ex, doc["macroMap"], i2, line + 1)
    val = sv_.shown(v2)
    up = IF(OR(letter(w2) == sv("G"), letter(w2) == sv("g")), sv("G"), sv("M"))
    through = IF(k2, sv_.table(st, letter(w2), val, z3.Concat(w2, sv(" ("), up, val, sv(")"))), z3.Concat(w2, sv(" = undefined")))
    c3 = sv_.code(z3.SubString(w3, 1, z3.Length(w3) - 1))
    k3, v3 = macros.mac(ex, doc["macroMap"], sv_.id(c3), line + 1)
    base = IF(k3, z3.Concat(w3, sv(" = "), sv_.shown(v3)), w3)
    known = OR(sv_.title(c3) != sv(""), sv_.text(c3) != sv(""))
    var = IF(known, sv_.md(base, sv_.title(c3), sv_.text(c3)), IF(k3, base, z3.Concat(w3, sv(" = undefined"))))
    want = IF(NOT(there), j.null, IF(h1, ans(code, a1, b1), IF(h2, ans(through, a2, b2), IF(h3, ans(var, a3, b3), j.null))))
    full = j.obj(jsonrpc=j.text(sv("2.0")), id=j.num(j.as_int(get(req, "id"))), result=want)
    c.ensure("one answer", st, z3.BoolVal(len(j.out) == 1))
    s, d = j.out[0]
    c.ensure("the request's number and the answer of the specification", s, d == full)
    t = j.written(d)
    c.ensure("the answer is sent, preceded by its length", st, ex.rd(st, j.cout).f["text"] == z3.Concat(sv("Content-Length: "), lib.str_of_int(z3.Length(t)), sv("\r\n\r\n"), t))
    for n, e in (("a code", [h1]), ("a code through a variable", [NOT(h1), h2, k2]), ("a variable", [NOT(h1), NOT(h2), h3, k3]), ("undefined", [NOT(h1), NOT(h2), h3, NOT(k3), NOT(known)])):
        c.cover(n, s, [there] + e)


def code(run):
    """the number of a code: its digits without the zeros in front"""
    c = run.ctx("number of a code", SRC)
    ex = c.ex
    data, K = z3.String("data"), z3.Int("K")
    n = z3.Length(data)
    at = lambda s, i: z3.SubString(s, i, 1)
    cut = lambda s: AND(z3.SuffixOf(s, data), IMP(AND(K >= 0, K < n - z3.Length(s)), at(data, K) == sv("0")), IMP(data != sv(""), s != sv("")))

    def inv(ex_, head, it, leaves, mapseen):
        return [("zeros cut off", cut(c_)) for (l, p, c_, i0, g_, hv) in leaves if c_.sort() == S]
    ex.loop_invs.append(inv)
    st, r, th = c.call("extractCode", None, [c.loc(data)])
    c.only(th)
    r = lib.as_str(ex.rd(st, r))
    c.ensure("the end of the digits, only zeros cut off, at least one character left", st, cut(r))
    c.ensure("no zero in front of another character", st, OR(z3.Length(r) <= 1, at(r, 0) != sv("0")))
    c.cover("something cut off", st, [r != data])


def number(run):
    """the number of a variable"""
    c = run.ctx("number of a variable", SRC)
    ex = c.ex
    digits, v = z3.String("digits"), z3.Int("value")
    invalid, big = z3.Bool("not_a_number"), z3.Bool("too_big")

    def stoi(ex_, st, obj, vals, n):
        c.ensure("the number of the digits", st, lib.as_str(ex_.rd(st, vals[0])) == digits)
        ex_.throw(st, Exc("std::out_of_range", Rec(Ty("record", n="std::out_of_range"), {"$what": sv("stoi")})), big)
        return v
    ex.libs["fn:stoi"] = stoi
    c.assume(AND(v >= 0, v < 2 ** 31))
    st, r, th = c.call("extractMacroId", None, [c.loc(digits)])
    c.only(th)
    c.ensure("the value, or a number no variable has", st, IF(big, ex.rd(st, r) >= 2 ** 31, ex.rd(st, r) == v))
    c.cover("number", st, [NOT(big)])


def breaks(run):
    """every line break of a text is doubled, nothing else changes"""
    c = run.ctx("line breaks doubled", SRC)
    ex = c.ex
    ex.opts.update(hd_timeout=300, hd_cvc5=5, cvc5_first=True)
    text, brk = z3.String("text"), sv("\n")
    two = sv("\n\n")
    D = ex.ufn("breaks_doubled", S, S)
    rest = lambda t, i: z3.SubString(t, i, z3.Length(t) - i)

    def breakwise(t):
        """D defined from the left: up to the first break, the break twice, the rest doubled"""
        i = z3.IndexOf(t, brk, 0)
        ex.axioms.append(AND(z3.Length(D(t)) >= z3.Length(t), z3.Length(D(t)) <= 2 * z3.Length(t)))       # by the same induction
        ex.axioms.append(D(t) == IF(i < 0, t, z3.Concat(z3.SubString(t, 0, i), two, D(rest(t, i + 1)))))

    def charwise(t):
        """the same a character at a time"""
        h = z3.SubString(t, 0, 1)
        ex.axioms.append(D(t) == IF(t == sv(""), sv(""), z3.Concat(IF(h == brk, two, h), D(rest(t, iv(1))))))

    def inv(ex_, head, it, leaves, mapseen):
        ints = [x for (l, p, x, i0, g_, hv) in leaves if x.sort() == I]
        out = []
        for a, (s, i0) in enumerate([(x, i0) for (l, p, x, i0, g_, hv) in leaves if x.sort() == S]):
            inplace = z3.eq(simp(i0), text)
            for b, n in enumerate(ints if inplace else ints + ([it] if it is not None else [])):
                k = " %d %d" % (a, b)
                if inplace:             # the text itself is rewritten from the left
                    r = rest(s, n)
                    breakwise(r)
                    i, j = z3.IndexOf(s, brk, n), z3.IndexOf(r, brk, 0)
                    pre, u, v = z3.SubString(s, 0, n), z3.SubString(r, 0, j), rest(r, j + 1)
                    hit = AND(j >= 0, i == n + j, r == z3.Concat(u, brk, v), z3.SubString(s, 0, i) == z3.Concat(pre, u), rest(s, i + 1) == v, z3.Length(u) == j, z3.Length(pre) == n)
                    ex.axioms.append(IMP(AND(n >= 0, n <= z3.Length(s)), IF(i < 0, AND(j < 0, i == -1), hit)))        # facts of the string theory, as lemmas
                    out += [("position" + k, AND(n >= 0, n <= z3.Length(s))), ("left of it done" + k, z3.Concat(pre, D(r)) == D(text))]
                else:                   # another text is built
                    charwise(rest(text, n)); breakwise(rest(text, n))
                    out += [("position" + k, AND(n >= 0, n <= z3.Length(text))), ("so far" + k, z3.Concat(s, D(rest(text, n))) == D(text))]
        return out
    ex.loop_invs.append(inv)
    ex.axioms.append(z3.Length(D(text)) <= 2 * z3.Length(text))
    c.assume(z3.Length(text) < 2 ** 31)
    st, r, th = c.call("replaceAll", None, [c.loc(text), c.loc(brk), c.loc(two)])
    c.only(th)
    log = ex.houdini_log
    if log and not any(n.startswith(("left of it done", "so far")) for _, kept, _ in log for n in kept):
        ex.hd_unknown.append("line breaks doubled so far")          # another algorithm: no verdict from this part
    c.ensure("every break twice", st, lib.as_str(ex.rd(st, r)) == D(text))
    c.cover("a break", st, [z3.Contains(text, brk)])


def described(run):
    """the description files are those of the machine's driver, in the server's language, read once"""
    c = run.ctx("description files", SRC)
    ex = c.ex
    below, real, driver = ex.ufn("below", S, S, S), ex.ufn("canonical", S, S), ex.ufn("driver_name", I, S)
    text = lib.as_str
    ex.libs["construct:path"] = lambda ex_, t, rv, st: text(rv[0])
    ex.libs["op:/"] = lambda ex_, st, vals, n: below(*[text(ex_.rd(st, v)) for v in vals])
    ex.libs["fn:canonical"] = lambda ex_, st, obj, vals, n: real(text(ex_.rd(st, vals[0])))
    ex.libs["method:string"] = lambda ex_, st, obj, v, vals, n: v if isz(v) and z3.is_string(v) else NotImplemented
    ex.libs["stream_enum"] = lambda ex_, t, v: driver(v) if t.n.endswith("EFanucParserType") else sv("?")
    t = c.rec("JsonMessageHandler")
    names = (("fetch_gCodesDesc", "mGCodes", "CodesReader", "gcode_desc_"), ("fetch_mCodesDesc", "mMCodes", "CodesReader", "mcode_desc_"), ("fetch_macrosDesc", "mMacrosDesc", "MacrosDescReader", "macros_desc_"))
    s0 = c.st
    for fn, field, kind, file in names:
        c.st = s0.copy()
        f = {}
        for n, ft in ex.fields(t):
            f[n] = Ptr(None) if ft.k == "ptr" else Poison("not used here") if n in ("mParser", "mNcSettingsReader") else ex.fresh(ft, n)
        settings = c.loc(Rec(c.rec("NCSettingsReader"), {n: ex.fresh(ft, "set." + n) if ft.k != "ptr" else Ptr(None) for n, ft in ex.fields(c.rec("NCSettingsReader"))}))
        f["mNcSettingsReader"] = Ref(settings)
        lang = f["mLanguage"]
        langs = [(c.enum("ELanguage", "English"), "en"), (c.enum("ELanguage", "Polish"), "pl")]
        c.assume(OR(*[lang == v for v, _ in langs]))
        want = sv("?")
        for v, x in langs:
            want = IF(lang == v, sv(file + x + ".json"), want)
        path = real(below(below(below(below(f["mRootPath"], sv("conf")), driver(ex.rd(c.st, settings).f["mFanucParserType"])), sv("desc")), want))
        made, read = [], []

        def make(ex_, st, this, vals, decl, kind=kind, path=path, made=made, f=f):
            v = [ex_.rd(st, x) for x in vals]
            c.ensure(fn + ": the file of the machine's driver in the server's language", st, text(v[0]) == path)
            if kind == "MacrosDescReader":
                c.ensure(fn + ": with the user's own descriptions", st, text(v[1]) == f["mMacrosDescUserPath"])
            made.append(1)
            r = Rec(c.rec(kind), {n: Ptr(None) if x.k == "ptr" else ex_.fresh(x, "d." + n) for n, x in ex_.fields(c.rec(kind))})
            return r
        ex.contracts["make:" + kind] = make
        ex.contracts[kind + "::read"] = lambda ex_, st, this, a, d, read=read: (read.append(1), z3.Bool("good"))[1]
        this = c.loc(Rec(t, f))
        st, r, th = c.call("JsonMessageHandler::" + fn, this, [])
        c.only(th)
        c.ensure(fn + ": read once", st, z3.BoolVal(len(made) == 1 and len(read) == 1))
        v = ex.rd(st, this).f[field]
        c.ensure(fn + ": kept", st, NOT(v.null) if v.null is not None and isz(v.null) else z3.BoolVal(v.l is not None))
        # asked again: the descriptions are there
        c.st = st
        st, r, th = c.call("JsonMessageHandler::" + fn, this, [])
        c.only(th)
        c.ensure(fn + ": not read again", st, z3.BoolVal(len(made) == 1 and len(read) == 1))


PARTS = [("number of a code", code), ("number of a variable", number), ("line breaks doubled", breaks), ("value printed", printing.printed(SRC)), ("description files", described), ("documents kept", c19.published), ("requests", c19.requests), ("variables after the last line", c19.doc(False)), ("range", rng), ("word at the cursor", search), ("answer", hover)]
RULE = "random documents opened in the server's message handler and hovered at random positions; the answers are compared with an independent reading of the text, the variable values and the description files"
BOUNDED = ["std::regex and rapidjson themselves: random documents"]
LEVEL = "proof"
NOTE = ("textDocument_hover, searchPattern, extractCode, extractMacroId, replaceAll, to_string_trunc, makeRange, hoverMakeResult and the fetching of the description files are under contract, for every document, request and description; "
        "regular expressions and the JSON library are library contracts. Assumptions are in the evidence file.")


def harness(h):
    import json, os, re, tempfile
    from harness import build, srv
    from harness.hx import run_lines, fmt_trunc, REPO
    rng = h.rng
    exe = build.server()

    def described(path):
        return {k: next(iter(v.items())) for k, v in json.load(open(path, encoding="utf-8-sig"))["descriptions"].items() if v}
    desc = {}
    for d in srv.DRV:
        base = os.path.join(REPO, "conf", d, "desc")
        mac = described(base + "/macros_desc_en.json")
        rg = []
        for k, (t, x) in mac.items():
            m = re.search(r"Range: #(\d+)-#(\d+)(?: - #(\d+)-#(\d+))?", x)
            if m:
                g = [int(v) for v in m.groups() if v]
                rg += [(g[i], g[i + 1], k) for i in range(0, len(g), 2)]
        desc[d] = (described(base + "/gcode_desc_en.json"), described(base + "/mcode_desc_en.json"), mac, rg)

    def number(s):
        return s.lstrip("0") or "0" if not s.lstrip("0").startswith(".") else "0" + s.lstrip("0")

    def shown(contents, td):
        return contents if td is None else "**%s: %s** \n\n---\n\n%s" % (contents, td[0], td[1].replace("\n", "\n\n"))

    def macro_desc(d, no):
        mac, rg = desc[d][2], desc[d][3]
        if str(no) in mac:
            return mac[str(no)], True
        hit = {k for a, b, k in rg if a <= no <= b}
        return (mac[hit.pop()], True) if len(hit) == 1 else (None, not hit)

    def answer(d, text, line, ch, macros):
        """(contents, from, to), None for null, False when the data leave it open"""
        for rx in (r"[GgMm]\d+\.?\d?", r"[GgMm]#\d+", r"#\d+"):
            for m in re.finditer(rx, text):
                if m.start() <= ch < m.end():
                    w = m.group(0)
                    if "#" not in w:
                        tab = desc[d][0 if w[0] in "Gg" else 1]
                        return shown(w, tab.get(number(w[1:]))), m.start(), m.end()
                    no = int(w.lstrip("GgMm#"))
                    vals = [(l, v) for i, l, v in macros if i == no and l <= line + 1]
                    val = fmt_trunc(max(vals)[1]) if vals else None
                    if w[0] == "#":
                        td, known = macro_desc(d, no) if no < 2 ** 31 else (None, True)
                        if not known:
                            return False
                        if val is None and td is None:
                            return w + " = undefined", m.start(), m.end()
                        return shown(w if val is None else w + " = " + val, td), m.start(), m.end()
                    if val is None:
                        return w + " = undefined", m.start(), m.end()
                    c = "%s (%s%s)" % (w, w[0].upper(), val)
                    return shown(c, desc[d][0 if w[0] in "Gg" else 1].get(val)), m.start(), m.end()
        return None
    extra = ["#5021", "#1031", "#10001", "#33", "#9999999999", "G#99999999999", "G#7", "#4001", "M#1", "G00", "G0001", "M08", "G5.1", "G05.1", "#0100", "#1=#2", "X#1Y#2", "G1M3", "G1#1", "##5", "G", "#", "#500=81", "G#500", "m#500", "#500=2.5", "#500=3"]
    with tempfile.TemporaryDirectory(prefix="c20-") as tmp:
        files = {}
        for d in srv.DRV:
            files[d] = os.path.join(tmp, d + ".json")
            json.dump(srv.settings(d), open(files[d], "w"))
        plans = []
        for k in range(h.n(40, 1000)):
            d = rng.choice(["fanuc_mill"] * 3 + srv.DRV)
            docs = {}
            for u in ("file:///a", "file:///b")[:rng.randint(1, 2)]:
                t = srv.document(rng, rng.randint(1, 9), bad=0.05).split("\n")
                for _ in range(rng.randint(0, 5)):
                    i = rng.randrange(len(t))
                    eol = "\r" if t[i].endswith("\r") else ""
                    t[i] = t[i].rstrip("\r") + rng.choice([" ", ""]) + rng.choice(extra) + eol
                docs[u] = "\n".join(t)
            plans.append((d, docs))
        keys = [(d, u) for d, docs in plans for u in docs]
        refs = iter(run_lines(exe, [srv.ref(srv.split(t), files[d]) for d, docs in plans for t in docs.values()]))
        cases = []
        for d, docs in plans:
            msgs, want, macros, bad = [], [], {}, False
            for u, t in docs.items():
                o = next(refs)
                bad = bad or o.startswith("!") or o.split()[0] != "1"
                if not bad:
                    macros[u] = srv.Ref(o, srv.split(t)).macros
            if bad:
                continue
            gone = set()
            for u, t in docs.items():
                if rng.random() < 0.5:          # an older version of the document, or another one
                    older = rng.choice([srv.document(rng, rng.randint(0, 5), bad=0.0), t + "\n#1=77", "#1=5\n" + t, rng.choice(list(docs.values()))])
                    msgs.append(srv.opened(u, older)); want.append(None)
                    if rng.random() < 0.2:
                        msgs.append(srv.closed(u)); want.append(None)
                    msgs.append(srv.opened(u, t, True)); want.append(None)
                else:
                    msgs.append(srv.opened(u, t)); want.append(None)
            for q in range(25):
                u = rng.choice(list(docs))
                if q == 20 and rng.random() < 0.3:
                    msgs.append(srv.closed(u)); want.append(None)
                    gone.add(u)
                ls = docs[u].split("\n")
                n = rng.randrange(len(ls))
                hot = [m.start() for m in re.finditer(r"[GgMm#]", ls[n])]
                c = rng.choice(hot) + rng.choice([0, 0, 1, 1, 2, 3, -1]) if hot and rng.random() < 0.8 else rng.randint(0, len(ls[n]) + 2)
                c = max(c, 0)
                if rng.random() < 0.03:
                    n = len(ls) + 1
                a = answer(d, ls[n], n, c, macros[u]) if n < len(ls) and u not in gone else None
                if a is False:
                    continue
                msgs.append(srv.hover(u, n, c)); want.append((u, n, c, ls[n] if n < len(ls) else "", a))

            def check(o, want=want):
                for w, a in zip(want, srv.replies(o)):
                    if isinstance(a, tuple):
                        return "the server fails with %r at %r" % (a[1], w)
                    if w is None:
                        continue
                    if len(a) != 1 or a[0].get("id") != 7:
                        return "answers %r to one hover request" % (a,)
                    r = a[0].get("result")
                    u, n, c, text, e = w
                    g = None if r is None else (r.get("contents"), (r["range"]["start"]["line"], r["range"]["start"]["character"], r["range"]["end"]["line"], r["range"]["end"]["character"])) if "range" in r else r
                    x = None if e is None else (e[0], (n, e[1], n, e[2]))
                    if g != x:
                        return "hover on %r (line %d) at character %d answers %r, expected %r" % (text, n, c, g, x)
            cases.append((srv.srv(msgs, rng.randint(0, 1), files[d]), check, "%s: %r" % (d, docs), True))
        h.run(exe, cases, "hover over documents, compare with an independent reading of the text, the macro values and the description files")

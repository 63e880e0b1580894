"""C21 – the path and time figures shown next to a block."""
from .common import *
from . import printf, server, c19

N = "nclangsrv/NCParser.cpp"
SRC = [(N, "nclangsrv::", "nclangsrv"), (N, "parser::", "parser")]
FILES = [N, "nclangsrv/JsonMessageHandler.cpp"]
TOL = z3.RealVal("1/100")
ASSUME = ["durations below 10^12 s, lengths printed with two decimals below 100 characters, tool numbers below 100 characters (the figures are printed through a 256-character buffer)",
          "std::snprintf as specified by the C standard (props/printf.py)"]


def pad(ex, w, v):
    return ex.ufn("printf_int", B, I, I, S)(z3.BoolVal(True), iv(w), v) if w else lib.to_string(ex, v)


def fixed2(ex, v):
    return ex.ufn("printf_fixed", I, R, S)(iv(2), v)


def time(neg, hours):
    def go(run):
        c = run.ctx("duration %s%s" % ("below zero" if neg else "from zero", ", hours" if hours else ""), SRC)
        ex = c.ex
        printf.install(ex)
        digits(ex)
        t = z3.Real("seconds")
        a = z3.Int("milliseconds")       # |t| rounded to the millisecond
        ms = -a if neg else a
        c.assume(AND(t > -z3.RealVal(10 ** 12), t < z3.RealVal(10 ** 12)))
        real_round = lib.m_round(t * 1000)
        c.assume(AND(a >= 0, z3.ToReal(ms) == real_round, a > 0 if neg else T))

        def rounded(ex_, st, obj, vals, n):
            """rounding of the duration itself is named (its value is the one defined above); anything else is computed"""
            x = lib.to_real(ex_.rd(st, vals[0]))
            if z3.simplify(x - t * 1000).eq(z3.simplify(z3.RealVal(0))):
                return z3.ToReal(ms)
            return NotImplemented

        def absolute(ex_, st, obj, vals, n):
            x = ex_.rd(st, vals[0])
            if isz(x) and z3.is_int(x) and z3.simplify(x - ms).eq(iv(0)):
                return a
            return NotImplemented
        ex.libs["fn:round"] = rounded
        ex.libs["fn:abs"] = absolute
        h, m, s, f = (z3.Int(x) for x in ("h", "m", "s", "f"))
        c.assume(AND(h > 0 if hours else h == 0, m >= 0, m < 60, s >= 0, s < 60, f >= 0, f < 1000, a == ((h * 60 + m) * 60 + s) * 1000 + f))
        # uniqueness of quotient and remainder, at the divisors of the clock
        for d, q, r in ((1000, (h * 60 + m) * 60 + s, f), (60000, h * 60 + m, s * 1000 + f), (3600000, h, (m * 60 + s) * 1000 + f)):
            c.ensure("lemma: quotient by %d" % d, c.st, a / d == q, "lemma")
            c.assume(a / d == q)
            c.ensure("lemma: remainder by %d" % d, c.st, a % d == r, "lemma")
            c.assume(a % d == r)
        for x, d, q, r in (((h * 60 + m) * 60 + s, 60, h * 60 + m, s), (h * 60 + m, 60, h, m)):
            c.ensure("lemma: quotient", c.st, AND(x / d == q, x % d == r), "lemma")
            c.assume(AND(x / d == q, x % d == r))
        st, r, th = c.call("formatTime", None, [t])
        c.only(th)
        tail = z3.Concat(sv(":"), pad(ex, 2, s), sv("."), pad(ex, 3, f))
        sign = sv("-" if neg else "")
        want = z3.Concat(sign, pad(ex, 0, h), sv(":"), pad(ex, 2, m), tail) if hours else z3.Concat(sign, pad(ex, 0, m), tail)
        c.ensure("a time is shown as hours:minutes:seconds.milliseconds of its value rounded to the millisecond, no hours if zero", st, lib.as_str(ex.rd(st, r)) == want)
        c.cover("text", st)
    return go


def digits(ex):
    """printed integers: width w zero-padded or plain, bounded by the number of digits of the largest duration"""
    f = ex.ufn("printf_int", B, I, I, S)
    old = ex.libs["fn:snprintf"]

    def wrap(ex_, st, obj, vals, n):
        for v in vals[3:]:
            x = ex_.rd(st, v)
            if isz(x) and z3.is_int(x):
                # twelve digits hold any number below 10^12, whatever the padding
                ex_.axioms.append(IMP(AND(x >= 0, x < 10 ** 12), z3.Length(lib.to_string(ex_, x)) <= 12))
                for w in (2, 3):
                    ex_.axioms.append(IMP(AND(x >= 0, x < 10 ** 12), z3.Length(f(z3.BoolVal(True), iv(w), x)) <= 12))
                    ex_.axioms.append(IMP(AND(x >= 0, x < 10 ** w), z3.Length(f(z3.BoolVal(True), iv(w), x)) == w))
            if isz(x) and z3.is_real(x):
                g = ex_.ufn("printf_fixed", I, R, S)(iv(2), x)
                ex_.axioms.append(z3.Length(g) <= 100)
        return old(ex_, st, obj, vals, n)
    ex.libs["fn:snprintf"] = wrap


def result(run):
    c = run.ctx("figures", SRC)
    ex = c.ex
    printf.install(ex)
    digits(ex)
    shown = ex.ufn("clock_text", R, S)

    def fmt(ex_, st, this, args, decl):
        t = ex_.rd(st, args[0])
        x = shown(t)
        ex_.axioms.append(z3.Length(x) < 32)        # proved in the part "duration": the text fits its 32 characters
        return x
    ex.contracts["formatTime"] = fmt
    pr, tr = c.fresh("PathResult", "path"), c.fresh("TimeResult", "time")
    names = ["work_path", "work_time", "rapid_path", "rapid_time"]
    wp, wt, fp, ft = (z3.Real(n) for n in names)
    c.assume(z3.Length(pr.f["tool_id"]) < 100)
    st, r, th = c.call("formatPathTimeResult", None, [c.loc(pr), c.loc(tr), wp, wt, fp, ft])
    c.only(th)
    p, q = pr.f, tr.f
    rows = [(p["total"] >= TOL, " | Total path = ", fixed2(ex, p["total"])),
            (q["total"] >= TOL, " | Total time = ", shown(q["total"])),
            (AND(p["tool_total"] >= TOL, p["total"] - p["tool_total"] >= TOL), None, z3.Concat(sv(" | T"), p["tool_id"], sv(" total path = "), fixed2(ex, p["tool_total"]))),
            (p["fast_motion"] >= TOL, " | Total rapid path = ", fixed2(ex, fp)), (q["fast_motion"] >= TOL, " | Total rapid time = ", shown(ft)),
            (p["work_motion"] >= TOL, " | Total cut path = ", fixed2(ex, wp)), (q["work_motion"] >= TOL, " | Total cut time = ", shown(wt))]
    want = sv("")
    for on, label, v in rows:
        x = v if label is None else z3.Concat(sv(label), v)
        want = IF(on, z3.Concat(want, x), want)
    c.ensure("each figure is shown, in order, exactly when its value reaches the threshold, and denotes the value", st, lib.as_str(ex.rd(st, r)) == want)
    c.cover("text", st)
    c.cover("everything shown", st, [on for on, _, _ in rows])


def lenses(run):
    """the figures of a document as they are listed: one entry per line that has figures, at that line, with their text"""
    c = run.ctx("listed figures", server.SRC)
    ex = c.ex
    sv_ = server.Server(c)
    j, this = sv_.j, c.loc(Rec(sv_.t, sv_.f))
    req, K = z3.Int("request"), z3.Int("line")
    uri = j.as_text(server.get(j, req, "params", "textDocument", "uri"))
    docs = sv_.f["mFileContexts"]
    known = z3.Select(docs.dom, uri)
    fig = leafmap(lambda a: z3.Select(a, uri), docs.e).f["pathTimeResult"]
    has, text = (lambda k: z3.Select(fig.dom, k)), (lambda k: z3.Select(fig.e, k))
    entry = lambda k: j.obj(range=j.range(k, 0, 0), command=j.obj(title=j.text(text(k)), command=j.null))
    times = ex.ufn("entries_of_the_line", I, I)
    ex.axioms.append(times(j.empty(4)) == 0)
    c.assume(IMP(has(K), AND(K >= 0, K < 2 ** 31)))

    def pushed(st, before, x, after):
        k = ex.mapkeys[-1]
        ex.axioms.append(IMP(has(k), AND(k >= 0, k < 2 ** 31)))       # lines of a document
        c.ensure("an entry is the figures of a line, at that line", st, AND(has(k), x == entry(k)))
        ex.axioms.append(times(after) == times(before) + IF(k == K, 1, 0))
    j.pushed.append(pushed)
    ex.extra_keys.setdefault("Int", []).append(K)

    def inv(ex_, head, it, leaves, mapseen):
        if mapseen is None:
            return []
        seen = ex.read(head, mapseen[0])
        out = []
        for (l, p, c_, i0, g_, hv) in leaves:
            if c_.sort() == I:
                out.append(("entries so far", times(c_) == IF(z3.Select(seen, K), 1, 0)))
        out.append(("only lines with figures", IMP(z3.Select(seen, K), has(K))))
        return out
    ex.loop_invs.append(inv)
    st, r, th = c.call("JsonMessageHandler::textDocument_codeLens", this, [c.loc(req)])
    c.only(th)
    c.ensure("one answer", st, z3.BoolVal(len(j.out) == 1))
    s, d = j.out[0]
    res = j.field(d, "result")
    c.ensure("the answer to the request", s, d == j.obj(jsonrpc=j.text(sv("2.0")), id=j.num(j.as_int(server.get(j, req, "id"))), result=res))
    c.ensure("every line with figures has exactly one entry, in a known document", s, IMP(AND(known, has(K)), times(res) == 1))
    c.ensure("nothing is listed for another document", s, IMP(NOT(known), res == j.null))
    c.ensure("the answer is sent, preceded by its length", st, ex.rd(st, j.cout).f["text"] == server.framed(j, d))
    c.ensure("later requests to resolve a figure refer to this document", st, ex.rd(st, this).f["mCurrentUri"] == IF(known, uri, sv_.f["mCurrentUri"]))
    c.ensure("the documents are as they were", st, same(ex.rd(st, this).f["mFileContexts"], docs))
    c.cover("figures", s, [known, has(K)])


def resolved(run):
    """a single figure of the document last listed"""
    c = run.ctx("resolved figure", server.SRC)
    ex = c.ex
    sv_ = server.Server(c)
    j, this = sv_.j, c.loc(Rec(sv_.t, sv_.f))
    req = z3.Int("request")
    at = server.get(j, req, "params", "range")
    line = j.as_int(server.get(j, at, "start", "line"))
    uri, docs = sv_.f["mCurrentUri"], sv_.f["mFileContexts"]
    fig = leafmap(lambda a: z3.Select(a, uri), docs.e).f["pathTimeResult"]
    there = AND(z3.Select(docs.dom, uri), z3.Select(fig.dom, line))
    c.assume(AND(line >= 0, line < 2 ** 31))
    st, r, th = c.call("JsonMessageHandler::codeLens_resolve", this, [c.loc(req)])
    c.only(th)
    c.ensure("one answer", st, z3.BoolVal(len(j.out) == 1))
    s, d = j.out[0]
    want = IF(there, j.obj(range=at, command=j.obj(title=j.text(z3.Select(fig.e, line)), command=j.null)), j.null)
    c.ensure("the figures of the line asked for, or nothing if it has none", s, d == j.obj(jsonrpc=j.text(sv("2.0")), id=j.num(j.as_int(server.get(j, req, "id"))), result=want))
    c.ensure("the answer is sent, preceded by its length", st, ex.rd(st, j.cout).f["text"] == server.framed(j, d))
    c.cover("figures", s, [there])
    c.cover("none", s, [NOT(there)])


PARTS = [("documents kept", c19.published), ("requests", c19.requests), ("figures of a document", c19.doc(True)), ("listed figures", lenses), ("resolved figure", resolved)] + [("duration%s%s" % (", hours" if h else "", ", below zero" if n else ""), time(n, h)) for n in (False, True) for h in (False, True)] + [("figures", result)]
RULE = "random programs (moves, dwells, tool changes, feeds) opened in the server's message handler; the listed and resolved figures are compared with the parser's own path and time results"
BOUNDED = ["the JSON library (rapidjson): random documents"]
LEVEL = "proof"
NOTE = ("formatTime, formatPathTimeResult, textDocument_codeLens and codeLens_resolve are under contract (all obligations discharged for every duration, result, document and request); which lines have figures and their sums is C19's part \"figures\"; "
        "the JSON library is a library contract (props/json.py), exercised by the bounded harness. Assumptions are in the evidence file.")


def harness(h):
    import json, os, re, tempfile
    from fractions import Fraction
    from harness import build, srv
    from harness.hx import run_lines
    rng = h.rng
    exe = build.server()
    TOL = 0.01

    def when(t):
        """hours:minutes:seconds.milliseconds of t seconds rounded to the millisecond (None: too close to a half to tell)"""
        x = Fraction(t) * 1000
        if abs(x - int(x) - Fraction(1, 2)) < Fraction(1, 10 ** 6):
            return None
        ms = int(x + Fraction(1, 2))
        s, ms = divmod(ms, 1000); m, s = divmod(s, 60); hh, m = divmod(m, 60)
        return ("%d:" % hh if hh else "") + ("%02d" if hh else "%d") % m + ":%02d.%03d" % (s, ms)

    def title(p, t, sums):
        out = []
        def fig(on, name, v):
            if on:
                out.append(" | %s = %s" % (name, v))
        fig(p["total"] >= TOL, "Total path", "%.2f" % p["total"])
        fig(t["total"] >= TOL, "Total time", when(t["total"]))
        fig(p["tool"] >= TOL and p["total"] - p["tool"] >= TOL, "T%s total path" % p["id"], "%.2f" % p["tool"])
        fig(p["fast"] >= TOL, "Total rapid path", "%.2f" % sums["pf"])
        fig(t["fast"] >= TOL, "Total rapid time", when(sums["tf"]))
        fig(p["work"] >= TOL, "Total cut path", "%.2f" % sums["pw"])
        fig(t["work"] >= TOL, "Total cut time", when(sums["tw"]))
        return out
    feeds = ["F200", "F1", "F20000", "F0.01", "F3.7", "F60", "F777", "F0.5"]

    def program():
        ls = ["G54 G90 G17 G94 S1000 M3 " + rng.choice(feeds)]
        for _ in range(rng.randint(2, 18)):
            r = rng.random()
            c = lambda: rng.choice(["%d" % rng.randint(-400, 400), "%.3f" % rng.uniform(-400, 400), "%.4f" % rng.uniform(-0.02, 0.02), "0.01", "0.009", ".0105"])
            if r < 0.4:
                l = "G1 " + " ".join(a + c() for a in rng.sample("XYZ", rng.randint(1, 3)))
            elif r < 0.6:
                l = "G0 " + " ".join(a + c() for a in rng.sample("XYZ", rng.randint(1, 3)))
            elif r < 0.7:
                l = "T%d M6" % rng.randint(1, 30)
            elif r < 0.8:
                l = rng.choice(feeds)
            elif r < 0.85:
                l = rng.choice(["G91", "G90", "M5", "M3"])
            elif r < 0.9:
                l = rng.choice(["G4 P500", "G4 X2.5", "G4 P3600000", "G4 X5000"])
            else:
                l = rng.choice(["", "(note)", "@", "G28 X0 Y0"])
            ls.append(l)
        return rng.choice(["\n", "\r\n"]).join(ls)
    with tempfile.TemporaryDirectory(prefix="c21-") as tmp:
        files = [""]
        for k in range(3):
            files.append(os.path.join(tmp, "%d.json" % k))
            json.dump(srv.settings("fanuc_mill", tool_exchange_time=rng.choice([0, 6, 61, 4000]), max_fast_feed=rng.choice([20000, 3, 100])), open(files[-1], "w"))
        cases = []

        def session(f):
            """documents opened, changed and closed under a few names, listed and resolved in between"""
            ops, uris = [], ["file:///p", "file:///q", "file:///r"][:rng.choice([1, 2, 2, 3])]
            for _ in range(rng.randint(1, 4)):
                ops.append(("text", rng.choice(uris), program()))
                for _ in range(rng.choice([1, 1, 2])):
                    ops.append(("list", rng.choice(uris), None))
                if rng.random() < 0.1:
                    ops.append(("close", rng.choice(uris), None))
                    ops.append(("list", rng.choice(uris), None))
            return ops
        plans = [(f, session(f)) for f in (rng.choice(files) for _ in range(h.n(50, 1500)))]
        refs = iter(run_lines(exe, [srv.ref(srv.split(t), f) for f, ops in plans for k, u, t in ops if k == "text"]))

        def figures(t, o):
            ls = srv.split(t)
            r = srv.Ref(o, ls)
            want, prev, sums = [], 0.0, dict(pf=0.0, tf=0.0, pw=0.0, tw=0.0)
            for n, text in ls:
                p, tm = r.res[n]["path"], r.res[n]["time"]
                if tm["total"] != prev:
                    prev = tm["total"]
                    sums["pf"] += p["fast"]; sums["tf"] += tm["fast"]; sums["pw"] += p["work"]; sums["tw"] += tm["work"]
                    want.append((n - 1, title(p, tm, sums)))
            return want

        def differs(shown_, want):
            return not any(x.endswith("= None") for x in want) and shown_ != "".join(want)
        for f, ops in plans:
            docs, seen, cur, msgs, want, bad = {}, set(), None, [], [], False
            for k, u, t in ops:
                if k == "text":
                    o = next(refs)
                    if o.startswith("!") or o.split()[0] != "1":
                        bad = True
                        continue
                    docs[u] = figures(t, o)
                    msgs.append(srv.opened(u, t, u in seen)); want.append(("text", u, None))
                    seen.add(u)
                elif k == "close":
                    docs.pop(u, None)
                    msgs.append(srv.closed(u)); want.append(("close", u, None))
                else:
                    msgs.append(srv.lens(u)); want.append(("list", u, docs.get(u, [])))
                    cur = u if u in docs else cur
                    e = dict(docs.get(cur, []))
                    for n in rng.sample(sorted(e), min(2, len(e))) + [rng.randint(0, 20)]:
                        msgs.append(srv.resolve(n)); want.append(("resolve", n, e.get(n)))
            if bad:
                continue

            def check(o, want=want):
                for (k, u, w), a in zip(want, srv.replies(o)):
                    if isinstance(a, tuple):
                        return "the server fails with %r" % (a[1],)
                    if k == "list":
                        got = a[0]["result"]
                        g = [] if got is None else [(x["range"]["start"]["line"], x["command"]["title"]) for x in got]
                        if sorted(n for n, _ in g) != [n for n, _ in w]:
                            return "%s: figures at lines %r, time advances at lines %r" % (u, [n for n, _ in g], [n for n, _ in w])
                        for n, x in g:
                            if differs(x, dict(w)[n]):
                                return "%s: line %d shows %r, the computed values are %r" % (u, n, x, "".join(dict(w)[n]))
                    if k == "resolve":
                        x = a[0]["result"]
                        if (x is None) != (w is None) or x is not None and differs(x["command"]["title"], w):
                            return "resolving line %d of the document last listed gives %r, expected %r" % (u, x, w)
            cases.append((srv.srv(msgs, 1, f), check, "%r (settings %s)" % (ops, os.path.basename(f)), any(w for _, _, w in want)))
        h.run(exe, cases, "path and time figures next to the blocks, listed and resolved over several documents, compared with the parser's results")

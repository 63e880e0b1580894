"""C22 – configuration files: the value under a key is stored in the setting of that name."""
from .common import *
from . import c19
from . import ptree

N = "nclangsrv/"
FILES = [N + x + ".cpp" for x in ("NCSettingsReader", "WordGrammarReader", "CodeGroupsReader", "CodesReader", "MacrosDescReader", "NCParser")]
ASSUME = ["boost::property_tree: a document is a tree of nodes with ordered (key, child) pairs; reading a value as a type gives the type's value or throws; whatever it throws derives from std::exception (props/ptree.py)",
          "the reader has not read its file yet, and logging is off (the log has no effect on what is read)"]


def src(f):
    return [(N + f + ".cpp", "nclangsrv::", "nclangsrv"), (N + f + ".cpp", "parser::", "parser")]


class Rd:
    """one reader in front of an arbitrary document"""

    def __init__(self, run, title, f, cls, path="mPath"):
        c = self.c = run.ctx(title, src(f))
        self.ex = c.ex
        self.tr = ptree.install(c.ex)
        this = c.fresh(cls, cls)
        this.f["mRead"] = F_
        this.f["mLogger"] = Ptr(None)
        self.this = c.loc(this)
        self.path = this.f.get(path)
        self.cls = cls

    def fields(self, st):
        return self.ex.rd(st, self.this).f

    def run(self, fn="read"):
        f = self.c.tus[0].find_fn(self.cls + "::" + fn)
        f = [x for x in f if self.c.tus[0].body(x) is not None]
        if len(f) != 1:
            raise F.ExtractError("%s::%s not found" % (self.cls, fn))
        return self.c.call(f[0], self.this, [])

    def items(self, node):
        return self.tr.items(node)

    def so_far(self, X, maps):
        """invariant: a map being filled holds, at key X, what the children read so far store there"""
        ex = self.ex

        def inv(ex_, head, it, leaves, mapseen):
            out = []
            f = self.fields(head)
            touched = {str(x) for l in leaves for x in l[1]}
            for nm, (g, fld, gh) in maps.items():
                if nm not in touched:
                    continue
                m, s = fld(f), gh.at(it)
                out.append((nm + " so far", z3.Select(m.dom, X) == s.f["has"]))
                out.append((nm + " values so far", IMP(s.f["has"], same(leafmap(lambda a: z3.Select(a, X), m.e), s.f["val"]))))
            return out
        ex.loop_invs.append(inv)

    def first(self, name, node, X, val, ok, last=False):
        """over the children of a node, in order: the first (last) value stored under key X, and whether some child is unreadable"""
        it = self.items(node)
        c = self.c
        t0 = val(z3.Int("any_node"))

        def step(s, e):
            k, n = e.f["t0"], e.f["t1"]
            new = AND(k == X, T if last else NOT(s.f["has"]))
            nv = val(n)
            return Rec(None, {"has": OR(s.f["has"], k == X), "val": leafmap(lambda a, b: IF(new, a, b), nv, s.f["val"]), "bad": OR(s.f["bad"], NOT(ok(n)))})
        g = c.ghost(name, Rec(None, {"has": F_, "val": leafmap(lambda a: z3.Const(self.ex.fresh_name("none"), a.sort()), t0), "bad": F_}), step, it)
        c.sticky(g, lambda s: s.f["bad"], it.n)
        return g.at(it.n), g


KIN = ["max_working_feed", "max_fast_feed", "maximum_spindle_speed", "numer_of_items_in_the_warehouse", "tool_exchange_time", "pallet_exchange_time", "tool_measurement_time", "diameter_programming_2x",
       "auto_measure_after_tool_selection", "pallet_exchange_code", "pallet_exchange_code_value", "tool_measurement_code", "tool_measurement_code_value"]
CNC = ["default_motion", "default_work_plane", "default_driver_units", "default_programming", "default_feed_mode", "default_rotation_direction", "drill_cycle_z_value", "drill_cycle_return_value", "default_rotation",
       "rapid_traverse_cancel_cycle", "linear_interpolation_cancel_cycle", "circular_interpolation_cw_cancel_cycle", "circular_interpolation_ccw_cancel_cycle", "cycle_cancel_starts_rapid_traverse",
       "operator_turns_on_rotation", "tool_number_executes_exchange", "auto_rapid_traverse_after_tool_exchange"]


def settings(run):
    r = Rd(run, "machine settings", "NCSettingsReader", "NCSettingsReader", "mNcSettingsPath")
    c, ex, tr = r.c, r.ex, r.tr
    root = tr.root_of(r.path)
    ch = lambda n, *ks: ch(tr.child(n, sv(ks[0])), *ks[1:]) if ks else n
    ft = {}
    for t in ("NCSettingsReader", "Kinematics", "CncDefaultValues", "ZeroPoint"):
        ft[t] = dict(ex.fields(c.ty(t)))
    X = z3.String("axis")
    ex.extra_keys.setdefault(str(S), []).append(X)
    D = Ty("real")
    mpd, kin, cnc, zp = (ch(root, x) for x in ("machine_points_data", "kinematics", "cnc_default_values", "zero_point"))
    maps = {}
    ent = lambda gg, fld: (gg[0], fld, gg[1])
    for nm, node, fld in (("tool_exchange_point", ch(mpd, "tool_exchange_point"), lambda f: f["mMachinePointsData"].f["tool_exchange_point"]),
                          ("machine_base_point", ch(mpd, "machine_base_point"), lambda f: f["mMachinePointsData"].f["machine_base_point"])):
        maps[nm] = ent(r.first(nm, node, X, lambda n: tr.value(D, n), lambda n: tr.ok(D, n)), fld)
    rng = c.ty("AxisParameters")
    tmin, tmax = dict(ex.fields(c.ty("AxisParameters")))["range_min"], dict(ex.fields(c.ty("AxisParameters")))["range_max"]
    maps["cartesian_system_axis"] = ent(r.first("cartesian_system_axis", ch(kin, "cartesian_system_axis"), X, lambda n: Rec(rng, {"range_min": tr.get(D, n, "range_min"), "range_max": tr.get(D, n, "range_max")}),
                                             lambda n: AND(tr.good(D, n, "range_min"), tr.good(D, n, "range_max"))), lambda f: f["mKinematics"].f["cartesian_system_axis"])
    r.so_far(X, maps)
    st, res, th = r.run()
    c.only(th)
    ok = ex.rd(st, res)
    f = r.fields(st)
    one = []        # (name, setting, type, node, key)
    for n, k in (("mMachineTool", "machine_tool"), ("mMachineToolType", "machine_tool_type"), ("mFanucParserType", "driver")):
        one.append((k, f[n], ft["NCSettingsReader"][n], root, k))
    for k in KIN:
        one.append((k, f["mKinematics"].f[k], ft["Kinematics"][k], kin, k))
    for k in CNC:
        one.append((k, f["mCncDefaultValues"].f[k], ft["CncDefaultValues"][k], cnc, k))
    for k in "XYZ":
        one.append(("zero point " + k, f["mZeroPoint"].f[k.lower()], ft["ZeroPoint"][k.lower()], zp, k))
    full = AND(tr.readable(r.path), *[tr.good(t, n, k) for _, _, t, n, k in one], *[tr.has(root, sv(k)) for k in ("machine_points_data", "kinematics", "cnc_default_values", "zero_point")],
               tr.has(mpd, sv("tool_exchange_point")), tr.has(mpd, sv("machine_base_point")), tr.has(kin, sv("cartesian_system_axis")), *[NOT(g.f["bad"]) for g, _, _ in maps.values()])
    c.ensure("a file is accepted exactly when every key is there with a value of its type", st, ok == full)
    for nm, v, t, n, k in one:
        c.ensure("%s is the value of its key" % nm, st, IMP(ok, v == tr.get(t, n, k)))
    for nm, (g, fld, _) in maps.items():
        m = fld(f)
        c.ensure("%s has the axes of the file" % nm, st, IMP(ok, z3.Select(m.dom, X) == g.f["has"]))
        got = leafmap(lambda a: z3.Select(a, X), m.e)
        c.ensure("%s of an axis is the value in the file" % nm, st, IMP(AND(ok, g.f["has"]), same(got, g.f["val"])))
    c.cover("accepted", st, [ok])
    c.cover("refused", st, [NOT(ok)])


def grammar(run):
    r = Rd(run, "word grammar", "WordGrammarReader", "WordGrammarReader")
    c, ex, tr = r.c, r.ex, r.tr
    root = tr.root_of(r.path)
    X, K = z3.String("word"), z3.Int("operation")
    ex.extra_keys.setdefault(str(S), []).append(X)
    ex.index_instances.append(K)
    wt = c.ty("WordGrammar")
    ft = dict(ex.fields(wt))
    key = {"word": "word", "range_from": "range_from", "range_to": "range_to", "decimal_from": "decimal_from", "decimal_to": "decimal_to", "unique": "unique", "word_type": "type"}
    if set(key) != set(ft):
        raise F.ExtractError("fields of WordGrammar: " + " ".join(ft))
    val = lambda n: Rec(wt, {f: tr.get(ft[f], n, key[f]) for f in ft})
    ok = lambda n: AND(*[tr.good(ft[f], n, key[f]) for f in ft])
    maps = {}
    for u in ("metric", "imperial"):
        g, gh = r.first(u, tr.child(root, sv(u)), X, val, ok, last=True)
        maps[u] = (g, lambda f, u=u: f["mWordGrammar"].f[u], gh)
    r.so_far(X, maps)
    on = tr.child(root, sv("operations"))
    it = r.items(on)
    st_ = Ty("string")
    og = c.ghost("operations", Rec(None, {"bad": F_}), lambda s, e: Rec(None, {"bad": OR(s.f["bad"], NOT(tr.ok(st_, e.f["t1"])))}), it)
    c.sticky(og, lambda s: s.f["bad"], it.n)

    def ops(ex_, head, i, leaves, mapseen):
        if not any("mOperations" in map(str, l[1]) for l in leaves):
            return []
        o = r.fields(head)["mOperations"]
        return [("operations so far", o.n == i), ("operation so far", IMP(AND(K >= 0, K < i), z3.Select(o.e, K) == tr.value(st_, z3.Select(it.e.f["t1"], K))))]
    ex.loop_invs.append(ops)
    st, res, th = r.run()
    c.only(th)
    good = ex.rd(st, res)
    f = r.fields(st)
    full = AND(tr.readable(r.path), *[AND(tr.has(root, sv(u)), NOT(maps[u][0].f["bad"])) for u in maps], tr.has(root, sv("operations")), NOT(og.at(it.n).f["bad"]))
    c.ensure("a file is accepted exactly when every key is there with a value of its type", st, good == full)
    for u, (g, fld, _) in maps.items():
        m = fld(f)
        c.ensure("the %s words are those of the file" % u, st, IMP(good, z3.Select(m.dom, X) == g.f["has"]))
        for x in ft:
            c.ensure("%s: %s of a word is the value in the file" % (u, x), st, IMP(AND(good, g.f["has"]), z3.Select(m.e.f[x], X) == g.f["val"].f[x]))
    o = f["mOperations"]
    c.ensure("the operations are those of the file, in order", st, IMP(good, AND(o.n == it.n, IMP(AND(K >= 0, K < it.n), z3.Select(o.e, K) == tr.value(st_, z3.Select(it.e.f["t1"], K))))))
    c.cover("accepted", st, [good]); c.cover("refused", st, [NOT(good)])


class Nested:
    """fold over the children of the children of a node, in document order"""

    def __init__(self, r, name, node, init, step):
        c, ex = r.c, r.ex
        self.r, self.ex, self.name, self.node, self.init, self.step = r, ex, name, node, init, step
        self.outer = r.items(node)
        self.fns = {}
        for k, v in init.items():
            self.fns[k] = z3.Function("%s_%s" % (name, k), I, I, v.sort())
        self.done = set()
        N = self.outer.n
        x, y = z3.Int(name + "_x"), z3.Int(name + "_y")
        # what is unreadable stays so: induction over the position
        self.unfold(x, y)
        s = c.st.copy()
        s.assume(AND(x >= 0, x < N, y >= 0, y < self.size(x), self.at(x, y)["bad"]))
        c.ensure("lemma: an unreadable value is never undone", s, self.at(x, simp(y + 1))["bad"], "lemma")
        self.ends(x, N)
        ex.opts["nested"] = True

    def name_of(self, x):
        return z3.Select(self.outer.e.f["t0"], x)

    def kid(self, x):
        return z3.Select(self.outer.e.f["t1"], x)

    def size(self, x):
        return self.r.tr.size(self.kid(x))

    def at(self, x, y):
        return {k: f(x, y) for k, f in self.fns.items()}

    def inner(self, x, y):
        k = self.kid(x)
        return z3.Select(self.r.tr.keys(k), y), z3.Select(self.r.tr.kids(k), y)

    def unfold(self, x, y):
        """defining equations at (x, y)"""
        key = (str(simp(x)), str(simp(y)))
        if key in self.done:
            return
        self.done.add(key)
        ax = self.ex.axioms
        z = iv(0)
        ax.append(self.r.tr.size(self.kid(x)) >= 0)
        for k in self.fns:
            ax.append(self.fns[k](z, z) == self.init[k])
        new = self.step(self.at(x, y), self.name_of(x), *self.inner(x, y))
        for k in self.fns:
            ax.append(IMP(AND(x >= 0, y >= 0, y < self.size(x)), self.fns[k](x, simp(y + 1)) == new[k]))
            ax.append(IMP(x >= 0, self.fns[k](simp(x + 1), z) == self.fns[k](x, self.size(x))))

    def ends(self, x, y):
        """consequence of the induction, at (x, y)"""
        N, b, z = self.outer.n, self.fns["bad"], iv(0)
        ax = self.ex.axioms
        ax.append(IMP(AND(x >= 0, x < N, y >= 0, y <= self.size(x), b(x, y)), AND(b(x, self.size(x)), b(N, z))))
        ax.append(IMP(AND(x >= 0, x <= N, b(x, z)), b(N, z)))

    def install(self, inv):
        """inv(head, state): invariants, given the fold's state at the loop's position"""
        its = {}

        def f(ex_, head, it, leaves, mapseen):
            d = len(ex_.loop_frames)
            its[d] = it
            for q in [q for q in its if q > d]:
                del its[q]
            if d == 1:
                x, y, lim = it, iv(0), it <= self.outer.n
            elif d == 2:
                x, y = its[1], it
                lim = it <= self.size(x)
            else:
                return []
            self.unfold(x, y)
            if d == 2:
                self.unfold(x, simp(y + 1)); self.ends(x, simp(y + 1))
            self.ends(x, y)
            s = self.at(x, y)
            return [("within", lim), ("readable so far", NOT(s["bad"]))] + inv(head, s, x, y)
        self.ex.loop_invs.append(f)

    def end(self):
        return self.at(self.outer.n, iv(0))


def groups(run):
    r = Rd(run, "code groups", "CodeGroupsReader", "CodeGroupsReader")
    c, ex, tr = r.c, r.ex, r.tr
    root = tr.root_of(r.path)
    kt = c.ty("CodeGroupValue")
    ft = dict(ex.fields(kt))
    code, rest, G = z3.Int("code"), z3.Int("rest"), z3.String("group")
    c.assume(AND(code >= 0, code < 2 ** 32, rest >= 0, rest < 2 ** 32))
    key = ex.pack_key(Rec(kt, {"code": code, "rest": rest}), kt)
    ex.extra_keys.setdefault(str(S), []).append(G)
    ex.extra_keys.setdefault(str(key.sort()), []).append(key)

    def step(s, group, k, n):
        good = AND(tr.good(ft["code"], n, "code"), tr.good(ft["rest"], n, "rest"))
        hit = AND(group == G, tr.get(ft["code"], n, "code") == code, tr.get(ft["rest"], n, "rest") == rest)
        return {"bad": OR(s["bad"], NOT(good)), "has": OR(s["has"], hit)}
    g = Nested(r, "groups", tr.child(root, sv("groups")), {"bad": F_, "has": F_}, step)
    member = lambda m: AND(z3.Select(m.dom, key), z3.Select(z3.Select(m.e.dom, key), G))
    g.install(lambda head, s, x, y: [("members so far", member(r.fields(head)["mCodeGroups"]) == s["has"])])
    st, res, th = r.run()
    c.only(th)
    ok = ex.rd(st, res)
    c.ensure("a file is accepted exactly when every code and rest is there with a value of its type", st, ok == AND(tr.readable(r.path), tr.has(root, sv("groups")), NOT(g.end()["bad"])))
    c.ensure("a code is in a group exactly when the file lists it there", st, IMP(ok, member(r.fields(st)["mCodeGroups"]) == g.end()["has"]))
    c.cover("accepted", st, [ok]); c.cover("refused", st, [NOT(ok)])


def described(r, X, name, m0, also=None):
    """fold: first description stored under X (a description already there stays)"""
    tr = r.tr
    st_ = Ty("string")

    def step(s, code, title, n):
        hit = OR(code == X, also(code) if also else F_)
        new = AND(hit, NOT(s["has"]))
        return {"bad": OR(s["bad"], NOT(tr.ok(st_, n))), "has": OR(s["has"], hit), "title": IF(new, title, s["title"]), "text": IF(new, tr.value(st_, n), s["text"])}
    init = {"bad": F_, "has": F_, "title": z3.String("no_title"), "text": z3.String("no_text")}
    if m0 is not None:
        init = {"bad": F_, "has": z3.Select(m0.dom, X), "title": z3.Select(m0.e.f["t0"], X), "text": z3.Select(m0.e.f["t1"], X)}
    return Nested(r, name, tr.child(r.root, sv("descriptions")), init, step)


def holds(m, X, s):
    return [("known " + str(X), z3.Select(m.dom, X) == s["has"]), ("description of " + str(X), IMP(s["has"], AND(z3.Select(m.e.f["t0"], X) == s["title"], z3.Select(m.e.f["t1"], X) == s["text"])))]


def codes(lead):
    def part(run):
        r = Rd(run, "code descriptions" + (", code with a leading zero" if lead else ""), "CodesReader", "CodesReader")
        c, ex, tr = r.c, r.ex, r.tr
        r.root = tr.root_of(r.path)
        C = z3.String("rest_of_code")
        X = z3.Concat(sv("0"), C) if lead else z3.String("code")
        syn = lambda x: OR(z3.Length(x) == 1, AND(z3.Length(x) == 3, z3.SubString(x, 1, 1) == sv(".")))
        for k in ([C, X] if lead else [X]):
            ex.extra_keys.setdefault(str(S), []).append(k)
        if not lead:
            c.assume(NOT(z3.PrefixOf(sv("0"), X)))
        g = described(r, X, "descriptions", None, (lambda code: AND(code == C, syn(C))) if lead else None)
        if lead:
            g2 = described(r, C, "descriptions_of_rest", None)

        def inv(head, s, x, y):
            m = r.fields(head)["mData"]
            out = holds(m, X, s)
            if lead:
                g2.unfold(x, y)
                s2 = g2.at(x, y)
                out += [("short code " + n, IMP(syn(C), f)) for n, f in holds(m, C, s2)] + [("both", IMP(AND(syn(C), s2["has"]), s["has"]))]
            return out
        g.install(inv)
        st, res, th = r.run()
        c.only(th)
        ok = ex.rd(st, res)
        c.ensure("a file is accepted exactly when every description is a text", st, ok == AND(tr.readable(r.path), tr.has(r.root, sv("descriptions")), NOT(g.end()["bad"])))
        for n, f in holds(r.fields(st)["mData"], X, g.end()):
            c.ensure("the description of a code is the first the file gives it" + (" or its short form" if lead else "") + ": " + n, st, IMP(ok, f))
        c.cover("accepted", st, [ok]); c.cover("refused", st, [NOT(ok)])
    return part


def macros(run):
    r = Rd(run, "variable descriptions", "MacrosDescReader", "MacrosDescReader")
    c, ex, tr = r.c, r.ex, r.tr
    path = z3.String("path")
    r.root = tr.root_of(path)
    X = z3.String("variable")
    ex.extra_keys.setdefault(str(S), []).append(X)
    m0, k0 = r.fields(c.st)["mData"], r.fields(c.st)["mMacros"]
    g = described(r, X, "descriptions", m0)
    g.install(lambda head, s, x, y: holds(r.fields(head)["mData"], X, s))
    st, res, th = c.call("MacrosDescReader::readJson", r.this, [c.loc(path)])
    full = AND(tr.readable(path), tr.has(r.root, sv("descriptions")), NOT(g.end()["bad"]))
    c.ensure("returns only when every description is a text", st, full)
    for n, f in holds(r.fields(st)["mData"], X, g.end()):
        c.ensure("a variable's description is the one already there, else the first the file gives: " + n, st, f)
    for s, e in c.only(th, "json_parser_exception"):
        c.ensure("fails only when a description is missing or no text", s, NOT(full))
        c.cover("refused", s)
    c.cover("accepted", st)


def both(run):
    r = Rd(run, "variable description files", "MacrosDescReader", "MacrosDescReader")
    c, ex = r.c, r.ex
    so = z3.ArraySort(S, B)
    after = ex.ufn("descriptions_after", so, S, so)       # what reading a file makes of the variables described so far (part "variable descriptions")

    def read(ex_, st, this, args, decl):
        m = ex_.rd(st, this).f["mData"]
        if not isinstance(m, Map):      # emptied
            m = Map(z3.K(S, F_), r.fields(c.st)["mData"].e, r.fields(c.st)["mData"].kt, r.fields(c.st)["mData"].vt, r.fields(c.st)["mData"].kind)
        p = lib.as_str(ex_.rd(st, args[0]))
        ex_.throw(st, Exc("nclangsrv::json_parser_exception", None), NOT(ex_.ufn("file_good", S, B)(p)))
        ex_.write(st, this + ("f", "mData"), Map(after(m.dom, p), m.e, m.kt, m.vt, m.kind))
        return None
    ex.contracts["MacrosDescReader::readJson"] = read
    ex.contracts["MacrosDescReader::readRanges"] = lambda ex_, st, this, args, decl: None
    f0 = r.fields(c.st)
    own, user = f0["mPath"], f0["mMacrosDescUserPath"]
    st, res, th = r.run()
    good = ex.ufn("file_good", S, B)
    c.only(th, "json_parser_exception")
    none = z3.K(S, F_)
    c.ensure("the user's descriptions are read first, then the shipped ones", st, AND(ex.rd(st, res), r.fields(st)["mData"].dom == after(IF(user != sv(""), after(none, user), none), own)))
    c.ensure("a bad file is an error", st, AND(good(own), OR(user == sv(""), good(user))))
    c.cover("read", st)


def lookup(run):
    r = Rd(run, "description of a variable", "MacrosDescReader", "MacrosDescReader")
    c, ex = r.c, r.ex
    X = z3.String("variable")
    ex.extra_keys.setdefault(str(S), []).append(X)
    f0 = r.fields(c.st)
    m, rg = f0["mData"], f0["mRanges"]
    lo, hi, name = rg.e.f["t0"].f["t0"], rg.e.f["t0"].f["t1"], rg.e.f["t1"]
    v = lib.stoi_val(ex, X)
    inside = lambda i: AND(z3.Select(lo, i) <= v, v <= z3.Select(hi, i))
    # the first range containing the number (its position, or the number of ranges): defined by
    k = z3.Int("first_range")
    c.assume(AND(k >= 0, k <= rg.n, IMP(k < rg.n, inside(k))))
    ex.index_instances.append(k)
    none_before = lambda i: ex.axioms.append(IMP(AND(i >= 0, i < k), NOT(inside(i))))
    ex.it_hooks.append(none_before)
    ex.find_hooks.append(lambda st, cc, r, last: none_before(r))
    nm = z3.Select(name, k)
    ex.extra_keys.setdefault(str(S), []).append(nm)
    fn = [f for f in c.tus[0].find_fn("MacrosDescReader::getDesc") if len(c.tus[0].params(f)) == 1 and c.tus[0].body(f) is not None]
    if len(fn) != 1:
        raise F.ExtractError("MacrosDescReader::getDesc not found")
    st, res, th = c.call(fn[0], r.this, [c.loc(X)])
    c.only(th)
    d = ex.rd(st, res)
    desc = lambda x: AND(d.f["t0"] == z3.Select(m.e.f["t0"], x), d.f["t1"] == z3.Select(m.e.f["t1"], x))
    empty = AND(d.f["t0"] == sv(""), d.f["t1"] == sv(""))
    c.ensure("a described variable has its own description", st, IMP(z3.Select(m.dom, X), desc(X)))
    c.ensure("a text that is no number has none", st, IMP(AND(NOT(z3.Select(m.dom, X)), NOT(lib.stoi_ok(ex, X))), empty))
    num = AND(NOT(z3.Select(m.dom, X)), lib.stoi_ok(ex, X))
    inr = AND(k < rg.n, z3.Select(m.dom, nm))
    c.ensure("a variable of a range has the description of the first range containing it, both ends included", st, IMP(AND(num, inr), desc(nm)))
    c.ensure("any other variable has none", st, IMP(AND(num, NOT(inr)), empty))
    c.cover("in a range", st, [num, inr]); c.cover("in no range", st, [num, NOT(inr)])


PARTS = [("machine settings", settings), ("word grammar", grammar), ("code groups", groups), ("code descriptions", codes(False)), ("code descriptions, leading zero", codes(True)),
         ("variable descriptions", macros), ("variable description files", both), ("description of a variable", lookup)]
RULE = "settings, grammar, group, code and variable description files with every value varied, keys reordered, dropped or ill-typed, read through the compiled readers"
BOUNDED = ["range texts of variable descriptions (std::regex in MacrosDescReader::readRanges), and the JSON reader itself (boost::property_tree)"]
LEVEL = "proof"
NOTE = "The read functions and the variable lookup are under contract; the regular-expression search for ranges in description texts (readRanges) and the JSON reader itself are bounded: generated files. Assumptions are in the evidence file."


def harness(h):
    import json, os, re, tempfile
    from harness import build, srv
    from harness.hx import Tok, fmt_trunc
    rng = h.rng
    exe = build.server()
    MT = ["mill_3axis"]
    cases = []
    S = lambda t: bytes.fromhex(t.next()[1:]).decode("utf-8")

    def drop(o, path):
        for k in path[:-1]:
            o = o[k]
        v = o.pop(path[-1])
        return v

    def put(o, path, v):
        for k in path[:-1]:
            o = o[k]
        o[path[-1]] = v
    with tempfile.TemporaryDirectory(prefix="c22-") as tmp:
        cnt = [0]

        def save(o):
            cnt[0] += 1
            p = os.path.join(tmp, "f%d.json" % cnt[0])
            open(p, "w", encoding="utf-8").write(o if isinstance(o, str) else json.dumps(o))
            return p

        def add(cmd, obj, check, extra=""):
            cases.append(("%s %s%s" % (cmd, srv.hu(save(obj)), extra), check, "%s: %s" % (cmd, (obj if isinstance(obj, str) else json.dumps(obj))[:3000]), True))

        def refused(what):
            return lambda o: None if o.split()[0] in ("0", "EX") else "%s is accepted" % what
        num = lambda a=-999, b=9999: rng.choice([rng.randint(a, b), rng.randint(a, b), round(rng.uniform(a, b), 3)])
        axes = lambda: {a: num() for a in rng.sample(["X", "Y", "Z", "A", "B", "C", "U", "I", "J", "K"], rng.randint(0, 5))}
        EN = dict(default_motion=[0, 1], default_work_plane=[17, 18, 19], default_driver_units=[0, 1], default_programming=[90, 91], default_feed_mode=[94, 95], default_rotation_direction=[3, 4], drill_cycle_z_value=[0, 1], drill_cycle_return_value=[98, 99])
        # machine settings
        for _ in range(h.n(30, 600)):
            drv = rng.choice(srv.DRV)
            d = srv.settings(drv)
            d["machine_points_data"] = {"tool_exchange_point": axes(), "machine_base_point": axes()}
            k = d["kinematics"]
            k["cartesian_system_axis"] = {a: {"range_min": num(), "range_max": num()} for a in axes()}
            NUM = ["max_working_feed", "max_fast_feed", "maximum_spindle_speed", "numer_of_items_in_the_warehouse", "tool_exchange_time", "pallet_exchange_time", "tool_measurement_time"]
            for n in NUM:
                k[n] = rng.randint(0, 30000)
            for n in ("diameter_programming_2x", "auto_measure_after_tool_selection"):
                k[n] = rng.random() < 0.5
            TXT = ["pallet_exchange_code", "pallet_exchange_code_value", "tool_measurement_code", "tool_measurement_code_value"]
            for n in TXT:
                k[n] = rng.choice(["", "M", "O", "T", str(rng.randint(0, 99))])
            c = d["cnc_default_values"]
            for n in srv.ENUM:
                c[n] = rng.choice(srv.ENUM[n])
            c["default_rotation"] = rng.randint(0, 9000)
            for n in srv.FLAGS:
                c[n] = rng.random() < 0.5
            d["zero_point"] = {a: num() for a in "XYZ"}
            good = json.loads(json.dumps(d))
            # keys may stand in any order
            def shuffled(o):
                if not isinstance(o, dict):
                    return o
                ks = list(o); rng.shuffle(ks)
                return {x: shuffled(o[x]) for x in ks}

            def check(o, d=good, drv=drv):
                t = Tok(o)
                if t.n() != 1:
                    return "refused"
                t.n(); t.n()
                bad = []
                eq = lambda name, got, want: bad.append("%s is %r, the file says %r" % (name, got, want)) if got != want else None
                eq("driver", t.n(), srv.DRV.index(drv))
                for n in ("tool_exchange_point", "machine_base_point"):
                    eq(n, {S(t): t.d() for _ in range(t.n())}, {a: float(v) for a, v in d["machine_points_data"][n].items()})
                eq("cartesian_system_axis", {S(t): (t.d(), t.d()) for _ in range(t.n())}, {a: (float(v["range_min"]), float(v["range_max"])) for a, v in d["kinematics"]["cartesian_system_axis"].items()})
                for n in NUM:
                    eq(n, t.d(), float(d["kinematics"][n]))
                for n in ("diameter_programming_2x", "auto_measure_after_tool_selection"):
                    eq(n, t.n(), int(d["kinematics"][n]))
                for n in TXT:
                    eq(n, S(t), d["kinematics"][n])
                c = d["cnc_default_values"]
                for n in srv.ENUM:
                    eq(n, t.n(), EN[n][srv.ENUM[n].index(c[n])])
                eq("default_rotation", t.d(), float(c["default_rotation"]))
                for n in srv.FLAGS:
                    eq(n, t.n(), int(c[n]))
                for n in "XYZ":
                    eq("zero_point " + n, t.d(), float(d["zero_point"][n]))
                return "; ".join(bad) if bad else None
            add("ncset", shuffled(d), check)
            paths = [("machine_tool",), ("machine_tool_type",), ("driver",), ("machine_points_data",), ("machine_points_data", "tool_exchange_point"), ("machine_points_data", "machine_base_point"), ("kinematics",), ("kinematics", "cartesian_system_axis"),
                     ("cnc_default_values",), ("zero_point",)]
            leaves = [("kinematics", n) for n in NUM + TXT + ["diameter_programming_2x", "auto_measure_after_tool_selection"]] + [("cnc_default_values", n) for n in list(srv.ENUM) + srv.FLAGS + ["default_rotation"]] + [("zero_point", a) for a in "XYZ"]
            for p in rng.sample(paths + leaves, 6):
                e = json.loads(json.dumps(good)); drop(e, p)
                add("ncset", e, refused("a file without %s" % "/".join(p)))
            typed = [p for p in leaves if p[1] not in TXT] + [("driver",), ("machine_tool",), ("machine_tool_type",)]
            for p in rng.sample(typed, 5):
                e = json.loads(json.dumps(good)); put(e, p, rng.choice(["abc", "", "12x", "tru"]))
                add("ncset", e, refused("an ill-typed %s" % "/".join(p)))
            if rng.random() < 0.3:
                t = json.dumps(good)
                add("ncset", t[:rng.randint(1, len(t) - 1)], refused("a truncated file"))
        # word grammar
        WT = ["misc", "angle", "calc", "code", "feed", "length", "macro", "numbering", "assignable"]
        for _ in range(h.n(20, 400)):
            wm = lambda: {w: dict(word=w, range_from=rng.randint(-99999, 0), range_to=rng.randint(1, 99999), decimal_from=rng.randint(0, 3), decimal_to=rng.randint(3, 8), unique=rng.random() < 0.5, type=rng.choice(WT)) for w in rng.sample(["A", "B", "X", "Y", "G", "M", "N", "#", "(", "IF", "GOTO"], rng.randint(0, 5))}
            d = {"metric": wm(), "imperial": wm(), "operations": rng.sample(["SIN", "COS", "ATAN", "ROUND", "FIX"], rng.randint(0, 4))}

            def check(o, d=d):
                t = Tok(o)
                if t.n() != 1:
                    return "refused"
                for u in ("metric", "imperial"):
                    g = {S(t): (S(t), t.d(), t.d(), t.n(), t.n(), t.n(), t.n()) for _ in range(t.n())}
                    w = {k: (v["word"], float(v["range_from"]), float(v["range_to"]), v["decimal_from"], v["decimal_to"], int(v["unique"]), WT.index(v["type"])) for k, v in d[u].items()}
                    if g != w:
                        return "%s words (word, from, to, decimals from, to, unique, type) %r, the file says %r" % (u, g, w)
                g = [S(t) for _ in range(t.n())]
                return None if g == d["operations"] else "operations %r, the file says %r" % (g, d["operations"])
            add("grammar", d, check)
            for u in ("metric", "imperial"):
                if d[u]:
                    w = rng.choice(list(d[u])); f = rng.choice(list(d[u][w]))
                    e = json.loads(json.dumps(d)); drop(e, (u, w, f)); add("grammar", e, refused("a word without %s" % f))
                    f = rng.choice([x for x in d[u][w] if x != "word"])
                    e = json.loads(json.dumps(d)); put(e, (u, w, f), "zz"); add("grammar", e, refused("a word with an ill-typed %s" % f))
            e = json.loads(json.dumps(d)); n = rng.choice(list(e)); e.pop(n); add("grammar", e, refused("a grammar without %s" % n))
        # code groups
        for _ in range(h.n(20, 400)):
            d = {"groups": {g: [dict(code=rng.randint(0, 9), rest=rng.choice([0, 0, 1, 2])) for _ in range(rng.randint(0, 4))] for g in rng.sample(["1", "2", "a", "00", "16"], rng.randint(0, 4))}}
            want = {}
            for g, l in d["groups"].items():
                for x in l:
                    want.setdefault((x["code"], x["rest"]), set()).add(g)

            def check(o, want=want):
                t = Tok(o)
                if t.n() != 1:
                    return "refused"
                g = {(t.n(), t.n()): {S(t) for _ in range(t.n())} for _ in range(t.n())}
                return None if g == want else "code groups %r, the file says %r" % (g, want)
            add("groups", d, check)
            full = [g for g in d["groups"] if d["groups"][g]]
            if full:
                g = rng.choice(full); f = rng.choice(["code", "rest"])
                e = json.loads(json.dumps(d)); drop(e, ("groups", g, 0, f)); add("groups", e, refused("a code without %s" % f))
                e = json.loads(json.dumps(d)); put(e, ("groups", g, 0, f), "x1"); add("groups", e, refused("a code with an ill-typed %s" % f))
            add("groups", {"group": {}}, refused("a file without groups"))
        # code descriptions
        for _ in range(h.n(20, 400)):
            d = {"descriptions": {c: {"title %d" % rng.randint(0, 99): "text\n%d" % rng.randint(0, 99)} for c in rng.sample(["0", "1", "2", "5.1", "10", "54", "54.1", "100", "9.5", "99.99"], rng.randint(0, 6))}}
            want, codes = {}, []
            for c, v in d["descriptions"].items():
                for n in [c] + (["0" + c] if len(c.split(".")[0]) == 1 and (len(c) == 1 or len(c) == 3) else []):
                    want[n] = next(iter(v.items())); codes.append(n)

            def check(o, want=want, codes=codes):
                t = Tok(o)
                if t.n() != 1:
                    return "refused"
                g = {S(t): (S(t), S(t)) for _ in range(t.n())}
                if g != want:
                    return "descriptions %r, the file says %r" % (g, want)
                c = [S(t) for _ in range(t.n())]
                return None if sorted(c) == sorted(codes) else "offered codes %r, the file says %r" % (c, codes)
            add("codes", d, check)
            add("codes", {"description": {}}, refused("a file without descriptions"))
        # macro variable descriptions: the machine's file, the user's file in front of it, ranges
        for _ in range(h.n(20, 400)):
            def some(tag):
                out = {}
                for base in rng.sample([100, 200, 300, 400], rng.randint(0, 3)):
                    b = base + rng.randint(0, 5); e = b + rng.randint(2, 20)
                    x = "Range: #%d-#%d " % (b, e)
                    if rng.random() < 0.5:
                        x = x + "- #%d-#%d " % (b + 10000, e + 10000)
                    out[str(b)] = {tag + str(b): "d " + x}
                for c in rng.sample([1, 2, 33, 110, 210, 5000], rng.randint(0, 3)):
                    out.setdefault(str(c), {tag + "own%d" % c: "plain"})
                return out
            d, us = some("m"), some("u") if rng.random() < 0.3 else {}
            user = save({"descriptions": us}) if us else ""
            data = {k: next(iter(v.items())) for k, v in d.items()}
            data.update({k: next(iter(v.items())) for k, v in us.items()})
            rg = []
            for k, (t_, x) in data.items():
                m = re.search(r"Range: #(\d+)-#(\d+)(?: - #(\d+)-#(\d+))?", x)
                if m:
                    g = [int(v) for v in m.groups() if v]
                    rg += [(g[i], g[i + 1], k) for i in range(0, len(g), 2)]
            ask, want = [], []
            edge = [v for r in rg for v in (r[0], r[1], r[0] + 1, r[1] - 1, r[0] - 1, r[1] + 1)]
            for q in [rng.choice(edge) if edge and rng.random() < 0.7 else rng.choice([0, 1, 2, 33, 110, 210, 5000, 99999]) for _ in range(12)]:
                if str(q) in data:
                    w = data[str(q)]
                else:
                    hit = {k for a, b, k in rg if a <= q <= b}
                    if len(hit) > 1:
                        continue
                    w = data[hit.pop()] if hit else ("", "")
                ask.append(str(q)); want.append(w)
            ask.append("99999999999"); want.append(("", ""))

            def check(o, ask=ask, want=want, names=sorted(set(d) | set(us))):
                t = Tok(o)
                if t.n() != 1:
                    return "refused"
                for q, w in zip(ask, want):
                    g = (S(t), S(t))
                    if g != w:
                        return "macro variable %s is described as %r, the files say %r" % (q, g, w)
                g = [S(t) for _ in range(t.n())]
                return None if g == names else "offered macros %r, the files say %r" % (g, names)
            add("macros", {"descriptions": d}, check, " %s %d %s" % (srv.hu(user), len(ask), " ".join(srv.hu(a) for a in ask)))
            add("macros", {"description": {}}, refused("a file without descriptions"), " = 0")
        h.run(exe, cases, "read generated configuration files, compare every setting with the file")

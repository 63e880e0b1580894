"""C15 – path and time totals."""
import math
from .common import *

AC = P + "AttributesPathCalculator.cpp"
FILES = [AC]
ASSUME = ["double arithmetic is real arithmetic", "PathCalculator's functions are known by name and arguments only; what they compute is property C14",
          "the numbers and tool numbers of a block are convertible texts (their format is property C13), std::stod/stoi do not throw",
          "the active motion code is one of G0-G3, G80 and the drilling cycles: holds initially (default motion is G0-G3), shown to be preserved",
          "no speed of exactly zero, no more than a million holes (otherwise the time is infinite, the counter overflows)",
          "the words of a block are visited by boost::apply_visitor, which calls the visitor for the alternative held"]
R_ = z3.RealSort()
RV = z3.RealVal
INC, ABS = 91, 90
DRILL = [74, 81, 82, 84, 85, 86, 88, 89]
DRILLQ = [73, 76, 83, 87]


def geo(nm, *vals):
    return z3.Function("%s/%d" % (nm, len(vals)), *([v.sort() for v in vals] + [R_]))(*vals)


def geometry(c):
    """PathCalculator is known by its contract (C14) only: an unknown function of its arguments"""
    def h(ex, st, this, args, decl):
        vals = [ex.rd(st, a) for a in args]
        if len(vals) and isinstance(vals[-1], Rec):
            vals = vals[:-1] + [vals[-1].f["t0"], vals[-1].f["t1"]]
        nm = decl["name"]
        if nm.startswith("DrillCycle"):
            rt = ex.ret_type(decl)
            return Rec(rt, {k: geo(nm + "." + k, *vals) for k in ("t0", "t1")})
        return geo(nm, *vals)
    for tu in c.tus:
        for f in tu.funcs:
            q = f.get("_qn", "")
            if "fanuc::PathCalculator::" in q:
                c.ex.contracts["fanuc::PathCalculator::" + f["name"]] = h


GETTERS = {"get_t": "optional<std::string>", "get_f": "optional<double>", "get_s": "optional<double>", "get_g": "optional<int>", "get_g171819": "optional<EWorkPlane>", "get_g_return": "optional<EDrillGreturnMode>",
           "get_g9091": "optional<EProgrammingType>", "get_g9697": "optional<EConstantSurfaceSpeedControl>", "get_feed_mode": "optional<EFeedMode>", "get_other_g": "vector<std::string>",
           "get_values": "map<std::string, double>", "was_m6": "bool", "was_pallet_exchange": "bool", "was_tool_measurement": "bool"}


def isone(x, l):
    return OR(*[x == v for v in l])


class M:
    """lookups in a map<string, double>"""

    def __init__(self, ex, m):
        self.ex, self.m = ex, m
        for k in "XYZIJKRQLPU":
            ex.key_used(m, sv(k))

    def has(self, k):
        return z3.Select(self.m.dom, sv(k) if isinstance(k, str) else k)

    def val(self, k):
        return z3.Select(self.m.e, sv(k) if isinstance(k, str) else k)

    def get(self, k, d):
        return IF(self.has(k), self.val(k), d)


def saved(a, v, pv, wr, npv, nwr, g, prog, ign):
    """what saving the axis words of a block means for the position and the travelled range of axis a"""
    sel = z3.Select
    skip = OR(AND(a == sv("Z"), isone(g, DRILL + DRILLQ)), a == sv("Q"), a == sv("L"), ign)
    take = AND(sel(v.dom, a), NOT(skip))
    known = sel(wr.dom, a)
    inc = AND(prog == INC, isone(a, [sv(x) for x in "XYZ"]), known)
    lo, cu, hi = [sel(wr.e.f[t], a) for t in ("t0", "t1", "t2")]
    val = sel(v.e, a)
    new = IF(inc, cu + val, val)
    out = [sel(npv.dom, a) == OR(take, sel(pv.dom, a)), sel(nwr.dom, a) == OR(take, known)]
    out.append(IMP(sel(npv.dom, a), sel(npv.e, a) == IF(take, new, sel(pv.e, a))))
    nlo, ncu, nhi = [sel(nwr.e.f[t], a) for t in ("t0", "t1", "t2")]
    out.append(IMP(sel(nwr.dom, a), AND(ncu == IF(take, new, cu), nlo == IF(take, IF(AND(known, lo <= new), lo, new), lo), nhi == IF(take, IF(AND(known, hi >= new), hi, new), hi))))
    return out


def saving(run):
    c = run.ctx("saving the position", FILES)
    ex = c.ex
    rt = c.rec("copy_on_return")
    mt, wt = c.ty("std::map<std::string, double>"), c.ty("word_range_map")
    v, pv, wr = ex.fresh(mt, "words"), ex.fresh(mt, "position"), ex.fresh(wt, "range")
    vl, pl, wl = c.loc(v), c.loc(pv), c.loc(wr)
    ign = z3.Function("ignored", S, B)
    ex.contracts["is_ignored_axis"] = lambda ex, st, this, args, decl: ign(ex.rd(st, args[0]))
    g, prog = z3.Int("active_g"), z3.Int("programming")
    a = z3.String("any_axis")
    ex.extra_keys.setdefault(str(S), []).append(a)
    lo = lambda k: IMP(z3.Select(wr.dom, k), z3.Select(wr.e.f["t0"], k) <= z3.Select(wr.e.f["t2"], k))

    def inv(ex_, head, it, leaves, mapseen):
        if mapseen is None:
            return []
        seen = ex_.read(head, mapseen[0])
        p, w = ex_.rd(head, pl), ex_.rd(head, wl)

        def q(k):
            ex_.axioms.append(lo(k))
            vv = Map(z3.Store(v.dom, k, AND(z3.Select(v.dom, k), z3.Select(seen, k))), v.e, v.kt, v.vt, v.kind)
            return AND(*saved(k, vv, pv, wr, p, w, g, prog, AND(NOT(null), ign(k))))
        q.ksort = S
        return [("axes visited are saved, the others are as before", q)]
    ex.loop_invs.append(inv)
    ex.axioms.append(lo(a))
    null = z3.Bool("no_other_g")
    og = c.loc(ex.fresh(Ty("seq", [c.ty("std::string")]), "other_g"))
    st, r, th = c.call("copy_on_return::~copy_on_return", Rec(rt, {"v": Ref(vl), "pv": Ref(pl), "wr": Ref(wl), "og": Ptr(og, null), "g": g, "g9091": prog}), [])
    p, w = ex.rd(st, pl), ex.rd(st, wl)
    for i, f in enumerate(saved(a, v, pv, wr, p, w, g, prog, AND(NOT(null), ign(a)))):
        c.ensure(["position known", "range known", "position", "range"][i], st, f)
    c.ensure("the range contains the position", st, IMP(AND(z3.Select(wr.dom, a), z3.Select(wr.e.f["t0"], a) <= z3.Select(wr.e.f["t1"], a), z3.Select(wr.e.f["t1"], a) <= z3.Select(wr.e.f["t2"], a), z3.Select(w.dom, a)),
                                                        AND(z3.Select(w.e.f["t0"], a) <= z3.Select(w.e.f["t1"], a), z3.Select(w.e.f["t1"], a) <= z3.Select(w.e.f["t2"], a))))
    c.only(th)


class Ev:
    """one symbolic execution of evaluate() on an arbitrary block in an arbitrary state"""

    def __init__(self, run, title, assume=None, words=False, safety=False):
        self.words = words
        c = self.c = run.ctx(title, FILES, safety=safety)
        ex = self.ex = c.ex
        geometry(c)
        w = {}
        V = "AttributesPathCalculatorVisitor::"
        for nm, t in GETTERS.items():
            f = [f for f in c.tu.funcs if f["name"] == nm and "AttributesPathCalculatorVisitor" in f["_qn"]][0]
            rt = ex.ret_type(f)
            if rt is None or rt.k == "auto":
                rt = c.ty("std::" + t if "<" in t else t)
            if rt.k == "ref":
                rt = rt.a[0]
            w[nm[4:] if nm.startswith("get_") else nm] = v = ex.fresh(rt, nm)
            ex.contracts[V + nm] = (lambda l: lambda ex, st, this, args, decl: self.getter(st, l))(c.loc(v))
        # the block reaches evaluate() only through the visitor (its own contract: 'words of a block'); a ghost
        # counter proves that every word is visited, once and in order, before anything is read
        self.cnt = c.loc(iv(0)); self.checked = False
        ex.contracts[V + "operator()"] = self.visit
        self.t, self.f, self.s, self.g = w["t"], w["f"], w["s"], w["g"]
        self.w = w
        og = w["other_g"]
        self.allv = M(ex, w["values"])
        mv = ex.fresh(c.ty("std::map<std::string, double>"), "motion_values")
        self.mv = M(ex, mv)
        self.hm = z3.Bool("has_motion_words")
        ex.contracts["get_motion_values"] = lambda ex, st, this, args, decl: mv
        ex.contracts["has_motion_words"] = lambda ex, st, this, args, decl: self.hm
        self.wrty = c.ty("word_range_map")
        self.ignored = z3.Function("ignored", S, B)
        self.axes = [sv(a) for a in "XYZ"] + [z3.String("any_axis")]
        ex.contracts["copy_on_return::~copy_on_return"] = self.destructor
        t = c.rec("AttributesPathCalculator")
        self.o = o = {n: ex.fresh(ft, "old_" + n) for n, ft in ex.fields(t)}
        self.kin, self.dflt = o["kinematics"].f, o["cnc_default_values"].f
        self.prev = M(ex, o["prev_values"])
        self.me = c.loc(Rec(t, o))
        self.blk = c.block()
        c.elem_pre(self.blk, lambda e: AND(e.tag >= 0, e.tag < len(e.alts)))
        self.macros0 = ex.fresh(c.ty("macro_map"), "macros")
        self.macl = c.loc(self.macros0)
        self.line = z3.Int("line"); self.units = z3.Int("units")
        c.assume(IMP(self.t.has, lib.stod_ok(ex, self.t.v)))                    # contract of the visitor: the digits of a T word
        # which other codes the block carries
        self.code = {}
        for cd in ("4", "28"):
            h, k = z3.Bool("has_G" + cd), z3.Int("at_G" + cd)
            ex.axioms.append(IMP(h, AND(0 <= k, k < og.n, z3.Select(og.e, k) == sv(cd))))
            ex.index_instances.append(k)
            self.code[cd] = h

        def fh(st, cont, r, last):
            cont = ex.read(st, cont)
            if isinstance(cont, Seq) and z3.eq(cont.e, og.e):
                el = z3.Select(og.e, r)
                st.assume(IMP(AND(r >= 0, r < og.n), AND(el != sv("04"), *[IMP(el == sv(cd), h) for cd, h in self.code.items()])))
        ex.find_hooks.append(fh)
        ex.axioms.append(og.n >= 0)
        G = [0, 1, 2, 3, 80] + DRILL + DRILLQ
        c.assume(isone(o["active_g"], [0, 1, 2, 3] + DRILL + DRILLQ + [80]))   # invariant, proved preserved in 'modal state'
        c.assume(IMP(self.g.has, isone(self.g.v, G)))                           # contract of the visitor
        c.assume(isone(o["active_g171819"], [17, 18, 19])); c.assume(IMP(w["g171819"].has, isone(w["g171819"].v, [17, 18, 19])))
        c.assume(isone(o["active_g9091"], [ABS, INC])); c.assume(IMP(w["g9091"].has, isone(w["g9091"].v, [ABS, INC])))
        d = self.dflt
        self.m6 = w["was_m6"]
        te = d["tool_number_executes_exchange"]
        self.exch = IF(te, self.t.has, self.m6)
        self.toolrun = AND(self.t.has, OR(te, self.m6))
        self.base = self.code["28"]
        self.selects = AND(self.t.has, NOT(te), NOT(self.m6))       # the tool is only selected
        arm = OR(o["active_auto_rapid_traverse_after_tool_exchange"], AND(self.t.has, d["auto_rapid_traverse_after_tool_exchange"]))
        k0 = z3.String("k0"); self.mv_nonempty = None
        ne = None
        self.arm = arm
        # the G code in force
        ag = o["active_g"]
        nonempty = NOT(lib.mempty(ex, c.st, mv))
        self.nonempty = nonempty
        self.rapid = AND(arm, self.nonempty)
        self.act = IF(OR(self.exch, self.base, self.rapid), 0, ag)
        self.cur = IF(self.g.has, self.g.v, self.act)
        wv = lambda nm, old: IF(w[nm].has, w[nm].v, o[old])
        self.plane = wv("g171819", "active_g171819"); self.prog = wv("g9091", "active_g9091")
        self.ret = wv("g_return", "active_g_return"); self.css = wv("g9697", "active_g9697"); self.fm = wv("feed_mode", "active_feed_mode")
        self.F, self.S = wv("f", "active_f"), wv("s", "active_s")
        mt = o["machine_tool_type"]
        self.lathe = OR(mt == c.enum("EMachineToolType", "Lathe"), AND(mt == c.enum("EMachineToolType", "Millturn"), self.plane == 18))
        self.radius = AND(self.lathe, NOT(self.kin["diameter_programming_2x"]))
        if safety:
            c.assume(AND(self.S != 0, self.mv.val("K") < 1000000, self.mv.val("K") > -1000000, o["path_result"].f["hole_number"] >= 0, o["path_result"].f["hole_number"] < 1000000))
        if assume:
            for a in assume(self):
                c.assume(a)
        self.st, r, self.th = c.call("AttributesPathCalculator::evaluate", self.me, [c.loc(self.blk), self.units, self.macl, self.line])
        self.n = ex.rd(self.st, self.me).f if not self.st.dead else None

    def visit(self, ex, st, this, args, decl):
        k = ex.rd(st, self.cnt)
        if self.words:
            el = self.c.elem(self.blk, k)
            v = ex.rd(st, args[0])
            alt = [a for a in el.alts if isinstance(a, Rec) and isinstance(v, Rec) and a.t == v.t]
            if len(alt) != 1:
                raise Unsupported("visitor argument")
            self.c.ensure("the words are visited in order", st, AND(k < self.blk.n, el.tag == el.alts.index(alt[0]), same(alt[0], v)))
        ex.write(st, self.cnt, simp(k + 1))
        return None

    def getter(self, st, l):
        if self.words:
            self.c.ensure("nothing is read before the last word is visited", st, self.ex.rd(st, self.cnt) == self.blk.n)
        return l

    def destructor(self, ex, st, this, args, decl):
        """contract of copy_on_return (proved in 'saving the position'), for the X, Y and Z axes and one arbitrary axis"""
        f = ex.rd(st, this).f
        v, pv, wr = [ex.rd(st, f[k].l) for k in ("v", "pv", "wr")]
        npv, nwr = ex.fresh(pv.t if hasattr(pv, "t") else self.c.ty("std::map<std::string, double>"), "pv"), ex.fresh(self.wrty, "wr")
        og = f["og"]
        isnull = T if og.l is None else og.null
        for a in self.axes:
            ex.axioms.extend(saved(a, v, pv, wr, npv, nwr, f["g"], f["g9091"], AND(NOT(isnull), self.ignored(a))))
        ex.write(st, f["pv"].l, npv); ex.write(st, f["wr"].l, nwr)
        return None

    def ensure(self, name, goal, st=None):
        self.c.ensure(name, st or self.st, goal)

    def done(self):
        """the block is carried out (not merely remembered): the motion code in force is one the calculator knows"""
        return AND(self.blk.n > 0, NOT(self.selects))


def trunc(x):
    return IF(x >= 0, z3.ToInt(x), -z3.ToInt(-x))


def totals(run):
    e = Ev(run, "totals", safety=True)
    c, ex, o, n, st, w, kin = e.c, e.ex, e.o, e.n, e.st, e.w, e.kin
    p0, p1, t0, t1 = o["path_result"].f, n["path_result"].f, o["time_result"].f, n["time_result"].f
    some = e.blk.n > 0
    real = lambda x: z3.ToReal(x) if x.sort() == I else x
    auto = kin["auto_measure_after_tool_selection"]
    meas = real(kin["tool_measurement_time"])
    dwell = IF(e.code["4"], e.allv.get("X", RV(0)) + e.allv.get("U", RV(0)) + e.allv.get("P", RV(0)), RV(0))
    extra = IF(e.exch, real(kin["tool_exchange_time"]) + IF(auto, meas, RV(0)), RV(0)) + IF(AND(NOT(auto), w["was_tool_measurement"]), meas, RV(0)) + IF(w["was_pallet_exchange"], real(kin["pallet_exchange_time"]), RV(0)) + dwell
    e.ensure("the path total grows by the path of the block", p1["total"] == p0["total"] + p1["work_motion"] + p1["fast_motion"])
    e.ensure("the time total grows by the time of the block and its dwell, exchange and measurement times", t1["total"] == t0["total"] + t1["work_motion"] + t1["fast_motion"] + IF(some, extra, RV(0)))
    e.ensure("an empty block has no motion and changes nothing", IMP(NOT(some), AND(*[p1[k] == 0 for k in ("work_motion", "fast_motion")], *[t1[k] == 0 for k in ("work_motion", "fast_motion")],
             p1["total"] == p0["total"], t1["total"] == t0["total"], same(o["prev_values"], n["prev_values"]), p1["tool_total"] == p0["tool_total"], n["active_g"] == o["active_g"], n["active_t"] == o["active_t"])))
    e.ensure("selecting a tool is no motion", IMP(AND(some, e.selects), AND(*[p1[k] == 0 for k in ("work_motion", "fast_motion")], *[t1[k] == 0 for k in ("work_motion", "fast_motion")])))
    # times from paths
    work, fast = p1["work_motion"], p1["fast_motion"]
    e.ensure("rapid time is rapid path over the rapid feed rate", IMP(AND(some, fast != 0, kin["max_fast_feed"] > 0), t1["fast_motion"] == 60 * (fast / kin["max_fast_feed"])))
    e.ensure("no rapid motion, no rapid time", IMP(fast == 0, t1["fast_motion"] == 0))
    perrev = AND(e.lathe, e.fm == c.enum("EFeedMode", "PerRevolution"))
    css = e.css == c.enum("EConstantSurfaceSpeedControl", "G96")
    e.ensure("cutting time is cutting path over the feed rate", IMP(AND(some, work != 0, NOT(perrev), e.F > 0), t1["work_motion"] == 60 * (work / e.F)))
    e.ensure("feed per revolution at constant speed", IMP(AND(some, work != 0, perrev, NOT(css), e.F > 0), t1["work_motion"] == 60 * (work / (e.F * e.S))))
    mm = e.units != c.enum("EDriverUnits", "Inch")
    for nm, sel, num in (("metric", mm, 1000), ("inch", NOT(mm), 12)):
        rpm = (e.S * num) / (RV("3.141592653589793") * work)
        e.ensure("feed per revolution at constant surface speed, " + nm, IMP(AND(some, work != 0, perrev, css, sel, e.F > 0), t1["work_motion"] == 60 * (work / (e.F * rpm))))
    e.ensure("no cutting motion, no cutting time", IMP(work == 0, t1["work_motion"] == 0))
    e.ensure("cutting needs a feed rate", IMP(AND(some, work != 0), e.F >= 0))
    e.ensure("rapid motion needs a rapid feed rate", IMP(AND(some, fast != 0), kin["max_fast_feed"] >= 0))
    e.ensure("feed per revolution needs a speed", IMP(AND(some, work != 0, perrev, e.F > 0), e.S >= 0))
    c.cover("normal return", st, [work != 0, fast == 0])
    for s, x in c.only(e.th, "path_calc_exception"):
        q0, q1 = p0, ex.rd(s, e.me).f["path_result"].f
        c.ensure("a failing block adds its own path or nothing", s, OR(q1["total"] == q0["total"], q1["total"] == q0["total"] + q1["work_motion"] + q1["fast_motion"]))


def tools(run):
    e = Ev(run, "tools")
    c, ex, o, n, st, w = e.c, e.ex, e.o, e.n, e.st, e.w
    p0, p1, t0, t1 = o["path_result"].f, n["path_result"].f, o["time_result"].f, n["time_result"].f
    some = e.blk.n > 0
    newt = IF(AND(some, e.toolrun), e.t.v, o["active_t"])
    e.ensure("the active tool", n["active_t"] == newt)
    k = z3.String("any_tool")
    for nm, r0, r1 in (("t_path", p0, p1), ("t_time", t0, t1)):
        m0, m1 = o[nm], n[nm]
        saved = AND(some, e.t.has, o["active_t"] != sv(""))
        d1 = OR(AND(saved, k == o["active_t"]), z3.Select(m0.dom, k))
        v1 = IF(AND(saved, k == o["active_t"]), r0["tool_total"], z3.Select(m0.e, k))
        e.ensure(nm + ": the total of the tool taken out is kept, no other tool's", AND(z3.Select(m1.dom, k) == d1, IMP(d1, z3.Select(m1.e, k) == v1)))
        at = lambda a, kk: z3.Select(a, kk)
        had = OR(AND(saved, newt == o["active_t"]), at(m0.dom, newt))
        kept = IF(AND(saved, newt == o["active_t"]), r0["tool_total"], at(m0.e, newt))
        start = IF(AND(some, e.t.has), IF(had, kept, RV(0)), r0["tool_total"])
        e.ensure(nm + ": a tool's total starts at zero or where it stopped, and grows by the block", r1["tool_total"] == start + r1["work_motion"] + r1["fast_motion"])
        e.ensure(nm + ": the result names the tool", IMP(AND(some, e.t.has), r1["tool_id"] == newt))
        e.ensure(nm + ": the result names the active tool or is unchanged", OR(r1["tool_id"] == newt, r1["tool_id"] == r0["tool_id"]))


def modal(run):
    e = Ev(run, "modal state")
    c, ex, o, n, st, w = e.c, e.ex, e.o, e.n, e.st, e.w
    some = e.blk.n > 0
    wv = lambda v, old: IF(AND(some, v.has), v.v, old)
    for nm, fld in (("f", "active_f"), ("s", "active_s"), ("g9697", "active_g9697"), ("feed_mode", "active_feed_mode"), ("g171819", "active_g171819"), ("g9091", "active_g9091"), ("g_return", "active_g_return")):
        e.ensure("%s keeps the last value programmed" % fld, n[fld] == wv(w[nm], o[fld]))
    G = [0, 1, 2, 3, 80] + DRILL + DRILLQ
    starts = e.dflt["cycle_cancel_starts_rapid_traverse"]
    nxt = IF(e.selects, o["active_g"], IF(AND(e.cur == 80, starts), 0, e.cur))
    e.ensure("the motion code in force", n["active_g"] == IF(some, nxt, o["active_g"]))
    e.ensure("the motion code in force is a known one", isone(n["active_g"], G))
    fl = "active_auto_rapid_traverse_after_tool_exchange"
    e.ensure("the pending rapid after a tool exchange", n[fl] == IF(some, IF(AND(NOT(e.selects), e.nonempty), F_, e.arm), o[fl]))
    for s, x in c.only(e.th, "path_calc_exception"):
        m = ex.rd(s, e.me).f
        c.ensure("a failing block leaves a known motion code", s, isone(m["active_g"], G))


def dist3(nm, *a):
    return geo(nm, *a)


def straight(run):
    e = Ev(run, "straight moves", lambda e: [isone(e.cur, [0, 1]), NOT(e.selects), e.blk.n > 0])
    c, ex, o, n, st, mv, prev = e.c, e.ex, e.o, e.n, e.st, e.mv, e.prev
    p1 = n["path_result"].f
    mp = o["machine_points_data"].f
    tx, bs = M(ex, mp["tool_exchange_point"]), M(ex, mp["machine_base_point"])
    half = lambda v: IF(e.radius, v / 2, v)
    start = [prev.val(a) for a in "XYZ"]
    plain = AND(NOT(e.exch), NOT(e.base))
    target = [IF(plain, mv.get(a, prev.val(a)), IF(e.exch, tx.get(a, prev.val(a)), bs.get(a, prev.val(a)))) for a in "XYZ"]
    absolute = OR(e.prog == ABS, NOT(plain))
    known = AND(*[prev.has(a) for a in "XYZ"])
    for g, fld, oth in ((0, "fast_motion", "work_motion"), (1, "work_motion", "fast_motion")):
        nm = "G%d" % g
        la = geo(nm, half(start[0]), start[1], start[2], half(target[0]), target[1], target[2])
        li = geo(nm, half(mv.get("X", RV(0))), mv.get("Y", RV(0)), mv.get("Z", RV(0)))
        e.ensure(nm + " to a position", IMP(AND(e.cur == g, absolute), p1[fld] == la))
        e.ensure(nm + " by a distance", IMP(AND(e.cur == g, NOT(absolute)), p1[fld] == li))
        e.ensure(nm + " is one kind of motion only", IMP(e.cur == g, p1[oth] == 0))
    e.ensure("an absolute move needs a known position", IMP(absolute, known))
    d = e.dflt
    cancel = OR(AND(e.cur == 0, d["rapid_traverse_cancel_cycle"]), AND(e.cur == 1, d["linear_interpolation_cancel_cycle"]))
    cyc(e, cancel)
    c.cover("absolute", st, [absolute]); c.cover("incremental", st, [NOT(absolute)])


def cyc(e, cancel):
    p0, p1 = e.o["path_result"].f, e.n["path_result"].f
    e.ensure("a pending cycle is cancelled as configured", AND(p1["hole_number"] == IF(cancel, 0, p0["hole_number"]),
             *[p1["cycle_distance"].f[t] == IF(cancel, RV(0), p0["cycle_distance"].f[t]) for t in ("t0", "t1")]))


PLANES = {17: ("G17", "XYZ", "IJK"), 18: ("G18", "XZY", "IKJ"), 19: ("G19", "YZX", "JKI")}


def arcs(plane):
    pn, ax, pa = PLANES[plane]

    def part(run):
        e = Ev(run, "arcs " + pn, lambda e: [isone(e.cur, [2, 3]), NOT(e.selects), e.blk.n > 0, e.plane == plane, OR(e.g.has, e.hm)])
        c, ex, o, n, st, mv, prev = e.c, e.ex, e.o, e.n, e.st, e.mv, e.prev
        p1 = n["path_result"].f
        has, val = mv.has, mv.val
        opt = lambda a, alt=prev: (OR(has(a), alt.has(a)), IF(has(a), val(a), alt.val(a)))
        x, y, z = ax; i, j, k = pa
        inc = e.prog == INC
        hel = {nm: c.enum("EHelixType", nm) for nm in ("None", "Full", "Quarter")}
        h0 = o["active_helix"]
        arch = OR(has("Q"), has("L"))
        starts = AND(NOT(arch), h0 == hel["None"], has(x), has(y), has(z), OR(AND(has(i), has(j), has(k)), has("R")))
        closed = OR(AND(val(x) == prev.val(x), val(y) == prev.val(y)), AND(val(x) == 0, val(y) == 0))
        h1 = IF(starts, IF(closed, hel["Full"], hel["Quarter"]), h0)
        half = lambda v: IF(e.radius, v / 2, v)
        (hi, vi), (hj, vj), (hr, vr) = opt(i), opt(j), opt("R")
        cen = AND(hi, hj)
        H = "G2G3_Helix" + pn
        work = p1["work_motion"]
        xc, yc, zc = [IF(has(a), val(a), prev.val(a)) for a in ax]
        zp = prev.val(z)
        # spiral
        e.ensure("spiral by pitch", IMP(AND(arch, h0 == hel["None"], has("Q")), AND(hi, hj, work == geo(H + "_ArchimedesQparam", vi, vj, val("Q")))))
        e.ensure("spiral by revolutions", IMP(AND(arch, h0 == hel["None"], NOT(has("Q"))), AND(hi, hj, work == geo(H + "_ArchimedesLparam", vi, vj, val("L")))))
        # helix
        turn = lambda fn, rad, a: IF(cen, geo(H + fn, *a, vi, vj), geo(H + rad, *a, vr))
        whole = turn("", "R", (zp, zc))
        e.ensure("helix turn, absolute", IMP(AND(h1 == hel["Full"], NOT(inc)), work == IF(AND(prev.val(x) == xc, prev.val(y) == yc), whole, geo("G2G3_HelixLast", whole))))
        zs = IF(has(z), val(z), RV(0))
        iwhole = turn("", "R", (zs,))
        still = AND(OR(NOT(has(x)), val(x) == 0), OR(NOT(has(y)), val(y) == 0))
        e.ensure("helix turn, incremental", IMP(AND(h1 == hel["Full"], inc), work == IF(still, iwhole, geo("G2G3_HelixLast", iwhole))))
        quarter = turn("_Quarter", "_QuarterR", (zp, zc))
        more = AND(prev.val(x) != xc, prev.val(y) != yc, zp != zc)
        e.ensure("quarter helix, absolute", IMP(AND(h1 == hel["Quarter"], NOT(inc), more), work == quarter))
        iquarter = turn("_Quarter", "_QuarterR", (zs,))
        imore = OR(starts, AND(has(x), hi, hj))
        e.ensure("quarter helix, incremental", IMP(AND(h1 == hel["Quarter"], inc, imore), work == iquarter))
        ends = OR(AND(h1 == hel["Full"], IF(inc, NOT(still), NOT(AND(prev.val(x) == xc, prev.val(y) == yc)))), AND(h1 == hel["Quarter"], NOT(IF(inc, imore, more))))
        e.ensure("a helix goes on until it is left", n["active_helix"] == IF(ends, hel["None"], h1))
        # plain arc (also the block that leaves a quarter helix)
        plain = AND(h1 == hel["None"], NOT(arch))
        xe = IF(inc, IF(has(x), prev.val(x) + val(x), prev.val(x)), xc)
        ye = IF(inc, IF(has(y), prev.val(y) + val(y), prev.val(y)), yc)
        bycen = AND(has(i), has(j))
        for g in (2, 3):
            full = lambda a, b: geo("G%d_%s" % (g, pn), half(prev.val(x)), prev.val(y), half(xe), ye, half(a), b)
            e.ensure("G%d arc by its centre" % g, IMP(AND(plain, e.cur == g, OR(bycen, NOT(has("R")))), AND(hi, hj, work == full(vi, vj))))
        e.ensure("arc by its radius", IMP(AND(plain, has("R"), NOT(bycen)), work == geo("G2G3_" + pn, half(prev.val(x)), prev.val(y), half(xe), ye, val("R"))))
        e.ensure("an arc has no rapid motion", p1["fast_motion"] == 0)
        e.ensure("an arc needs a known position in its plane", AND(prev.has(x), prev.has(y), IMP(h1 != hel["None"], prev.has(z))))
        d = e.dflt
        cyc(e, OR(AND(e.cur == 2, d["circular_interpolation_cw_cancel_cycle"]), AND(e.cur == 3, d["circular_interpolation_ccw_cancel_cycle"])))
        c.cover("arc", st, [plain]); c.cover("helix", st, [h1 == hel["Full"], h0 == hel["Full"]]); c.cover("quarter helix", st, [starts, h1 == hel["Quarter"]])
    return ("arcs " + pn, part)


def drilling(plane):
    pn, ax, _ = PLANES[plane]

    def part(run):
        box = {}

        def assume(e):
            # what one hole of the block is, stated before the execution so that the repeat loop can use it
            ex, c, o = e.ex, e.c, e.o
            mv, prev = e.mv, e.prev
            x, y, z = ax
            mt = o["machine_tool"]
            noY = OR(mt == c.enum("EMachineTool", "lathe_zx"), mt == c.enum("EMachineTool", "lathe_zxc"))
            inc = e.prog == INC
            q = isone(e.cur, DRILLQ)
            p0 = o["path_result"].f
            again = OR(p0["hole_number"] == 0, mv.has("K"))
            zg = IF(noY, RV(0), mv.val(z))
            nm = "DrillCyclePath_" + pn
            dz = e.dflt["drill_cycle_z_value"]
            cyc = {}
            for t in ("t0", "t1"):
                v = IF(q, IF(inc, geo(nm + "." + t, zg, mv.val("R"), mv.val("Q"), e.cur, e.ret), geo(nm + "." + t, prev.val(z), zg, mv.val("R"), mv.val("Q"), dz, e.cur, e.ret)),
                       IF(inc, geo(nm + "." + t, zg, mv.val("R"), e.cur, e.ret), geo(nm + "." + t, prev.val(z), zg, mv.val("R"), dz, e.cur, e.ret)))
                cyc[t] = IF(again, v, p0["cycle_distance"].f[t])
            k0 = AND(mv.has("K"), mv.val("K") == 0)
            dd = {t: IF(k0, RV(0), cyc[t]) for t in cyc}
            hn = "DrillCyclePathHole_" + pn
            xc, yc = IF(mv.has(x), mv.val(x), prev.val(x)), IF(mv.has(y), mv.val(y), prev.val(y))
            hole = {t: IF(inc, geo(hn + "." + t, mv.get(x, RV(0)), mv.get(y, RV(0)), dd["t0"], dd["t1"]), geo(hn + "." + t, prev.val(x), prev.val(y), xc, yc, dd["t0"], dd["t1"])) for t in cyc}
            rep = IF(AND(inc, mv.has("K"), mv.val("K") > 0), trunc(mv.val("K")), 1)
            box.update(inc=inc, q=q, again=again, cyc=cyc, hole=hole, rep=rep, noY=noY, k0=k0)

            def inv(ex_, head, it, leaves, mapseen):
                if mapseen is not None:
                    return []
                pr = ex_.rd(head, e.me).f["path_result"].f
                out = []
                for fld, t in (("work_motion", "t0"), ("fast_motion", "t1")):
                    h = geo(hn + "." + t, mv.get(x, RV(0)), mv.get(y, RV(0)), pr["cycle_distance"].f["t0"], pr["cycle_distance"].f["t1"])
                    out.append(("motion of the holes so far", pr[fld] == z3.ToReal(it) * h))
                out.append(("holes so far", it <= rep))
                return out
            ex.loop_invs.append(inv)
            return [isone(e.cur, DRILL + DRILLQ), NOT(e.selects), e.blk.n > 0, e.plane == plane, OR(e.g.has, e.hm)]
        e = Ev(run, "drilling " + pn, assume)
        c, ex, o, n, st, mv, prev = e.c, e.ex, e.o, e.n, e.st, e.mv, e.prev
        p0, p1 = o["path_result"].f, n["path_result"].f
        b = box
        for t in ("t0", "t1"):
            e.ensure("the depth of the cycle: " + t, p1["cycle_distance"].f[t] == b["cyc"][t])
        for fld, t in (("work_motion", "t0"), ("fast_motion", "t1")):
            e.ensure("motion of the holes drilled: " + fld, p1[fld] == IF(b["k0"], RV(1), z3.ToReal(b["rep"])) * b["hole"][t])
        e.ensure("holes are counted", p1["hole_number"] == p0["hole_number"] + 1)
        x, y, z = ax
        e.ensure("drilling needs a known position", AND(prev.has(x), prev.has(y), IMP(b["again"], prev.has(z))))
        e.ensure("a new cycle needs its levels", IMP(b["again"], AND(OR(mv.has(z), b["noY"]), mv.has("R"), IMP(b["q"], mv.has("Q")))))
        e.ensure("drilling does not touch a helix", n["active_helix"] == o["active_helix"])
        c.cover("drills", st, [b["again"]]); c.cover("repeats", st, [b["inc"], mv.has("K")])
    return ("drilling " + pn, part)


def standstill(run):
    """blocks that only select a plane, a feed rate and the like while an arc or a cycle is active, and G80"""
    e = Ev(run, "standing still", lambda e: [NOT(e.selects), e.blk.n > 0, OR(e.cur == 80, AND(NOT(isone(e.cur, [0, 1])), NOT(e.g.has), NOT(e.hm)))])
    p0, p1 = e.o["path_result"].f, e.n["path_result"].f
    e.ensure("no motion", AND(p1["work_motion"] == 0, p1["fast_motion"] == 0))
    cyc(e, e.cur == 80)
    e.c.cover("cancel", e.st, [e.cur == 80]); e.c.cover("modal words only", e.st, [e.cur != 80])
    e.c.only(e.th)


def position(run):
    e = Ev(run, "position")
    c, ex, o, n, st = e.c, e.ex, e.o, e.n, e.st
    some = e.blk.n > 0
    mp = o["machine_points_data"].f
    still = OR(NOT(some), AND(NOT(e.selects), NOT(isone(e.cur, [0, 1, 80])), NOT(e.g.has), NOT(e.hm)))
    ki = [("tool selected", e.selects, e.mv.m, o["active_g"], o["active_g9091"]), ("tool exchange", AND(NOT(e.selects), e.exch), mp["tool_exchange_point"], n["active_g"], iv(ABS)),
          ("return to the base point", AND(NOT(e.selects), NOT(e.exch), e.base), mp["machine_base_point"], n["active_g"], iv(ABS)),
          ("motion", AND(NOT(e.selects), NOT(e.exch), NOT(e.base)), e.mv.m, n["active_g"], n["active_g9091"])]
    for a in e.axes:
        for nm, when, src, g, prog in ki:
            e.ensure("%s: the words of the block become the position and the range" % nm, IMP(AND(NOT(still), when), AND(*saved(a, src, o["prev_values"], o["word_range"], n["prev_values"], n["word_range"], g, prog, e.ignored(a)))))
        e.ensure("no motion words, no change", IMP(still, AND(*[z3.Select(o[m].dom, a) == z3.Select(n[m].dom, a) for m in ("prev_values", "word_range")], z3.Select(o["prev_values"].e, a) == z3.Select(n["prev_values"].e, a))))
    for s, x in c.only(e.th, "path_calc_exception"):
        m = ex.rd(s, e.me).f
        c.ensure("a failing block does not move", s, AND(same(m["prev_values"], o["prev_values"]), same(m["word_range"], o["word_range"])))


def macros(run):
    """the tool number is readable by the program"""
    e = Ev(run, "tool number variables")
    ex, m0 = e.ex, e.macros0
    m1 = ex.rd(e.st, e.macl)
    dom, val = m0.dom, m0.e
    v = lib.stod_val(ex, e.t.v)
    for i in (4120, 4320, 4520):
        k = ex.pack_key(Rec(m0.kt, {"id": iv(i), "line": e.line}), m0.kt)
        dom, val = z3.Store(dom, k, T), z3.Store(val, k, v)
    hit = AND(e.blk.n > 0, e.toolrun)
    e.ensure("they are defined by an exchange on this line and nothing else is", AND(m1.dom == IF(hit, dom, m0.dom), m1.e == IF(hit, val, m0.e)))


IGNORED = {"X": ["4", "10", "50.1", "51.1", "52", "53", "68", "68.2", "68.3", "68.4", "92"], "Y": ["10", "50.1", "51.1", "52", "53", "68", "68.2", "68.3", "68.4", "92"],
           "I": ["68.2", "68.4"], "J": ["68.2", "68.4"], "K": ["68.2", "68.4"], "R": ["5", "5.1", "6.2", "10", "68", "68.3"], "U": ["71", "72"], "W": ["71", "72"]}
IGNORED["Z"] = IGNORED["Y"]


def codes(c, name="other_g"):
    """the other G codes of a block, with the fact `has code` for every code and a witness where it stands"""
    ex = c.ex
    og = ex.fresh(Ty("seq", [c.ty("std::string")]), name)
    has = {}
    for cd in sorted({x for l in IGNORED.values() for x in l}):
        h, k = z3.Bool("has_G" + cd), z3.Int("at_G" + cd)
        ex.axioms.append(IMP(h, AND(0 <= k, k < og.n, z3.Select(og.e, k) == sv(cd))))
        ex.index_instances.append(k)
        has[cd] = h
    ex.axioms.append(og.n >= 0)

    def fh(st, cont, r, last):
        cont = ex.read(st, cont)
        if isinstance(cont, Seq) and z3.eq(cont.e, og.e):
            el = z3.Select(og.e, r)
            st.assume(IMP(AND(r >= 0, r < og.n), AND(*[IMP(el == sv(cd), h) for cd, h in has.items()])))
    ex.find_hooks.append(fh)
    return og, has


def settings(run):
    """which axis words are no motion because of the codes they stand with"""
    c = run.ctx("words that are no motion", FILES)
    ex = c.ex
    og, has = codes(c)
    word = z3.String("word")
    ex.index_instances.extend(iv(i) for i in range(11))     # positions in the table
    st, r, th = c.call("is_ignored_axis", None, [c.loc(word), c.loc(og)])
    want = OR(*[AND(word == sv(a), has[cd]) for a, l in IGNORED.items() for cd in l])
    c.ensure("exactly the axis words of setting and dwell codes", st, r == want)
    c.only(th)


def motion_words(run):
    c = run.ctx("motion words", FILES)
    ex = c.ex
    og, has = codes(c)
    v = ex.fresh(c.ty("std::map<std::string, double>"), "words")
    ign = z3.Function("ignored", S, B)
    ex.contracts["is_ignored_axis"] = lambda ex, st, this, args, decl: ign(ex.rd(st, args[0]))
    a = z3.String("any_axis")
    ex.extra_keys.setdefault(str(S), []).append(a)
    box = {}

    def inv(ex_, head, it, leaves, mapseen):
        if mapseen is None:
            return []
        seen = ex_.read(head, mapseen[0])
        out = []
        for l in {l for l, *_ in leaves}:
            m = head.mem[l]
            if not isinstance(m, Map) or not hasattr(m, "e") or m.kind == "seen":
                continue

            def q(k, m=m):
                d = AND(z3.Select(v.dom, k), z3.Select(seen, k), NOT(ign(k)))
                return AND(z3.Select(m.dom, k) == d, IMP(d, z3.Select(m.e, k) == z3.Select(v.e, k)))
            q.ksort = S
            out.append(("motion words so far", q))
        return out
    ex.loop_invs.append(inv)
    st, r, th = c.call("get_motion_values", None, [c.loc(v), c.loc(og)])
    r = ex.rd(st, r)
    keep = AND(z3.Select(v.dom, a), OR(og.n == 0, has["53"], NOT(ign(a))))
    c.ensure("exactly the words that are motion are kept", st, z3.Select(r.dom, a) == keep)
    c.ensure("with their values", st, IMP(keep, z3.Select(r.e, a) == z3.Select(v.e, a)))
    c.only(th)


def axis_words(run):
    c = run.ctx("words that move", FILES)
    ex = c.ex
    v = ex.fresh(c.ty("std::map<std::string, double>"), "words")
    a = z3.String("any_axis")
    ex.extra_keys.setdefault(str(S), []).append(a)
    st, r, th = c.call("has_motion_words", None, [c.loc(v)])
    c.ensure("any word but P, L and Q moves", st, IMP(AND(z3.Select(v.dom, a), a != sv("P"), a != sv("L"), a != sv("Q")), r))
    k = [ex._mapkey] if getattr(ex, "_mapkey", None) is not None else ex.key_insts(S)
    c.ensure("nothing else moves", st, IMP(r, OR(*[AND(z3.Select(v.dom, x), x != sv("P"), x != sv("L"), x != sv("Q")) for x in k])))
    c.only(th)


def visiting(run):
    e = Ev(run, "reading the block", words=True)
    e.ensure("done", T)


WORDS = {"was_m6": "m6", "was_pallet_exchange": "pallet_exchange", "was_tool_measurement": "tool_measurement"}


def visitor(kind):
    def part(run):
        c = run.ctx("words of a block, " + kind, FILES)
        ex = c.ex
        rt = c.rec("AttributesPathCalculatorVisitor")
        f0 = {n: ex.fresh(ft.a[0] if ft.k == "ref" else ft, "v_" + n) for n, ft in ex.fields(rt)}
        kin = f0["kinematics"]
        refs = {n for n, ft in ex.fields(rt) if ft.k == "ref"}
        me = c.loc(Rec(rt, {n: Ref(c.loc(v)) if n in refs else v for n, v in f0.items()}))
        av = c.fresh("AttributeVariant", "word")
        d = av.alts[{"decimal": 0, "string": 1, "character": 2}[kind]]
        w = d.f
        ptypes = {"decimal": "DecimalAttributeData", "string": "StringAttributeData"}.get(kind)
        if kind == "decimal":
            num = num_text(ex, w)
            ex.extra_keys.setdefault(str(S), []).append(w["word"])
            c.assume(IMP(w["dot"].has, w["dot"].v == 46))
            for t in (num, num_text(ex, w, False)):
                c.assume(IMP(OR(w["value"].has, w["dot"].has), lib.stod_ok(ex, t)))
            c.assume(IMP(w["value"].has, ex.ufn("stoi_ok", S, B)(w["value"].v)))
        st, r, th = c.call(c.fn("AttributesPathCalculatorVisitor::operator()", ptypes=[ptypes]), me, [c.loc(d)])
        n = ex.rd(st, me).f
        c.only(th)
        want = dict(f0)
        k = kin.f
        if kind == "string":
            hit = lambda a: AND(w["word"] == k[a + "_code"], w["value"] == k[a + "_code_value"])
            want["pallet_exchange"] = OR(f0["pallet_exchange"], hit("pallet_exchange"))
            want["tool_measurement"] = OR(f0["tool_measurement"], AND(NOT(k["auto_measure_after_tool_selection"]), hit("tool_measurement")))
        else:
            word = w["word"]
            skipped = OR(f0["was_comment"], word == sv("/"))
            want["was_comment"] = skipped
            gp = f0["gcode_params"]
            param = z3.Select(gp.dom, word)
            live = NOT(skipped)
            given = OR(w["value"].has, w["dot"].has)
            # axis and parameter words
            setv = AND(live, param, given)
            v = lib.stod_val(ex, num)
            v = IF(AND(word == sv("P"), NOT(w["dot"].has)), v / 1000, v)
            m = f0["values"]
            want["values"] = Map(IF(setv, z3.Store(m.dom, word, T), m.dom), IF(setv, z3.Store(m.e, word, v), m.e), m.kt, m.vt, m.kind)
            other = AND(live, NOT(param))
            W = lambda x: AND(other, word == sv(x))
            for a, fld in (("F", "active_f"), ("S", "active_s")):
                hit = AND(W(a), given)
                want[fld] = Opt(OR(hit, f0[fld].has), IF(hit, lib.stod_val(ex, num_text(ex, w, False)), f0[fld].v), f0[fld].t)
            whole = AND(w["value"].has, NOT(w["dot"].has), NOT(w["value2"].has))
            iv_ = ex.ufn("stoi_val", S, I)(w["value"].v)
            mm = AND(W("M"), whole)
            want["m6"] = OR(f0["m6"], AND(mm, iv_ == 6))
            hit = lambda a: AND(word == k[a + "_code"], w["value"].v == k[a + "_code_value"])
            want["pallet_exchange"] = OR(f0["pallet_exchange"], AND(mm, hit("pallet_exchange")))
            want["tool_measurement"] = OR(f0["tool_measurement"], AND(mm, NOT(k["auto_measure_after_tool_selection"]), hit("tool_measurement")))
            # tool words
            tv = w["value"].v
            lathe = f0["machine_tool_type"] == c.enum("EMachineToolType", "Lathe")
            tn = IF(AND(lathe, z3.Length(tv) > 2), z3.SubString(tv, 0, z3.Length(tv) / 2), tv)
            tt = AND(W("T"), whole)
            s0 = f0["active_t"]
            c.ensure("tool words are listed", st, AND(n["active_t"].n == s0.n + IF(tt, 1, 0), IMP(tt, z3.Select(n["active_t"].e, s0.n) == tn)))
            kk = z3.Int("any_index")
            c.ensure("earlier tool words are kept", st, IMP(AND(kk >= 0, kk < s0.n), z3.Select(n["active_t"].e, kk) == z3.Select(s0.e, kk)))
            # G codes
            g = AND(W("G"), w["value"].has)
            kinds = [("active_g171819", [17, 18, 19]), ("active_g", [0, 1, 2, 3, 80] + DRILL + DRILLQ), ("active_feed_mode", [c.enum("EFeedMode", x) for x in ("PerMinute", "PerRevolution")]),
                     ("active_g9697", [96, 97]), ("active_g_return", [98, 99]), ("active_g9091", [90, 91])]
            rest = g
            for fld, vals in kinds:
                hit = AND(rest, isone(iv_, vals))
                want[fld] = Opt(OR(hit, f0[fld].has), IF(hit, iv_, f0[fld].v), f0[fld].t)
                rest = AND(rest, NOT(isone(iv_, vals)))
            o0, o1 = f0["other_g"], n["other_g"]
            tx = lib.to_string(ex, iv_)
            full = IF(AND(w["dot"].has, w["value2"].has), z3.Concat(tx, sv("."), w["value2"].v), tx)
            c.ensure("other G codes are listed", st, AND(o1.n == o0.n + IF(rest, 1, 0), IMP(rest, z3.Select(o1.e, o0.n) == full)))
            c.ensure("earlier G codes are kept", st, IMP(AND(kk >= 0, kk < o0.n), z3.Select(o1.e, kk) == z3.Select(o0.e, kk)))
        for nm, x in want.items():
            if nm in ("active_t", "other_g") and kind == "decimal":
                continue
            got = n[nm]
            if nm in refs:
                got = ex.rd(st, got.l)
            if isinstance(x, Opt):
                c.ensure(nm, st, AND(got.has == x.has, IMP(x.has, got.v == x.v)))
            else:
                c.ensure(nm, st, same(x, got))
    return ("words of a block, " + kind, part)


def reading(run):
    c = run.ctx("what was read", FILES)
    ex = c.ex
    rt = c.rec("AttributesPathCalculatorVisitor")
    f0 = {n: ex.fresh(ft.a[0] if ft.k == "ref" else ft, "v_" + n) for n, ft in ex.fields(rt)}
    refs = {n for n, ft in ex.fields(rt) if ft.k == "ref"}
    me = c.loc(Rec(rt, {n: Ref(c.loc(v)) if n in refs else v for n, v in f0.items()}))
    names = {"get_values": "values", "get_other_g": "other_g", "was_m6": "m6", "was_pallet_exchange": "pallet_exchange", "was_tool_measurement": "tool_measurement"}
    for nm in GETTERS:
        if nm == "get_t":
            continue
        fld = names.get(nm, nm.replace("get_", "active_"))
        st, r, th = c.call("AttributesPathCalculatorVisitor::" + nm, me, [])
        c.ensure(nm, st, same(ex.rd(st, r), f0[fld]))
        c.only(th)
    st, r, th = c.call("AttributesPathCalculatorVisitor::get_t", me, [])
    r = ex.rd(st, r)
    t = f0["active_t"]
    c.ensure("a tool is selected when a T word stands in the block", st, r.has == (t.n > 0))
    c.ensure("the first T word with an exchange, else the last", st, IMP(t.n > 0, r.v == IF(f0["m6"], z3.Select(t.e, 0), z3.Select(t.e, t.n - 1))))
    c.only(th)
    # a fresh visitor has read nothing
    args = [z3.Int("mt"), c.loc(f0["kinematics"]), c.loc(f0["gcode_params"])]
    st, r, th = c.call("AttributesPathCalculatorVisitor::AttributesPathCalculatorVisitor", me, args)
    n = ex.rd(st, me).f
    c.ensure("a new visitor has read nothing", st, AND(NOT(OR(*[n[x].has for x in n if isinstance(n[x], Opt)])), NOT(OR(*[n[x] for x in ("m6", "was_comment", "pallet_exchange", "tool_measurement")])),
             *[seq_empty(n[x]) for x in ("other_g", "active_t")], lib.mempty(ex, st, n["values"]), n["machine_tool_type"] == args[0]))


def seq_empty(v):
    return B_(len(v.xs) == 0) if isinstance(v, CSeq) else v.n == 0


def B_(b):
    return T if b else F_


def state0(c, o, n, dflt, base, wr0=None):
    """the initial modal state under the given settings"""
    d = dflt.f
    g = n["path_result"].f, n["time_result"].f
    zero = [x[k] == 0 for x in g for k in ("total", "work_motion", "fast_motion", "tool_total")] + [x["tool_id"] == sv("") for x in g] + [g[0]["hole_number"] == 0] + [g[0]["cycle_distance"].f[t] == 0 for t in ("t0", "t1")]
    return [("totals are zero", AND(*zero)), ("no tool is active", n["active_t"] == sv("")),
            ("no helix and no pending rapid", AND(n["active_helix"] == 0, NOT(n["active_auto_rapid_traverse_after_tool_exchange"]))),
            ("no feed rate", n["active_f"] == -1), ("spindle speed", n["active_s"] == IF(d["operator_turns_on_rotation"], z3.ToReal(d["default_rotation"]), RV(-1))),
            ("defaults", AND(n["active_g"] == d["default_motion"], n["active_g171819"] == d["default_work_plane"], n["active_g_return"] == d["drill_cycle_return_value"], n["active_g9091"] == d["default_programming"],
                             n["active_g9697"] == 0, n["active_feed_mode"] == d["default_feed_mode"]))]


def initial(which):
    def part(run):
        c = run.ctx(which, FILES)
        ex = c.ex
        t = c.rec("AttributesPathCalculator")
        o = {n: ex.fresh(ft, "old_" + n) for n, ft in ex.fields(t)}
        me = c.loc(Rec(t, o))
        axes = [sv(a) for a in "XYZ"] + [z3.String("any_axis")]
        ign = z3.Function("ignored", S, B)
        wt, mt = c.ty("word_range_map"), c.ty("std::map<std::string, double>")
        cp = {}

        def dtor(ex, st, this, args, decl):
            f = ex.rd(st, this).f
            v, pv, wr = [ex.rd(st, f[k].l) for k in ("v", "pv", "wr")]
            c.ensure("the base point is saved into a cleared position", st, AND(lib.mempty(ex, st, pv), lib.mempty(ex, st, wr)))
            npv, nwr = ex.fresh(mt, "pv"), ex.fresh(wt, "wr")
            cp["prog"], cp["g"], cp["v"] = f["g9091"], f["g"], v
            c.ensure("no other G codes", st, B_(f["og"].l is None) if f["og"].l is None else f["og"].null)
            c.ensure("with the initial motion code and programming", st, AND(f["g"] == ex.rd(st, me).f["active_g"], f["g9091"] == ex.rd(st, me).f["active_g9091"]))
            ex.write(st, f["pv"].l, npv); ex.write(st, f["wr"].l, nwr)
            cp["npv"] = npv
        ex.contracts["copy_on_return::~copy_on_return"] = dtor
        if which == "reset":
            st, r, th = c.call("AttributesPathCalculator::reset", me, [])
            n = ex.rd(st, me).f
            dflt, mp, kin = o["cnc_default_values"], o["machine_points_data"], o["kinematics"]
            keep = ("machine_tool", "machine_tool_type", "machine_points_data", "kinematics", "cnc_default_values", "language", "gcode_params")
            for k in keep:
                c.ensure("settings are kept: " + k, st, same(o[k], n[k]))
        else:
            rv = which.endswith("temporaries")
            fn = [f for f in c.tu.funcs if f["name"] == "AttributesPathCalculator" and f["kind"] == "CXXConstructorDecl" and f.get("_qn", "").endswith("AttributesPathCalculator::AttributesPathCalculator")
                  and ("MachinePointsData &&" in f["type"]["qualType"]) == rv and "MachinePointsData" in f["type"]["qualType"] and any(x.get("kind") == "CompoundStmt" for x in f.get("inner", []))]
            if len(fn) != 1:
                raise F.ExtractError("constructor")
            mp, kin, dflt = o["machine_points_data"], o["kinematics"], o["cnc_default_values"]
            args = [o["machine_tool"], o["machine_tool_type"], c.loc(mp), c.loc(kin), c.loc(dflt), o["language"]]
            a = z3.String("any_axis")
            ex.extra_keys.setdefault(str(S), []).append(a)
            first = ["X", "Y", "Z", "I", "J", "K", "R", "Q", "L", "P", "U"]
            base = OR(*[a == sv(x) for x in first])
            ax = kin.f["cartesian_system_axis"]

            def inv(ex_, head, it, leaves, mapseen):
                if mapseen is None:
                    return []
                seen = ex_.read(head, mapseen[0])
                g = ex_.rd(head, me).f.get("gcode_params")
                if not isinstance(g, Map):
                    return []

                def q(k):
                    return z3.Select(g.dom, k) == OR(*[k == sv(x) for x in first], AND(z3.Select(ax.dom, k), z3.Select(seen, k)))
                q.ksort = S
                return [("parameters so far", q)]
            ex.loop_invs.append(inv)
            st, r, th = c.call(fn[0], me, args)
            n = ex.rd(st, me).f
            for k, x in zip(("machine_tool", "machine_tool_type", "machine_points_data", "kinematics", "cnc_default_values", "language"), (o["machine_tool"], o["machine_tool_type"], mp, kin, dflt, o["language"])):
                c.ensure("settings are stored: " + k, st, same(x, n[k]))
            c.ensure("parameter words are the fixed ones and the configured axes", st, z3.Select(n["gcode_params"].dom, a) == OR(base, z3.Select(ax.dom, a)))
        c.only(th)
        for nm, g in state0(c, o, n, dflt, mp):
            c.ensure(nm, st, g)
        c.ensure("the position is that of the base point", st, AND(same(cp["v"], mp.f["machine_base_point"]), same(cp["npv"], n["prev_values"])))
        for k in ("t_path", "t_time"):
            c.ensure("no tool totals", st, lib.mempty(ex, st, n[k]))
    return (which, part)


def num_text(ex, d, sign=True):
    """the number as written: sign (axis words only), digits, point, digits"""
    o = lambda x: IF(d[x].has, d[x].v, sv(""))
    ch = lambda x, lit: IF(d[x].has, lit(d[x].v), sv(""))
    t = z3.Concat(o("value"), ch("dot", lambda v: lib.as_str(v)), IF(d["dot"].has, o("value2"), sv("")) if not sign else o("value2"))
    return z3.Concat(ch("sign", lambda v: lib.as_str(v)), t) if sign else t


PARTS = [("reading the block", visiting), visitor("decimal"), visitor("string"), ("what was read", reading), initial("reset"), initial("construction"), initial("construction from temporaries"), ("words that are no motion", settings), ("motion words", motion_words), ("words that move", axis_words), ("saving the position", saving), ("totals", totals), ("tools", tools), ("modal state", modal), ("straight moves", straight), *[arcs(p) for p in PLANES], *[drilling(p) for p in PLANES], ("standing still", standstill), ("position", position), ("tool number variables", macros)]
RULE = "the calculator's own functions (evaluate, the reading of a block, the saving of positions, construction and reset) meet their contracts; programs compared with an independent Python calculation"
BOUNDED = ["whole programs: at most 40 lines of straight moves, full circles, half circles, drilling, dwells, tool changes, returns to the base point, pallet exchanges and measurements on one mill grammar, compared with an independent calculation (bounded)"]


class Model:
    """independent calculation of path and time for the programs the harness writes"""

    def __init__(self, s):
        self.s = s
        self.reset()

    def reset(self):
        s = self.s
        self.pos = [s["base"][a] for a in "XYZ"]
        self.g, self.inc, self.F, self.rev = s["motion"], s["prog"] == 91, -1.0, s["feedmode"] == 95
        self.S = float(s["rotation"]) if s["op_rot"] else -1.0
        self.tool, self.saved, self.rapid, self.cycle = "", {}, False, None
        self.total = [0.0, 0.0]; self.tt = [0.0, 0.0]; self.id = ""
        self.work = self.fast = 0.0

    def block(self, b):
        """b: dict of words; returns None or the reason for an error"""
        s, w = self.s, b
        self.work = self.fast = 0.0
        self.t = [0.0, 0.0]
        extra = 0.0
        T, m6 = w.get("T"), w.get("M") == 6
        exch = (T is not None) if s["tool_exec"] else m6
        if exch:
            extra += s["t_exch"] + (s["t_meas"] if s["automeas"] else 0)
        if w.get("M") == 60 and s["pcode"]:
            extra += s["t_pallet"]
        if w.get("M") == 61 and s["mcode"] and not s["automeas"]:
            extra += s["t_meas"]
        if w.get("g") == 4:
            extra += sum(w.get(a, 0) for a in "XU") + w.get("P", 0) / 1000
        self.total[1] += extra
        dwell = w.get("g") == 4
        if T is not None:
            if s["auto_rapid"]:
                self.rapid = True
            if self.tool:
                self.saved[self.tool] = list(self.tt)
            if s["tool_exec"] or m6:
                self.tool = T
            self.tt = list(self.saved.get(self.tool, [0.0, 0.0]))
            self.id = self.tool
            if not exch:
                self.modal(w)
                return None
        axes = {} if dwell else {a: w[a] for a in "XYZ" if a in w}
        home = w.get("g") == 28
        if exch or home:
            self.g = 0
        moving = {k for k in w if k in "XYZIJRKQ"} if not dwell else set()
        if self.rapid and (moving or (set(w) & set("PL"))) and not (dwell and not set(w) & set("P")):
            self.rapid = False
            self.g = 0
        g = w.get("G", self.g)
        inc = w.get("inc", self.inc)
        half = 2.0 if s["machine_type"] == 1 and not s["dia"] else 1.0
        p = self.pos
        new = None
        if g in (0, 1):
            if (g == 0 and s["c_rapid"]) or (g == 1 and s["c_lin"]):
                self.cycle = None
            if exch or home:
                pt = s["exchange"] if exch else s["base"]
                tgt = [pt[a] for a in "XYZ"]
            elif inc:
                tgt = [p[i] + axes.get(a, 0) for i, a in enumerate("XYZ")]
            else:
                tgt = [axes.get(a, p[i]) for i, a in enumerate("XYZ")]
            L = math.sqrt(((tgt[0] - p[0]) / half) ** 2 + (tgt[1] - p[1]) ** 2 + (tgt[2] - p[2]) ** 2)
            if g:
                self.work = L
            else:
                self.fast = L
            new = tgt
        elif g in (2, 3):
            if not moving and "G" not in w:
                return self.end(w, g, inc, None, count=False)
            if (g == 2 and s["c_cw"]) or (g == 3 and s["c_ccw"]):
                self.cycle = None
            if "R" in w:
                self.work = math.pi * abs(w["R"])
                new = [axes.get("X", 0) + (p[0] if inc else 0), p[1], p[2]] if "X" in w else p
            else:
                self.work = 2 * math.pi * math.hypot(w["I"] / half, w["J"])
                new = p
        elif g == 80:
            self.cycle = None
            if s["c_starts"]:
                g = 0
        else:
            if not moving and "G" not in w:
                return self.end(w, g, inc, None, count=False)
            if self.cycle is None:
                if inc:
                    N, A = abs(axes["Z"]), abs(w["R"])
                else:
                    N, A = abs(w["R"] - axes["Z"]), abs(p[2] - w["R"])
                ret = w.get("ret", self.ret if hasattr(self, "ret") else s["drillret"])
                self.cycle = (N, N + (2 if ret == 98 else 1) * A)
            n = int(w["K"]) if inc and "K" in w else 1
            dx = [axes.get(a, 0) if inc else axes.get(a, p[i]) - p[i] for i, a in enumerate("XY")]
            self.work, self.fast = n * self.cycle[0], n * (self.cycle[1] + math.hypot(*dx))
            new = [p[i] + axes.get(a, 0) if inc else axes.get(a, p[i]) for i, a in enumerate("XY")] + [p[2]]
        return self.end(w, g, inc, new)

    def modal(self, w):
        if "F" in w:
            self.F = w["F"]
        if "S" in w:
            self.S = w["S"]
        if "rev" in w:
            self.rev = w["rev"]

    def end(self, w, g, inc, new, count=True):
        self.modal(w)
        self.g, self.inc = g, inc
        if "ret" in w:
            self.ret = w["ret"]
        if not count:
            return None
        s = self.s
        self.id = self.tool
        L = self.work + self.fast
        self.total[0] += L; self.tt[0] += L
        lathe = s["machine_type"] == 1
        t = [0.0, 0.0]
        if self.work and self.F > 0:
            t[0] = 60 * self.work / (self.F * self.S if lathe and self.rev else self.F)
        if self.fast and s["fast"] > 0:
            t[1] = 60 * self.fast / s["fast"]
        self.t = t
        self.total[1] += sum(t); self.tt[1] += sum(t)
        if self.work and self.F < 0:
            return "F"
        if self.work and self.F > 0 and lathe and self.rev and self.S < 0:
            return "S"
        if new is not None:
            self.pos = list(new)
        return None

    def path(self):
        return [self.total[0], self.work, self.fast, self.tt[0]]

    def time(self):
        return [self.total[1], self.t[0], self.t[1], self.tt[1]]


def program(rng, m, s):
    """one random line and its words"""
    num = lambda lo=-50, hi=50: rng.choice([float(rng.randint(lo, hi)), rng.randint(lo * 10, hi * 10) / 10])
    f = lambda v: ("%d" % v if v == int(v) and rng.random() < 0.7 else "%.3f" % v)
    w, out = {}, []
    k = rng.random()
    ax = lambda p=0.5: [a for a in "XYZ" if rng.random() < p] or [rng.choice("XYZ")]
    incyc = m.g not in (0, 1, 2, 3, 80)
    if rng.random() < 0.15 and k < 0.62:
        w["inc"] = rng.random() < 0.5
        out.append("G91" if w["inc"] else "G90")
    inc = w.get("inc", m.inc)
    if k < 0.45 or (m.rapid and k < 0.75):
        if rng.random() < 0.6 or m.g not in (0, 1):
            w["G"] = rng.choice([0, 1, 1]); out.append("G%d" % w["G"])
        for a in ax():
            w[a] = num(); out.append(a + f(w[a]))
    elif k < 0.53:
        w["G"] = rng.choice([2, 3]); out.append("G%d" % w["G"])
        half = 2.0 if s["machine_type"] == 1 and not s["dia"] else 1.0
        if rng.random() < 0.6:
            w["I"], w["J"] = num(1), num(1)
            out += ["I" + f(w["I"]), "J" + f(w["J"])]
        else:
            r = float(rng.randint(1, 20))
            w["X"] = (0 if inc else m.pos[0]) + rng.choice([-1, 1]) * 2 * r * half
            w["R"] = r
            out += ["X%.4f" % w["X"], "R" + f(r)]
    elif k < 0.63 and s["drillz"] == 0:
        if m.cycle is not None and incyc and rng.random() < 0.6:
            for a in rng.sample("XY", rng.randint(1, 2)):
                w[a] = num(); out.append(a + f(w[a]))
        elif m.cycle is None:
            w["G"] = 81; out.append("G81")
            for a in rng.sample("XY", rng.randint(0, 2)):
                w[a] = num(); out.append(a + f(w[a]))
            if inc:
                w["Z"], w["R"] = -float(rng.randint(1, 20)), -float(rng.randint(0, 5))
                if rng.random() < 0.5:
                    w["K"] = rng.randint(1, 4)
            else:
                w["R"] = m.pos[2] - rng.randint(0, 10); w["Z"] = w["R"] - rng.randint(1, 20)
            out += ["Z%.3f" % w["Z"], "R%.3f" % w["R"]] + (["K%d" % w["K"]] if "K" in w else [])
        else:
            w["G"] = 80; out.append("G80")
    elif k < 0.70:
        w["g"] = 4; out.append("G4")
        if rng.random() < 0.5:
            w["P"] = rng.choice([1, 500, 2500]); out.append("P%d" % w["P"])
        else:
            w["X"] = rng.choice([1.5, 2.0]); out.append("X%.1f" % w["X"])
    elif k < 0.85:
        if rng.random() < 0.75:
            w["T"] = str(rng.randint(1, 4)); out.append("T" + w["T"])
        if rng.random() < 0.7 or "T" not in w:
            w["M"] = 6; out.append("M6")
        if rng.random() < 0.3:
            rng.shuffle(out)
    elif k < 0.89:
        w["M"] = rng.choice([60, 61]); out.append("M%d" % w["M"])
    elif k < 0.93:
        w["g"] = 28; out.append("G28")
    elif k < 0.97:
        w["F"] = float(rng.choice([100, 250, 1000])); out.append("F%d" % w["F"])
    if rng.random() < 0.2 and "F" not in w:
        w["F"] = rng.choice([100.0, 0.2, 333.0]); out.append("F%g" % w["F"])
    if rng.random() < 0.1:
        w["S"] = float(rng.choice([500, 1200])); out.append("S%d" % w["S"])
    if s["machine_type"] == 1 and rng.random() < 0.08 and "M" not in w and "T" not in w:
        w["rev"] = rng.random() < 0.6; out.append("G95" if w["rev"] else "G94")
    if rng.random() < 0.06 and "ret" not in w and m.cycle is None and w.get("G") == 81:
        w["ret"] = rng.choice([98, 99]); out.insert(0, "G%d" % w["ret"])
    return " ".join(out), w


def harness(h):
    import copy
    from harness import build, sess
    from harness.hx import run_lines
    exe = build.parser(); rng = h.rng
    cfg = sess.Cfg("fanuc_mill")
    progs = []
    for _ in range(h.n(500)):
        s = dict(sess.NC)
        b = lambda: rng.randint(0, 1)
        s.update(machine_type=rng.choice([0, 0, 1]), dia=b(), automeas=b(), tool_exec=b() if rng.random() < 0.4 else 0, auto_rapid=b(), motion=rng.choice([0, 0, 1]), prog=rng.choice([90, 90, 91]),
                 c_rapid=b(), c_lin=b(), c_cw=b(), c_ccw=b(), c_starts=b(), op_rot=b(), t_exch=rng.choice([0, 6, 11]), t_pallet=rng.choice([1, 20]), t_meas=rng.choice([0, 3]), fast=rng.choice([20000.0, 5000.0]),
                 pcode=rng.choice(["", "M"]), mcode=rng.choice(["", "M"]), feedmode=94, drillret=rng.choice([98, 99]),
                 exchange={"X": float(rng.randint(-20, 20)), "Y": 5.0, "Z": 100.0}, base={"X": 1.0, "Y": float(rng.randint(-9, 9)), "Z": 50.0, "I": 0.0, "J": 0.0, "K": 0.0}, zero=(0.0, 0.0, 0.0), items=99, spindle=99999, work=99999.0,
                 axis={a: (-1e6, 1e6) for a in "XYZ"})
        if s["pcode"]:
            s["pval"] = "60"
        if s["mcode"]:
            s["mval"] = "61"
        m = Model(s)
        m.t = [0.0, 0.0]
        kw = {k: v for k, v in s.items()}
        ops, exp, lines = [sess.nc(**kw)], [], []
        for i in range(rng.randint(3, 40)):
            if rng.random() < 0.02:
                ops += ["preset", "path", "time"]
                m.reset(); m.t = [0.0, 0.0]
                if hasattr(m, "ret"):
                    del m.ret
                exp.append((None, m.path(), m.time(), m.id)); lines.append("(reset)")
                continue
            ln, w = program(rng, m, s) if i or rng.random() < 0.15 else ("F250 S600", {"F": 250.0, "S": 600.0})
            if not ln:
                continue
            err = m.block(w)
            ops += [sess.parse(len(lines) + 1, ln), "path", "time"]
            lines.append(ln)
            exp.append((err, m.path(), m.time(), m.id))
            if err:
                break
        progs.append((s, lines, exp, sess.sess(cfg, ops, fl=sess.flags(groups=0, path=1))))
    outs = run_lines(exe, [cfg.line()] + [p[3] for p in progs])[1:]
    for (s, lines, exp, line), o in zip(progs, outs):
        h.ok(line, len(lines) > 3)
        c = sess.chunks(o)[1:]
        for i, (ln, (err, P_, T_, tid)) in enumerate(zip(lines, exp)):
            r, pp, tt = c[3 * i:3 * i + 3] if len(c) >= 3 * i + 3 else ([], [], [])
            bad = None
            try:
                gp, gt = [float(x) for x in pp[:4]], [float(x) for x in tt[:4]]
                gid = bytes.fromhex(pp[4][1:]).decode()
                ok = sess.res(r) if r and r[0] == "r" else (True if ln == "(reset)" else r)
                good = (ok is True) if ln == "(reset)" else bool(ok and ok[0] is True)
                near = lambda a, b: all(abs(x - y) <= 1e-6 * (1 + abs(y)) for x, y in zip(a, b))
                if good == bool(err):
                    bad = "accepted" if good else "rejected: %r" % (ok,)
                elif not near(gp, P_):
                    bad = "path total/cutting/rapid/tool %r, expected %r" % (gp, P_)
                elif not near(gt, T_):
                    bad = "time total/cutting/rapid/tool %r, expected %r" % (gt, T_)
                elif gid != tid:
                    bad = "tool %r, expected %r" % (gid, tid)
            except (ValueError, IndexError):
                bad = "no answer: %r %r %r" % (r, pp, tt)
            if bad:
                diff = {k: v for k, v in s.items() if v != sess.NC.get(k)}
                h.fail("machine %r, program %r" % (diff, lines[:i + 1]), "line %r: %s" % (ln, bad[:300]), "path and time totals")
                break
        else:
            if len(h.samples) < 4 and rng.random() < 0.02:
                h.samples.append({"input": lines, "output": " ".join(c[-1][:4])})
    h.bounds.append("programs of at most 40 lines, coordinates up to a few hundred")

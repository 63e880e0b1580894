"""C09 – codes of one modal group in one block."""
from .common import *
from . import pipe, printing
from . import macros as MM

FILES = [P + "CodeGroupsVerifier.cpp"]
ASSUME = ["digits of a word's number are well formed (grammar) and a macro variable's printed value is a number, so std::stoi succeeds",
          "std::to_string prints a number as digits, a point and six digits",
          "iteration over std::set visits every element exactly once"]


def verifier(run):
    c = run.ctx("CodeGroupsVerifier", FILES)
    ex = c.ex
    ex.opts["abstract_strings"] = True
    trunc = ex.ufn("trunc_text", R, S)
    ex.contracts["to_string_trunc"] = lambda ex_, st, this, args, decl: trunc(lib.to_real(ex.rd(st, args[0])))
    blk = c.block()
    lang, line = z3.Int("lang"), z3.Int("line")
    report = z3.Bool("report_missing")
    m = c.fresh("macro_map", "macros")
    gm, mm = c.fresh("code_groups_map", "gcodes"), c.fresh("code_groups_map", "mcodes")
    g0 = z3.String("any_group")
    ex.extra_keys.setdefault(str(S), []).append(g0)

    def code_of(d):
        """(has a value, code, rest) the word denotes: a literal, or the text of the macro variable's value"""
        v = lib.stoi_val(ex, d["value"].v)
        has, mv = MM.mac(ex, m, v, line)
        t = trunc(mv)
        p = lib.str_find(ex, t, sv("."))
        dot = p != lib.NPOS
        part = lambda pos, n=None: simp(z3.SubString(t, pos, simp(z3.Length(t) - pos if n is None else IF(n < z3.Length(t) - pos, n, z3.Length(t) - pos))))
        a, b = part(iv(0), p), part(p + 1)
        U = lambda x: IF(x >= 0, x, x + 2 ** 32)      # the configuration's codes are unsigned
        mc = IF(dot, lib.stoi_val(ex, a), lib.stoi_val(ex, t))
        mr = IF(dot, lib.stoi_val(ex, b), iv(0))
        return (OR(NOT(d["macro"].has), has), IF(d["macro"].has, U(mc), v), IF(d["macro"].has, U(mr), IF(d["value2"].has, U(lib.stoi_val(ex, d["value2"].v)), iv(0))),
                [IMP(d["value"].has, AND(lib.stoi_ok(ex, d["value"].v), v >= 0)), IMP(d["value2"].has, lib.stoi_ok(ex, d["value2"].v)), IMP(dot, AND(lib.stoi_ok(ex, a), lib.stoi_ok(ex, b))),
                 lib.stoi_ok(ex, t), IMP(dot, AND(p >= 0, p < z3.Length(t), z3.Length(t) < lib.NPOS))])
    c.elem_pre(blk, lambda e: IMP(is_dec(e), AND(code_of(dec(e))[3])))

    def facts(e, W, cm, grp):
        d = dec(e)
        here = AND(is_dec(e), d["word"] == sv(W), d["value"].has)
        ok, code, rest, _ = code_of(d)
        k = ex.pack_key(Rec(cm.kt, {"code": code, "rest": rest}), cm.kt)
        listed = AND(here, ok, z3.Select(cm.dom, k))
        return dict(here=here, ok=ok, code=code, rest=rest, listed=listed, unset=AND(here, NOT(ok)), missing=AND(here, ok, NOT(z3.Select(cm.dom, k)), report),
                    member=AND(listed, z3.Select(z3.Select(cm.e.dom, k), grp)))
    gs = {}
    for W, cm in (("G", gm), ("M", mm)):
        def step(s, e, W=W, cm=cm):
            f = facts(e, W, cm, g0)
            s = s.f
            return Rec(None, {"seen": OR(s["seen"], f["member"]), "code": IF(f["member"], f["code"], s["code"]), "rest": IF(f["member"], f["rest"], s["rest"]),
                              "bad": OR(s["bad"], AND(s["seen"], f["member"]), f["missing"], f["unset"])})
        gs[W] = c.ghost("codes" + W, Rec(None, {"seen": F_, "code": iv(0), "rest": iv(0), "bad": F_}), step, blk)
        c.sticky(gs[W], lambda s: s.f["bad"], blk.n)

    def inv(ex_, head, it, leaves, mapseen):
        out = []
        mine = [(c_, i0) for (l, p, c_, i0, g_, hv) in leaves if z3.is_array(c_) and c_.sort().domain() == S]
        if mapseen:
            seen = ex.read(head, mapseen[0])
            groups = ex.read(head, mapseen[1]).dom
            if seen.sort().domain() != S:
                return []
            fns = [("seen groups", lambda k: IMP(z3.Select(seen, k), z3.Select(groups, k)))]
            for c_, i0 in mine:
                if c_.eq(seen) or i0 is None:
                    continue
                if c_.sort().range() == B:
                    fns.append(("occurred so far", lambda k, c_=c_, i0=i0: z3.Select(c_, k) == OR(z3.Select(i0, k), z3.Select(seen, k))))
                    fns.append(("no clash so far", lambda k, i0=i0: IMP(z3.Select(seen, k), NOT(z3.Select(i0, k)))))
                else:
                    fns.append(("kept", lambda k, c_=c_, i0=i0: IMP(NOT(z3.Select(seen, k)), z3.Select(c_, k) == z3.Select(i0, k))))
                    for nm in ("code", "rest"):
                        for W, cm in (("G", gm), ("M", mm)):
                            for e in ex.index_instances_outer:
                                f = facts(c.elem(blk, e), W, cm, g0)
                                fns.append(("recorded %s" % nm, lambda k, c_=c_, v=f[nm], e=e: IMP(AND(z3.Select(seen, k), e >= 0), z3.Select(c_, k) == v)))
            for nm, fn in fns:
                fn.ksort = S
            return fns
        ex.index_instances_outer = [it] + [c_ for (l, p, c_, i0, g_, hv) in leaves if c_.sort() == I and len(p) == 0]
        for e in ex.index_instances_outer[1:]:
            for h in ex.it_hooks:
                h(e)
        for c_, i0 in mine:
            for W in "GM":
                a = gs[W].at(it).f
                if c_.sort().range() == B:
                    out.append(("occurred", z3.Select(c_, g0) == a["seen"]))
                elif c_.sort().range() == I:
                    for nm in ("code", "rest"):
                        out.append(("which", IMP(a["seen"], z3.Select(c_, g0) == a[nm])))
        return out
    ex.index_instances_outer = []
    ex.loop_invs.append(inv)
    st, r, th = c.call("CodeGroupsVerifier::operator()", Rec(c.rec("CodeGroupsVerifier"), {}), [c.loc(m), c.loc(gm), c.loc(mm), line, c.loc(blk), lang, report])
    n = blk.n
    c.ensure("accepted only when no two codes share a group, no code is unknown when that is required, and every variable is assigned", st,
             AND(NOT(gs["G"].at(n).f["bad"]), NOT(gs["M"].at(n).f["bad"])))
    c.cover("accepted", st)
    name = lambda W, code, rest: IF(rest != 0, z3.Concat(z3.Concat(sv(W), lib.to_string(ex, code)), z3.Concat(sv("."), lib.to_string(ex, rest))), z3.Concat(sv(W), lib.to_string(ex, code)))
    en = lambda x: c.enum("MessageName", x)
    for s, e in c.only(th, "code_groups_exception"):
        w = c.what(s, e)
        alts = []
        for W, cm in (("G", gm), ("M", mm)):
            for it in ex.its:
                a = gs[W].at(it).f
                for grp in [g0] + [k for k in ex.mapkeys if k.sort() == S and mentions([w], k)]:
                    f = facts(c.elem(blk, it), W, cm, grp)
                    alts.append(AND(it >= 0, it < n, OR(AND(f["member"], IMP(grp == g0, AND(a["seen"], w == msg(ex, "make_message2", en("InSameCodeGroup"), lang, name(W, f["code"], f["rest"]), name(W, a["code"], a["rest"]), grp)))),
                                                        AND(f["missing"], w == msg(ex, "make_message2", en("MissingInCodeGroups"), lang, name(W, f["code"], f["rest"]))),
                                                        AND(f["unset"], w == msg(ex, "make_message", en("MissingValue"), lang, z3.Concat(sv("#"), dec(c.elem(blk, it))["value"].v))))))
        c.ensure("a report names two codes of the block that share the named group, or a code no group lists, or an unassigned variable", s, OR(alts))
        c.cover("report", s)


def mentions(es, k):
    seen, todo = set(), list(es)
    while todo:
        e = todo.pop()
        if e.eq(k):
            return True
        if e.get_id() not in seen:
            seen.add(e.get_id()); todo += e.children()
    return False


PARTS = [("verifier", verifier), ("value printed", printing.printed(FILES)), pipe.part_for("groups")]
ASSUME += pipe.PIPE_ASSUME
RULE = "a block is rejected exactly for two G (two M) codes listed in a common group, or (when required) for a code no group lists, or for an unassigned variable; the report names both codes and the group"
BOUNDED = ["whole lines through the real parser with four of the shipped group tables: tested, not proved"]


def harness(h):
    from harness import pipecheck
    pipecheck.run(h, "C09")
    from harness import build
    from harness.hx import D, St, hx, enc_block, Msgs, fmt_trunc
    from harness.sess import Cfg, sess, parse, chunks, res, enc_groups, flags
    from .c08 import enc_macros
    rng = h.rng
    tokx = build.tok(); ms = Msgs(tokx)

    def verdict(blk, tabs, mac, line, lang, report):
        """every text an implementation may report (the groups of a code are a set), or ['ok']"""
        for W in "GM":
            occ = {}
            for e in blk:
                if not isinstance(e, D) or e.word != W or e.value is None:
                    continue
                if e.macro:
                    ks = [k for k in mac if k[0] == int(e.value) and k[1] <= line]
                    if not ks:
                        return [ms.mk("MissingValue", lang, "#" + e.value)]
                    a, _, b = fmt_trunc(mac[max(ks, key=lambda k: k[1])]).partition(".")
                    code = (int(a), int(b or 0))
                else:
                    code = (int(e.value), int(e.value2 or 0))
                nm = lambda c: W + str(c[0]) + ("." + str(c[1]) if c[1] else "")
                if code not in tabs[W]:
                    if report:
                        return [ms.mk("MissingInCodeGroups", lang, nm(code), values_first=True)]
                    continue
                clash = [g for g in tabs[W][code] if g in occ]
                if clash:
                    return [ms.mk("InSameCodeGroup", lang, nm(code), nm(occ[g]), g, values_first=True) for g in clash]
                for g in tabs[W][code]:
                    occ[g] = code
        return ["ok"]
    cases = []
    for i in range(h.n(4000)):
        lang, report, line = rng.randint(0, 1), rng.random() < 0.35, rng.randint(1, 20)
        codes = [(c, r) for c in rng.sample([0, 1, 2, 3, 4, 17, 54, 90, 99, 130], rng.choice([2, 3, 4])) for r in rng.choice([[0], [0, 1], [0, 1, 10], [2]])]
        gnames = ["1", "2", "03", "10", "motion", "A", ""]
        tabs = {W: {c: set(rng.sample(gnames, rng.choice([1, 1, 1, 2, 3]))) for c in codes if rng.random() < 0.85} for W in "GM"}
        mac, ids = {}, [1, 2, 100, 101]
        for _ in range(rng.randint(0, 5)):
            c = rng.choice(codes)
            mac[(rng.choice(ids), rng.choice([line, line - 1, line + 1, 0]))] = float("%d.%d" % c)
        blk = []
        for _ in range(rng.choice([0, 1, 2, 2, 3, 4, 7])):
            if rng.random() < 0.06:
                blk.append(St("(", "G1 G2)")); continue
            w = rng.choice("GGGMMMXGM")
            if rng.random() < 0.3:
                blk.append(D(w, value=str(rng.choice(ids)), macro="#")); continue
            c, r = rng.choice(codes)
            dot = "." if r else rng.choice([None, None, "."])
            blk.append(D(w, value=None if rng.random() < 0.05 else rng.choice(["%d", "%02d", "%03d"]) % c, dot=dot, value2=str(r) if r else (rng.choice([None, "0"]) if dot else None)))
        exp = verdict(blk, tabs, mac, line, lang, report)

        def chk(o, exp=exp):
            got = o.split()
            want = ["ok"] if exp == ["ok"] else ["ex code_groups_exception " + hx(x) for x in exp]
            return None if " ".join(got) in want else {"expected one of": want, "got": " ".join(got)}
        cases.append(("groups %d %d %d %s %s %s %s" % (lang, report, line, enc_macros(mac), enc_groups(tabs["G"]), enc_groups(tabs["M"]), enc_block(blk)), chk,
                      "line %d, report missing %s, variables %r, groups %r, block %r" % (line, report, mac, tabs, blk), exp != ["ok"]))
    h.run(tokx, cases, "component calls")
    exe = build.parser()
    for drv in ("fanuc_mill", "haas_lathe", "generic_mill", "fanuc_lathe_system_b"):
        cfg = Cfg(drv)
        tabs = {"G": cfg.gc, "M": cfg.mc}
        cases = [(cfg.line(), lambda o: None, "configuration", False)]
        for i in range(h.n(150)):
            lang = rng.randint(0, 1)
            W = rng.choice("GGM")
            cs = [rng.choice(sorted(tabs[W])) for _ in range(rng.choice([1, 2, 2, 3]))]
            if W == "M" and drv.startswith("haas"):
                cs = cs[:1]
            viam = [rng.random() < 0.3 for _ in cs]
            txt = lambda c: "%d%s" % (c[0], ".%d" % c[1] if c[1] else "")
            ops = [parse(1 + k, "#%d=%s" % (100 + k, txt(c))) for k, c in enumerate(cs) if viam[k]]
            line = " ".join(W + ("#%d" % (100 + k) if viam[k] else txt(c)) for k, c in enumerate(cs))
            blk = [D(W, value=str(100 + k), macro="#") if viam[k] else D(W, value=str(c[0]), dot="." if c[1] else None, value2=str(c[1]) if c[1] else None) for k, c in enumerate(cs)]
            mac = {(100 + k, 1 + k): float(txt(c)) for k, c in enumerate(cs) if viam[k]}
            exp = verdict(blk, tabs, mac, 10, lang, False)

            def chk(o, exp=exp):
                r = res(chunks(o)[-1])
                good = r[:2] == (True, "") if exp == ["ok"] else (r[0] is False and r[1] in exp)
                return None if good else {"expected one of": exp, "got": r[:2]}
            cases.append((sess(cfg, ops + [parse(10, line)], lang=lang, fl=flags(), plain=1), chk, "configuration %s, variables %r, line %r" % (drv, mac, line), exp != ["ok"]))
        h.run(exe, cases, "lines through the parser, " + drv)
    h.bounds.append("blocks of at most 7 words, at most 7 group names per random table; the shipped tables of four configurations")

"""C01 – rotating the axes of a block."""
from .common import *

FILES = [P + "AxesRotator.cpp"]
ASSUME = ["a word's number is a digit string (what the grammar produces); the nine enumerators are the only rotation options",
          "zeroes followed by a number that does not start with 0 have exactly those leading zeroes (used in the group laws)"]

# the rigid rotations, as signed permutations: where a unit along each axis goes
ROT = {"X90": dict(X="+X", Y="-Z", Z="+Y"), "Y90": dict(X="+Z", Y="+Y", Z="-X"), "Z90": dict(X="-Y", Y="+X", Z="+Z")}


def after(a, b):
    """first a, then b"""
    out = {}
    for x, s in a.items():
        t = b[s[1]]
        out[x] = ("+" if s[0] == t[0] else "-") + t[1]
    return out


for _a in "XYZ":
    ROT[_a + "180"] = after(ROT[_a + "90"], ROT[_a + "90"])
    ROT[_a + "270"] = after(ROT[_a + "180"], ROT[_a + "90"])
OPTS = [a + n for a in "XYZ" for n in ("90", "180", "270")]
CEN = dict(zip("XYZ", "IJK"))
NORMAL = {"17": "Z", "18": "Y", "19": "X"}
PLANE = {v: k for k, v in NORMAL.items()}


def words_of(o):
    """word -> (new word, sign flips)"""
    m = {}
    for x, s in ROT[o].items():
        m[x] = (s[1], s[0] == "-")
        m[CEN[x]] = (CEN[s[1]], s[0] == "-")
    return m


def codes_of(o):
    """a plane goes to the plane of its rotated normal; an arc (of the XY plane) changes direction when the rotated normal
    points against the axis the resulting plane is viewed from"""
    m = {p: PLANE[ROT[o][n][1]] for p, n in NORMAL.items()}
    if ROT[o]["Z"][0] == "-":
        m["2"], m["3"] = "3", "2"
    else:
        m["2"], m["3"] = "2", "3"
    return m


def spec(ex, o):
    """the token after the rotation, as a function of the token before it"""
    def f(e):
        if not isinstance(e, Var):
            return e
        d = e.alts[0].f
        ws, cs = words_of(o), codes_of(o)
        w = d["word"]
        n = Rec(e.alts[0].t, dict(d))
        axis = OR([w == sv(x) for x in ws])
        nw = w
        for x, (y, _) in ws.items():
            nw = IF(w == sv(x), sv(y), nw)
        flip = OR([w == sv(x) for x, (_, fl) in ws.items() if fl] or [F_])
        sg, v = d["sign"], d["value"]
        minus = AND(sg.has, sg.v == iv(ord("-")))
        n.f["word"] = nw
        n.f["sign"] = Opt(IF(flip, NOT(minus), sg.has), IF(flip, iv(ord("-")), sg.v), sg.t)
        nz = lambda t: lib.find_first_not_of(ex, t, "0")
        z = nz(v.v)
        two = AND(d["value2"].has, nz(d["value2"].v) != lib.NPOS)
        code = AND(w == sv("G"), v.has, NOT(d["macro"].has), NOT(two), z != lib.NPOS)
        num = z3.SubString(v.v, z, z3.Length(v.v) - z)      # without leading zeroes
        nv = v.v
        for a, b in cs.items():
            if a != b:
                nv = IF(AND(code, num == sv(a)), z3.Concat(z3.SubString(v.v, 0, z), sv(b)), nv)
        n.f["value"] = Opt(v.has, nv, v.t)
        return Var(e.tag, [leafmap(lambda p, q: IF(e.tag == 0, p, q), n, e.alts[0])] + list(e.alts[1:]), e.ts)
    return f


def block(o):
    def go(run):
        c = run.ctx("rotate " + o, FILES)
        ex = c.ex
        ex.opts["weak_strings"] = True
        blk = c.block()
        sp = spec(ex, o)
        ex.elem_specs.append(lambda k: sp(c.elem(blk, k)))
        b = c.loc(blk)
        k = z3.Int("any_k")
        ex.index_instances.append(k)
        opt = c.enum("AxesRotatingOption", "%srotate%sdegrees" % (o[0], o[1:]))
        st, r, th = c.call("AxesRotator::operator()", Rec(c.rec("AxesRotator"), {}), [opt, b])
        c.only(th)
        after_ = ex.rd(st, b)
        c.ensure("no token is added or removed", st, after_.n == blk.n)
        s2 = st.copy(); s2.assume(AND(k >= 0, k < blk.n))
        c.ensure("every token is the rotated token", s2, lib.veq(c.elem(after_, k), sp(c.elem(blk, k))))
        c.cover("returns", st)
    return go


def laws(run):
    """two quarter turns are a half turn; a quarter turn and its inverse restore the token.  Over the token function
    the blocks above are proved to compute, for every token; arc directions: turns about Z (see the known finding)"""
    c = run.ctx("laws", FILES)
    ex = c.ex
    ex.opts["weak_strings"] = True
    e = c.elem(c.block(), z3.IntVal(0))
    arc = lambda d: OR([d == sv("2"), d == sv("3")])
    for a in "XYZ":
        q, h, i = spec(ex, a + "90"), spec(ex, a + "180"), spec(ex, a + "270")

        def lemma(name, x, y, drop=False):
            d = dec(e)
            st = c.st.copy()
            st.assume(IMP(d["sign"].has, OR(d["sign"].v == iv(ord("-")), d["sign"].v == iv(ord("+")))))
            z = lib.find_first_not_of(ex, d["value"].v, "0")
            num = z3.SubString(d["value"].v, z, z3.Length(d["value"].v) - z)
            st.assume(z3.Implies(z != lib.NPOS, z3.Length(num) == z3.Length(d["value"].v) - z))
            if a != "Z":
                st.assume(NOT(AND(is_dec(e), d["word"] == sv("G"), arc(num))))
            # number of leading zeroes of zeroes+code is unchanged (code starts with a non-zero digit)
            for cd in ("17", "18", "19", "2", "3"):
                t = z3.Concat(z3.SubString(d["value"].v, 0, z), sv(cd))
                st.assume(IMP(AND(z != lib.NPOS, num != sv("")), lib.find_first_not_of(ex, t, "0") == z))
            dx, dy = x.alts[0].f, y.alts[0].f
            for k in dx:
                if k == "sign" and drop:
                    same_ = OR(lib.veq(dx[k], dy[k]), AND(NOT(dx[k].has), dy[k].has, dy[k].v == iv(ord("+"))))
                else:
                    same_ = lib.veq(dx[k], dy[k])
                c.ensure("%s: %s" % (name, k), st, IMP(x.tag == 0, same_), "lemma")
            c.ensure("%s: other tokens" % name, st, AND(x.tag == y.tag, *[IMP(x.tag == j, lib.veq(x.alts[j], y.alts[j])) for j in (1, 2)]), "lemma")
            c.cover(name, st, [is_dec(e), d["word"] == sv("G"), num == sv("17")])
        lemma("%s90 twice is %s180" % (a, a), q(q(e)), h(e))
        plus = q(i(e)), i(q(e))
        lemma("%s270 then %s90 restores the token" % (a, a), plus[0], e, True)
        lemma("%s90 then %s270 restores the token" % (a, a), plus[1], e, True)
        lemma("%s180 twice restores the token" % a, h(h(e)), e, True)


from . import edits

PARTS = [(o, block(o)) for o in OPTS] + [("laws", laws), ("rotate a line", edits.rotate)]
ASSUME = ASSUME + edits.ASSUME
RULE = "every token of a block = the token rotated by the rigid rotation; group laws on the real code's output"
IDX = {o: k for k, o in enumerate(a + n for n in ("90", "180", "270") for a in "XYZ")}


def pytok(o, e):
    from harness.hx import D
    if not isinstance(e, D):
        return e
    ws, cs = words_of(o), codes_of(o)
    if e.word in ws:
        w, fl = ws[e.word]
        return e.copy(word=w, sign=(None if e.sign == "-" else "-") if fl else e.sign)
    if e.word == "G" and e.value is not None and e.macro is None and not (e.value2 or "").strip("0"):
        n = e.value.lstrip("0")
        if n in cs:
            return e.copy(value=e.value[:len(e.value) - len(n)] + cs[n])
    return e


def harness(h):
    from harness import build, sess
    from harness.hx import D, St, Ch, enc_block, hx, Tok
    exe = build.tok(); rng = h.rng
    tu = F.load("parser/GeneralParserDefines.cpp", "parser::", "parser")
    vals = [v for q, v in tu.enums.items() if q.split("::")[-1] == "AxesRotatingOption"][0]
    num = {o: vals["%srotate%sdegrees" % (o[0], o[1:])] for o in OPTS}

    def tok():
        r = rng.random()
        if r < 0.05:
            return St("(", "X1 Y2 G17)")
        if r < 0.08:
            return St("%", "")
        if r < 0.1:
            return Ch("op", rng.choice("+-"))
        w = rng.choice(["X", "Y", "Z", "I", "J", "K", "G", "G", "G", "M", "F", "U", "A", "R", "#", "O", "N", "/", "XY"])
        v = rng.choice(["17", "18", "19", "2", "3", "02", "03", "017", "0018", "1", "0", "00", "170", "117", "23", "5"]) if w in "GM" else rng.choice(["0", "1", "10", "055", "123"])
        d = D(w, value=None if rng.random() < 0.05 else v, sign=rng.choice([None, None, "-", "+"]), dot=rng.choice([None, "."]))
        if d.dot and rng.random() < 0.8:
            d.value2 = rng.choice(["0", "5", "055", "00", "1", "4"])
        if rng.random() < 0.12:
            d.macro = "#"
        if rng.random() < 0.08:
            d.open = rng.choice(["[", "SIN["]); d.close = rng.choice([None, "]"])
        if rng.random() < 0.05:
            d.assign = "="
        return d
    blk = lambda: [tok() for _ in range(rng.choice([0, 1, 2, 3, 5, 8]))]
    cases = []

    def case(o, b):
        exp = "%s" % enc_block([pytok(o, e) for e in b])
        cases.append(("axes %d %s" % (num[o], enc_block(b)), lambda out, exp=exp: None if out.split()[-len(exp.split()):] == exp.split() else {"expected": exp, "got": out}, "%s of %r" % (o, b), True))
    for o in OPTS:
        for w in "XYZIJKGMFU":
            for sg in (None, "-", "+"):
                for v in (["2", "3", "17", "18", "19", "02", "018", "1"] if w == "G" else ["10"]):
                    case(o, [D(w, value=v, sign=sg)])
        for _ in range(h.n(250)):
            case(o, blk())
    h.run(exe, cases, "component calls")
    # through the parser: whole lines
    exe2 = build.parser()
    cfg = sess.Cfg("fanuc_mill")
    cases = []
    for i in range(h.n(400)):
        o = rng.choice(OPTS)
        ws = []
        for w in rng.sample(["N10", "G1", "G02", "G3", "G17", "G18", "G19", "G54.1", "X", "Y", "Z", "I", "J", "K", "F100", "M3", "R5", "(X1)"], rng.randint(1, 7)):
            if w in "XYZIJK":
                w += rng.choice(["", "-", "+"]) + rng.choice(["1", "10.5", ".25", "7.", "#101"])
            ws.append(w)
        ws.sort(key=lambda w: w.startswith("("))
        ln = " ".join(ws)

        def chk(out, o=o):
            c = sess.chunks(out)
            raw, rot = sess.res(c[0]), sess.res(c[1])
            if raw[0] != rot[0]:
                return {"parsed": raw[:2], "rotated": rot[:2]}
            if raw[0] is True:
                exp = [pytok(o, e) for e in raw[2]]
                if exp != rot[2]:
                    return {"expected": repr(exp), "got": repr(rot[2])}
            return None
        cases.append((sess.sess(cfg, [sess.parsef(sess.flags(0, 0), 1, ln), "rot 1 %s %d" % (hx(ln), num[o])], plain=1), chk, "%s of line %r" % (o, ln)))
    h.run(exe2, [(cfg.line(), lambda o: None, "configuration", False)] + cases, "lines through the parser")
    # known finding: arcs outside the XY plane (their direction follows from the plane in force, which the code does not track)
    for o, pl, g in (("X90", "18", "2"), ("X90", "18", "3"), ("Y90", "19", "2"), ("X270", "18", "2"), ("Y270", "19", "3")):
        b = [D("G", value=pl), D("G", value=g), D("R", value="5")]
        sw = ROT[o][NORMAL[pl]][0] == "-"
        good = enc_block([D("G", value=PLANE[ROT[o][NORMAL[pl]][1]]), D("G", value=str(5 - int(g)) if sw else g), D("R", value="5")])
        from harness.hx import run_lines
        out = run_lines(exe, ["axes %d %s" % (num[o], enc_block(b))])[0]
        h.ok(("kf", o, pl, g))
        if out.split()[-len(good.split()):] != good.split():
            h.fail("%s of %r" % (o, b), {"rigid rotation gives": good, "got": out}, "arc direction outside G17", finding="C01-plane-arcs")
    h.bounds.append("blocks of at most 8 tokens; lines of at most 7 words")

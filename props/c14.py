"""C14 – path geometry."""
from .common import *

PC = P + "PathCalculator.cpp"
FILES = [PC]
ASSUME = ["double arithmetic is real arithmetic; M_PI stands for pi",
          "sqrt is the non-negative square root; atan and asin map [0,oo) and [0,1] into [0,pi/2]",
          "the central angle of a chord 2h of a circle of radius R is 2*asin(h/R) = 2*atan(h/sqrt(R*R-h*h)) (0 <= h < R)"]
PI = z3.RealVal("3.141592653589793")
RV = z3.RealVal


def tab(x):
    return IF(x >= 0, x, -x)


def ctx(run, title):
    c = run.ctx(title, [PC])
    c.ex.opts["case_split"] = True
    return c, c.ex


def reals(*names):
    return [z3.Real(n) for n in names]


def overload(c, name, n, types=None, ints=0):
    fs = [f for f in c.tu.find_fn(name) if len(c.tu.params(f)) == n]
    if types:
        fs = [f for f in fs if types in " ".join(p["type"]["qualType"] for p in c.tu.params(f))]
    else:
        fs = [f for f in fs if all(p["type"]["qualType"].replace("const ", "") in ("double", "int") for p in c.tu.params(f)) and sum("int" in p["type"]["qualType"] for p in c.tu.params(f)) == ints]
    if len(fs) != 1:
        raise F.ExtractError("%s of %d parameters: %d definitions" % (name, n, len(fs)))
    return fs[0]


def call(c, name, args, n=None, types=None):
    st, r, th = c.call(overload(c, name, n or len(args), types, sum(z3.is_int(a) for a in args)), None, [c.loc(a) if hasattr(a, "f") else a for a in args])
    c.only(th)
    return st, c.ex.rd(st, r)


# ---------- straight lines
def lines(run):
    c, ex = ctx(run, "straight motion")
    a, b, d, e, f, g = reals("xp", "yp", "zp", "x", "y", "z")
    for nm in ("G0", "G1"):
        st, r = call(c, nm, [e, f, g])
        sq = e * e + f * f + g * g
        c.ensure(nm + " incremental: the square of the length is the sum of the squares", st, AND(r >= 0, r * r == sq))
        st, r = call(c, nm, [a, b, d, e, f, g])
        sq = (e - a) * (e - a) + (f - b) * (f - b) + (g - d) * (g - d)
        c.ensure(nm + " absolute: the square of the length is the sum of the squares", st, AND(r >= 0, r * r == sq))
        c.cover(nm, st)


# ---------- arcs
def sqrt_(ex, x):
    return lib.m_sqrt(ex, x)


def chord_angle(ex, ab, R):
    """central angle of the chord ab in a circle of radius R; with the identity that makes both ways to compute it equal"""
    h = ab / 2
    s = lib.uf_real(ex, "asin", h / R)
    H = lib.m_sqrt(ex, tab(R * R - h * h))
    t = lib.uf_real(ex, "atan", h / H)
    ang = z3.Function("chord_angle", R_, R_, R_)(ab, R)
    ex.axioms.append(IMP(AND(R > 0, h >= 0), ang == 2 * t))
    ex.axioms.append(IMP(AND(R > 0, h >= 0, h <= R), ang == 2 * s))
    ex.axioms.append(lib.uf_real(ex, "asin", RV(1)) == PI / 2)
    ex.axioms.append(IMP(AND(R > 0, h >= 0), AND(ang >= 0, ang <= PI)))
    return ang


R_ = z3.RealSort()
PLANES = ("G17", "G18", "G19")


def arc_ij_abs(run):
    for d in (2, 3):
        c, ex = ctx(run, "arc by centre, absolute, direction %d" % d)
        a, b, x, y, i, j = reals("x0", "y0", "x", "y", "i", "j")
        R = lib.m_sqrt(ex, i * i + j * j)
        c.assume(R > RV("1/1000"))
        ab = lib.m_sqrt(ex, (a - x) * (a - x) + (b - y) * (b - y))
        st, r = call(c, "PathCalculator::G17", [a, b, x, y, i, j, iv(d)])
        px, py, cx, cy = -i, -j, x - (a + i), y - (b + j)
        cross = px * cy - py * cx
        samequad = AND(px * cx > 0, py * cy > 0)
        ang = chord_angle(ex, ab, R)
        full = AND(tab(a - x) < RV("1/100000000"), tab(b - y) < RV("1/100000000"))
        chord_goals(c, ex, st, r, R, ab, ang, full, cross if d == 3 else -cross, NOT(samequad), AND(cx * cx + cy * cy == R * R))


def chord_goals(c, ex, st, r, R, ab, ang, full, side, pre=T, oncircle=None):
    """side > 0: up to half a circle, side < 0: over half a circle, side = 0: half a circle"""
    short, long_ = (side > 0, side < 0) if oncircle is not None else (NOT(side), side)
    if oncircle is not None:
        # lemma "opposite": on the circle and on one line through the centre
        ex.axioms.append(IMP(AND(oncircle, side == 0), OR(ab == 0, ab == 2 * R)))
        c.ensure("half a circle", st, IMP(AND(pre, oncircle, NOT(full), side == 0), r == PI * R))
    c.ensure("full circle when the end is the start", st, IMP(AND(pre, full), r == 2 * PI * R))
    c.ensure("up to half a circle: radius times the central angle", st, IMP(AND(pre, NOT(full), short), r == R * ang))
    c.ensure("over half a circle: radius times the rest of the full angle", st, IMP(AND(pre, NOT(full), long_), r == R * (2 * PI - ang)))
    c.ensure("never negative", st, r >= 0)
    c.cover("arc", st)


TINY = RV("1/1000")


def opposite(run):
    """two points of a circle about the origin on one line through it are equal or a diameter apart"""
    p, q, u, w, R, ab = reals("p", "q", "u", "w", "R", "ab")
    c, ex = ctx(run, "points of a circle on one line through the centre")
    c.ensure("Lagrange's identity", c.st, (p * u + q * w) * (p * u + q * w) == (p * p + q * q) * (u * u + w * w) - (p * w - q * u) * (p * w - q * u))
    dot, S = reals("dot", "S")
    c2, ex = ctx(run, "their product")
    c2.assume(S > 0); c2.assume(dot * dot == S * S)
    c2.ensure("is plus or minus the square of the radius", c2.st, OR(dot == S, dot == -S))
    c3, ex = ctx(run, "their distance")
    pp, uu, d2 = reals("pp", "uu", "d2")
    c3.ensure("expands", c3.st, (u - p) * (u - p) + (w - q) * (w - q) == (p * p + q * q) + (u * u + w * w) - 2 * (p * u + q * w))
    c4, ex = ctx(run, "their distance from its square")
    c4.assume(R > 0); c4.assume(ab >= 0); c4.assume(OR(ab * ab == 0, ab * ab == 4 * R * R))
    c4.ensure("is zero or the diameter", c4.st, OR(ab == 0, ab == 2 * R))


def arc_ij_inc(run):
    for d in (2, 3):
        c, ex = ctx(run, "arc by centre, incremental, direction %d" % d)
        x, y, i, j = reals("x", "y", "i", "j")
        R = lib.m_sqrt(ex, i * i + j * j)
        c.assume(R > TINY)
        ab = lib.m_sqrt(ex, x * x + y * y)
        st, r = call(c, "PathCalculator::G17", [x, y, i, j, iv(d)])
        cross = -i * (y - j) + j * (x - i)
        ang = chord_angle(ex, ab, R)
        # an end off the circle: the chord is at most the diameter
        pre = ab / 2 <= R
        nz = AND(ang > 0)
        full = AND(x == 0, y == 0)
        chord_goals(c, ex, st, r, R, ab, ang, full, cross if d == 3 else -cross, pre, (x - i) * (x - i) + (y - j) * (y - j) == R * R)


def arc_r(run):
    for inc in (False, True):
        c, ex = ctx(run, "arc by radius, %s" % ("incremental" if inc else "absolute"))
        a, b, x, y, rr = reals("x0", "y0", "x", "y", "r")
        R = tab(rr)
        c.assume(R > TINY)
        dx, dy = (x, y) if inc else (a - x, b - y)
        ab = lib.m_sqrt(ex, dx * dx + dy * dy)
        st, r = call(c, "PathCalculator::G17", [x, y, rr] if inc else [a, b, x, y, rr])
        ang = chord_angle(ex, ab, R)
        full = AND(x == 0, y == 0) if inc else AND(tab(dx) < RV("1/100000000"), tab(dy) < RV("1/100000000"))
        chord_goals(c, ex, st, r, R, ab, ang, full, rr < 0, ab / 2 <= R)


def ufcontract(c, ex, suffix):
    """every overload is known by its contract only: an unknown function of its arguments"""
    def h(ex, st, this, args, decl):
        vals = [ex.rd(st, a) for a in args]
        key = "%s/%s" % (decl["_qn"].split("::")[-1], decl["type"]["qualType"])
        return z3.Function(key, *([v.sort() for v in map(toz, vals)] + [R_]))(*[toz(v) for v in vals])
    toz = lambda v: v if z3.is_expr(v) else v
    ex.contracts[suffix] = h


def apply(c, name, args, ints=False):
    f = [f for f in c.tu.find_fn(name, want_body=False) if len(c.tu.params(f)) == len(args) and ("int" in f["type"]["qualType"]) == ints]
    if not f:
        raise F.ExtractError(name)
    key = "%s/%s" % (name.split("::")[-1], f[0]["type"]["qualType"])
    return z3.Function(key, *([a.sort() for a in args] + [R_]))(*args)


def planes(run):
    """the same function of the plane's two axes in all three planes"""
    c, ex = ctx(run, "arcs in the three planes")
    for s in ("PathCalculator::G17", ):
        ufcontract(c, ex, s)
    a = reals("a1", "a2", "a3", "a4", "a5", "a6")
    for pl in ("G17", "G18", "G19"):
        for d, g in ((2, "G2"), (3, "G3")):
            for n in (6, 4):
                st, r = call(c, "PathCalculator::%s_%s" % (g, pl), a[:n])
                c.ensure("%s_%s of %d numbers is the arc of its own direction" % (g, pl, n), st, r == apply(c, "PathCalculator::G17", a[:n] + [iv(d)], True))
        for n in (5, 3):
            st, r = call(c, "PathCalculator::G2G3_" + pl, a[:n])
            c.ensure("G2G3_%s of %d numbers" % (pl, n), st, r == apply(c, "PathCalculator::G17", a[:n]))


# ---------- helix and spiral
def turn(ex, rad, pitch):
    return 2 * PI * lib.m_sqrt(ex, rad * rad + pitch * pitch)


def helix(run):
    c, ex = ctx(run, "helices")
    a, b, i, j, q = reals("from", "to", "i", "j", "q")
    rad = lib.m_sqrt(ex, i * i + j * j)
    eq = lambda nm, args, want: (lambda sr: c.ensure("%s of %d numbers" % (nm, len(args)), sr[0], sr[1] == want))(call(c, "PathCalculator::" + nm, args))
    for pl in PLANES:
        n = "G2G3_Helix" + pl
        eq(n, [a, b, i, j], turn(ex, rad, a - b)); eq(n, [b, i, j], turn(ex, rad, b))
        eq(n + "R", [a, b, q], turn(ex, q, a - b)); eq(n + "R", [b, q], turn(ex, q, b))
        eq(n + "_Quarter", [a, b, i, j], turn(ex, rad, 4 * (a - b)) / 4); eq(n + "_Quarter", [b, i, j], turn(ex, rad, 4 * b) / 4)
        eq(n + "_QuarterR", [a, b, q], turn(ex, q, 4 * (a - b)) / 4); eq(n + "_QuarterR", [b, q], turn(ex, q, 4 * b) / 4)

        # Archimedean spiral of L turns ending at radius rho: rho/theta/2 * (theta*sqrt(1+theta^2) + ln(theta+sqrt(1+theta^2))), theta = 2*pi*L
        def spiral(L):
            th = L * 2 * PI
            w = lib.m_sqrt(ex, 1 + th * th)
            return rad / th / 2 * (th * w + lib.uf_real(ex, "log", th + w))
        for nm, L in (("_ArchimedesLparam", q), ("_ArchimedesQparam", rad / q)):
            st, r = call(c, "PathCalculator::" + n + nm, [i, j, q])
            c.ensure(n + nm, st, IMP(AND(q > 0, rad > 0), r == spiral(L)))
    eq("G2G3_HelixLast", [a], a / 2)
    c.cover("helix", c.st)


# ---------- drilling cycles: (cutting path, rapid path)
CYC = "PathCalculator::DrillCyclePath_"
PLAIN, TAP = ("G81", "G82", "G85", "G86", "G88", "G89"), ("G74", "G84")


def gm(c, m):
    return c.enum("EDrillGmode", m)


def pair(r):
    return r.f["t0"], r.f["t1"]


def drill(run, pl):
    c, ex = ctx(run, "drilling cycles " + pl)
    pre, z, r, q = reals("start", "depth", "reference", "q")
    G98, G99 = c.enum("EDrillGreturnMode", "G98"), c.enum("EDrillGreturnMode", "G99")
    ABS, INC = c.enum("EDepthProgrammingType", "Absolute"), c.enum("EDepthProgrammingType", "Incremental")
    A, D = pre - r, r - z
    N = tab(z)
    fl = lambda x: z3.ToReal(z3.ToInt(x))
    d = q / 5
    std = AND(pre >= r, r >= z)

    def goal(what, args, lin, rap, cond=T, or_=None):
        # or_: the geometric value where the pinned formula of the test suite leaves an approach out (known finding)
        st, v = call(c, CYC + pl, args, len(args), "EDrillGmode")
        a, b = pair(v)
        c.ensure(what + ": cutting path", st, IMP(cond, a == lin))
        c.ensure(what + ": rapid path", st, IMP(cond, b == rap if or_ is None else OR(b == rap, b == or_)))
        c.ensure(what + ": never negative", st, IMP(cond, AND(a >= 0, b >= 0)))
        c.cover(what, st, [cond])

    def peck(depth, A):
        """peck drilling: passes to q, 2q, ... from the reference point; each pass returns there and feeds again over d"""
        n = fl(depth / q)
        rest = lib.uf_real(ex, "fmod", depth, q)
        lin = lambda exact: (q * n + d * n + rest) if exact else (depth + d * n)
        total = lambda m: z3.ToReal(z3.ToInt(n * n + n)) * q + m * A + IF(rest > 0, 2 * depth, RV(0))
        return n, rest, lin, total
    for g, back in ((G98, True), (G99, False)):
        nm = "G98" if back else "G99"
        for m in PLAIN:
            # start, reference level and bottom are coordinates: approach, plunge, retract to the start (G98) or the reference level (G99)
            goal("%s %s absolute" % (m, nm), [pre, z, r, ABS, gm(c, m), g], D, A + ((pre - z) if back else D), std)
            # the depth is a distance: from the start level (G98), from the reference level (G99)
            if back:
                goal("%s %s depth as a distance" % (m, nm), [pre, z, r, INC, gm(c, m), g], N - A, A + N, AND(A >= 0, N >= A))
            else:
                goal("%s %s depth as a distance" % (m, nm), [pre, z, r, INC, gm(c, m), g], N, A + N, A >= 0)
            goal("%s %s incremental" % (m, nm), [z, r, gm(c, m), g], N, N + (2 if back else 1) * tab(r))
        for m in TAP:
            goal("%s %s absolute" % (m, nm), [pre, z, r, ABS, gm(c, m), g], 2 * D, (2 if back else 1) * A, std)
            goal("%s %s depth as a distance" % (m, nm), [pre, z, r, INC, gm(c, m), g], 2 * N, (2 if back else 1) * A, A >= 0)
            goal("%s %s incremental" % (m, nm), [z, r, gm(c, m), g], 2 * N, 2 * tab(r) if back else RV(0), T, (2 if back else 1) * tab(r))
        Q = q > 0
        goal("G76 %s absolute" % nm, [pre, z, r, q, ABS, gm(c, "G76"), g], D, A + ((pre - z) if back else D) + 2 * q, AND(std, Q))
        goal("G76 %s depth as a distance" % nm, [pre, z, r, q, INC, gm(c, "G76"), g], N, (2 if back else 1) * A + N + 2 * q, AND(A >= 0, Q))
        goal("G76 %s incremental" % nm, [z, r, q, gm(c, "G76"), g], N, (tab(r) if back else 0) + N + 2 * q, Q, (2 if back else 1) * tab(r) + N + 2 * q)
        goal("G73 %s absolute" % nm, [pre, z, r, q, ABS, gm(c, "G73"), g], D + d * fl(D / q), (2 if back else 1) * A + D, AND(std, Q))
        goal("G73 %s depth as a distance" % nm, [pre, z, r, q, INC, gm(c, "G73"), g], N + d * fl(N / q), (2 if back else 1) * A + N, AND(A >= 0, Q))
        goal("G73 %s incremental" % nm, [z, r, q, gm(c, "G73"), g], N + d * fl(N / q), (2 if back else 1) * tab(r) + N + d * fl(N / q), Q)
        goal("G87 %s absolute" % nm, [pre, z, r, q, ABS, gm(c, "G87"), g], tab(r - z), tab(2 * tab(r - pre) + 4 * q - tab(r - z)), Q)
        goal("G87 %s incremental" % nm, [z, r, q, gm(c, "G87"), g], N, 2 * tab(r) + 3 * q + lib.m_sqrt(ex, q * q + z * z), Q)
    c.cover("drilling", c.st)


def peck(run, pl):
    c, ex = ctx(run, "peck drilling " + pl)
    pre, z, r, q = reals("start", "depth", "reference", "q")
    G98, G99 = c.enum("EDrillGreturnMode", "G98"), c.enum("EDrillGreturnMode", "G99")
    ABS, INC = c.enum("EDepthProgrammingType", "Absolute"), c.enum("EDepthProgrammingType", "Incremental")
    fl = lambda x: z3.ToReal(z3.ToInt(x))
    for form, args, depth, A in (("absolute", lambda g: [pre, z, r, q, ABS, gm(c, "G83"), g], tab(r - z), tab(pre - r)),
                                 ("depth as a distance", lambda g: [pre, z, r, q, INC, gm(c, "G83"), g], tab(z), tab(pre - r)),
                                 ("incremental", lambda g: [z, r, q, gm(c, "G83"), g], tab(z), tab(r))):
        n = fl(depth / q)
        rest = lib.uf_real(ex, "fmod", depth, q)
        ex.axioms.append(IMP(q > 0, rest == depth - q * n))
        for g, m, nm in ((G98, 2, "G98"), (G99, 1, "G99")):
            a = args(g)
            st, v = call(c, CYC + pl, a, len(a), "EDrillGmode")
            lin, rap = pair(v)
            c.ensure("G83 %s %s: cutting path is the depth and a fifth of the step again for every full step" % (nm, form), st, IMP(q > 0, lin == depth + d_(q) * n))
            c.ensure("G83 %s %s: the whole path goes down and back to the reference level for every step" % (nm, form), st,
                     IMP(q > 0, lin + rap == z3.ToReal(z3.ToInt(n * n + n)) * q + m * A + IF(rest > 0, 2 * depth, RV(0))))
            c.cover("G83 %s %s" % (nm, form), st, [q > 0])


def d_(q):
    return q / 5


def holes(run):
    c, ex = ctx(run, "moves between holes")
    a, b, x, y, p, q = reals("x0", "y0", "x", "y", "p", "q")
    t = [f for f in c.tu.find_fn("PathCalculator::DrillCyclePathHole_G17")][0]
    for pl in PLANES:
        for n in (4, 2):
            f = [g for g in c.tu.find_fn("PathCalculator::DrillCyclePathHole_" + pl) if len(c.tu.params(g)) == n + 1]
            pt = ex.ty(c.tu.params(f[0])[n]).a[0]
            cd = c.loc(Rec(pt, {"t0": p, "t1": q}))
            st, r, th = c.call(f[0], None, ([a, b, x, y] if n == 4 else [x, y]) + [cd])
            c.only(th)
            u, v = pair(ex.rd(st, r))
            dx, dy = (a - x, b - y) if n == 4 else (x, y)
            dist = lib.m_sqrt(ex, dx * dx + dy * dy)
            c.ensure("%s of %d numbers: the rapid path grows by the distance of the holes" % (pl, n), st, AND(u == p, v == q + dist))


PARTS = [("lines", lines), ("arcs by centre, absolute", arc_ij_abs), ("arcs by centre, incremental", arc_ij_inc), ("arcs by radius", arc_r), ("planes", planes), ("helices", helix), ("holes", holes)] + \
        [("drilling " + p, (lambda p: lambda run: drill(run, p))(p)) for p in PLANES] + [("peck drilling " + p, (lambda p: lambda run: peck(run, p))(p)) for p in PLANES]


def lemma(run):
    """over the contracts: the same arc, programmed both ways, has the same length"""
    for d in (2, 3):
        c, ex = ctx(run, "absolute and incremental arcs agree, direction %d" % d)
        a, b, x, y, i, j = reals("x0", "y0", "x", "y", "i", "j")
        R = lib.m_sqrt(ex, i * i + j * j)
        c.assume(R > TINY)
        res = []
        for nm, n, args in (("abs", 6, [a, b, x, y, i, j]), ("inc", 4, [x - a, y - b, i, j])):
            px, py, cx, cy = -i, -j, x - (a + i), y - (b + j)
            ab = lib.m_sqrt(ex, (a - x) * (a - x) + (b - y) * (b - y))
            r = z3.Real("length_" + nm)
            ang = z3.Function("chord_angle", R_, R_, R_)(ab, R)
            cross = px * cy - py * cx
            long_ = cross < 0 if d == 3 else cross > 0
            full = AND(tab(a - x) < RV("1/100000000"), tab(b - y) < RV("1/100000000")) if n == 6 else AND(x - a == 0, y - b == 0)
            pre = NOT(AND(px * cx > 0, py * cy > 0)) if n == 6 else ab / 2 <= R
            ex.axioms += [IMP(full, r == 2 * PI * R), IMP(AND(pre, NOT(full), NOT(long_)), r == R * ang), IMP(AND(pre, NOT(full), long_), r == R * (2 * PI - ang))]
            res.append((r, pre, full))
        (ra, pa, fa), (ri, pi, fi) = res
        c.ensure("the lengths are equal", c.st, IMP(AND(pa, pi, fa == fi), ra == ri))
        c.cover("arc", c.st)


PARTS.append(("points of a circle", opposite))
PARTS.append(("absolute and incremental agree", lemma))
RULE = ("start, end, centre and radius on exact axis points, half circles, full circles and random angles, all planes and both directions, absolute and incremental; drilling with levels on both sides of zero, "
        "every cycle, return mode and depth convention, steps dividing the depth exactly or not; a case is non-trivial when the length is not zero")
BOUNDED = ["the compiled functions are compared with sampled floating-point geometry (rounding is outside the contracts)"]
NOTE = ("conventions taken from the code's documentation and tests: a depth given as a distance counts from the start level with G98 and from the reference level with G99; peck drilling feeds a fifth of the step again per pass; "
        "absolute arcs over 180 degrees whose ends lie strictly inside the same quadrant about the centre, and the incremental G74/G84 and G76 approach are known findings")


def harness(h):
    import math
    from harness import build
    from harness.hx import run_lines
    exe = build.tok(); rng = h.rng
    cases = []          # (line, description, expected list, tolerance, finding)

    def add(line, desc, exp, tol, finding=None):
        cases.append((line, desc, exp, tol, finding))
    num = lambda: rng.choice([0.0, rng.uniform(-100, 100), float(rng.randint(-50, 50)), round(rng.uniform(-10, 10), 3)])
    geo = lambda f, a: "geo %s %d %s" % (f, len(a), " ".join(repr(float(v)) for v in a))
    for _ in range(h.n(600)):
        p, q = [num() for _ in range(3)], [num() for _ in range(3)]
        f = rng.choice(["G0", "G1"])
        d = [b - a for a, b in zip(p, q)]
        L = math.hypot(math.hypot(d[0], d[1]), d[2])
        add(geo(f, p + q), "%s from %r to %r" % (f, p, q), [L], 1e-9 * (1 + L))
        add(geo(f, d), "%s by %r" % (f, d), [L], 1e-9 * (1 + L))
    for _ in range(h.n(4000)):
        pl = rng.choice(PLANES)
        R = rng.choice([0.5, 1.0, 5.0, 10.0, rng.uniform(0.01, 100)])
        ax = lambda: rng.choice([(1, 0), (0, 1), (-1, 0), (0, -1)])

        def pt():
            if rng.random() < 0.4:
                return ax()
            t = rng.uniform(0, 2 * math.pi) if rng.random() < 0.7 else rng.randint(0, 23) * math.pi / 12
            return (math.cos(t), math.sin(t))
        s, e = pt(), pt()
        k = rng.random()
        if k < 0.1:
            e = s
        elif k < 0.25:
            e = (-s[0], -s[1])
        C = (float(rng.randint(-20, 20)), float(rng.randint(-20, 20))) if rng.random() < 0.7 else (rng.uniform(-50, 50), rng.uniform(-50, 50))
        A = (C[0] + R * s[0], C[1] + R * s[1]); B = (C[0] + R * e[0], C[1] + R * e[1])
        I = (C[0] - A[0], C[1] - A[1])
        rel = (B[0] - A[0], B[1] - A[1])
        full = abs(rel[0]) < 1e-8 and abs(rel[1]) < 1e-8
        if not full and math.hypot(*rel) < 1e-3 * R:
            continue
        if full:
            B, rel, e = A, (0.0, 0.0), s
        for g in ("G2", "G3"):
            a0, a1 = math.atan2(s[1], s[0]), math.atan2(e[1], e[0])
            sweep = (a1 - a0) % (2 * math.pi) if g == "G3" else (a0 - a1) % (2 * math.pi)
            if full:
                sweep = 2 * math.pi
            tol = 1e-6 * R + 1e-9
            u, w = (-I[0], -I[1]), (B[0] - C[0], B[1] - C[1])
            eps = 1e-9
            sq = u[0] * w[0] > -eps and u[1] * w[1] > -eps and sweep > math.pi and not full
            strict = u[0] * w[0] > eps and u[1] * w[1] > eps
            onaxis = s[0] * s[1] == 0 or e[0] * e[1] == 0
            # rounding may put a point of an axis on either side of it; exact axis points with whole centres are exact
            add(geo("%s_%s" % (g, pl), list(A) + list(B) + list(I)), "%s %s from %r to %r, centre offset %r" % (pl, g, A, B, I), [R * sweep], tol, ("C14-same-quadrant-arc", [R * (2 * math.pi - sweep)]) if sq and (strict or not onaxis or C[0] % 1 or R * 2 % 1) else None)
            add(geo("%s_%s" % (g, pl), list(rel) + list(I)), "%s %s by %r, centre offset %r" % (pl, g, rel, I), [R * sweep], tol)
            r = -R if sweep > math.pi + 1e-9 else R
            if not full:
                add(geo("G2G3_" + pl, list(A) + list(B) + [r]), "%s arc from %r to %r, radius %r" % (pl, A, B, r), [R * sweep], 1e-5 * R + 1e-9)
                add(geo("G2G3_" + pl, list(rel) + [r]), "%s arc by %r, radius %r" % (pl, rel, r), [R * sweep], 1e-5 * R + 1e-9)
    for _ in range(h.n(800)):
        pl = rng.choice(PLANES); n = "G2G3_Helix" + pl
        a, b, i, j, q = num(), num(), num(), num(), rng.uniform(0.1, 20)
        rad = math.hypot(i, j)
        turn_ = lambda rad, pitch: 2 * math.pi * math.hypot(rad, pitch)
        for f, args, L in ((n, [a, b, i, j], turn_(rad, a - b)), (n, [b, i, j], turn_(rad, b)), (n + "R", [a, b, q], turn_(q, a - b)), (n + "R", [b, q], turn_(q, b)),
                           (n + "_Quarter", [a, b, i, j], turn_(rad, 4 * (a - b)) / 4), (n + "_Quarter", [b, i, j], turn_(rad, 4 * b) / 4),
                           (n + "_QuarterR", [a, b, q], turn_(q, 4 * (a - b)) / 4), (n + "_QuarterR", [b, q], turn_(q, 4 * b) / 4)):
            add(geo(f, args), "%s %r" % (f, args), [L], 1e-9 * (1 + L))
        if rad > 0.01:
            for f, L in (("_ArchimedesLparam", q), ("_ArchimedesQparam", rad / q)):
                th = 2 * math.pi * L; w = math.sqrt(1 + th * th)
                S = rad / th / 2 * (th * w + math.log(th + w))
                add(geo(n + f, [i, j, q]), "%s%s %r" % (n, f, [i, j, q]), [S], 1e-8 * (1 + S))
    modes = [73, 74, 76, 81, 82, 83, 84, 85, 86, 87, 88, 89]
    for _ in range(h.n(4000)):
        pl = rng.choice(PLANES); m = rng.choice(modes); g = rng.choice([98, 99])
        r = rng.choice([2.0, 0.0, -5.0, 5.5, rng.uniform(-20, 20)])
        A_ = rng.choice([0.0, 3.0, 10.0, rng.uniform(0, 50)]); D_ = rng.choice([0.0, 10.0, 25.0, rng.uniform(0, 60)])
        q = rng.choice([1.0, 2.5, 5.0, 4.0, rng.uniform(0.5, 20)])
        form = rng.choice(["abs", "dist", "inc"])
        pre, z = r + A_, r - D_
        back = g == 98
        sgn = rng.choice([1, -1])
        if form == "abs":
            args, N, A = [pre, z, r], pre - (pre - r) - z, pre - r
        elif form == "dist":
            args, N, A = [pre, sgn * D_, r], D_, pre - r
        else:
            args, N, A = [sgn * D_, rng.choice([1, -1]) * A_], D_, A_
        finding = None
        k = 2 if back else 1
        fl = math.floor(N / q)
        rest = math.fmod(N, q)
        if abs(N / q - round(N / q)) < 1e-6 and N / q != round(N / q):
            continue
        needq = m in (73, 76, 83, 87)
        if m in (81, 82, 85, 86, 88, 89):
            lin, rap = N, N + k * A
            if form == "dist" and back:
                if N < A:
                    continue
                lin, rap = N - A, A + N
        elif m in (74, 84):
            lin, rap = 2 * N, k * A
            if form == "inc":
                finding = ("C14-incremental-approach", [lin, 2 * A if back else 0.0])
        elif m == 76:
            lin, rap = N, k * A + N + 2 * q
            if form == "inc":
                finding = ("C14-incremental-approach", [lin, rap - A])
        elif m == 73:
            lin, rap = N + q / 5 * fl, k * A + N
            if form == "inc":
                rap += q / 5 * fl
        elif m == 83:
            lin = N + q / 5 * fl
            rap = (fl * fl + fl) * q + k * A + (2 * N if rest > 0 else 0) - lin
        else:
            if form == "inc":
                lin, rap = N, 2 * A + 3 * q + math.hypot(q, N)
            elif form == "abs":
                lin, rap = N, abs(2 * A + 4 * q - N)
            else:
                continue
        f = {"abs": 0, "dist": 0, "inc": 2}[form] + (1 if needq else 0)
        nums = (args + [q])[:4] if form != "inc" else [0.0] + args + [q]
        nums = (nums + [0.0] * 6)[:6]
        add("drill %s %d %d %d %d %s" % (pl, f, 1 if form == "dist" else 0, m, g, " ".join(repr(float(v)) for v in nums)),
            "%s G%d G%d %s levels/steps %r q %r" % (pl, m, g, {"abs": "absolute", "dist": "depth as a distance", "inc": "incremental"}[form], args, q if needq else None), [lin, rap], 1e-6 * (1 + lin + abs(rap)), finding)
    for _ in range(h.n(300)):
        pl = rng.choice(PLANES)
        a = [num() for _ in range(4)]; p, q = rng.uniform(0, 100), rng.uniform(0, 100)
        L = math.hypot(a[0] - a[2], a[1] - a[3])
        add("drill %s 4 0 81 98 %s" % (pl, " ".join(repr(v) for v in a + [p, q])), "%s hole from %r to %r" % (pl, a[:2], a[2:]), [p, q + L], 1e-9 * (1 + q + L))
        L = math.hypot(a[0], a[1])
        add("drill %s 5 0 81 98 %s" % (pl, " ".join(repr(v) for v in a[:2] + [0.0, 0.0, p, q])), "%s hole by %r" % (pl, a[:2]), [p, q + L], 1e-9 * (1 + q + L))
    outs = run_lines(exe, [c[0] for c in cases])
    for (line, desc, exp, tol, finding), o in zip(cases, outs):
        h.ok(line, any(exp))
        try:
            got = [float(t) for t in o.split()]
        except ValueError:
            got = []
        near = lambda want, k: len(got) == len(want) and all(abs(g - e) <= k * tol for g, e in zip(got, want))
        if not near(exp, 1):
            h.fail(desc, "length %s, got %s" % (exp, o.strip()[:80]), "path geometry", **({"finding": finding[0]} if finding and near(finding[1], 100) else {}))
        elif len(h.samples) < 6 and rng.random() < 0.01:
            h.samples.append({"input": desc, "output": o.strip()})
    h.bounds.append("coordinates up to a few hundred, radii 0.01..100, tolerance 1e-6 of the radius")

"""C08 – modal words are recorded in their system variables."""
from .common import *
from . import pipe

FILES = [P + "SystemMacroAssigner.cpp"]
ASSUME = ["the number text of a word is convertible (sign, digits, point, digits), so std::stod does not throw"]
# Fanuc variables of the preceding block / active block / next block information per word
TABLE = {"B": (4102, 4302, 4502), "D": (4107, 4307, 4507), "E": (4108, 4308, 4508), "F": (4109, 4309, 4509), "H": (4111, 4311, 4511),
         "M": (4113, 4313, 4513), "N": (4114, 4314, 4514), "O": (4115, 4315, 4515), "S": (4119, 4319, 4519)}


def number_text(d):
    t = z3.Concat(IF(d["sign"].has, lib.as_str(d["sign"].v), sv("")), IF(d["value"].has, d["value"].v, sv("")))
    return IF(d["dot"].has, z3.Concat(t, sv("."), IF(d["value2"].has, d["value2"].v, sv(""))), t)


def assigner(run):
    c = run.ctx("SystemMacroAssigner", FILES)
    ex = c.ex
    blk = c.block()
    line = z3.Int("line")
    m = c.fresh("macro_map", "macros")
    ml = c.loc(m)
    c.elem_pre(blk, lambda e: IMP(is_dec(e), AND(lib.stod_ok(ex, number_text(dec(e))), IMP(dec(e)["dot"].has, dec(e)["dot"].v == iv(46)))))

    def step(s, e):
        d = dec(e)
        v = lib.stod_val(ex, number_text(d))
        dom, val = s.f["dom"], s.f["val"]
        for w, ids in TABLE.items():
            hit = AND(is_dec(e), d["word"] == sv(w))
            nd, nv = s.f["dom"], s.f["val"]
            for i in ids:
                k = ex.pack_key(Rec(m.kt, {"id": iv(i), "line": line}), m.kt)
                nd, nv = z3.Store(nd, k, T), z3.Store(nv, k, v)
            dom, val = IF(hit, nd, dom), IF(hit, nv, val)
        return Rec(None, {"dom": dom, "val": val})
    g = c.ghost("vars", Rec(None, {"dom": m.dom, "val": m.e}), step, blk)
    st, r, th = c.call("SystemMacroAssigner::operator()", Rec(c.rec("SystemMacroAssigner"), {}), [ml, line, c.loc(blk)])
    end = g.at(blk.n).f
    now = ex.rd(st, ml)
    c.ensure("exactly the reserved variables are defined on this line, no other variable is touched", st, now.dom == end["dom"])
    c.ensure("they hold exactly the written number", st, now.e == end["val"])
    c.cover("returns", st)
    c.only(th)


PARTS = [("system variables", assigner), pipe.part_for("code", "system")]
ASSUME += pipe.PIPE_ASSUME


def harness(h):
    from harness import pipecheck
    pipecheck.run(h, "C08")
    from harness import build
    from harness.hx import D, St, hx, enc_block
    exe = build.tok(); rng = h.rng
    words = list(TABLE) + ["G", "X", "#", "=", "T", "L", "A", "SP", "MM"]
    cases = []
    for i in range(h.n(3000)):
        line = rng.choice([-1, 0, 1, 7, 99999])
        mac = {}
        for _ in range(rng.choice([0, 1, 4])):
            mac[(rng.choice([1, 4119, 4319, 4102, 3101, 4109]), rng.choice([line, line - 1, line + 1]))] = rng.choice([0.5, 12.0])
        blk = []
        for _ in range(rng.choice([0, 1, 2, 3, 6])):
            if rng.random() < 0.07:
                blk.append(St("(", "S100")); continue
            sg, dot = rng.choice([None, None, "-", "+"]), rng.random() < 0.5
            v = rng.choice(["0", "1", "007", "12", "9999", "123456"]); v2 = rng.choice([None, "0", "5", "25", "001"]) if dot else None
            if dot and v2 is not None and rng.random() < 0.2:
                v = None
            blk.append(D(rng.choice(words), value=v, sign=sg, dot="." if dot else None, value2=v2))
        exp = dict(mac)
        for e in blk:
            if isinstance(e, D) and e.word in TABLE:
                t = (e.sign or "") + (e.value or "") + (("." + (e.value2 or "")) if e.dot else "")
                for k in TABLE[e.word]:
                    exp[(k, line)] = float(t)

        def chk(o, exp=exp):
            got = parse_macros(o.split())
            return None if got == exp else {"expected": sorted(exp.items()), "got": sorted(got.items())}
        cases.append(("sysmacro %d %s %s" % (line, enc_macros(mac), enc_block(blk)), chk, "line %d block %r variables %r" % (line, blk, mac), exp != mac))
    h.run(exe, cases, "component calls")
    h.bounds.append("blocks of at most 6 words")


def enc_macros(m):
    return " ".join([str(len(m))] + ["%d %d %r" % (k[0], k[1], v) for k, v in m.items()])


def parse_macros(t):
    n = int(t[0])
    return {(int(t[1 + 3 * i]), int(t[2 + 3 * i])): float(t[3 + 3 * i]) for i in range(n)}

"""Whole lines through the real AllAttributesParser: every check the settings ask for is made, on the evaluated text."""
from . import build, sess as S
from .hx import Msgs, run_lines, hx


def run(h, pid):
    exe = build.parser(); ms = Msgs(build.tok()); rng = h.rng
    lines, todo = [], []
    seen = set()

    def add(drv, setup, line, ok, text=None, fl=None, prop=None, after=None, **ncs):
        """setup lines, then the line of interest: accepted?, message"""
        c = S.Cfg(drv)
        if drv not in seen:
            seen.add(drv); lines.append(c.line()); todo.append(None)
        lang = rng.randint(0, 1)
        f = fl or S.flags(macro=1, groups=0)
        ops = [S.nc(**ncs)] + [S.parsef(f, i + 1, t) for i, t in enumerate(setup)] + [S.parsef(f, len(setup) + 1, line)] + ([after[0]] if after else [])
        lines.append(S.sess(c, ops, lang=lang)); todo.append((drv, setup, line, ok, ms.mk(text[0], lang, *text[1:]) if text else None, len(setup) + 1, f, after, ncs))
    w = lambda word, v, k: (["#7=%s" % v], "%s#7" % word) if k else ([], "%s%s" % (word, v))
    if pid == "C12":
        for drv in S.DRV:
            haas = drv.startswith("haas")
            for k in (0, 1):
                pre, t = w("M", 8, k)
                add(drv, pre, "M5 " + t, not haas, ("DuplicateAddress", "M") if haas else None)
                add(drv, pre, t + " G0", True)
            c = S.Cfg(drv)
            for x in [x for x, g in c.metric.items() if g["unique"] and len(x) == 1][:3]:
                add(drv, [], "%s1 %s2" % (x, x), False, ("CodeNotUnique", x))
                add(drv, [], "%s1 %s2" % (x, x), False, ("CodeNotUnique", x), fl=S.flags(macro=0, groups=0))
    if pid == "C10":
        for drv in ("fanuc_mill", "haas_mill", "fanuc_lathe_system_b"):
            for k in (0, 1):
                for word, lim, kw in (("S", 900, dict(spindle=900)), ("F", 700, dict(work=700)), ("T", 12, dict(items=12))):
                    for v in (lim, lim + 1):
                        pre, t = w(word, v, k)
                        for on in (0, 1):
                            add(drv, pre, t + " M8", not on or v <= lim, None, fl=S.flags(groups=0, ncset=on), **kw)
        for zero in (0, 1):
            for k in (0, 1):
                for x, bad in ((90, False), (91, True), (-111, True), (-110, False), (100, True)):
                    pre, t = w("X", x, k)
                    add("fanuc_mill", pre, "G0 " + t + " Y0 Z0", not (zero and bad), None, fl=S.flags(groups=0, path=1, zero=zero), axis={"X": (-100.0, 100.0), "Y": (-500.0, 500.0), "Z": (-500.0, 500.0)}, zero=(10.0, 0.0, 0.0))
    if pid == "C11":
        for on in (0, 1):
            for k in (0, 1):
                pre, t = w("M", 3, k)
                f = S.flags(groups=0, ncset=on)
                add("fanuc_mill", pre + ["S500"], t + " G1", True, fl=f)
                add("fanuc_mill", pre + [t], "G1 X1 F100", not on, ("ValueNotSet", "S") if on else None, fl=f)
                add("fanuc_mill", ["S500"], "G1 X1 F100", not on, ("ValueNotSet", "M3/M4") if on else None, fl=f)
                add("fanuc_mill", ["S500", "G1 F100"], "G1 X5", True, fl=f)
                add("fanuc_mill", pre, t, not on, ("M3M4NotAllowedWhenOperatorTurnsRotation",) if on else None, fl=f, op_rot=1)
    if pid == "C08":
        for word, ids in (("S", (4119, 4319, 4519)), ("F", (4109, 4309, 4509)), ("N", (4114, 4314, 4514)), ("B", (4102, 4302, 4502)), ("D", (4107, 4307, 4507)), ("H", (4111, 4311, 4511))):
            for k in (0, 1) if word != "N" else (0,):
                v = rng.choice([7, 31, 500])
                pre, t = w(word, v, k)
                ln = len(pre) + 1

                def chk(cs, ids=ids, v=v, ln=ln):
                    n = int(cs[0]); got = {}
                    for q in range(n):
                        got[(int(cs[1 + 3 * q]), int(cs[2 + 3 * q]))] = float(cs[3 + 3 * q])
                    return None if all(got.get((i, ln)) == v for i in ids) else "after the line the system variables %r are %r, not %r" % (ids, [got.get((i, ln)) for i in ids], v)
                add("fanuc_mill", pre, "M8 " + t, True, after=("macros", chk))
    if pid == "C09":
        for k in (0, 1):
            pre, t = w("G", 1, k)
            for on in (0, 1):
                add("fanuc_mill", pre, "G0 " + t, not on, None, fl=S.flags(groups=on))
    out = run_lines(exe, lines)
    for ln, o, td in zip(lines, out, todo):
        if td is None:
            continue
        drv, setup, line, ok, text, ix, f, after, ncs = td
        cs = S.chunks(o)
        r = S.res(cs[ix])
        what = "%s, settings (evaluate, groups, path, limits, zero point) = %s, machine %r, lines %r" % (drv, f, ncs, setup + [line])
        if r[0] is not ok:
            h.fail(ln, "%s: the last line is %s (message %r) but must be %s" % (what, {True: "accepted", False: "rejected"}.get(r[0], r[0]), r[1], "accepted" if ok else "rejected")); return
        if text is not None and text not in r[1]:
            h.fail(ln, "%s: the message %r does not say %r" % (what, r[1], text)); return
        if after:
            p = after[1](cs[ix + 1])
            if p:
                h.fail(ln, what + ": " + p); return
        h.ok(ln)
    h.bounds.append("%d whole-line sessions over every setting that switches the check on or off" % len([x for x in todo if x]))

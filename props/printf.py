"""Contract of std::snprintf for the formats the code uses (C standard, fprintf): the text is the format with every
conversion replaced; the value returned is its length; what does not fit the buffer is cut, leaving room for the end."""
import re
from .common import *

CONV = re.compile(r"%(0?)(\d*)(?:\.(\d+))?(l|ll|h|z|j)?([sdifuc%])")


def conv(ex, zero, width, prec, kind, v):
    if kind == "s":
        return lib.as_str(v)
    if kind in "diu":
        if not (isz(v) and z3.is_int(v)):
            raise Unsupported("printf: %d of a non-integer")
        if not zero and int(width or 0) <= 1:
            return lib.to_string(ex, v)
        return ex.ufn("printf_int", B, I, I, S)(z3.BoolVal(bool(zero)), iv(int(width or 0)), v)
    if kind == "f":
        return ex.ufn("printf_fixed", I, R, S)(iv(6 if prec is None else int(prec)), lib.to_real(v))
    raise Unsupported("printf conversion " + kind)


def render(ex, fmt, vals):
    out, i = [], 0
    vals = list(vals)
    for m in CONV.finditer(fmt):
        if "%" in fmt[i:m.start()]:
            raise Unsupported("printf format " + fmt)
        if m.start() > i:
            out.append(sv(fmt[i:m.start()]))
        i = m.end()
        if m.group(5) == "%":
            out.append(sv("%"))
        elif (m.group(2) or m.group(1)) and m.group(5) in "sf":
            raise Unsupported("printf format " + fmt)
        else:
            if not vals:
                raise Unsupported("printf: argument missing")
            out.append(conv(ex, m.group(1), m.group(2), m.group(3), m.group(5), vals.pop(0)))
    if "%" in fmt[i:] or vals:
        raise Unsupported("printf format " + fmt)
    if i < len(fmt):
        out.append(sv(fmt[i:]))
    return simp(z3.Concat(*out)) if len(out) > 1 else out[0]


def install(ex):
    def snprintf(ex_, st, obj, vals, n):
        buf, size, fmt = vals[0], ex_.rd(st, vals[1]), ex_.rd(st, vals[2])
        f = lib.lit(lib.as_str(fmt))
        if f is None:
            raise Unsupported("snprintf with a computed format")
        text = render(ex_, f, [ex_.rd(st, v) for v in vals[3:]])
        if not isinstance(buf, (LVal, IteL)):
            raise Unsupported("snprintf into " + type(buf).__name__)
        ex_.oblige("the text printed fits its buffer", st, z3.Length(text) < size, "bounds")
        ex_.write(st, buf, text)
        return z3.Length(text)

    def append(ex_, st, obj, v, vals, n):
        if len(vals) == 2:
            a, k = ex_.rd(st, vals[0]), ex_.rd(st, vals[1])
            if isz(a) and a.sort() == S and isz(k) and z3.is_int(k) and isz(v) and v.sort() == S:
                ex_.oblige("append reads only the text", st, AND(k >= 0, k <= z3.Length(a)), "bounds")
                whole = z3.is_true(simp(k == z3.Length(a)))
                ex_.write(st, obj, simp(z3.Concat(v, a if whole else z3.SubString(a, iv(0), k))))
                return obj
        return NotImplemented
    ex.libs["fn:snprintf"] = snprintf
    ex.libs["method:append"] = append

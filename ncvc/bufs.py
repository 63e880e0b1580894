"""new[] buffers.

A pointer obtained from new T[n] and held by exactly one variable or member is represented by the buffer itself: a
sequence of n elements, uninitialised until written.  Writes go through the pointer's own lvalue; copying the pointer
to a second variable that is then written through is not modelled (the copy is a value: a function that fills a
buffer for its caller through a pointer copy would leave the caller's buffer unwritten here, so obligations about it
fail - it is never accepted wrongly).  Every indexed access and every memcpy is an obligation: inside the allocation."""
import z3
from .values import *
from .types import Ty

I = z3.IntSort()
CH = Ty("char")


def byte_at(ex, s, k):
    """code of the k-th character of text s, expanded over concatenations, literals and choices"""
    cache = ex.__dict__.setdefault("_bytes", {})
    key = (s.get_id(), k.get_id())
    if key in cache:
        return cache[key][0]
    kd = s.decl().kind() if z3.is_app(s) else None
    if z3.is_string_value(s):
        t = s.as_string()
        import re
        t = re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: chr(int(m.group(1), 16)), t)
        r = z3.IntVal(-1)
        for i in reversed(range(len(t))):
            r = z3.If(k == i, z3.IntVal(ord(t[i])), r)
    elif kd == z3.Z3_OP_SEQ_CONCAT:
        ch = s.children()
        r = None
        offs = [z3.IntVal(0)]
        for c in ch[:-1]:
            offs.append(z3.simplify(offs[-1] + length(c)))
        for c, o in reversed(list(zip(ch, offs))):
            b = byte_at(ex, c, z3.simplify(k - o))
            r = b if r is None else z3.If(k < z3.simplify(o + length(c)), b, r)
    elif kd == z3.Z3_OP_ITE:
        r = z3.If(s.arg(0), byte_at(ex, s.arg(1), k), byte_at(ex, s.arg(2), k))
    elif s.decl().name() == "str.from_code":
        r = s.arg(0)
    else:
        r = ex.ufn("byte_of", z3.StringSort(), I, I)(s, k)
    cache[key] = (r, s, k)
    return r


def length(s):
    """length of a text, expanded the same way"""
    kd = s.decl().kind() if z3.is_app(s) else None
    if z3.is_string_value(s):
        return z3.simplify(z3.Length(s))
    if kd == z3.Z3_OP_SEQ_CONCAT:
        return z3.simplify(z3.Sum([length(c) for c in s.children()]))
    if kd == z3.Z3_OP_ITE:
        return z3.If(s.arg(0), length(s.arg(1)), length(s.arg(2)))
    if z3.is_app(s) and s.decl().name() == "str.from_code":
        return z3.IntVal(1)
    return z3.Length(s)


def fresh_buf(ex, t, name, wrap=lambda s: s):
    """uninitialised value; pointers in it are uninitialised buffers"""
    if t.k == "ptr":
        return Seq(z3.Const(ex.fresh_name(name + ".n"), wrap(I)), fresh_buf(ex, t.a[0], name + ".e", lambda so: wrap(z3.ArraySort(I, so))), t.a[0])
    if t.k == "record":
        return Rec(t, {f: fresh_buf(ex, ft, name + "." + f, wrap) for f, ft in ex.fields(t)})
    return ex.fresh(t, name, wrap)


def new_array(ex, st, t, n, zero=False):
    nm = "new"
    if zero:
        if t.k not in ("char", "int"):
            raise Unsupported("new[]{} of records")
        return Seq(z3.simplify(n), z3.K(I, z3.IntVal(0)), t)
    return Seq(z3.simplify(n), fresh_buf(ex, t, nm, lambda so: z3.ArraySort(I, so)), t)


def slot(ex, node, st, fr):
    """the lvalue holding the pointer an expression denotes"""
    while node.get("kind") in ("ImplicitCastExpr", "ParenExpr", "CStyleCastExpr", "CXXStaticCastExpr", "CXXReinterpretCastExpr") and node.get("castKind", "NoOp") in ("LValueToRValue", "NoOp", "BitCast", "ArrayToPointerDecay"):
        node = node["inner"][-1]
    return ex.ev(node, st, fr)


def inside(ex, st, i, n, what):
    ex.oblige("%s within the allocation" % what, st, z3.And(i >= 0, i <= n), "bounds")


def memcpy(ex, args, st, fr):
    dst = slot(ex, args[0], st, fr)
    if not isinstance(dst, (LVal, IteL)):
        return NotImplemented
    buf = ex.rd(st, dst)
    if not isinstance(buf, Seq):
        raise Unsupported("memcpy into " + type(buf).__name__)
    src = ex.rd(st, ex.ev(args[1], st, fr))
    cnt = ex.rd(st, ex.ev(args[2], st, fr))
    off = z3.IntVal(0)
    if isinstance(src, Ptr) and isinstance(src.l, LVal) and src.l.path and src.l.path[-1][0] == "c":
        off = src.l.path[-1][1]
        src = ex.read(st, LVal(src.l.base, src.l.path[:-1]))
    if isinstance(src, It):
        off = src.i
        src = ex.read(st, src.c)
    if not (isz(src) and src.sort() == z3.StringSort()):
        raise Unsupported("memcpy from " + type(src).__name__)
    put(ex, st, dst, buf, z3.IntVal(0), src, off, cnt)
    return True


def put(ex, st, dst, buf, at, src, off, cnt):
    inside(ex, st, z3.simplify(at + cnt), buf.n, "copy")
    # reading one past the text is reading its terminating zero
    ex.oblige("copy reads only the text", st, z3.And(cnt >= 0, off >= 0, off + cnt <= length(src) + 1), "bounds")
    # the copied contents, characterised at the positions the contract looks at (arbitrary constants)
    e = z3.Const(ex.fresh_name("copy"), buf.e.sort())
    for k in ex.opts["buffers"]:
        b = byte_at(ex, src, z3.simplify(k - at + off))
        b = z3.If(z3.simplify(k - at + off) == length(src), z3.IntVal(0), b)
        ex.axioms.append(z3.Select(e, k) == z3.If(z3.And(k >= at, k < at + cnt), b, z3.Select(buf.e, k)))
    ex.write(st, dst, Seq(buf.n, e, buf.t))

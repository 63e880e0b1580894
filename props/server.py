"""The server's request handler (JsonMessageHandler): arbitrary documents, descriptions and requests, and the contracts of
what it calls."""
import re
from .common import *
from . import json as J

H = "nclangsrv/JsonMessageHandler.cpp"
SRC = [(H, "nclangsrv::", "nclangsrv"), (H, "parser::", "parser")]


class Server:
    """the server's request handler with arbitrary documents and descriptions"""

    def __init__(self, c):
        ex, self.c = c.ex, c
        self.ex = ex
        self.j = J.install(c)
        self.t = t = c.rec("JsonMessageHandler")
        f = {}
        for n, ft in ex.fields(t):
            if ft.k == "ptr":
                f[n] = Ptr(None)
            elif n in ("mParser", "mNcSettingsReader"):
                f[n] = Poison("not used here")
            elif n == "mFileContexts":
                f[n] = ex.fresh(ft, "documents")
            else:
                f[n] = ex.fresh(ft, n)
        self.f = f
        self.gdesc, self.mdesc = self.codes("g"), self.codes("m")
        for k, r in (("g", self.gdesc), ("m", self.mdesc)):
            ex.contracts["fetch_%sCodesDesc" % k] = lambda ex_, st, this, a, d, n="m%sCodes" % k.upper(), r=r: ex_.write(st, this + ("f", n), Ptr(r, F_))
        u = ex.ufn
        self.title, self.text = u("variable_title", S, S), u("variable_text", S, S)
        ex.contracts["MacrosDescReader::getDesc"] = self.described
        f["mMacrosDesc"] = Ptr(c.loc(Rec(c.rec("MacrosDescReader"), {})), F_)
        self.doubled = u("text_replaced", S, S, S, S)
        ex.contracts["replaceAll"] = lambda ex_, st, this, a, d: self.doubled(*[lib.as_str(ex_.rd(st, x)) for x in a])
        self.code, self.id, self.shown = u("code_of", S, S), u("variable_number", S, I), u("value_text", R, S)
        ex.contracts["extractCode"] = lambda ex_, st, this, a, d: self.code(lib.as_str(ex_.rd(st, a[0])))
        ex.contracts["extractMacroId"] = lambda ex_, st, this, a, d: self.id(lib.as_str(ex_.rd(st, a[0])))
        ex.libs["fn:to_string_trunc"] = lambda ex_, st, obj, a, n: self.shown(lib.to_real(ex_.rd(st, a[0])))
        self.word, self.wfrom, self.wto = [u("cursor_" + k, S, S, I, so) for k, so in (("word", S), ("from", I), ("to", I))]
        ex.contracts["searchPattern"] = self.searched
        ex.libs["construct:basic_regex"] = ex.libs["construct:regex"] = lambda ex_, t, rv, st: Opaque("regex", lib.as_str(rv[0]))

    def codes(self, k):
        t = self.c.rec("CodesReader")
        return self.c.loc(Rec(t, {n: Ptr(None) if ft.k == "ptr" else self.ex.fresh(ft, k + n) for n, ft in self.ex.fields(t)}))

    def described(self, ex, st, this, args, decl):
        c = lib.as_str(ex.rd(st, args[0]))
        return Rec(Ty("tuple", [Ty("string"), Ty("string")], n="pair"), {"t0": self.title(c), "t1": self.text(c)})

    def at(self, p, line, ch):
        """(found, word, from, to): contract of searchPattern (part "word at the cursor")"""
        w, a, b = [f(p, line, ch) for f in (self.word, self.wfrom, self.wto)]
        firsts, least = pattern(p)
        starts = [OR(*[z3.SubString(w, 0, 1) == sv(x) for x in firsts])] if firsts else []
        self.ex.axioms.append(IMP(w != sv(""), AND(a >= 0, a <= ch, ch < b, b <= z3.Length(line), w == z3.SubString(line, a, b - a), z3.Length(w) >= least, *starts)))
        return w != sv(""), w, a, b

    def searched(self, ex, st, this, args, decl):
        v = [ex.rd(st, a) for a in args]
        hit, w, a, b = self.at(v[0].d, lib.as_str(v[1]), v[2])
        ex.write(st, args[3], IF(hit, a, v[3]))
        ex.write(st, args[4], IF(hit, b, v[4]))
        return w

    def md(self, contents, title, text):
        return z3.Concat(sv("**"), contents, sv(": "), title, sv("** \n\n---\n\n"), self.doubled(text, sv("\n"), sv("\n\n")))

    def table(self, st, letter, key, contents):
        """the contents with the description of a code, if it has one"""
        def one(reader):
            m = self.ex.rd(st, reader).f["mData"]
            v = leafmap(lambda a: z3.Select(a, key), m.e)
            return IF(z3.Select(m.dom, key), self.md(contents, v.f["t0"], v.f["t1"]), contents)
        is_ = lambda *xs: OR(*[letter == sv(x) for x in xs])
        return IF(is_("G", "g"), one(self.gdesc), IF(is_("M", "m"), one(self.mdesc), contents))


def pattern(p):
    """what every word of a pattern has: its first characters, its least length (patterns of classes, \\d and characters)"""
    p = p.as_string() if isz(p) and z3.is_string_value(p) else ""
    parts = re.findall(r"(\[[^\]^-]+\]|\\\\?[d.]|[^\\\[\]?+*|(){}.])([?+*]?)", p)
    if not p or "".join(a + b for a, b in parts) != p:
        return "", 1
    firsts = ""
    if parts[0][1] in ("", "+"):
        e = parts[0][0]
        firsts = e[1:-1] if e[0] == "[" else "0123456789" if e.endswith("d") and len(e) > 1 else e[-1]
    return firsts, max(1, sum(1 for a, b in parts if b in ("", "+")))


def framed(j, node):
    """an answer as it is sent"""
    t = j.written(node)
    return z3.Concat(sv("Content-Length: "), lib.str_of_int(z3.Length(t)), sv("\r\n\r\n"), t)


def get(j, v, *ks):
    for k in ks:
        v = j.child(v, sv(k))
    return v


class Lines:
    """std::getline over a text: the text left after k lines, and the k-th line"""

    def __init__(self, c, text):
        ex = self.ex = c.ex
        nl = lambda r: z3.IndexOf(r, sv("\n"), 0)
        self.line = lambda r: IF(nl(r) < 0, r, z3.SubString(r, 0, nl(r)))
        self.rest = lambda r: IF(nl(r) < 0, sv(""), z3.SubString(r, nl(r) + 1, z3.Length(r) - nl(r) - 1))
        self.g = loops.Ghost(ex, "text_lines", Rec(None, {"rest": text, "n": iv(0), "k": iv(0)}), lambda s, x: Rec(None, {"rest": self.rest(s.f["rest"]), "n": s.f["n"] + IF(s.f["rest"] == sv(""), 0, 1), "k": s.f["k"] + 1}), lambda k: k, z3.Int("unbounded"))
        ex.ghosts.append(self.g)
        ex.libs["fn:getline"] = self.getline
        ex.libs["method:operator bool"] = lambda ex_, st, obj, v, vals, n: v if isz(v) and z3.is_bool(v) else NotImplemented

    def getline(self, ex, st, obj, vals, n):
        r = ex.rd(st, vals[0]).f["text"]
        ok = r != sv("")
        ex.write(st, vals[1], IF(ok, self.line(r), ex.rd(st, vals[1])))
        ex.write(st, lib.lvof(ex, st, vals[0]) + ("f", "text"), self.rest(r))
        return ok


DIGITS = "0123456789"


class Message:
    """how a message of the parser reads: "line: text" or "line:character: text" (counted from 1), anything else is text.
    atoi, find and find_first_not_of are the library's: their contracts are the axioms below"""

    def __init__(self, ex):
        self.ex = ex
        u = ex.ufn
        self.val, self.trim = u("atoi", S, I), u("trim_both", S, S)
        self.colon_, self.after_ = u("first_colon", S, I), u("first_non_digit", S, I, I)
        ex.libs["method:find_first_not_of"] = self.find_first_not_of
        ex.libs["method:find"] = self.find

    def colon(self, m):
        p, n = self.colon_(m), z3.Length(m)
        self.ex.axioms.append(OR(p == lib.NPOS, AND(p >= 0, p < n)))
        self.ex.axioms.append(IF(z3.IndexOf(m, sv(":"), 0) < 0, p == lib.NPOS, p == z3.IndexOf(m, sv(":"), 0)))
        return p

    def after(self, m, p):
        """position of the first character from p on that is no digit"""
        e, n = self.after_(m, p), z3.Length(m)
        self.ex.axioms.append(AND(n >= 0, n < 2 ** 31, OR(e == lib.NPOS, AND(e >= p, e < n))))
        return e

    def parts(self, m):
        """(line, character, text)"""
        colon = self.colon(m)
        tail = lambda k: simp(z3.SubString(m, simp(k), simp(z3.Length(m) - k)))
        p = simp(colon + 1)
        e = self.after(m, p)
        col = AND(e != p, e != lib.NPOS, simp(z3.StrToCode(z3.SubString(m, e, 1))) == 58)
        self.ex.axioms.append(IMP(e != p, self.val(tail(p)) >= 0))      # it begins with a digit
        back = lambda x: IF(x > 0, x - 1, x)
        some = colon != lib.NPOS
        return (IF(some, back(self.val(m)), 0), IF(AND(some, col), back(self.val(tail(p))), 0), IF(some, IF(col, self.trim(tail(e + 1)), self.trim(tail(p))), m))

    def find(self, ex, st, obj, v, vals, n):
        if not (isz(v) and z3.is_string(v)) or len(vals) != 1 or lib.lit(lib.as_str(ex.rd(st, vals[0]))) != ":":
            return NotImplemented
        return self.colon(v)

    def find_first_not_of(self, ex, st, obj, v, vals, n):
        if not (isz(v) and z3.is_string(v)) or len(vals) != 2 or lib.lit(lib.as_str(ex.rd(st, vals[0]))) != DIGITS:
            return NotImplemented
        return self.after(v, simp(ex.rd(st, vals[1])))

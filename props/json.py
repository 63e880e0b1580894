"""Contract of the JSON library (rapidjson) as the server uses it.

A JSON value is a term over free constructors (null, numbers, texts, objects, arrays): two values are equal only when they
are built the same way; an object is kept with its members in the order of their names, so that the order in which
members are added does not matter.  A request is an arbitrary value whose members are read by name; the members the
protocol requires are assumed to be there.  Adding a value to another moves it (the source is null afterwards)."""
from .common import *

NODE = "json::node"


class Json:
    def __init__(self, ex):
        self.ex = ex
        u = ex.ufn
        self.num, self.text, self.logical = u("json_number", I, I), u("json_text", S, I), u("json_bool", B, I)
        self.empty, self.member, self.item = u("json_empty", I, I), u("json_member", I, S, I, I), u("json_item", I, I, I)
        self.child, self.nth = u("json_child", I, S, I), u("json_nth", I, I, I)
        self.as_int, self.as_text, self.has = u("json_as_int", I, I), u("json_as_text", I, S), u("json_has", I, S, B)
        self.written = u("json_written", I, S)
        self.null = iv(0)
        self.out, self.pushed = [], []

    def put(self, o, key, v):
        """object o with a member more; members in the order of their names"""
        k = lib.lit(key) if not isinstance(key, str) else key
        ks = sv(k) if k is not None else key
        if k is not None and z3.is_app(o) and o.decl().name() == self.member.name():
            k2 = lib.lit(o.arg(1))
            if k2 is not None and k2 > k:
                return self.member(self.put(o.arg(0), k, v), o.arg(1), o.arg(2))
        return self.member(o, ks, v)

    def obj(self, **m):
        o = self.empty(3)
        for k, v in m.items():
            o = self.put(o, k, v)
        return o

    def field(self, o, key):
        """the value of a member of an object built here"""
        while z3.is_app(o) and o.decl().name() == self.member.name():
            if lib.lit(o.arg(1)) == key:
                return o.arg(2)
            o = o.arg(0)
        raise Unsupported("JSON value of an unknown shape: no member " + key)

    def range(self, line, a, b):
        p = lambda c: self.obj(line=self.num(line), character=self.num(c))
        return self.obj(start=p(a), end=p(b))


def install(c):
    ex = c.ex
    j = Json(ex)

    def is_node(v):
        return isz(v) and z3.is_int(v)

    def as_node(st, x, n):
        """argument of AddMember/PushBack"""
        t = ex.ty(n)
        if t.k == "ref":
            t = t.a[0]
        v = ex.rd(st, x)
        if t.k == "enum" and t.n == NODE:
            if isinstance(x, LVal):
                ex.write(st, x, j.null)
            return v
        if isz(v) and z3.is_string(v):
            return j.text(v)
        if isz(v) and z3.is_bool(v):
            return j.logical(v)
        if isz(v) and z3.is_int(v):
            return j.num(v)
        raise Unsupported("JSON value of another type")

    def new(ex_, st, t, args, avs):
        if not avs:
            return j.null
        v = ex_.rd(st, avs[0])
        at = ex_.ty(args[0])
        if at.k == "ref":
            at = at.a[0]
        if at.k == "enum" and at.n == NODE:
            if len(avs) > 1:
                return v        # deep copy
            if isinstance(avs[0], LVal):
                ex_.write(st, avs[0], j.null)
            return v
        if at.k in ("enum", "opaque"):
            return simp(IF(v == 0, j.null, j.empty(v)))
        return as_node(st, avs[0], args[0])
    ex.libs["json:new"] = new

    def add(ex_, st, obj, v, vals, n):
        if not is_node(v) or len(vals) != 3:
            return NotImplemented
        args = n["inner"][1:]
        key = lib.as_str(ex_.rd(st, vals[0]))
        x = as_node(st, vals[1], args[1])
        ex_.write(st, obj, j.put(v, key, x))
        return obj

    def push(ex_, st, obj, v, vals, n):
        if not is_node(v):
            return NotImplemented
        x = as_node(st, vals[0], n["inner"][1])
        a = j.item(v, x)
        for f in j.pushed:
            f(st, v, x, a)
        ex_.write(st, obj, a)
        return obj

    def set_string(ex_, st, obj, v, vals, n):
        if not is_node(v):
            return NotImplemented
        s = lib.as_str(ex_.rd(st, vals[0]))
        if len(vals) >= 2:
            l = ex_.rd(st, vals[1])
            if isz(l) and z3.is_int(l) and not z3.eq(simp(l), simp(z3.Length(s))):
                c.ensure("the JSON text ends where the text ends", st, IMP(z3.Length(s) < 2 ** 32, l == z3.Length(s)))
        ex_.write(st, obj, j.text(s))
        return obj

    def setter(val):
        def f(ex_, st, obj, v, vals, n):
            if not is_node(v):
                return NotImplemented
            ex_.write(st, obj, val)
            return obj
        return f

    def copy(ex_, st, obj, v, vals, n):
        if not is_node(v):
            return NotImplemented
        ex_.write(st, obj, ex_.rd(st, vals[0]))
        return obj

    def node_fn(f):
        return lambda ex_, st, obj, v, vals, n: f(v, *[ex_.rd(st, x) for x in vals]) if is_node(v) else NotImplemented

    def index(ex_, st, obj, v, idx):
        if not is_node(v):
            raise Unsupported("operator[] on " + type(v).__name__)
        return ex_.alloc(st, j.child(v, idx) if z3.is_string(idx) else j.nth(v, idx))

    def accept(ex_, st, obj, v, vals, n):
        if not is_node(v):
            return NotImplemented
        w = ex_.rd(st, vals[0])
        ex_.write(st, w.l, simp(z3.Concat(ex_.rd(st, w.l), j.written(v))))
        j.out.append((st.copy(), v))
        return T
    m = {"AddMember": add, "PushBack": push, "SetString": set_string, "SetNull": setter(j.null), "SetObject": setter(j.empty(3)), "SetArray": setter(j.empty(4)),
         "CopyFrom": copy, "Accept": accept, "GetInt": node_fn(lambda v: j.as_int(v)), "HasMember": node_fn(lambda v, k: j.has(v, lib.as_str(k))),
         "IsNull": node_fn(lambda v: v == j.null)}
    for k, f in m.items():
        ex.libs["method:" + k] = f
    ex.libs["method:GetString"] = lambda ex_, st, obj, v, vals, n: v if isz(v) and z3.is_string(v) else j.as_text(v) if is_node(v) else NotImplemented
    ex.libs["method:GetAllocator"] = lambda ex_, st, obj, v, vals, n: ex_.alloc(st, Opaque("allocator"))
    ex.libs["op:[]"] = index
    for k, x in (("kNullType", 0), ("kObjectType", 3), ("kArrayType", 4)):
        ex.libs["enum:" + k] = x
    cout = c.loc(lib.new_stream())
    ex.libs["var:cout"] = lambda ex_, st: cout
    ex.libs["method:flush"] = lambda ex_, st, obj, v, vals, n: obj
    j.cout = cout
    return j


class Regex:
    """Contract of std::regex: the leftmost match of a pattern in a text, if any"""

    def __init__(self, c):
        ex = self.ex = c.ex
        u = ex.ufn
        self.hit, self.pos, self.len, self.word = u("regex_hit", S, S, B), u("regex_pos", S, S, I), u("regex_len", S, S, I), u("regex_word", S, S, B)
        ex.libs["construct:basic_regex"] = ex.libs["construct:regex"] = lambda ex_, t, rv, st: Opaque("regex", lib.as_str(rv[0]))
        M = self.M = Ty("record", n="std::smatch")
        new = lambda e, t: Rec(M, {"hit": F_, "at": iv(0), "text": sv(""), "rest": sv("")})
        ex.libs["default:match_results"] = ex.libs["default:smatch"] = new
        ex.libs["fn:regex_search"] = self.search
        get = lambda k: lambda ex_, st, obj, v, vals, n: v.f[k] if isinstance(v, Rec) and v.t == M else NotImplemented
        for k, n in (("at", "position"), ("text", "str"), ("rest", "suffix")):
            ex.libs["method:" + n] = get(k)

    def about(self, p, t):
        """facts about the leftmost match"""
        h, a, l = self.hit(p, t), self.pos(p, t), self.len(p, t)
        w = z3.SubString(t, a, l)
        self.ex.axioms.append(IMP(h, AND(a >= 0, l >= 1, a + l <= z3.Length(t), self.word(p, w))))
        return h, a, l, w

    def search(self, ex, st, obj, vals, n):
        t = lib.as_str(ex.rd(st, vals[0]))
        p = ex.rd(st, vals[2]).d
        h, a, l, w = self.about(p, t)
        end = simp(a + l)
        ex.write(st, vals[1], Rec(self.M, {"hit": h, "at": IF(h, a, z3.Length(t)), "text": IF(h, w, sv("")), "rest": IF(h, z3.SubString(t, end, z3.Length(t) - end), sv(""))}))
        return h

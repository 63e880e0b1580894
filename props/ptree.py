"""Contract of the JSON document reader (boost::property_tree): a document is a tree of nodes; every node has a list of
(key, child) pairs in document order and, per type, a value or none.  Nothing else is known about a document."""
from .common import *

ERR = "std::runtime_error"      # every error of the library derives from std::exception


class Tree:
    def __init__(self, ex):
        self.ex = ex
        u = ex.ufn
        self.root_of, self.readable = u("doc_root", S, I), u("doc_readable", S, B)
        self.has, self.child = u("doc_has", I, S, B), u("doc_child", I, S, I)
        self.size, self.keys, self.kids = u("doc_size", I, I), u("doc_keys", I, z3.ArraySort(I, S)), u("doc_kids", I, z3.ArraySort(I, I))
        self.reads = []

    def tag(self, t):
        return "%s_%s" % (t.k, t.n if t.k != "enum" else str(t.n).split("::")[-1]) if t.k in ("enum", "int") else t.k

    def value(self, t, node):
        """value of a node read as type t"""
        so = self.ex.sort_of(t)
        if so is None:
            raise Unsupported("document value of type " + str(t.k))
        return self.ex.ufn("doc_value_" + self.tag(t), I, so)(node)

    def ok(self, t, node):
        return self.ex.ufn("doc_ok_" + self.tag(t), I, B)(node)

    def get(self, t, node, key):
        c = self.child(node, sv(key) if isinstance(key, str) else key)
        return self.value(t, c)

    def good(self, t, node, key):
        k = sv(key) if isinstance(key, str) else key
        return AND(self.has(node, k), self.ok(t, self.child(node, k)))

    def items(self, node):
        t = Ty("tuple", [Ty("string"), Ty("int", n=(64, True))], n="pair")
        n = self.size(node)
        self.ex.axioms.append(AND(n >= 0, n < 2 ** 31))
        self.ex.bounds.append(n)
        return Seq(n, Rec(t, {"t0": self.keys(node), "t1": self.kids(node)}), t)


def install(ex):
    tr = Tree(ex)

    def walk(ex_, st, v, key):
        """the node a path leads to: its steps are separated by dots"""
        l = lib.lit(key)
        if l is None:
            raise Unsupported("document path that is not a literal")
        for k in l.split("."):
            fail(ex_, st, tr.has(v, sv(k)))
            v = tr.child(v, sv(k))
        return v

    def is_node(v):
        return isz(v) and z3.is_int(v)

    def fail(ex_, st, cond):
        if not z3.is_true(simp(cond)):
            ex_.throw(st, Exc(ERR, None), NOT(cond))

    def read_json(ex_, st, obj, vals, n):
        path = lib.as_str(ex_.rd(st, vals[0]))
        fail(ex_, st, tr.readable(path))
        ex_.write(st, vals[1], tr.root_of(path))
        return None

    def get(ex_, st, obj, v, vals, n):
        if not is_node(v) or len(vals) != 1:
            return NotImplemented
        t = ex_.ty(n)
        c = walk(ex_, st, v, lib.as_str(ex_.rd(st, vals[0])))
        fail(ex_, st, tr.ok(t, c))
        return tr.value(t, c)

    def get_value(ex_, st, obj, v, vals, n):
        if not is_node(v) or vals:
            return NotImplemented
        t = ex_.ty(n)
        fail(ex_, st, tr.ok(t, v))
        return tr.value(t, v)

    def get_child(ex_, st, obj, v, vals, n):
        if not is_node(v) or len(vals) != 1:
            return NotImplemented
        return ex_.alloc(st, walk(ex_, st, v, lib.as_str(ex_.rd(st, vals[0]))))
    ex.libs["construct:string_path"] = lambda ex_, t, rv, st: lib.as_str(rv[0])
    ex.libs["fn:read_json"] = read_json
    ex.libs["method:get"], ex.libs["method:get_value"], ex.libs["method:get_child"] = get, get_value, get_child
    ex.libs["range"] = lambda ex_, st, v: tr.items(v) if is_node(v) else NotImplemented
    return tr

"""Mapping of Clang type texts to semantic types."""
import re


class Ty:
    __slots__ = ("k", "a", "n")

    def __init__(self, k, a=(), n=None):
        self.k = k; self.a = tuple(a); self.n = n

    def __repr__(self):
        return self.k + (":" + str(self.n) if self.n is not None else "") + ("<" + ",".join(map(repr, self.a)) + ">" if self.a else "")

    def key(self):
        return repr(self)

    def __eq__(self, o):
        return isinstance(o, Ty) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())


INT = {"int": (32, True), "unsigned int": (32, False), "unsigned": (32, False), "long": (64, True), "unsigned long": (64, False),
       "long long": (64, True), "unsigned long long": (64, False), "short": (16, True), "unsigned short": (16, False),
       "size_t": (64, False), "std::size_t": (64, False), "size_type": (64, False), "uint32_t": (32, False), "int32_t": (32, True), "uint64_t": (64, False),
       "int64_t": (64, True), "uint8_t": (8, False), "int8_t": (8, True), "signed char": (8, True), "unsigned char": (8, False),
       "uint16_t": (16, False), "int16_t": (16, True), "difference_type": (64, True), "ptrdiff_t": (64, True), "std::ptrdiff_t": (64, True),
       "std::streamsize": (64, True), "streamsize": (64, True), "__int128": (128, True), "std::uint32_t": (32, False), "std::int64_t": (64, True),
       "PRId64": (64, True), "__size_t": (64, False), "wchar_t": (32, True)}


def split_args(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch in "<([":
            d += 1
        elif ch in ">)]":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip()); cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


class Types:
    def __init__(self, tu):
        self.tu = tu
        self.cache = {}

    def of_node(self, n):
        t = n.get("type", {})
        s = t.get("desugaredQualType") or t.get("qualType") or ""
        if s.startswith("auto") and t.get("qualType"):
            s = t.get("desugaredQualType") or t["qualType"]
        return self.parse(s)

    def parse(self, s):
        s = s.strip()
        r = self.cache.get(s)
        if r is None:
            r = self._parse(s, 0)
            self.cache[s] = r
        return r

    def _parse(self, s, depth):
        if depth > 20:
            return Ty("opaque", n=s)
        s = s.strip()
        s = s.replace("(anonymous namespace)::", "").replace("__cxx11::", "")
        # strip trailing qualifiers
        if s.endswith("&&"):
            return Ty("ref", [self._parse(s[:-2], depth + 1)])
        if s.endswith("&"):
            return Ty("ref", [self._parse(s[:-1], depth + 1)])
        if s.endswith("const") and not s.endswith("::const"):
            return self._parse(s[:-5], depth + 1)
        if s.endswith("*"):
            return Ty("ptr", [self._parse(s[:-1], depth + 1)])
        m = re.match(r"^(.*)\[(\d*)\]$", s)
        if m:
            return Ty("arr", [self._parse(m.group(1), depth + 1)], n=int(m.group(2) or 0))
        if s.startswith("const "):
            return self._parse(s[6:], depth + 1)
        if s.startswith("volatile "):
            return self._parse(s[9:], depth + 1)
        for p in ("struct ", "class ", "enum ", "typename "):
            if s.startswith(p):
                return self._parse(s[len(p):], depth + 1)
        if s.startswith("(lambda at"):
            return Ty("lambda", n=s)
        if s in INT:
            return Ty("int", n=INT[s])
        if s == "bool":
            return Ty("bool")
        if s in ("char", "char8_t"):
            return Ty("char")
        if s in ("double", "float", "long double"):
            return Ty("real")
        if s == "void":
            return Ty("void")
        if s in ("pt::ptree", "ptree", "boost::property_tree::ptree") or re.match(r"^(boost::property_tree::)?basic_ptree<", s):
            return Ty("int", n=(64, True))      # a node of the parsed document (props/ptree.py)
        if re.match(r"^(rapidjson::)?(GenericValue|GenericDocument)<.*>$", s) or s in ("rapidjson::Value", "rapidjson::Document", "Value", "Document") and "rapidjson" in s:
            return Ty("enum", n="json::node")   # a JSON value (props/json.py)
        if re.match(r"^(rapidjson::)?GenericString(Ref|Buffer)<.*>$", s) or s == "rapidjson::StringBuffer":
            return Ty("string")
        if re.match(r"^(rapidjson::)?(Pretty)?Writer<.*>$", s):
            return Ty("ptr", [Ty("string")], n="json::writer")
        if s in ("std::nullptr_t", "nullptr_t"):
            return Ty("ptr", [Ty("void")])
        if s in ("std::string", "string", "std::basic_string<char>", "basic_string<char>"):
            return Ty("string")
        if s in ("std::string_view", "string_view", "std::basic_string_view<char>", "basic_string_view<char>", "__sv_type"):
            return Ty("string")
        if s.endswith(")") and "(" in s and "<" not in s.split("(")[0]:
            return Ty("fn", n=s)
        base, args = s, []
        m = re.match(r"^([\w:~]+)\s*<(.*)>(::[\w:]+)?$", s, re.S)
        if m and not m.group(3):
            base, args = m.group(1), split_args(m.group(2))
        elif m and m.group(3):
            inner = m.group(3)
            if inner in ("::iterator", "::const_iterator"):
                return Ty("iter", n=s)
            if s in self.tu.aliases:
                return self._parse(self.tu.aliases[s], depth + 1)
            if inner in ("::size_type",):
                return Ty("int", n=(64, False))
            if inner in ("::value_type",):
                b = self._parse(s[:-len(inner)], depth + 1)
                if b.a:
                    return b.a[0]
            return Ty("opaque", n=s)
        last = base.split("::")[-1]
        P = lambda x: self._parse(x, depth + 1)
        if args:
            if last in ("basic_string", "basic_string_view"):
                return Ty("string")
            if last in ("optional",):
                return Ty("opt", [P(args[0])])
            if last == "variant":
                if any("recursive_wrapper" in x for x in args):
                    return Ty("opaque", n="recursive_variant")
                return Ty("variant", [P(x) for x in args])
            if last in ("vector", "list", "deque", "initializer_list"):
                return Ty("seq", [P(args[0])])
            if last == "array":
                return Ty("seq", [P(args[0])])
            if last in ("map", "unordered_map", "multimap"):
                if args[1].strip().startswith("const ") and args[1].strip().endswith("*"):
                    # pointer to an immutable object: carried by value
                    v = P(args[1].strip()[:-1])
                    if v.k == "record":
                        return Ty("map", [P(args[0]), v], n=last)
                return Ty("map", [P(args[0]), P(args[1])], n=last)
            if last in ("set", "unordered_set"):
                return Ty("set", [P(args[0])], n=last)
            if last == "pair":
                return Ty("tuple", [P(x) for x in args], n="pair")
            if last == "tuple":
                return Ty("tuple", [P(x) for x in args], n="tuple")
            if last in ("unique_ptr", "shared_ptr"):
                return Ty("ptr", [P(args[0])])
            if last == "reference_wrapper":
                return Ty("ptr", [P(args[0])])
            if last in ("__normal_iterator", "_Node_iterator", "_Node_const_iterator", "_Rb_tree_iterator", "_Rb_tree_const_iterator"):
                return Ty("iter", n=s)
            if last in ("function",):
                return Ty("fn", n=s)
            if last == "recursive_wrapper":
                return P(args[0])
        # enums
        for q, v in self.tu.enums.items():
            if q == base or q.endswith("::" + base) or (base.endswith("::" + q)):
                if q.split("::")[-1] == last:
                    return Ty("enum", n=q)
        # records
        def spell(x):
            x = x.strip().replace("__cxx11::", "")
            if x in ("std::string", "string", "basic_string<char>"):
                return "std::basic_string<char>"
            if x in ("std::string_view", "string_view", "basic_string_view<char>"):
                return "std::basic_string_view<char>"
            return x
        key = base if not args else base + "<" + ", ".join(spell(x) for x in args) + ">"
        cand = [q for q in self.tu.records if q == key or q.endswith("::" + key)]
        if not cand:
            kl = key[key.index(last):] if args else last
            cand = [q for q in self.tu.records if q.endswith("::" + kl)]
        if cand:
            best = sorted(cand, key=len)[0]
            return Ty("record", n=best)
        al = self.tu.aliases.get(s) or self.tu.aliases.get(last if not args else s)
        if al and al.strip() != s:
            return self._parse(al, depth + 1)
        if last in ("iterator", "const_iterator"):
            return Ty("iter", n=s)
        if not s.startswith("std::") and not getattr(self, "asking", False):
            # declared in another extraction of the same program
            self.asking = True
            try:
                for o in getattr(self, "others", ()):
                    if o is not self and not getattr(o, "asking", False):
                        r = o._parse(s, depth + 1)
                        if r.k != "opaque":
                            return r
            finally:
                self.asking = False
        return Ty("opaque", n=s)

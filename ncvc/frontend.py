"""Clang AST front end: parses a real source file of /repo with clang and indexes the JSON AST.

Nothing is hand-copied: the AST is re-extracted from /repo's current working tree whenever any
source file differs (cache key = contents of all sources + flags)."""
import hashlib, json, os, subprocess, gzip, glob

REPO = os.environ.get("NCVC_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(VERIF, ".cache")
CLANG = "clang++"
FLAGS = ["-std=c++20", "-mavx2", "-DNDEBUG", "-Iparser", "-Iparser/fanuc", "-Inclangsrv", "-fsyntax-only", "-w"]


class ExtractError(Exception):
    pass


def headers_digest():
    h = hashlib.sha256()
    for pat in ("parser/*.h", "parser/fanuc/*.h", "parser/heidenhain/*.h", "nclangsrv/*.h"):
        for f in sorted(glob.glob(os.path.join(REPO, pat))):
            h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()


def file_digest(rel):
    return hashlib.sha256(open(os.path.join(REPO, rel), "rb").read()).hexdigest()


def dump_json(rel, filt):
    key = hashlib.sha256(("v3" + headers_digest() + file_digest(rel) + rel + filt + " ".join(FLAGS)).encode()).hexdigest()
    os.makedirs(os.path.join(CACHE, "ast"), exist_ok=True)
    path = os.path.join(CACHE, "ast", key + ".json.gz")
    if os.path.exists(path):
        try:
            return gzip.open(path, "rt").read()
        except Exception:
            pass
    cmd = [CLANG] + FLAGS + ["-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=" + filt, rel]
    r = subprocess.run(cmd, cwd=REPO, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=300)
    if r.returncode != 0 or not r.stdout:
        raise ExtractError("clang failed on %s: %s" % (rel, r.stderr[-2000:]))
    tmp = path + ".%d" % os.getpid()
    with gzip.open(tmp, "wt", compresslevel=1) as f:
        f.write(r.stdout)
    os.replace(tmp, path)
    return r.stdout


def _docs(s):
    dec = json.JSONDecoder()
    i, n = 0, len(s)
    while True:
        while i < n and s[i] in " \t\r\n":
            i += 1
        if i >= n:
            return
        o, i = dec.raw_decode(s, i)
        yield o


FUNCS = {"FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl", "CXXConversionDecl"}
RECS = {"CXXRecordDecl", "ClassTemplateSpecializationDecl", "ClassTemplatePartialSpecializationDecl"}


class TU:
    _n = 0

    def __init__(self, rel, filt="parser::", rootns="parser"):
        TU._n += 1
        self.rel = rel
        self.uid = TU._n
        self.byid = {}
        self.funcs = []          # (qualname, decl)
        self.records = {}        # qualname -> decl
        self.aliases = {}        # simple name -> type text
        self.enums = {}          # enum qualname -> {name: value}
        self.enumconst = {}      # id -> (enum qualname, name, value)
        self.canon_fn = {}       # id -> body-carrying decl
        self.lambdas = {}
        self.docs = list(_docs(dump_json(rel, filt)))
        if not self.docs:
            raise ExtractError("no declarations dumped for " + rel)
        self._line = 0
        for d in self.docs:
            self._walk(d, [rootns] if d.get("kind") != "NamespaceDecl" or d.get("name") != rootns else [], None, d.get("kind") in RECS)
        self._link()

    def _walk(self, n, ns, parent, _=False):
        if not isinstance(n, dict) or not n:
            return
        k = n.get("kind")
        n["_tu"] = self
        loc = n.get("loc") or {}
        if "line" in loc:
            self._line = loc["line"]
        elif "expansionLoc" in loc and "line" in loc["expansionLoc"]:
            self._line = loc["expansionLoc"]["line"]
        rg = (n.get("range") or {}).get("begin", {})
        if "line" in rg:
            self._line = rg["line"]
        n["_line"] = self._line
        if "id" in n:
            self.byid.setdefault(n["id"], n)
        sub = ns
        if k == "NamespaceDecl":
            sub = ns + ([n["name"]] if n.get("name") else [])
        elif k in RECS:
            nm = n.get("name", "")
            if k == "ClassTemplateSpecializationDecl":
                args = [c for c in n.get("inner", []) if c.get("kind") == "TemplateArgument"]
                nm = nm + "<" + ", ".join(a.get("type", {}).get("qualType", "?") for a in args) + ">"
            sub = ns + [nm]
            n["_qn"] = "::".join(sub)
            n["_parent"] = parent
            if n.get("completeDefinition"):
                self.records[n["_qn"]] = n
        elif k in FUNCS:
            n["_qn"] = "::".join(ns + [n.get("name", "")])
            n["_parent"] = parent
            self.funcs.append(n)
        elif k in ("TypedefDecl", "TypeAliasDecl"):
            t = n.get("type", {})
            if parent is None or parent.get("kind") == "NamespaceDecl":
                self.aliases[n.get("name")] = t.get("desugaredQualType") or t.get("qualType")
            elif parent.get("kind") in RECS:
                self.aliases.setdefault("::".join(ns + [n.get("name", "")]), t.get("desugaredQualType") or t.get("qualType"))
                self.aliases.setdefault(n.get("name", ""), t.get("desugaredQualType") or t.get("qualType"))
        elif k == "EnumDecl":
            qn = "::".join(ns + ([n["name"]] if n.get("name") else []))
            v = -1
            vals = {}
            for c in n.get("inner", []):
                if c.get("kind") == "EnumConstantDecl":
                    v += 1
                    if c.get("inner"):
                        x = self._const(c["inner"][0])
                        if x is not None:
                            v = x
                    vals[c["name"]] = v
                    self.enumconst[c["id"]] = (qn, c["name"], v)
            if vals or qn not in self.enums:
                self.enums[qn] = vals
        p = n if k in RECS or k == "NamespaceDecl" or k in FUNCS else parent
        ch = n.get("inner")
        if ch:
            for c in ch:
                self._walk(c, sub, p)
        # drop bulky source ranges
        n.pop("range", None)
        n.pop("loc", None)

    def _const(self, n):
        if n.get("kind") == "ConstantExpr" and "value" in n:
            try:
                return int(n["value"])
            except ValueError:
                return None
        if n.get("kind") == "IntegerLiteral":
            return int(n["value"])
        for c in n.get("inner", []):
            x = self._const(c)
            if x is not None:
                return x
        return None

    @staticmethod
    def body(fn):
        for c in fn.get("inner", []):
            if c.get("kind") in ("CompoundStmt", "CXXTryStmt"):
                return c
        return None

    @staticmethod
    def params(fn):
        return [c for c in fn.get("inner", []) if c.get("kind") == "ParmVarDecl"]

    def _link(self):
        groups = {}
        for f in self.funcs:
            m = f.get("mangledName")
            if m:
                groups.setdefault(m, []).append(f)
        for m, fs in groups.items():
            bod = [f for f in fs if self.body(f) is not None]
            # prefer the definition
            b = bod[0] if bod else fs[0]
            for f in fs:
                self.canon_fn[f["id"]] = b
            # qualified name of an out-of-line definition: use the in-class declaration's
            qn = max((f["_qn"] for f in fs), key=len)
            par = [f["_parent"] for f in fs if f.get("_parent") is not None and f["_parent"].get("kind") in RECS]
            for f in fs:
                f["_qn"] = qn
                if par:
                    f["_parent"] = par[0]
        for f in self.funcs:
            if f["id"] not in self.canon_fn:
                b = f
                if self.body(f) is None:
                    for g in self.funcs:
                        if g.get("previousDecl") == f["id"] and self.body(g) is not None:
                            b = g
                self.canon_fn[f["id"]] = b

    def find_fn(self, qn, nparams=None, ptypes=None, want_body=True):
        """functions whose qualified name ends with qn"""
        out = []
        seen = set()
        for f in self.funcs:
            q = f["_qn"]
            if q == qn or q.endswith("::" + qn):
                b = self.canon_fn[f["id"]]
                if b["id"] in seen:
                    continue
                if want_body and self.body(b) is None:
                    continue
                ps = self.params(b)
                if nparams is not None and len(ps) != nparams:
                    continue
                if ptypes is not None:
                    tt = [p.get("type", {}).get("qualType", "") for p in ps]
                    if not all(a in b_ for a, b_ in zip(ptypes, tt)):
                        continue
                seen.add(b["id"])
                out.append(b)
        return out

    def fn(self, qn, **kw):
        r = self.find_fn(qn, **kw)
        if len(r) != 1:
            raise ExtractError("%s: expected one definition of %s, found %d" % (self.rel, qn, len(r)))
        return r[0]


_tus = {}


def load(rel, filt="parser::", rootns="parser"):
    k = (rel, filt)
    if k not in _tus:
        _tus[k] = TU(rel, filt, rootns)
    return _tus[k]

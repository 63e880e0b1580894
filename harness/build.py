"""Builds drivers from /repo's current sources; objects cached by content in /verif/.cache/obj."""
import concurrent.futures as cf, glob, hashlib, os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("NCVC_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache", "obj")
FLAGS = ["-std=c++20", "-O0", "-DNDEBUG", "-DBOOST_ALL_DYN_LINK", "-mavx2", "-w", "-fno-var-tracking",
         "-I" + REPO + "/parser", "-I" + REPO + "/parser/fanuc", "-I" + HERE + "/drivers"]


class BuildError(Exception):
    pass


_hd = {}


def digest_headers(extra=()):
    k = tuple(extra)
    if k not in _hd:
        h = hashlib.sha256()
        for pat in ("parser/*.h", "parser/fanuc/*.h", "parser/heidenhain/*.h", "nclangsrv/*.h"):
            for f in sorted(glob.glob(os.path.join(REPO, pat))):
                h.update(os.path.relpath(f, REPO).encode()); h.update(open(f, "rb").read())
        for f in sorted(glob.glob(HERE + "/drivers/*.h")) + list(extra):
            h.update(open(f, "rb").read())
        _hd[k] = h.hexdigest()
    return _hd[k]


def compile_one(src, flags):
    key = hashlib.sha256((digest_headers() + " ".join(f for f in flags if not f.startswith("-I")) + os.path.basename(src)).encode() + open(src, "rb").read()).hexdigest()
    o = os.path.join(CACHE, key + ".o")
    if os.path.exists(o):
        return o
    os.makedirs(CACHE, exist_ok=True)
    tmp = o + ".%d.o" % os.getpid()
    r = subprocess.run(["g++"] + flags + ["-c", src, "-o", tmp], cwd=REPO, capture_output=True, text=True, errors="replace")
    if r.returncode:
        raise BuildError("g++ failed on %s\n%s" % (src, r.stderr[-3000:]))
    os.replace(tmp, o)
    return o


def parser_sources(which="all"):
    out = []
    for pat in (["parser/*.cpp", "parser/fanuc/*.cpp"] + (["parser/heidenhain/*.cpp"] if which == "all" else [])):
        out += sorted(glob.glob(os.path.join(REPO, pat)))
    return [f for f in out if os.path.basename(f) not in ("dllmain.cpp", "stdafx.cpp")]


def build(driver, sources, libs=(), flags=(), some=(), some_flags=()):
    """driver: path of the driver source (or None); returns the executable"""
    fl = FLAGS + list(flags)
    srcs = ([os.path.join(HERE, "drivers", driver)] if driver else []) + list(sources)
    # long compilations first
    big = ("AllAttributesParser.cpp", "AllAttributesParserGrammar.cpp", "ValueCalculator.cpp", "NCParser.cpp", "AllAttributesParserWrapper.cpp", "JsonMessageHandler.cpp")
    order = sorted(srcs, key=lambda s: 0 if os.path.basename(s) in big else 1)
    with cf.ThreadPoolExecutor(int(os.environ.get("NCVC_JOBS", "8"))) as p:
        res = dict(zip(order, p.map(lambda s: compile_one(s, fl + list(some_flags) if os.path.basename(s) in some else fl), order)))
    objs = [res[s] for s in srcs]
    key = hashlib.sha256("\n".join(objs + list(libs)).encode()).hexdigest()
    exe = os.path.join(CACHE, key + ".exe")
    if not os.path.exists(exe):
        tmp = exe + ".%d" % os.getpid()
        r = subprocess.run(["g++", "-o", tmp] + objs + list(libs), capture_output=True, text=True, errors="replace")
        if r.returncode:
            raise BuildError("link failed\n" + r.stderr[-3000:])
        os.replace(tmp, exe)
    return exe


def tok():
    return build("drv_tok.cpp", [s for s in parser_sources("fanuc") if os.path.basename(s) not in
                                 ("AllAttributesParser.cpp", "AllAttributesParserGrammar.cpp", "AllAttributesParserWrapper.cpp", "AllAttributesParserWrapperBase.cpp", "GrammarSelector.cpp")])


def parser():
    return build("drv_parser.cpp", [s for s in parser_sources("fanuc") if os.path.basename(s) not in ("AllAttributesParserWrapper.cpp", "AllAttributesParserWrapperBase.cpp")])


def ffi():
    """the marshalling code and the driver under AddressSanitizer"""
    return build("drv_ffi.cpp", parser_sources("fanuc"), libs=["-fsanitize=address"], some=("drv_ffi.cpp", "AllAttributesParserWrapper.cpp", "AllAttributesParserWrapperBase.cpp"), some_flags=["-fsanitize=address"])


def server():
    srv = [f for f in sorted(glob.glob(os.path.join(REPO, "nclangsrv/*.cpp"))) if os.path.basename(f) not in ("stdafx.cpp", "nclangsrv.cpp")]
    return build("drv_server.cpp", srv + [s for s in parser_sources() if os.path.basename(s) not in ("AllAttributesParserWrapper.cpp", "AllAttributesParserWrapperBase.cpp")], flags=["-I" + REPO + "/nclangsrv"])


def enums():
    return build("drv_enum.cpp", [os.path.join(REPO, f) for f in ("parser/GeneralParserDefines.cpp", "parser/fanuc/AllAttributesParserDefines.cpp", "parser/heidenhain/AllAttributesParserDefines.cpp")])


if __name__ == "__main__":
    print(tok())

"""Development helper (no check uses it): makes /verif/seeded/<id> from a spec, after confirming in a scratch copy that the
change builds, passes the stable tests, fails its demonstration, and that the demonstration passes without it.
spec module: ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (C++ text; exit code 0 = property kept), SH (optional shell demo)"""
import json, os, runpy, shutil, subprocess, sys
DEMO_SH = """#!/bin/bash
# built and run in /repo after the build; links the freshly built parser library
set -e
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d); trap 'rm -r "$tmp"' EXIT
out=$PWD/vscode-client/out
g++ -std=c++20 -O0 -w -DNDEBUG -DBOOST_ALL_DYN_LINK -mavx2 -Iparser -Iparser/fanuc "$here/demo.cpp" -o "$tmp/demo" -L"$out" -lparser %s-Wl,-rpath,"$out"
"$tmp/demo"
"""


def sh(cmd, cwd=None, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, errors="replace", **kw)


def main(spec):
    s = runpy.run_path(spec)
    d = "/verif/seeded/" + s["ID"]
    base = {}
    for f, old, new in s["EDITS"]:
        txt = open("/repo/" + f, encoding="utf-8", newline="").read()
        b = sh("git show 25a567f:%s" % f, cwd="/repo").stdout
        for l in old.splitlines():
            if l.strip() and l.strip() not in b:
                print("WARNING: not an original line:", l)
        crlf = "\r\n" in txt
        if crlf:
            old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        t = base.get(f, txt)
        if t.count(old) != 1:
            sys.exit("pattern occurs %d times in %s" % (t.count(old), f))
        base[f] = t.replace(old, new)
    assert not sh("git status --porcelain", cwd="/repo").stdout.strip(), "repo dirty"
    os.makedirs(d, exist_ok=True)
    if "DEMO" in s:
        open(d + "/demo.cpp", "w").write(s["DEMO"])
    open(d + "/demo.sh", "w").write(s.get("SH") or DEMO_SH % (s.get("LIBS", "")))
    os.chmod(d + "/demo.sh", 0o755)
    for n, t in s.get("FILES", {}).items():
        open(os.path.join(d, n), "w").write(t)
    json.dump({"property": s["PROPERTY"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    try:
        r = sh("bash /opt/vp/build.sh", cwd="/repo")
        assert r.returncode == 0
        r = sh("timeout 300 bash %s/demo.sh" % d, cwd="/repo")
        print("unchanged: demo rc", r.returncode, r.stdout[-300:], r.stderr[-600:])
        ok1 = r.returncode == 0
        for f, t in base.items():
            open("/repo/" + f, "w", encoding="utf-8", newline="").write(t)
        diff = sh("git diff", cwd="/repo").stdout
        subprocess.run("git diff > %s/patch.diff" % d, shell=True, cwd="/repo")
        r = sh("bash /opt/vp/test.sh /tmp/seed/out.json", cwd="/repo")
        o = json.load(open("/tmp/seed/out.json"))
        want = json.load(open("/opt/vp/BASELINE.json"))
        names = want.get("passed") or want.get("stable") or want
        miss = [n for n in names if n not in o["passed"]]
        print("patched: tests passed", len(o["passed"]), "failed", o["failed"][:5], "missing", miss[:5])
        r = sh("timeout 300 bash %s/demo.sh" % d, cwd="/repo")
        print("patched: demo rc", r.returncode, r.stdout[-300:], r.stderr[-300:])
        ok2 = r.returncode != 0 and not miss and len(o["passed"]) > 0
        c = sh("timeout 900 python3-vt check.py %s" % s["PROPERTY"], cwd="/verif")
        print("check rc", c.returncode, c.stdout[-700:])
        caught = c.returncode == 1 and "VIOLATION property=%s" % s["PROPERTY"] in c.stdout
        print("RESULT", s["ID"], "valid" if ok1 and ok2 else "INVALID", "caught" if caught else "MISSED")
    finally:
        sh("git checkout -- .", cwd="/repo")
    if not (ok1 and ok2):
        shutil.rmtree(d)


main(sys.argv[1])

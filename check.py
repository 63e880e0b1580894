#!/usr/bin/env python3-vt
"""check.py <property>: decides one property on /repo's current tree.

1. contracts: the property's functions are re-extracted from /repo (clang AST), obligations are generated and discharged;
2. bounded companion: the compiled code is run against an executable specification (concrete failing inputs, and the
   labelled stand-in for whatever the contracts do not reach).
Exit 0: held.  Exit 1 + VIOLATION line: broken.  Exit 2: the check itself could not run."""
import sys, os, json, time, importlib, multiprocessing as mp, signal, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.chdir(os.path.dirname(os.path.abspath(__file__)))
VERIF = os.getcwd()


class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout()


def prove_part(pid, tier, k, limit):
    """one contract part, in a process of its own"""
    sys.setrecursionlimit(20000)
    from ncvc import run as R
    mod = importlib.import_module("props." + pid.lower())
    nm, f = mod.PARTS[k]
    out = {"obls": []}
    t0 = time.time()
    r = R.Run(pid, tier, timeout=20 if tier == "quick" else 120, jobs=4 if len(mod.PARTS) > 2 else 8)
    p = {"part": nm, "status": "proved", "errors": [], "covers": []}
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(max(5, int(limit)))
    try:
        r.part(nm, f)
        r.discharge()
    except Timeout:
        r.errors.append((nm, "time limit of this part reached"))
    except Exception as e:
        r.errors.append((nm, "%s: %s" % (type(e).__name__, e)))
    finally:
        signal.alarm(0)
    fns, libs, notes, hd, asm = {}, {}, [], 0.0, []
    for c in r.ctxs:
        for k, v in c.ex.inlined.items():
            fns[k] = fns.get(k, 0) + v
        for k, v in c.ex.lib_used.items():
            libs[k] = libs.get(k, 0) + (v if isinstance(v, int) else 1)
        notes += c.ex.notes
        hd += getattr(c.ex, "hd_time", 0)
        asm += getattr(c, "assumptions", [])
        for o in c.ex.obls:
            out["obls"].append({"part": nm, "name": o.name, "kind": o.kind, "fn": o.fn, "line": o.line, "result": o.result or "unknown", "backend": o.backend,
                                "time": round(o.time, 3), "model": o.model if o.result == "failed" else None})
        for n2, res in getattr(c, "cover_res", []):
            p["covers"].append([n2, res])
    p["errors"] = [e[1] for e in r.errors]
    p["functions"] = fns; p["lib"] = libs; p["notes"] = notes[:20]; p["assumptions"] = asm
    p["invariant_time"] = round(hd, 2); p["time"] = round(time.time() - t0, 2)
    mine = out["obls"]
    if p["errors"]:
        p["status"] = "undecided"
    elif not mine:
        p["status"] = "undecided"; p["errors"].append("no obligation generated")
    elif any(c[1] == "unsat" for c in p["covers"]):
        p["status"] = "undecided"; p["errors"].append("a required path is unreachable: " + str([c[0] for c in p["covers"] if c[1] == "unsat"]))
    if any(o["result"] == "failed" for o in mine) and not p["errors"]:
        p["status"] = "failed"
    elif any(o["result"] != "discharged" for o in mine) and p["status"] == "proved":
        p["status"] = "undecided"; p["errors"].append("obligation not decided by any back end")
    out["part"] = p
    return out


def prove(pid, tier):
    """contracts of one property: every part in its own process, a few at a time"""
    out = {"parts": [], "obls": []}
    try:
        sys.setrecursionlimit(20000)
        mod = importlib.import_module("props." + pid.lower())
        from ncvc import frontend
        for f in getattr(mod, "FILES", []):
            try:
                frontend.load(f, *(("nclangsrv::", "nclangsrv") if f.startswith("nclangsrv") else ()))        # warm the extraction once
            except Exception:
                pass
    except Exception:
        return {"parts": [], "obls": [], "fatal": traceback.format_exc()}
    parts = getattr(mod, "PARTS", [])
    limit = int(os.environ.get("NCVC_PART_LIMIT", "300" if tier == "quick" else "1500"))
    total = 620 if tier == "quick" else 6000
    t_all = time.time()
    running, done, nxt = {}, {}, 0
    width = max(1, int(os.environ.get("NCVC_WIDTH", "6")))
    while len(done) < len(parts):
        while nxt < len(parts) and len(running) < width:
            lim = min(limit, total - (time.time() - t_all))
            running[nxt] = (spawn(prove_part, pid, tier, nxt, lim), time.time() + max(5, lim) + 40)
            nxt += 1
        for k in list(running):
            w, dl = running[k]
            r = w(0.05)
            if r is None and time.time() < dl:
                continue
            if r is None:
                w(-1)
            del running[k]
            if r is None or "fatal" in r:
                r = {"obls": [], "part": {"part": parts[k][0], "status": "undecided", "errors": [(r or {"fatal": "time limit of this part reached"})["fatal"][-400:]], "covers": [], "functions": {}, "lib": {}, "notes": [],
                                          "assumptions": [], "invariant_time": 0.0, "time": 0.0}}
            done[k] = r
    for k in sorted(done):
        out["obls"] += done[k]["obls"]; out["parts"].append(done[k]["part"])
    return out


def bounded(pid, tier, seed, escalate):
    try:
        from harness.hx import Harness
        from harness.build import BuildError
        mod = importlib.import_module("props." + pid.lower())
        h = Harness(pid, tier, seed, budget=240 if tier == "quick" else 3000, escalate=escalate)
        if hasattr(mod, "harness"):
            try:
                mod.harness(h)
            except BuildError as e:
                return {"build_error": str(e)}
        seen, old, fresh = {}, [], []
        for f in h.fails:          # new problems first, then a few of every listed finding
            k = f.get("finding")
            seen[k] = seen.get(k, 0) + 1
            if seen[k] <= (200 if k is None else 20):
                (fresh if k is None else old).append(f)
        return ({"evals": h.evals, "distinct": len(h.distinct), "nontrivial": h.nontrivial, "samples": h.samples[:8], "fails": (fresh + old[:200]), "bounds": h.bounds, "notes": h.notes,
               "time": round(time.time() - h.t0, 2), "known": getattr(h, "known_hits", [])})
    except Exception:
        return {"fatal": traceback.format_exc()}


def spawn(fn, *args):
    """run fn(*args) in a forked process; the returned function waits: result, or None when not ready (negative: give up)"""
    ctx = mp.get_context("fork")
    rd, wr = ctx.Pipe(False)

    def body():
        os.setpgid(0, 0)
        try:
            r = fn(*args)
        except BaseException:
            r = {"fatal": traceback.format_exc()}
        wr.send(r)
        wr.close()
    p = ctx.Process(target=body)
    p.start()
    wr.close()

    def stop():
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.join(2)

    def wait(timeout):
        if timeout < 0:
            stop(); return None
        if rd.poll(timeout):
            try:
                r = rd.recv()
            except EOFError:
                r = {"fatal": "child died"}
            p.join(2)
            stop()
            return r
        return None
    return wait


def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k.get("property") == pid and not str(k.get("status", "")).startswith("fixed")]


def main():
    pid = sys.argv[1].upper()
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    mod = importlib.import_module("props." + pid.lower())
    quick = tier == "quick"
    wp = spawn(prove, pid, tier)
    wb = spawn(bounded, pid, tier, seed, False)
    bo = wb(330 if quick else 4000)
    if bo is None:
        wb(-1); bo = {"fatal": "timeout"}
    pr = wp(690 if quick else 7000)
    if pr is None:
        wp(-1); pr = {"parts": [], "obls": [], "fatal": "timeout"}
    undecided = [p for p in pr["parts"] if p["status"] == "undecided"]
    failed = [o for o in pr["obls"] if o["result"] == "failed" and not any(p["part"] == o["part"] and p["status"] == "undecided" and p["errors"] for p in pr["parts"])]
    if "fatal" in pr:
        undecided.append({"part": "all", "errors": [pr["fatal"][-400:]]})
    esc = None
    if (failed or undecided) and not bo.get("fails") and quick and time.time() - t0 < 500 and "fatal" not in bo and "build_error" not in bo:
        esc = spawn(bounded, pid, tier, seed + 17, True)(270) or {"fatal": "timeout"}
        if esc.get("fails"):
            bo["fails"] = esc["fails"]
        for k in ("evals", "distinct", "nontrivial"):
            bo[k] = bo.get(k, 0) + esc.get(k, 0)
    # known findings
    fails = bo.get("fails", [])
    kf = known_findings(pid)
    shown, rest = [], []
    for f in fails:
        hit = next((k for k in kf if f.get("finding") == k["id"]), None)
        if hit:
            if hit["id"] not in shown:
                shown.append(hit["id"])
        else:
            rest.append(f)
    ofail = []
    for o in failed:
        hit = next((k for k in kf if o["name"] in k.get("obligations", [])), None)
        if hit:
            if hit["id"] not in shown:
                shown.append(hit["id"])
        else:
            ofail.append(o)
    for k in kf:
        if k["id"] in shown:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    nobl = len(pr["obls"]); ndis = sum(o["result"] == "discharged" for o in pr["obls"])
    fns, libs, asm = {}, {}, []
    for p in pr["parts"]:
        for k in p["functions"]:
            fns[k] = 1
        for k, v in p["lib"].items():
            libs[k] = libs.get(k, 0) + v
        asm += p.get("assumptions", [])
    backs = {}
    for o in pr["obls"]:
        if o["result"] == "discharged":
            backs[o["backend"]] = backs.get(o["backend"], 0) + 1
    level = getattr(mod, "LEVEL", "proof")
    from ncvc import contracts_doc
    cov = {"obligations": nobl, "discharged": ndis, "checker_cmd": "python3-vt check.py %s (ncvc VC generator over clang AST; z3 %s, cvc5 1.1.2)" % (pid, z3v()),
           "trusted_base": contracts_doc.TRUSTED + sorted("assumed contract: " + k for k in libs),
           "functions_symbolically_executed_under_contract": sorted(fns), "obligations_by_backend": backs,
           "solver_time_s": round(sum(o["time"] for o in pr["obls"]), 2), "invariant_inference_time_s": round(sum(p["invariant_time"] for p in pr["parts"]), 2),
           "parts": [{k: p[k] for k in ("part", "status", "errors", "covers", "time", "notes")} for p in pr["parts"]],
           "obligation_list": [{k: o[k] for k in ("part", "name", "kind", "result", "backend", "time")} for o in pr["obls"]][:400],
           "evaluations": bo.get("evals", 0), "distinct_nontrivial": bo.get("nontrivial", 0),
           "rule": "bounded companion (not counted as proof): " + getattr(mod, "RULE", "seeded random + small systematic inputs to the compiled code, compared with an independent executable specification; non-trivial = expected to report/transform"),
           "samples": bo.get("samples", []), "bounded": bo.get("bounds", []) + getattr(mod, "BOUNDED", []), "bounded_time_s": bo.get("time"),
           "exhaustive": False}
    if level != "proof":
        cov["explanation"] = getattr(mod, "EXPLAIN", "")
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": contracts_doc.ASSUMPTIONS + asm + getattr(mod, "ASSUME", []), "wall_s": round(time.time() - t0, 2), "violations": len(rest) + len(ofail)}
    os.makedirs("evidence", exist_ok=True)
    json.dump(ev, open("evidence/%s.json" % pid, "w"), indent=1)
    print("%s: %d/%d obligations discharged, parts %s; bounded companion %d evaluations, %d problems; %.1fs" % (
        pid, ndis, nobl, {p["part"]: p["status"] for p in pr["parts"]}, bo.get("evals", 0), len(fails), time.time() - t0))
    for p in undecided:
        print("UNDECIDED %s: %s" % (p["part"], "; ".join(p["errors"])[:600]))
    rd = os.path.join(VERIF, ".cache", "replay")
    os.makedirs(rd, exist_ok=True)
    if rest:
        path = os.path.join(rd, "%s-input.json" % pid)
        json.dump({"property": pid, "kind": "concrete failing inputs against the compiled code", "failing": rest[:20],
                   "failed_obligations": [{k: o[k] for k in ("part", "name", "kind", "line", "model")} for o in ofail][:20],
                   "rerun": "cd /verif && VERIF_SEED=%d python3-vt check.py %s" % (seed, pid)}, open(path, "w"), indent=1)
        for f in rest[:3]:
            print("  input: %s" % str(f["input"])[:500]); print("  problem: %s" % json.dumps(f["problem"])[:800])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        sys.exit(1)
    if ofail:
        path = os.path.join(rd, "%s-obligation.json" % pid)
        json.dump({"property": pid, "kind": "failed proof obligations", "failed_obligations": ofail[:40], "rerun": "cd /verif && python3-vt -m ncvc.run %s -m" % pid}, open(path, "w"), indent=1)
        for o in ofail[:6]:
            print("  failed obligation: %s [%s] near line %s" % (o["name"], o["kind"], o["line"]))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, path))
        sys.exit(1)
    if "build_error" in bo or "fatal" in bo:
        print("CHECK ERROR", bo.get("build_error") or bo.get("fatal"))
        sys.exit(2)
    sys.exit(0)


def z3v():
    import z3
    return z3.get_version_string()


if __name__ == "__main__":
    main()

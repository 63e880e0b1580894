"""Runs the contracts of one property and reports obligations."""
import sys, os, time, json, traceback, importlib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import z3
from ncvc import solver, frontend
from ncvc.values import Unsupported


class Run:
    def __init__(self, pid, tier="quick", jobs=8, timeout=20):
        self.pid = pid; self.ctxs = []; self.errors = []; self.tier = tier; self.jobs = jobs; self.timeout = timeout

    def ctx(self, title, files, **kw):
        from props.common import Ctx
        c = Ctx(title, files, **kw)
        c.ex.opts["dbg"] = getattr(self, "dbg", False)
        self.ctxs.append(c)
        return c

    def part(self, name, f):
        """one unit of the contract; an extraction/translation failure is recorded, never hidden"""
        t0 = time.time()
        n = len(self.ctxs)
        try:
            f(self)
        except (Unsupported, frontend.ExtractError) as e:
            self.errors.append((name, "%s: %s" % (type(e).__name__, e)))
            self.note_line(name, n)
        except (KeyError, AttributeError, z3.Z3Exception, RecursionError, TypeError, IndexError, ValueError) as e:
            self.errors.append((name, "translation error %s: %s @ %s" % (type(e).__name__, e, traceback.format_exc().strip().split("\n")[-(30 if getattr(self, "dbg", 0) else 3):])))

    def note_line(self, name, n):
        for c in self.ctxs[n:]:
            c.ex.notes.append("stopped near line %s in %s" % (c.ex.curline, c.ex.fnstack))

    def discharge(self):
        for c in self.ctxs:
            solver.discharge(c.ex, c.ex.obls, self.timeout, self.jobs)
            c.cover_res = [(nm, solver.sat_check(c.ex, fs)) for nm, fs in c.covers]


def main():
    pid = sys.argv[1]
    t0 = time.time()
    r = Run(pid); r.dbg = "-d" in sys.argv
    mod = importlib.import_module("props." + pid.lower())
    only = [a[2:] for a in sys.argv if a.startswith("-p")]
    for nm, f in mod.PARTS:
        if not only or any(o in nm for o in only):
            r.part(nm, f)
    print("built %.1fs" % (time.time() - t0))
    r.discharge()
    for c in r.ctxs:
        for o in c.ex.obls:
            if o.result != "discharged" or "-v" in sys.argv:
                print(o.result, o.kind, o.name, "line", o.line, o.fn, "%.2fs" % o.time, o.backend)
                if o.result == "failed" and o.model and "-m" in sys.argv:
                    for k, v in sorted(o.model.items()):
                        print("     ", k, "=", v)
        print(c.title, len(c.ex.obls), "obligations", sum(o.result == "discharged" for o in c.ex.obls), "discharged; covers", c.cover_res, "houdini %.1fs" % getattr(c.ex, "hd_time", 0))
        if "-h" in sys.argv:
            for h in c.ex.houdini_log:
                print("   loop@", h)
        print("   inlined", c.ex.inlined, "lib", c.ex.lib_used, "notes", c.ex.notes)
    for e in r.errors:
        print("ERROR", e)
    print("total %.1fs" % (time.time() - t0))


if __name__ == "__main__":
    main()

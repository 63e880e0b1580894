"""Sessions on the real parser (driver drv_parser) with the configuration shipped in /repo/conf."""
import json, os
from . import build
from .hx import hx, Tok, run_lines, REPO

WT = ["misc", "angle", "calc", "code", "feed", "length", "macro", "numbering", "assignable"]
PT = ["FanucLatheSystemA", "FanucLatheSystemB", "FanucLatheSystemC", "FanucMill", "FanucMillturnSystemA", "FanucMillturnSystemB", "GenericLathe", "GenericMill", "HaasLathe", "HaasMill", "MakinoMill"]
DRV = ["fanuc_lathe_system_a", "fanuc_lathe_system_b", "fanuc_lathe_system_c", "fanuc_mill", "fanuc_millturn_system_a", "fanuc_millturn_system_b", "generic_lathe", "generic_mill", "haas_lathe", "haas_mill", "makino_mill"]


def js(p):
    return json.load(open(os.path.join(REPO, "conf", p), encoding="utf-8-sig"))


def enc_words(wm):
    return " ".join([str(len(wm))] + ["%s %d %d %d %d %d %d" % (hx(k), w["range_from"], w["range_to"], w["decimal_from"], w["decimal_to"], w["unique"], WT.index(w["type"])) for k, w in wm.items()])


def groups_of(j):
    out = {}
    for g, l in j["groups"].items():
        for x in l:
            out.setdefault((x["code"], x["rest"]), set()).add(g)
    return out


def enc_groups(g):
    return " ".join([str(len(g))] + ["%d %d %d %s" % (c, r, len(s), " ".join(hx(x) for x in sorted(s))) for (c, r), s in g.items()])


class Cfg:
    def __init__(self, drv):
        g = js(drv + "/grammar.json")
        self.drv = drv; self.type = DRV.index(drv)
        self.metric, self.imperial, self.ops = g["metric"], g["imperial"], g["operations"]
        self.gc, self.mc = groups_of(js(drv + "/gcode_groups.json")), groups_of(js(drv + "/mcode_groups.json"))

    def line(self, name=None):
        return "cfg %s %s %s %d %s %s %s" % (name or self.drv, enc_words(self.metric), enc_words(self.imperial), len(self.ops), " ".join(hx(o) for o in self.ops), enc_groups(self.gc), enc_groups(self.mc))


def enc_axes(m):
    return " ".join([str(len(m))] + ["%s %r" % (hx(k), float(v)) for k, v in m.items()])


NC = dict(machine_tool=0, machine_type=0, exchange={"X": 0.0, "Y": 0.0, "Z": 500.0}, base={"X": 0.0, "Y": 0.0, "Z": 500.0, "I": 0.0, "J": 0.0, "K": 0.0},
          axis={"X": (-500.0, 500.0), "Y": (-500.0, 500.0), "Z": (0.0, 1000.0)}, work=20000.0, fast=20000.0, spindle=10000, items=30, t_exch=6, t_pallet=1, t_meas=3,
          dia=0, automeas=0, pcode="", pval="", mcode="", mval="", motion=0, plane=17, units=0, prog=90, feedmode=94, rotdir=3, drillz=0, drillret=98, rotation=1000,
          c_rapid=0, c_lin=0, c_cw=0, c_ccw=0, c_starts=0, op_rot=0, tool_exec=0, auto_rapid=0, zero=(0.0, 0.0, 0.0))


def nc(**kw):
    d = dict(NC); d.update(kw)
    ax = " ".join([str(len(d["axis"]))] + ["%s %r %r" % (hx(k), float(a), float(b)) for k, (a, b) in d["axis"].items()])
    return "nc %d %d %s %s %s %r %r %d %d %d %d %d %d %d %s %s %s %s %s %r %r %r" % (
        d["machine_tool"], d["machine_type"], enc_axes(d["exchange"]), enc_axes(d["base"]), ax, float(d["work"]), float(d["fast"]), d["spindle"], d["items"], d["t_exch"], d["t_pallet"], d["t_meas"], d["dia"], d["automeas"],
        hx(d["pcode"]), hx(d["pval"]), hx(d["mcode"]), hx(d["mval"]),
        " ".join(str(d[k]) for k in ("motion", "plane", "units", "prog", "feedmode", "rotdir", "drillz", "drillret", "rotation", "c_rapid", "c_lin", "c_cw", "c_ccw", "c_starts", "op_rot", "tool_exec", "auto_rapid")),
        float(d["zero"][0]), float(d["zero"][1]), float(d["zero"][2]))


def flags(macro=1, groups=1, path=0, ncset=0, zero=0):
    return "%d %d %d %d %d" % (macro, groups, path, ncset, zero)


def sess(cfg, ops, lang=0, fl=None, plain=0, type=None, name=None):
    return "sess %s %d %d %s %d %d %s" % (name or cfg.drv, cfg.type if type is None else type, lang, fl or flags(), plain, len(ops), " ".join(ops))


def parse(line, text):
    return "parse %d %s" % (line, hx(text))


def parsef(fl, line, text):
    return "parsef %s %d %s" % (fl, line, hx(text))


def chunks(o):
    """results of the operations of one session (token lists)"""
    return [c.split() for c in o.split("|")[1:]]


def res(c):
    """('r', ok, message, block) of a parse-like operation"""
    t = Tok(" ".join(c))
    k = t.next()
    if k == "EX":
        return ("EX", t.s())
    ok = t.n(); m = t.s()
    return (bool(ok), m, t.block() if not t.done() else None)


def conv(line, text, direction):
    return "conv %d %s %d" % (line, hx(text), direction)


def edit(op, line, text):
    """rmnum / rmcom / rmopt"""
    return "%s %d %s" % (op, line, hx(text))


def renum(line, text, word, step, freq, top, existing, lead):
    return "renum %s %d %d %d %d %d %d %s" % (hx(word), step, freq, top, existing, lead, line, hx(text))

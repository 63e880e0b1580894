"""Sessions with the language server's message handler (driver drv_server), and a line-by-line reference parse."""
import json, os, re
from . import build
from .hx import hx, uh, run_lines, REPO
from .sess import DRV

ENUM = dict(default_motion=["rapid_traverse", "linear_interpolation"], default_work_plane=["XY", "XZ", "YZ"], default_driver_units=["millimeter", "inch"], default_programming=["absolute", "incremental"],
            default_feed_mode=["feed_per_minute", "feed_per_revolution"], default_rotation_direction=["right", "left"], drill_cycle_z_value=["absolute", "incremental"], drill_cycle_return_value=["beginning", "point_r"])
FLAGS = ["rapid_traverse_cancel_cycle", "linear_interpolation_cancel_cycle", "circular_interpolation_cw_cancel_cycle", "circular_interpolation_ccw_cancel_cycle", "cycle_cancel_starts_rapid_traverse",
         "operator_turns_on_rotation", "tool_number_executes_exchange", "auto_rapid_traverse_after_tool_exchange"]


def hu(s):
    return "=" + s.encode("utf-8").hex()


def settings(driver="fanuc_mill", **kw):
    """a machine settings file"""
    d = {"machine_tool": "mill_3axis", "machine_tool_type": "mill", "driver": driver,
         "machine_points_data": {"tool_exchange_point": {"X": 0.0, "Y": 0.0, "Z": 500.0}, "machine_base_point": {"X": 0.0, "Y": 0.0, "Z": 500.0}},
         "kinematics": {"cartesian_system_axis": {a: {"range_min": -500.0, "range_max": 500.0} for a in "XYZ"}, "max_working_feed": 20000, "max_fast_feed": 20000, "maximum_spindle_speed": 10000,
                        "numer_of_items_in_the_warehouse": 30, "tool_exchange_time": 6, "pallet_exchange_time": 1, "tool_measurement_time": 3, "diameter_programming_2x": False,
                        "auto_measure_after_tool_selection": False, "pallet_exchange_code": "", "pallet_exchange_code_value": "", "tool_measurement_code": "", "tool_measurement_code_value": ""},
         "cnc_default_values": dict({k: v[0] for k, v in ENUM.items()}, default_rotation=1000, **{k: False for k in FLAGS}),
         "zero_point": {"X": 0.0, "Y": 0.0, "Z": 0.0}}
    for k, v in kw.items():
        for sub in ("kinematics", "cnc_default_values"):
            if k in d[sub]:
                d[sub][k] = v
    return d


def opened(uri, text, change=False):
    if change:
        return {"jsonrpc": "2.0", "method": "textDocument/didChange", "params": {"textDocument": {"uri": uri}, "contentChanges": [{"text": text}]}}
    return {"jsonrpc": "2.0", "method": "textDocument/didOpen", "params": {"textDocument": {"uri": uri, "text": text}}}


def closed(uri):
    return {"jsonrpc": "2.0", "method": "textDocument/didClose", "params": {"textDocument": {"uri": uri}}}


def hover(uri, line, ch, id=7):
    return {"jsonrpc": "2.0", "id": id, "method": "textDocument/hover", "params": {"textDocument": {"uri": uri}, "position": {"line": line, "character": ch}}}


def lens(uri, id=8):
    return {"jsonrpc": "2.0", "id": id, "method": "textDocument/codeLens", "params": {"textDocument": {"uri": uri}}}


def resolve(line, id=9):
    return {"jsonrpc": "2.0", "id": id, "method": "codeLens/resolve", "params": {"range": {"start": {"line": line, "character": 0}, "end": {"line": line, "character": 0}}}}


def srv(msgs, calc=1, nc="", md=""):
    return "srv %s %d %s %s %d %s" % (hu(REPO), calc, hu(nc), hu(md), len(msgs), " ".join(hu(json.dumps(m)) for m in msgs))


def replies(o):
    """the messages the server sent for each request (a decoded list), or ('EX', text)"""
    t, out, i = o.split(), [], 0
    while i < len(t):
        raw = bytes.fromhex(t[i + 1][1:]).decode("utf-8", "replace")
        if t[i] == "EX":
            out.append(("EX", raw))
        else:
            ms = []
            data = bytes.fromhex(t[i + 1][1:])
            while data:
                m = re.match(rb"Content-Length: (\d+)\r\n\r\n", data)
                n = int(m.group(1))
                ms.append(json.loads(data[m.end():m.end() + n].decode("utf-8", "replace")))
                data = data[m.end() + n:]
            out.append(ms)
        i += 2
    return out


def ref(lines, nc=""):
    return "ref %s %s %d %s" % (hu(REPO), hu(nc), len(lines), " ".join("%d %s" % (n, hu(s)) for n, s in lines))


class Ref:
    def __init__(self, o, lines):
        t = o.split()
        self.ok = t[0] == "1"
        i, self.res = 1, {}
        for n, s in lines:
            assert t[i] == "L", t[i]
            f = lambda k: float(t[i + 3 + k])
            self.res[n] = dict(ok=t[i + 1] == "1", msg=bytes.fromhex(t[i + 2][1:]).decode("utf-8", "replace"),
                               path=dict(total=f(0), work=f(1), fast=f(2), tool=f(3), id=bytes.fromhex(t[i + 7][1:]).decode()), time=dict(total=f(5), work=f(6), fast=f(7), tool=f(8)))
            i += 12
        n = int(t[i])
        self.macros = [(int(t[i + 1 + 3 * k]), int(t[i + 2 + 3 * k]), float(t[i + 3 + 3 * k])) for k in range(n)]


def split(text):
    """numbered non-empty lines of a document, as the parser is to see them"""
    out = []
    for i, l in enumerate(text.split("\n")):
        l = l.rstrip(" \t\r\v\f")
        if l:
            out.append((i + 1, l))
    return out


WORDS = ["G0", "G1", "G01", "G2", "G54", "G54.1", "G17", "G90", "G91", "M3", "M03", "M5", "M6", "M30", "S1000", "F200", "T5", "X1", "X-2.5", "Y3.", "Z.5", "N10", "R2", "#1=5", "#2=#1+1", "#100=3.25", "X#1", "Y#2", "Z#77", "G#1", "M#3", "#3=30", "X[#1+2]",
         "(comment)", "(G1 #1)", "G81", "G80", "G28", "I2", "J1", "#500=#2*2", "G43", "H5", "G49", "X[SIN[30]]", "g1", "m5", "x4"]
BADW = ["Y", "X1 X2", "G1 G2", "M3 M4", "X99999999", "S1.2345", "(unclosed", "#1=", "@", "X1:", "N1 ) (line 1", "Q", "X[FOO[1]]", "#9=1/0", "X[1/0]", "Z#888", "1", "!", "X 1 2 : 3", ")", "X[SQRT[-1]]", "#1=ACOS[7]", "X[1.5AND2]", "%%", "\"", "\\x", "G1 \tY"]


def document(rng, n, bad=0.3, eol=None):
    lines = []
    for _ in range(n):
        r = rng.random()
        if r < 0.12:
            l = rng.choice(["", " ", "\t", "  \t"])
        else:
            l = " ".join(rng.choice(WORDS) for _ in range(rng.randint(1, 4)))
            if rng.random() < bad:
                l = (l + " " if rng.random() < 0.5 else "") + rng.choice(BADW)
        l = rng.choice(["", "", "", " "]) + l + rng.choice(["", "", " ", "\t "])
        lines.append(l)
    e = eol or rng.choice(["\n", "\r\n"])
    return e.join(lines) + rng.choice(["", e, e + e])

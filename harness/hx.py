"""Bounded concrete harness: drives the compiled code of /repo and compares with an independent executable specification.

This is the replay/bounded companion of the deductive contracts: it supplies concrete failing inputs, and it is the
(explicitly bounded) stand-in for functions outside the verifier's reach."""
import os, random, re, resource, select, subprocess, sys, threading, time, glob
from . import build

REPO = build.REPO


def hx(s):
    return "=" + s.encode("latin-1", "replace").hex()


def uh(t):
    return bytes.fromhex(t[1:]).decode("latin-1")


def oh(s):
    return "-" if s is None else hx(s)


class D:
    """DecimalAttributeData"""
    F = ("word", "assign", "sign", "open", "macro", "value", "dot", "value2", "close")

    def __init__(self, word, value=None, sign=None, dot=None, value2=None, macro=None, open=None, close=None, assign=None):
        self.word = word; self.assign = assign; self.sign = sign; self.open = open; self.macro = macro
        self.value = value; self.dot = dot; self.value2 = value2; self.close = close

    def key(self):
        return ("D",) + tuple(getattr(self, f) for f in self.F)

    def copy(self, **kw):
        d = D(self.word)
        d.__dict__.update(self.__dict__); d.__dict__.update(kw)
        return d

    def enc(self):
        return "D " + hx(self.word) + " " + " ".join(oh(getattr(self, f)) for f in self.F[1:])

    def text(self):
        return self.word + "".join(getattr(self, f) or "" for f in self.F[1:])

    def __repr__(self):
        return "D(" + self.text() + ")"

    def __eq__(self, o):
        return isinstance(o, D) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())


class St:
    """StringAttributeData"""

    def __init__(self, word, value):
        self.word = word; self.value = value

    def key(self):
        return ("S", self.word, self.value)

    def enc(self):
        return "S %s %s" % (hx(self.word), hx(self.value))

    def text(self):
        return self.word + self.value if self.word != "(" and self.word != "%" else (self.word + self.value)

    def __repr__(self):
        return "S(%s|%s)" % (self.word, self.value)

    def __eq__(self, o):
        return isinstance(o, St) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())


class Ch(St):
    """CharAttributeData"""

    def key(self):
        return ("C", self.word, self.value)

    def enc(self):
        return "C %s %s" % (hx(self.word), hx(self.value))

    def __repr__(self):
        return "C(%s|%s)" % (self.word, self.value)

    def __eq__(self, o):
        return isinstance(o, Ch) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())


def enc_block(b):
    return " ".join([str(len(b))] + [e.enc() for e in b])


class Tok:
    def __init__(self, line):
        self.t = line.split(); self.i = 0

    def next(self):
        self.i += 1
        return self.t[self.i - 1]

    def done(self):
        return self.i >= len(self.t)

    def n(self):
        return int(self.next())

    def d(self):
        return float(self.next())

    def s(self):
        return uh(self.next())

    def o(self):
        t = self.next()
        return None if t == "-" else uh(t)

    def block(self):
        out = []
        for _ in range(self.n()):
            k = self.next()
            if k == "D":
                w = self.s()
                v = [self.o() for _ in range(8)]
                d = D(w)
                for f, x in zip(D.F[1:], v):
                    setattr(d, f, x)
                out.append(d)
            elif k == "S":
                out.append(St(self.s(), self.s()))
            else:
                out.append(Ch(self.s(), self.s()))
        return out


class Crash(Exception):
    pass


STALL = 40      # seconds without an answer (answers take milliseconds, and each is flushed) before a run counts as hanging


def run_lines(exe, lines, timeout=600, env=None, cwd=None):
    """one output line per input line; a crash or a hang is reported as '!crash ...' for the offending input"""
    outs = []
    rest = list(lines)
    crashes = 0
    while rest:
        got, rc = feed(exe, rest, timeout, env, cwd)
        outs += got[:len(rest)]
        if len(got) >= len(rest):
            break
        outs.append("!crash %s" % rc)
        rest = rest[len(got) + 1:]
        crashes += 1 if rc != "no answer" else 10
        if crashes > 20:
            outs += ["!skipped"] * len(rest)
            break
    return outs


def feed(exe, lines, timeout, env, cwd):
    limit = lambda: resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    if b"__asan_init" in open(exe, "rb").read():        # the address sanitizer needs its address space
        limit = None
    p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, cwd=cwd, preexec_fn=limit)

    def write():
        try:
            p.stdin.write(("\n".join(lines) + "\n").encode("utf-8"))
            p.stdin.close()
        except OSError:
            pass
    th = threading.Thread(target=write, daemon=True)
    th.start()
    data, t0, rc = [], time.time(), None
    fd = p.stdout.fileno()
    while True:
        ready, _, _ = select.select([fd], [], [], STALL)
        if not ready or time.time() - t0 > timeout:
            p.kill()
            rc = "no answer"
            break
        x = os.read(fd, 1 << 20)
        if not x:
            break
        data.append(x)
    p.wait()
    p.stdout.close()
    th.join(5)
    return b"".join(data).decode("utf-8", "replace").split("\n")[:-1], rc if rc is not None else p.returncode


class Harness:
    def __init__(self, pid, tier="quick", seed=1, budget=120, escalate=False):
        self.pid = pid; self.tier = tier; self.seed = seed
        self.rng = random.Random(seed * 1000003 + sum(map(ord, pid)))
        self.evals = 0
        self.distinct = set()
        self.nontrivial = 0
        self.samples = []
        self.fails = []
        self.notes = []
        self.bounds = []
        self.t0 = time.time()
        self.budget = budget
        self.escalate = escalate

    def n(self, quick, thorough=None):
        if self.tier == "thorough":
            return thorough if thorough is not None else quick * 20
        return quick * 4 if self.escalate else quick

    def left(self):
        return self.budget - (time.time() - self.t0)

    def lits(self, *files):
        """literals of the current source text: dictionary for the input generators"""
        nums, strs = set(), set()
        for f in files:
            p = os.path.join(REPO, f)
            if not os.path.exists(p):
                continue
            s = open(p, encoding="utf-8", errors="replace").read()
            s = re.sub(r"//[^\n]*", "", s)
            for m in re.finditer(r'"((?:[^"\\\n]|\\.)*)"', s):
                strs.add(m.group(1))
            s2 = re.sub(r'"(?:[^"\\\n]|\\.)*"', "", s)
            for m in re.finditer(r"'([^'\\])'", s2):
                strs.add(m.group(1))
            for m in re.finditer(r"(?<![\w.])(\d+\.?\d*)", s2):
                try:
                    nums.add(float(m.group(1)) if "." in m.group(1) else int(m.group(1)))
                except ValueError:
                    pass
        return sorted(nums, key=float), sorted(strs)

    def run(self, exe, cases, what=""):
        """cases: (line, check, descr[, nontrivial]); check(output line) -> None or (expected, got) description"""
        lines = [c[0] for c in cases]
        t = time.time()
        outs = run_lines(exe, lines)
        bad = 0
        for c, o in zip(cases, outs):
            self.evals += 1
            if c[0] not in self.distinct:
                self.distinct.add(c[0])
                if len(c) < 4 or c[3]:
                    self.nontrivial += 1
            if o == "!skipped":
                continue
            try:
                r = c[1](o) if not o.startswith("!crash") else "no answer: the run hangs" if o.endswith("no answer") else "process died (%s)" % o
            except Exception as e:
                r = "unreadable output %r (%s: %s)" % (o[:200], type(e).__name__, e)
            if r is not None:
                bad += 1
                if bad <= 50:
                    self.fails.append({"input": c[2] if isinstance(c[2], str) else repr(c[2]), "driver_line": c[0], "driver": os.path.basename(exe), "problem": r, "what": what})
            elif len(self.samples) < 6 and (len(c) < 4 or c[3]) and self.rng.random() < 0.02:
                self.samples.append({"input": c[2] if isinstance(c[2], str) else repr(c[2]), "output": o.strip()[:300]})
        if cases and not self.samples:
            self.samples.append({"input": str(cases[0][2]), "output": outs[0][:300]})
        return outs

    def fail(self, inp, problem, what="", **kw):
        self.fails.append(dict({"input": inp, "problem": problem, "what": what}, **kw))

    def ok(self, key, nontrivial=True):
        self.evals += 1
        if key not in self.distinct:
            self.distinct.add(key)
            if nontrivial:
                self.nontrivial += 1


def expect(exp):
    def f(o):
        g = o.strip()
        return None if g == exp.strip() else {"expected": exp.strip()[:1500], "got": g[:1500]}
    return f


# ---------- tokens from text (independent reading of well-formed NC words)
WORD_RE = re.compile(r"\(([^()]*)\)|([A-Z])(=)?([+-])?(#)?(\d+)?(\.)?(\d+)?|/(\d)?")


def words(text):
    """'G1 X-1.5' -> block of D's; '(text' comments, '/n' optional block, '#1=2' not covered"""
    out = []
    for w in text.split():
        if w.startswith("("):
            out.append(St("(", w[1:].rstrip(")") + ")"))
            continue
        m = re.match(r"^(/|#|:|[A-Z]+)(=)?([+-])?(#)?(\d+)?(\.)?(\d+)?$", w)
        if not m:
            raise ValueError(w)
        out.append(D(m.group(1), assign=m.group(2), sign=m.group(3), macro=m.group(4), value=m.group(5), dot=m.group(6), value2=m.group(7)))
    return out


def fmt_trunc(d):
    """to_string_trunc specification: six decimals, trailing zeros and a trailing dot dropped"""
    s = "%f" % d
    s = s.rstrip("0")
    return s[:-1] if s.endswith(".") else s


class Msgs:
    """message tables read from the code itself (their content is property C23)"""

    def __init__(self, exe):
        t = Tok(run_lines(exe, ["msgs"])[0])
        self.tab = []
        for l in range(2):
            n = t.n()
            d = {}
            for _ in range(n):
                k = t.n()
                d[k] = [t.s() for _ in range(t.n())]
            self.tab.append(d)
        src = open(os.path.join(REPO, "parser/fanuc/MessageText.h"), encoding="utf-8").read()
        body = re.search(r"enum class MessageName\s*\{(.*?)COUNT", src, re.S).group(1)
        body = re.sub(r"//[^\n]*", "", body)
        self.names = {n.strip(): i for i, n in enumerate(x for x in body.split(",") if x.strip())}

    def mk(self, name, lang, *args, values_first=False):
        parts = list(self.tab[lang][self.names[name]])
        vals = list(args)
        out = ""
        a, b = (vals, parts) if values_first else (parts, vals)
        for i in range(max(len(a), len(b))):
            if i < len(a):
                out += a[i]
            if i < len(b):
                out += b[i]
        return out

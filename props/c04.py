"""C04 – removing numbers, comments and skip marks."""
from .common import *
from . import edits, c03

FILES = [P + "Renumberer.cpp", P + "AllAttributesParser.cpp"]
ASSUME = edits.ASSUME + [c03.ASSUME[0]]


def remove(run):
    c = run.ctx("Renumberer::remove", [P + "Renumberer.cpp"])
    ex = c.ex
    ex.opts["abstract_strings"] = True
    blk = c.block()
    t, f, table, words, counter, pos, listed = c03.machine(c)
    first = c.elem(blk, iv(0))
    listed(dec(first)["word"])
    numbered = AND(blk.n > 0, is_dec(first), z3.Select(table.dom, dec(first)["word"]))
    me, b = c.loc(Rec(t, f)), c.loc(blk)
    st, r, th = c.call("Renumberer::remove", me, [b])
    c.only(th)
    after = ex.rd(st, b)
    if isinstance(after, CSeq):
        after = lib.to_seq(after)
    k = z3.Int("any_k")
    c.ensure("exactly a leading number word goes", st, after.n == IF(numbered, blk.n - 1, blk.n))
    s = st.copy(); s.assume(AND(k >= 0, k < after.n))
    c.ensure("every other word stays, unchanged and in order", s, lib.veq(c.elem(after, k), c.elem(blk, simp(IF(numbered, k + 1, k)))))
    me2 = ex.rd(st, me).f
    c.ensure("numbering is not advanced", st, AND(me2["counter"] == counter, me2["current_frequency"] == pos))
    c.cover("returns", st, [numbered])


PARTS = [("block number", remove), ("remove a line's number", edits.remove_numbering), ("remove comments", edits.remove_comment), ("remove skip marks", edits.remove_optional)]
RULE = "lines of words, numbers, skip marks, comments, expressions and macros read by the real parser; expected tokens computed from the line; every removal applied twice"
BOUNDED = ["whole lines through FanucParser::remove_numbering/remove_comment/remove_optional_block: lines of at most 9 words, every shipped word table"]


def harness(h):
    from harness import build, sess
    from harness.hx import D, St, Ch, words
    rng = h.rng
    pex = build.parser()
    cases = []
    plain = ["G0", "X1.5", "Y-2", "M8", "Z.5", "F100", "S200", "G#1", "X-#12", "P1", "X[#1+2]", "Y-[1.5]", "/2", "/", "M30", "N7", "D5"]

    def texts(b):
        return [(x.text() if isinstance(x, D) else ("(" if x.word == "(" else x.word) + x.value.strip("()\x00")) for x in b]

    def toks(items):
        """texts of the tokens an unedited line has"""
        out = []
        for t in items:
            if t.startswith("("):
                out.append("(" + t.strip("()"))
            elif t == "X[#1+2]":
                out += ["X[#1", "+2]"]
            else:
                out.append(t)
        return out
    for drv in sess.DRV:
        c = sess.Cfg(drv)
        cases.append((c.line(), lambda o: None, "configuration", False))
        nums = [w for w, g in c.metric.items() if g["type"] == "numbering"]
        for _ in range(h.n(12)):
            ops, want, lines = [], [], []
            for ln in range(8):
                head = rng.choice([[], [], ["N%d" % rng.choice([1, 20, 999])], ["/1"], ["/3", "/2"], ["/"], ["/", "/1"], ["N5", "/1"], ["/1", "N5"], [":7"], ["%"], ["O1234"]])
                items = head + (rng.sample(plain, rng.randint(0 if head else 1, 5)) if not head or head[0] not in ("%", "O1234") else [])
                for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
                    items.insert(rng.randint(len(head) if head and head[0] in ("%", "O1234") else 0, len(items)), rng.choice(["(C)", "(X1 N2)", "(/1)", "(a b)"]))
                op = rng.choice(["rmnum", "rmcom", "rmopt"])
                t = toks(items)
                if op == "rmcom":
                    w = [x for x in t if not x.startswith("(")]
                elif op == "rmnum":
                    w = t[1:] if t and t[0][0] in nums and t[0][1:].isdigit() else t
                else:
                    k = 0
                    while k < len(t) and t[k][0] == "/" and len(t[k]) > 1:
                        k += 1
                    w = t[k:]
                line = " ".join(items)
                ops.append(sess.edit(op, ln + 1, line)); lines.append((op, line)); want.append(w)

            def chk(o, want=want, lines=lines):
                for (op, l), w, ch in zip(lines, want, sess.chunks(o)):
                    r = sess.res(ch)
                    if r[0] is not True:
                        continue
                    g = texts(r[2])
                    if g != w:
                        return "%s of %r leaves %r but must leave %r" % (dict(rmnum="removing the number", rmcom="removing comments", rmopt="removing skip marks")[op], l, g, w)
                return None
            cases.append((sess.sess(c, ops, plain=1), chk, "%s: %r" % (drv, lines), True))
    h.run(pex, cases, "removals on lines")
    # the component alone: any first word
    from harness.hx import enc_block, Tok
    exe = build.tok(); cases = []
    for _ in range(h.n(150)):
        tab = {w: dict(range_from=0, range_to=99, decimal_from=0, decimal_to=0, unique=0, type=rng.choice(["numbering", "misc"])) for w in rng.sample(["N", ":", "O", "X", "G", "/"], 3)}
        nums = [w for w, g in tab.items() if g["type"] == "numbering"]
        b = [rng.choice([D(rng.choice("NNOXG/:"), "1"), St("(", "N1)"), St("O", "1"), Ch("%", "%"), Ch("N", "1"), St("N", "5")]) for _ in range(rng.randint(0, 4))]
        w = b[1:] if b and isinstance(b[0], D) and b[0].word in nums else b

        def chk(o, w=w):
            g = Tok(o).block()
            return None if g == w else "left %r, must leave %r" % (g, w)
        cases.append(("renum %s 1 remove %s" % (sess.enc_words(tab), enc_block(b)), chk, "Renumberer::remove of %r with numbering words %r" % (b, nums), bool(b)))
    h.run(exe, cases, "Renumberer::remove")
    h.bounds.append("lines of at most 9 words")

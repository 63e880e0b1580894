"""to_string_trunc: the text of a macro value (used by hover, the evaluated text and the code groups)."""
from .common import *


def printed(src):
    """a value is its digits without the zeros behind them"""
    def part(run):
        c = run.ctx("value printed", src)
        ex = c.ex
        x, whole, dec = z3.Real("value"), z3.String("whole"), z3.String("decimals")
        full = z3.Concat(whole, sv("."), dec)
        digit = z3.Range("0", "9")
        c.assume(AND(z3.InRe(whole, z3.Concat(z3.Option(z3.Re("-")), z3.Plus(digit))), z3.Length(dec) == 6, z3.InRe(dec, z3.Plus(digit)), z3.Length(whole) < 400))
        ex.libs["fn:to_string"] = lambda ex_, st, obj, vals, n: (c.ensure("of the value", st, lib.to_real(ex_.rd(st, vals[0])) == x), full)[1]
        ex.opts.update(cvc5_first=True, hd_timeout=300, hd_cvc5=5)

        def inv(ex_, head, it, leaves, mapseen):
            out = []
            for a, s in enumerate([x_ for (l, p, x_, i0, g_, hv) in leaves if x_.sort() == S]):
                out += [("prefix %d" % a, z3.PrefixOf(s, full)), ("point kept %d" % a, z3.Length(s) > z3.Length(whole)), ("only zeros cut %d" % a, zeros(z3.SubString(full, z3.Length(s), 99)))]
            return out
        ex.loop_invs.append(inv)
        zeros = lambda s: z3.InRe(s, z3.Star(z3.Re("0")))
        fn = [f for tu in c.tus for f in tu.find_fn("to_string_trunc") if "double" in f["type"]["qualType"]]
        st, r, th = c.call(fn[0], None, [c.loc(x)])
        c.only(th)
        r = lib.as_str(ex.rd(st, r))
        c.ensure("zeros cut off", st, OR(AND(r == whole, zeros(dec)), AND(z3.PrefixOf(r, full), z3.Length(r) > z3.Length(whole) + 1, zeros(z3.SubString(full, z3.Length(r), 99)), z3.SubString(r, z3.Length(r) - 1, 1) != sv("0"))))
        c.cover("whole", st, [r == whole])
        c.cover("decimals", st, [r != whole])
    return part

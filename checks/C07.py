"""Value-range analysis of the message length in the parser, by abstract interpretation over arbitrary input.

The parsing loop is split by the parsing state.  Every value stored in the length field must fit it exactly (arithmetic
is exact in the analysis, so wrapping shows as a value beyond the field) and be base * (the old length) + digit with a
digit of 0..9 or 0..15.  In each state that accumulates digits, an iteration that takes no digit and reports no error may
only have looked at a terminator (CR, LF, blank, semicolon)."""
from vsa import parser
from vsa.ir import AnalysisBroken
TERMINATORS = {9, 10, 13, 32, 59}
def run(ctx):
    p = ctx.prog()
    pf = parser.find(p)
    if not pf: raise AnalysisBroken("no message parser found")
    for f in pf:
        m = parser.analyse(p, f)
        if m.incomplete: raise AnalysisBroken("parser analysis stopped early: %s" % m.incomplete)
        ctx.count("parser_states", len(m.parts)); ctx.count("abstract_steps", m.steps)
        ctx.rule("parsing states of " + f.name, len({x[0] for x in m.parts}), 20)
        ctx.rule("stores of the length", len(m.len), 4)
        n = {}
        for (fn, where, what), r in sorted(m.len.items()):
            n[fn] = n.get(fn, 0) + 1
            if r[1]: ctx.bad("length:%s:%s" % (fn, "wrap" if "bits" in r[1] else "digit"), r[1], where, "parsing loop of %s" % f.name)
            else: ctx.ok("length fits and is made of digits", "%s at %s (%d states)" % (what, where, r[0]))
        acc = {k: r for k, r in m.trans.items() if r[0]}
        ctx.rule("states that accumulate digits", len(acc), 2)
        seen = {}
        for k, (na, nn, by) in sorted(acc.items(), key=repr):
            bad = [b for b in by if any(x not in TERMINATORS for x in (range(int(b[0]), int(b[1]) + 1) if b[1] - b[0] < 8 else [0]))]
            if bad: seen.setdefault("skip", (k, sorted(bad)))
            else: ctx.ok("non-digits end the length or the message", "state %s: bytes %s" % (k, sorted(by)))
        for k, (st, b) in seen.items():
            ctx.bad("length:%s:skipped" % f.name, "in parsing state %s bytes %s neither belong to the length nor reject the message" % (st, b), f.name, "parsing loop of %s" % f.name)

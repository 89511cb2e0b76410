"""Typestate analysis of the functions that feed the parser, close connections, or handle the data of one: after a parsing error, and
after a step that may close the connection, the paths to the return are followed with the connection open and with it closed."""
from vsa import conn, parser, roots, run as R
from vsa.slots import static
from vsa.ir import AnalysisBroken
def shut(ev): return ev.count("close") + ev.count("closed by it")
def run(ctx):
    p = ctx.prog(); st = static(p); ctx.explain.append(__doc__ + "\n" + conn.__doc__)
    pf = parser.find(p)
    if not pf: raise AnalysisBroken("no message parser found")
    conn.Conn.prog = p; conn.Conn.pf = frozenset(pf)
    feeds = {g for g in p.fns.values() if not roots.is_test(g) and g not in pf and any(t in pf for i in st.calls.get(g, ()) for t in st.targets(g, i))}
    ents = set()
    for g in feeds: ents |= conn.tops(p, g)
    for f in st.calls:
        if not roots.is_test(f) and any((st.slot_of(f, i) or ())[:2] == (conn.CN, "close_connection") for i in st.calls[f]): ents |= conn.tops(p, f)
    ents |= set(conn.slot_targets(p, (conn.IO, "on_data")))
    ctx.rule("functions that feed the parser", len(feeds), 2); ctx.rule("functions that handle data or close connections", len(ents), 6)
    errors = 0; parses = 0
    for f, (out, bad, good), inc in R.sweep(ctx, p, sorted(ents, key=lambda f: (f.file, f.name)), conn.Conn, inline=lambda r: conn.Conn(r).inl, depth=6):
        if inc: ctx.open("%s:cut" % f.name, "analysis of %s stopped early" % f.name)
        for k, (msg, w) in sorted(bad.items()):
            if k.split(":")[0] in ("dead", "null", "io", "parse", "unclosed"): ctx.bad("%s:%s" % (f.name, k), msg, w, "entry " + f.name)
        for (rule, w), n in good.items(): ctx.ok(rule, "%s %s" % (n, w)); parses += rule == "parse"
        for (r, kind, lib, cls), evs in sorted(out.items()):
            if kind != "parse": continue
            for ev, w in sorted(evs):
                what = "%s %s: %s" % (r, cls, " ".join(ev))
                if cls == "error":
                    errors += 1
                    ctx.expect(ev[-1] != "again", "error ends it", "%s:again" % r, what, "%s goes on reading or parsing after a parsing error" % r, w)
                    ctx.expect(shut(ev) <= 1, "closed once", "%s:twice" % r, what, "%s closes the connection more than once after a parsing error" % r, w)
                else: ctx.ok("answer to parsed data", what)
    ctx.rule("parsing sites", parses, 2); ctx.rule("answers to parsing errors", errors, 2)

"""Completeness of the state the parser keeps between reads (dataflow over SSA form), and typestate analysis of the functions
that feed it: the text marks the parser keeps into its buffer follow the buffer or are clear on every path."""
from vsa import parser, split, roots, run as R
from vsa.slots import static
from vsa.ir import AnalysisBroken
def run(ctx):
    p = ctx.prog(); st = static(p); ctx.explain.append(split.__doc__ + "\n" + split.Caller.__doc__)
    pf = parser.find(p)
    if not pf: raise AnalysisBroken("no message parser found")
    marks = set(); starts = set(); kept = {"state", "header_state", "index"}
    for f in pf:
        marks |= split.kept(ctx, p, f); kept |= marks
        for i in f.instrs():
            if i.op == "store":
                a = st.addr(f, i.a[1])
                if a[0] == "tag" and a[1] == parser.PS and len(a) == 3 and split.field(p, f, i.a[0]) is None and split.block_of(f, i) not in set().union(*[split.body(f, h.name) for h in split.heads(p, f)]): kept.add(a[2])
        starts |= {c[0] for c in parser.initial(p, f)}
    callers = {}
    for g in p.fns.values():
        if roots.is_test(g) or g in pf: continue
        for i in g.instrs():
            if i.op == "call" and any(t in pf for t in st.targets(g, i)): callers.setdefault(g, []).append(i)
    ctx.rule("functions that feed the parser", len(callers), 2)
    feeds = set()
    for g, calls in callers.items():
        for i in calls:
            t = [t for t in st.targets(g, i) if t in pf][0]
            n = next(n for n in range(len(t.params) - 1) if t.params[n][1].k == "ptr" and t.params[n + 1][1].k == "i")
            feeds |= split.feeds(p, g, i, n)
    textfiles = set()
    for g in p.fns.values():
        for i in g.instrs():
            if i.op == "store" and i.a[0].k == "g":
                a = st.addr(g, i.a[1])
                if a[0] == "tag" and a[1] == parser.SS and len(a) == 3 and a[2] in split.TEXT: textfiles.add(g.file)
    ents = set()
    for g in callers:
        up = {e for e in roots.entries(p) if e.file == g.file and g in set(st.reach([e]))}
        ents |= {g} if g in up or not up else up
    inl = lambda r: (lambda t: t not in pf and (t.file == r.file or (not roots.has_loop(t) and roots.size(t) < 80)))
    res = R.sweep(ctx, p, sorted(ents, key=lambda f: (f.file, f.name)), lambda f: split.Caller(f, pf, frozenset(marks), frozenset(feeds), lambda h: h.file in textfiles, starts, kept), inline=inl)
    good = {}; bad = {}
    for e, (b, g), inc in res:
        good.update(g)
        for k, x in b.items(): bad.setdefault(k, x + (e.name,))
    for k, (msg, w, e) in sorted(bad.items()): ctx.bad(k, msg, w, "entry " + e)
    for k, w in sorted(good.items()): ctx.ok("marks follow the buffer", "%s %s %s" % (k[0], k[1], w))

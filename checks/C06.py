"""Reachability of terminating calls (failed assertion, abort, exit) from received data, by abstract interpretation.

The message parser is interpreted over arbitrary input, its loop split by the parsing state and the flag bits that
guard assertions, with re-entry after a partial read modelled: every terminating call must be infeasible and every
look-up in a constant table must stay inside it.  Elsewhere, each terminating call in code that is reachable from a
callback (so from the event loop) is interpreted from the entry points that reach it; divisions by values that may be
zero and look-ups in constant tables by received values are obligations of the request-side entry points."""
from vsa import roots, run as R, parser
from vsa.ai import Monitor, INF
from vsa.slots import static
from vsa.ir import AnalysisBroken
FILES = ("src/viriatum/handlers/", "src/viriatum/http/", "src/viriatum/stream/", "modules/mod_lua", "modules/mod_gif", "modules/mod_diag")
TERM = {"abort", "exit", "_exit", "_Exit", "quick_exit", "__assert_fail", "raise", "kill", "pthread_exit", "longjmp", "siglongjmp", "__assert"}
class Stop(Monitor):
    """terminating calls reached, divisions and look-ups in constant tables"""
    def __init__(s, root): s.root = root; s.hit = {}; s.div = {}; s.tab = {}; s.fns = set()
    def result(s): return (s.hit, s.div, s.tab)
    def key(s, st): return None
    def join(s, a, b, n, jv): return {}
    def on_call(s, st, i, fns, exts, slot, args, cx):
        for x in exts or ():
            if x in TERM: s.hit[(i.fn.name, i.fn.file, x)] = i.where
        return None
    def on_div(s, st, i, v, cx):
        l = st.norm(v.l)
        r = s.div.setdefault((i.fn.name, i.where), [0, None]); r[0] += 1
        if not (st.lo(l) > 0 or st.hi(l) < 0 or st.ne0(l)): r[1] = "divisor %s may be zero" % l
    def on_div0(s, st, i, cx): s.div[(i.fn.name, i.where)] = [1, "division by zero"]
    def on_access(s, st, i, p, size, write, cx):
        if write or i.op != "load": return
        e = s.eng; base, off = e.split(p.l)
        if base is None or not base.info or base.info[0] != "global": return
        g = base.info[1]
        try: sz = g["mod"].sizeof(g["ty"])
        except Exception: return
        off = st.norm(off)
        if off.const(): return
        r = s.tab.setdefault((i.fn.name, i.where, base.name), [0, None]); r[0] += 1
        if st.lo(off) >= 0 and st.hi(off) + size <= sz: return
        if st.ge(off) and st.ge(off.scale(-1).addc(sz - size)): return
        r[1] = "entry at offset %s (%s..%s) of %s, %d bytes" % (off, st.lo(off), st.hi(off), base.name, sz)
def terminating(p):
    st = static(p); out = []
    for f in p.fns.values():
        if roots.is_test(f): continue
        for i in f.instrs():
            if i.op == "call":
                for t in st.targets(f, i):
                    if isinstance(t, str) and t in TERM: out.append((f, i, t))
    return out
def callbacks(p):
    """functions the event loop may run: those whose address is taken outside of the start-up code's signal set-up"""
    st = static(p)
    return {f for f in st.taken if not roots.is_test(f)}
def elsewhere(ctx, p, st, pf):
    cb = callbacks(p); reach = set(st.reach(cb))
    ctx.rule("functions reachable from callbacks", len(reach), 100)
    ctx.count("functions_reachable_from_callbacks", len(reach))
    files = {g.key for g in st.reach(pf)}
    rest = [(g, i, t) for g, i, t in terminating(p) if g in reach and g not in pf]
    ents = set(roots.entries(p, FILES))
    for g, i, t in rest: ents |= {e for e in roots.entries(p) if e in cb and g in set(st.reach([e]))}
    ents = sorted((e for e in ents if e not in pf), key=lambda f: (f.file, f.name))
    def inl(r):
        g = roots.inline_for(r)
        return lambda t: t not in pf and g(t)
    return R.sweep(ctx, p, ents, Stop, inline=inl), rest, cb, reach, files
def run(ctx):
    p = ctx.prog(); st = static(p)
    pf = parser.find(p)
    if not pf: raise AnalysisBroken("no message parser found")
    wait = parser.start(p, pf)
    res, rest, cb, reach, files = elsewhere(ctx, p, st, pf)
    # ---- the parser
    for f, m in zip(pf, wait()):
        ctx.count("parser_states", len(m.parts)); ctx.count("abstract_steps", m.steps)
        ctx.rule("parsing states of " + f.name, len({x[0] for x in m.parts}), 20)
        if m.incomplete: raise AnalysisBroken("parser analysis stopped early: %s" % m.incomplete)
        sites = [(g, i, t) for g, i, t in terminating(p) if g.key in m.visited]
        for g, i, t in sites:
            hits = [k for k in m.abort if k[0] == g.name]
            if not hits: ctx.ok("terminating call infeasible", "%s: %s at %s" % (g.name, t, i.where))
        for (fn, ext, text), (where, w) in sorted(m.abort.items()):
            ctx.bad("abort:%s:%s:%s" % (fn, ext, text or "site"), "received data can reach %s(%s) in %s" % (ext, text, fn), where, "path: parsing loop of %s, %s" % (f.name, w))
        for (where, tab), r in sorted(m.tab.items()):
            if r[1]: ctx.bad("table:%s:%s" % (f.name, tab), "received data selects an %s" % r[1], where, "")
            else: ctx.ok("look-up inside constant table", "%s at %s (%d states)" % (tab, where, r[0]))
    # ---- everything else a callback reaches
    for g, i, t in terminating(p):
        if g not in reach: ctx.ok("terminating call outside callbacks", "%s in %s is reached by start-up code only" % (t, g.name))
    hit = {}; div = {}; tab = {}
    for e, (h, d, t), inc in res:
        for k, w in h.items(): hit.setdefault(k, (w, e.name))
        for k, r in d.items():
            q = div.setdefault(k, [0, None, e.name]); q[0] += r[0]
            if r[1]: q[1] = r[1]; q[2] = e.name
        for k, r in t.items():
            q = tab.setdefault(k, [0, None, e.name]); q[0] += r[0]
            if r[1]: q[1] = r[1]; q[2] = e.name
    for (fn, fl, x), (w, e) in sorted(hit.items()):
        if any(g.name == fn for g in pf): continue
        ctx.bad("abort:%s:%s" % (fn, x), "%s can be reached from the callback %s" % (x, e), w, "entry %s -> %s" % (e, fn))
    for g, i, t in rest:
        if not any(k[0] == g.name and k[2] == t for k in hit): ctx.ok("terminating call infeasible", "%s in %s" % (t, g.name))
    for (fn, w), r in sorted(div.items()):
        if r[1]: ctx.bad("div:" + fn, "a division in %s may trap: %s" % (fn, r[1]), w, "entry %s" % r[2])
        else: ctx.ok("divisor not zero", "%s %s" % (fn, w))
    for (fn, w, t), r in sorted(tab.items()):
        if r[1]: ctx.open("table:%s:%s" % (fn, t), "%s: %s" % (w, r[1]))
        else: ctx.ok("look-up inside constant table", "%s %s in %s" % (t, w, fn))

"""Abstract interpretation of the installing and removing functions of every request handler (server and modules), and of
every function that calls them.  Obligations: each callback that installing stores is stored on all of its exits and is
cleared on every exit of removing; the context that installing creates is created once, stored in the parser, released
exactly once by removing and not used after; the callbacks of a handler that creates no context never follow the
context; every place that removes the handler of a connection removes the one that is installed and replaces or clears
it (or ends the connection) before it goes on, and every place that installs one does so on a connection without handler
or after the removal of the previous one and records the one it installed."""
from vsa import ai, slots, roots
from vsa.ai import Monitor, V, Lin
from vsa.ir import AnalysisBroken
CTX = ("http_parser_t", "context")

class Exits(Monitor):
    """what one installing or removing function leaves behind"""
    def __init__(s, root): s.root = root; s.exits = []; s.objs = {}; s.bad = []
    def result(s): return s.exits, s.bad
    def key(s, st): return tuple(sorted((k, str(v)) for k, v in st.mon.items()))
    def join(s, a, b, n, jv): return {k: v for k, v in a.mon.items() if b.mon.get(k) == v}
    def on_init(s, st, f, ins, y, base, off, tag, ty):
        if tag: s.objs[y] = tag
    def fnof(s, v):
        b, o = s.eng.split(v.l)
        return b.info[1] if b is not None and b.info and b.info[0] == "fn" else None
    def on_store(s, st, i, p, v, cx):
        e = s.eng; b, o = e.split(p.l)
        if b is None: return
        t = e.tag_of(p, b, st.norm(o))
        if t is None: return
        if s.owner(st, b): return
        if t[0] == "http_settings_t":
            f = s.fnof(v)
            st.mon["cb:" + t[1]] = "null" if st.eq0(v.l) else f.key if f is not None else "value"
        elif t == CTX:
            x = e.split(v.l)[0]
            st.mon["ctx"] = "null" if st.eq0(v.l) else "new:" + x.name if x is not None and "_h:" + x.name in st.mon else "value"
    def on_copy(s, st, i, dst, src, n, cx, what):
        if not "memset" in what: return
        b, o = s.eng.split(dst.l)
        if b is None or s.owner(st, b): return
        t = s.eng.tag_of(dst, b, st.norm(o))
        if t is not None and t[0] == "http_settings_t" and len(i.a) > 1 and i.a[1].k in ("int", "zero", "null") and not i.a[1].v:
            for k in [k for k in st.mon if k.startswith("cb:")]: del st.mon[k]
            st.mon["cb:*"] = "null"
    def on_alloc(s, st, i, y, size, cx): st.mon["_h:" + y.name] = "live"
    def owner(s, st, b):
        if b is None: return None
        if "_h:" + b.name in st.mon: return "_h:" + b.name
        if s.objs.get(b) == CTX: return "old"
        return None
    def on_free(s, st, i, p, cx):
        b = s.eng.split(p.l)[0]; k = s.owner(st, b)
        if k == "old": st.mon["freed"] = min(2, st.mon.get("freed", 0) + 1)
        elif k: st.mon[k] = "freed"
    def on_access(s, st, i, p, size, write, cx):
        b = s.eng.split(p.l)[0]
        if s.owner(st, b) == "old" and st.mon.get("freed"): s.bad.append((i.where, "uses the context after its release"))
    def inline(s, st, i, t, slot, args): return True
    def on_return(s, st, i, v, cx, depth):
        if depth == 1: s.exits.append((dict(st.mon), i.where))

class Callers(Monitor):
    """places that install or remove a handler"""
    def __init__(s, root, sets, unsets): s.root = root; s.sets = sets; s.unsets = unsets; s.out = []; s.par = {}; s.objs = {}
    def result(s): return s.out
    def key(s, st): return tuple(sorted((k, str(v)) for k, v in st.mon.items() if not k.startswith("_")))
    def join(s, a, b, n, jv): return {k: v for k, v in a.mon.items() if b.mon.get(k) == v}
    def on_init(s, st, f, ins, y, base, off, tag, ty):
        s.par[y] = base
        if tag: s.objs[y] = tag
    def say(s, good, rule, key, what, msg, where): s.out.append((bool(good), rule, "%s:%s" % (s.root.name, key), "%s: %s" % (s.root.name, what), "%s %s" % (s.root.name, msg), where))
    def inline(s, st, i, t, slot, args): return t.file == s.root.file and not slot
    def cell(s, st, i, conn):
        """current value of the handler field of the connection"""
        e = s.eng; b, o = e.split(conn.l)
        if b is None: return None
        for (bb, off), t in list(e.cell_tags.items()):
            if bb is b and t == ("http_connection_t", "http_handler"):
                c = st.mem.get(b, {}).get(off)
                return c[0] if c else None
        return None
    def on_call(s, st, i, fns, exts, slot, args, cx):
        e = s.eng; m = st.mon
        act = "set" if slot == ("http_handler_t", "set") else "unset" if slot == ("http_handler_t", "unset") else None
        if act is None and len(fns) == 1 and i.x.k == "g": act = "set" if fns[0] in s.sets else "unset" if fns[0] in s.unsets else None
        if act is None or s.root in s.sets or s.root in s.unsets: return None
        h = None
        if i.x.k != "g":
            y = e.split(e.val(st, i.fn, i.x).l)[0]
            h = s.par.get(y)
        cur = s.cell(st, i, args[0]) if args else None
        cb = e.split(args[0].l)[0] if args else None
        s.conn = cb
        if act == "unset":
            s.say(m.get("h") != "unset", "removed once", "twice", "removes the handler once", "removes the handler of a connection twice", i.where)
            if h is not None and cur is not None:
                good = st.eq0(cur.l.add(Lin(0, ((h, 1),)), -1))
                s.say(good, "the installed handler is removed", "which", "removes the handler that is installed", "removes a handler that is not the one installed on the connection", i.where)
            m["h"] = "unset"; m["_who"] = i.where
        else:
            good = m.get("h") == "unset" or cur is not None and st.eq0(cur.l)
            s.say(good, "installed on a free connection", "busy", "installs a handler after the previous one was removed", "installs a handler without removing the one that is installed", i.where)
            m["h"] = "set"; m["_who"] = i.where; m["_set"] = h
        return [(st, V(Lin(0)))]
    def on_store(s, st, i, p, v, cx):
        e = s.eng; b, o = e.split(p.l)
        if b is None or "h" not in st.mon: return
        if e.tag_of(p, b, st.norm(o)) == ("http_connection_t", "http_handler"):
            if st.mon["h"] == "unset" and not st.eq0(v.l) : st.mon["_early"] = v.l; return
            if st.mon["h"] == "set":
                h = st.mon.get("_set")
                s.say(not st.eq0(v.l) and (h is None or st.eq0(v.l.add(Lin(0, ((h, 1),)), -1))), "the installed handler is recorded", "record", "records the handler it installed", "records another handler than the one it installed", i.where)
            del st.mon["h"]
    def on_free(s, st, i, p, cx):
        e = s.eng; b, o = e.split(p.l)
        if b is None: return
        if st.mon.get("h") == "unset" and b is s.conn: del st.mon["h"]; s.say(True, "released without a handler", "free", "releases a connection whose handler was removed", "", i.where); return
        t = e.tag_of(p, b, st.norm(o))
        if t is not None and t[0] == "http_connection_t":
            cur = s.cell(st, i, p)
            s.say(cur is not None and st.eq0(cur.l), "released without a handler", "free", "releases a connection without handler", "can release a connection whose handler was not removed", i.where)
    def on_return(s, st, i, v, cx, depth):
        if depth != 1: return
        h = st.mon.get("h")
        s.say(h is None, "the change is recorded", "left:%s" % h, "leaves the connection with the handler it has", "returns after it %s the handler without recording it in the connection" % ("removed" if h == "unset" else "installed"), st.mon.get("_who", i.where))
def e_same(e, p, y): return e.split(p.l)[0] is y

class Follow(Monitor):
    """does a callback follow the context of the parser?"""
    def __init__(s, root): s.root = root; s.objs = {}; s.hits = []
    def result(s): return s.hits
    def on_init(s, st, f, ins, y, base, off, tag, ty):
        if tag == CTX: s.objs[y] = 1
    def on_access(s, st, i, p, size, write, cx):
        b = s.eng.split(p.l)[0]
        if b in s.objs: s.hits.append(i.where)

def run(ctx):
    from vsa.run import sweep
    p = ctx.prog(); sl = slots.static(p)
    S = {k: [t for t in sl.slots.get(("http_handler_t", k), ()) if hasattr(t, "params") and not roots.is_test(t)] for k in ("set", "unset")}
    ctx.rule("handlers", min(len(S["set"]), len(S["unset"])), 4)
    # ---- pairs, by the function that registers both
    pairs = {}
    for f in p.fns.values():
        got = {}
        for i in f.instrs():
            if i.op == "store" and i.a[0].k == "g":
                a = sl.addr(f, i.a[1])
                t = p.resolve(f.mod, i.a[0].v)
                if a[0] == "tag" and a[1] == "http_handler_t" and a[2] in ("set", "unset") and hasattr(t, "params"): got[a[2]] = t
        if "set" in got and "unset" in got: pairs[got["set"]] = got["unset"]
        elif "set" in got or "unset" in got:
            if got.get("set") and not any(t.file == got["set"].file for t in S["unset"]): ctx.bad("no-unset:%s" % f.name, "%s registers a handler that can be installed but not removed" % f.name, f.file)
    for t in S["set"]:
        if t not in pairs:
            c = [u for u in S["unset"] if u.file == t.file]
            if len(c) == 1: pairs[t] = c[0]
    ctx.rule("pairs of installing and removing functions", len(pairs), 4)
    ents = sorted(set(pairs) | set(pairs.values()), key=lambda f: f.key)
    res = dict((f.key, r) for f, r, _ in sweep(ctx, p, ents, Exits))
    need = {}
    for s_, u in sorted(pairs.items(), key=lambda x: x[0].key):
        a, bad1 = res[s_.key]; b, bad2 = res[u.key]; nm = s_.name
        if not a or not b: raise AnalysisBroken("no exit of %s or %s" % (s_.name, u.name))
        for w, t in set(bad1 + bad2): ctx.bad("%s:use" % u.name, "%s %s" % (u.name, t), w)
        inst = {}
        for m, w in a:
            for k, v in m.items():
                if k.startswith("cb:") and v != "null": inst.setdefault(k, set()).add(v)
        for k in sorted(inst):
            fld = k[3:]
            ctx.expect(all(m.get(k, "null") != "null" for m, w in a), "installed on every exit", "%s:%s:some" % (nm, fld), "%s installs %s" % (nm, fld), "%s installs %s on some of its exits only" % (nm, fld), a[0][1])
            ctx.expect(all(m.get(k, m.get("cb:*")) == "null" for m, w in b), "cleared again", "%s:%s:kept" % (nm, fld), "%s clears %s" % (u.name, fld), "%s leaves the callback %s that %s installs" % (u.name, fld, nm), b[0][1])
        if not inst: ctx.bad("%s:none" % nm, "%s installs no callback" % nm, a[0][1])
        for m, w in b:
            for k, v in m.items():
                if k.startswith("cb:") and v != "null": ctx.bad("%s:%s:stored" % (u.name, k[3:]), "%s installs the callback %s while the handler is removed" % (u.name, k[3:]), w)
        has = [m.get("ctx") for m, w in a]
        need[s_] = any(h not in (None, "null") for h in has)
        if need[s_]:
            for m, w in a:
                h = m.get("ctx", "null")
                ctx.expect(h.startswith("new:") and m.get("_h:" + h[4:]) == "live", "context created", "%s:ctx" % nm, "%s creates its context" % nm, "%s returns without a live context of its own (%s)" % (nm, h.split(":")[0]), w)
            for m, w in b:
                ctx.expect(m.get("freed") == 1, "context released once", "%s:ctx:freed" % u.name, "%s releases the context once" % u.name, "%s releases the context of the handler %d times" % (u.name, m.get("freed", 0)), w)
        else:
            ctx.expect(all(not m.get("freed") for m, w in b), "no context released", "%s:ctx:foreign" % u.name, "%s releases no context" % u.name, "%s releases a context that %s does not create" % (u.name, nm), b[0][1])
    # ---- callbacks of handlers without context
    cbs = {}
    for s_ in pairs:
        if need[s_]: continue
        for m, w in res[s_.key][0]:
            for k, v in m.items():
                if k.startswith("cb:") and v in p.fns: cbs.setdefault(v, set()).add(s_.name)
    ctx.rule("callbacks without context", len(cbs), 1)
    for f, hits, _ in sweep(ctx, p, [p.fns[k] for k in sorted(cbs)], Follow):
        n = sorted(cbs[f.key])[0]
        ctx.expect(not hits, "no context followed", "%s:follows" % f.name, "%s does not use a context" % f.name, "%s follows the context of the parser, which %s does not create" % (f.name, n), hits[0] if hits else f.file)
    # ---- who installs and removes
    roots_ = set()
    for f in p.fns.values():
        if roots.is_test(f) or f in pairs or f in pairs.values(): continue
        for i in f.instrs():
            if i.op != "call": continue
            if i.x.k == "g" and i.x.v == "free" and any(sl.addr(g, j.a[0])[:2] == ("tag", "http_connection_t") for g in [f] for j in f.instrs() if j.op == "load"): roots_.add(f)
            if sl.slot_of(f, i) in (("http_handler_t", "set"), ("http_handler_t", "unset")) or i.x.k == "g" and p.resolve(f.mod, i.x.v) in set(pairs) | set(pairs.values()): roots_.add(f)
    # a helper that only changes the handler is analysed from its callers
    top = set(); w = list(roots_); seen = set()
    while w:
        f = w.pop()
        if f in seen: continue
        seen.add(f)
        cs = [c for c in sl.callers.get(f, ()) if c is not f and c.file == f.file and not roots.is_test(c)]
        if cs and f not in sl.taken and f.internal if hasattr(f, "internal") else False: w += cs
        else: top.add(f)
    ctx.rule("places that install or remove", len(top), 5)
    done = set()
    for f, out, _ in sweep(ctx, p, sorted(top, key=lambda f: f.key), lambda f: Callers(f, set(pairs), set(pairs.values()))):
        for good, rule, key, what, msg, where in out:
            if good:
                if (rule, key) not in done: done.add((rule, key)); ctx.ok(rule, what)
            else: ctx.bad(key, msg, where)

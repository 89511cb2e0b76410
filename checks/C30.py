"""Typestate over load_module, unload_module and the entry points of each module, by abstract interpretation of every
path: a library handle, a resolved symbol, an information and a start result are events; a module may only be appended
to the list of the service after all of them succeeded; every failing exit has given back the library and the
structures; unloading stops before it releases, each once and nothing is used afterwards; the information function of a
module fills every field the server reads; what the start of a module acquires is what its stop releases."""
import re
from vsa import ai, slots, cfg
from vsa.ai import Monitor
from vsa.ir import AnalysisBroken

class Life(Monitor):
    """events of loading and unloading; mon: lib, sym, info, start -> the result value; rel: tuple of release events"""
    def __init__(s, root, ctxrep): s.root = root; s.rep = ctxrep; s.ev = {}
    def result(s): return s.ev
    def key(s, st): return tuple(sorted((k, str(v)) for k, v in st.mon.items()))
    def join(s, a, b, n, jv):
        out = {}
        for k in set(a.mon) & set(b.mon):
            if a.mon[k] == b.mon[k]: out[k] = a.mon[k]
        return out
    def say(s, cond, rule, key, what, msg, where): s.rep(cond, rule, key, what, msg, where)
    def hit(s, e): s.ev[e] = s.ev.get(e, 0) + 1
    def order(s, st, e): st.mon["seq"] = st.mon.get("seq", ()) + ((e,) if e not in st.mon.get("seq", ()) else (e + "!",))
    def on_alloc(s, st, i, y, size, cx):
        if i.fn.file == s.root.file or i.fn.file.endswith("loading.c"): st.mon["heap:%s" % i.fn.name] = "live"; st.mon["_h:" + y.name] = "heap:%s" % i.fn.name
    def on_free(s, st, i, p, cx):
        b, o = s.eng.split(p.l)
        k = st.mon.get("_h:" + b.name) if b is not None else None
        nm = "%s.%s" % (s.root.name, i.fn.name)
        if k is not None:
            s.say(st.mon.get(k) == "live", "structures released once", "double:%s:%s" % (s.root.name, k), "%s in %s" % (k, i.fn.name), "the structure of %s is released twice in %s" % (k, s.root.name), i.where)
            st.mon[k] = "freed"
        elif b is not None:
            q = "free:" + kind(b)
            s.say(q not in st.mon.get("seq", ()), "structures released once", "double:%s:%s" % (s.root.name, q), "%s released in %s" % (kind(b), s.root.name), "%s is released twice by %s" % (kind(b), s.root.name), i.where)
            s.order(st, q); s.hit(q)
    def freed(s, st, b):
        if b is None: return False
        k = st.mon.get("_h:" + b.name)
        if k is not None: return st.mon.get(k) == "freed"
        return b.kind in ("param", "init", "ret") and "free:" + kind(b) in st.mon.get("seq", ())
    def on_access(s, st, i, p, size, write, cx):
        b, o = s.eng.split(p.l)
        if s.freed(st, b): s.say(False, "no use after release", "uaf:%s:%s" % (s.root.name, b.name), "", "%s uses %s after its release" % (s.root.name, b.name), i.where)
    def on_call(s, st, i, fns, exts, slot, args, cx):
        e = s.eng; m = st.mon
        if exts == ["dlclose"]:
            v = e.split(args[0].l)[0]
            s.hit("dlclose")
            if s.root.name.startswith("unload"):
                s.say(v is not None and kind(v) == "library", "the library of the module is closed", "which:%s" % s.root.name, "dlclose receives the library of the module", "the handle that is closed is not the library of the module (%s)" % args[0].l, i.where)
                s.say("dlclose" not in m.get("seq", ()), "library closed once", "twice:%s" % s.root.name, "dlclose once", "the library is closed twice", i.where)
                s.say("stop" in m.get("seq", ()), "stop precedes the release of the library", "order:stop-dlclose", "stop comes before dlclose", "the library is closed before the module was stopped", i.where)
            elif "lib" in m:
                s.say(m["lib"] == args[0].l, "the loaded library is closed", "which:%s" % s.root.name, "dlclose receives the loaded library", "the handle that is closed is not the one that was loaded", i.where)
                s.say(m.get("closed") != 1, "library closed once", "twice:%s" % s.root.name, "dlclose once per path", "the library is closed twice", i.where)
                m["closed"] = 1
            s.order(st, "dlclose")
        elif exts == ["dlsym"]:
            s.say(st.ne0(args[0].l) or m.get("lib") != args[0].l, "symbol looked up in a loaded library", "dlsym:null", "dlsym after the null test", "the symbol is looked up without testing that the library was loaded", i.where)
        elif i.x.k != "g":
            t = e.val(st, i.fn, i.x).l
            y = e.split(t)[0]; nm = "?" if y is None else kind(y)
            closed = m.get("closed") == 1 or "dlclose" in m.get("seq", ())
            s.say(not closed, "no call into a closed library", "closed-call:%s:%s" % (s.root.name, nm), "%s called while the library is open" % nm, "%s calls %s of a library that is already closed" % (s.root.name, nm), i.where)
            if m.get("sym") is not None and t == m["sym"]:
                s.say(st.ne0(t), "symbol tested before the call", "sym:null", "the symbol is called after its null test", "the information function is called without testing that it was found", i.where)
                st.mon["next"] = "info"
                infos = list(e.st.slots.get(("module_t", "info"), ()))
                if infos:
                    e.summary(st, i.fn, i, infos, [], slot, args, cx)
                    return [(st, st.env.get(i.res) if i.res else None)]
            elif nm == "start":
                s.say("info" in m and st.eq0(m["info"]), "start only after the information succeeded", "start:info", "start is called after a successful information call", "the start function is called although the information function failed or was not called", i.where)
                st.mon["next"] = "start"
            elif nm == "stop":
                s.say("stop" not in m.get("seq", ()), "module stopped once", "stop:twice", "stop once", "the module is stopped twice", i.where)
                s.say(not any(q.startswith("free:") or q == "dlclose" for q in m.get("seq", ())), "stop precedes every release", "stop:order", "stop before the releases", "the module is stopped after something it uses was released", i.where)
                s.order(st, "stop"); s.hit("stop")
        elif fns and fns[0].file.startswith("src/viriatum_commons") and args:
            b = e.split(args[0].l)[0]
            if b is not None and kind(b) == "modules_list" and len(args) > 1:
                n = fns[0].name
                if n.startswith("append") or n.startswith("add"):
                    s.hit("append")
                    for a, what, test in (("lib", "library", st.ne0), ("sym", "symbol", st.ne0), ("info", "information result", st.eq0), ("start", "start result", st.eq0)):
                        good = a in m and test(m[a])
                        s.say(good, "registered only after success", "append:%s" % a, "%s known good at the registration" % what, "a module is registered as loaded on a path where the %s was not checked" % what, i.where)
                    s.say(m.get("closed") != 1, "registered while its library is open", "append:closed", "", "a module is registered after its library was closed", i.where)
                    m["appended"] = 1
                elif n.startswith("remove"):
                    s.hit("remove"); s.order(st, "remove")
                return None
        return None
    def after_call(s, st, i, fns, exts, slot, args, v, cx):
        m = st.mon
        if exts == ["dlopen"] and v is not None: m["lib"] = v.l; m.pop("closed", None); s.hit("dlopen")
        elif exts == ["dlsym"] and v is not None: m["sym"] = v.l; s.hit("dlsym")
        elif "next" in m and i.x.k != "g":
            n = m.pop("next"); s.hit(n)
            if v is not None: m[n] = v.l
    def on_return(s, st, i, v, cx, depth):
        if depth != 1: return
        m = st.mon; s.hit("return")
        if s.root.name.startswith("unload"):
            seq = m.get("seq", ())
            for q, w in (("stop", "stopped"), ("dlclose", "closed"), ("remove", "removed from the list of the service"), ("free:module", "released"), ("free:environment", "its environment released")):
                s.say(q in seq, "unloading is complete", "unload:%s" % q, "%s on every path" % q, "a path of %s returns without the module being %s" % (s.root.name, w), i.where)
            return
        if m.get("appended") == 1:
            s.say(not any(k.startswith("heap:") and x == "freed" for k, x in m.items()) and m.get("closed") != 1, "a registered module keeps its structures", "kept", "structures and library kept on success", "a module that is registered was released", i.where)
            s.say(v is None or st.eq0(v.l), "success reported", "ret:success", "a registered module reports success", "a module is registered but the loading reports an error", i.where); return
        s.say(v is not None and not st.eq0(v.l), "failure reported", "ret:failure", "an error is raised when nothing is registered", "the loading reports success without registering a module", i.where)
        if "lib" in m and not st.eq0(m["lib"]):
            s.say(m.get("closed") == 1, "library given back on failure", "leak:lib:%s" % phase(m), "library closed on the failing exit after %s" % phase(m), "the library stays open when the loading fails after %s" % phase(m), i.where)
        for k, x in m.items():
            if k.startswith("heap:"): s.say(x == "freed", "structures given back on failure", "leak:%s:%s" % (k, phase(m)), "%s released on the failing exit after %s" % (k, phase(m)), "the structure of %s leaks when the loading fails after %s" % (k, phase(m)), i.where)

def phase(m): return "the start" if "start" in m else "the information call" if "info" in m else "the symbol lookup" if "sym" in m else "opening"
def kind(y):
    n = y.name.rsplit(".", 1)[-1]
    return re.sub(r"[\[\]'\d]+$", "", n)

def run(ctx):
    p = ctx.prog(); st = slots.static(p)
    def rep(cond, rule, key, what, msg, where): ctx.expect(bool(cond), rule, key, what, msg, where)
    from vsa import roots
    for name, need in (("load_module", ("dlopen", "dlsym", "append", "info", "start", "return")), ("unload_module", ("stop", "dlclose", "remove", "free:module", "free:environment", "return"))):
        f = p.need(name)
        mon = Life(f, rep)
        e = ai.Engine(p, mon, depth=6, budget=200000, inline=lambda t, f=f: t.file == f.file or (not roots.commons(t) and not roots.has_loop(t)))
        e.run(f)
        ctx.fns |= {g.name for g in e.visited}
        if e.incomplete: raise AnalysisBroken("%s: %s" % (name, e.incomplete))
        for n in need:
            if not mon.ev.get(n):
                if n in ("dlopen", "dlsym", "append", "info", "return"): raise AnalysisBroken("%s: event %s not seen" % (name, n))
                if n == "start": ctx.bad("never:start", "the start function of a module is never called", f.file)
        ctx.rule("events of " + name, sum(mon.ev.values()), 4)
        ctx.count("abstract_steps", e.budget0 - e.budget)
    # ---- who unloads: every registered module
    un = p.need("unload_module")
    callers = [c for c in st.callers.get(un, ()) if "/test/" not in c.file]
    ctx.expect(any(roots.has_loop(c) for c in callers), "every module is unloaded", "unload-all", "unload_module is called in a loop over the modules", "nothing unloads every registered module", un.file)
    ld = p.need("load_module")
    unl = set(callers)
    lds = [c for c in st.callers.get(ld, ()) if "/test/" not in c.file]
    ctx.rule("load callers", len(lds), 1)
    # ---- fields of the module that the server relies on
    server = [f for f in p.fns.values() if f.file.startswith("src/viriatum/") and "/test/" not in f.file]
    used = set(); given = set()
    for f in p.fns.values():
        if f.file.startswith("modules/") and not f.name.startswith("info_module"):
            for i in f.instrs():
                if i.op == "store":
                    a = st.addr(f, i.a[1])
                    if a[0] == "tag" and a[1] == "module_t": given.add(a[2])
    for f in server:
        for i in f.instrs():
            if i.op in ("load", "store"):
                a = st.addr(f, i.a[0] if i.op == "load" else i.a[1])
                if a[0] == "tag" and a[1] == "module_t":
                    if i.op == "load": used.add(a[2])
                    elif not (i.a[0].k == "null" or i.a[0].k == "int"): given.add(a[2])
    req = sorted((used - given) | {"name", "version", "start", "stop", "info", "error"})
    ctx.rule("module fields the server reads", len(used), 3)
    mods = sorted({m.group(1) for f in p.fns.values() for m in [re.match(r"modules/mod_(\w+)/", f.file)] if m})
    ctx.rule("modules", len(mods), 3)
    for m in mods:
        fs = [f for f in p.fns.values() if f.file.startswith("modules/mod_%s/" % m)]
        info = [f for f in fs if f.name == "info_module_" + m]
        if not ctx.expect(len(info) == 1 and not info[0].internal if info and hasattr(info[0], "internal") else len(info) == 1, "entry point of the module", "info:%s" % m, "info_module_%s is defined" % m, "module %s does not define info_module_%s, the loader cannot find it" % (m, m), "modules/mod_%s" % m): continue
        f = info[0]; ctx.fns.add(f.name)
        mon = Fill(f); e = ai.Engine(p, mon, depth=4, budget=50000, inline=lambda t: t.file.startswith("modules/") and not roots.has_loop(t)); e.run(f)
        if not mon.exits: raise AnalysisBroken("no exit of " + f.name)
        for fld in req:
            ctx.expect(all(fld in x for x in mon.exits), "field filled by the module", "fill:%s:%s" % (m, fld), "%s.%s" % (m, fld), "info_module_%s leaves the %s of the module unset, which the server uses" % (m, fld), f.file)
        for fld in ("start", "stop", "info", "error"):
            want = "%s_module_%s" % (fld, m)
            got = {x.get(fld) for x in mon.exits}
            others = {"start", "stop", "info", "error"} - {fld}
            ctx.expect(all(g is not None and not any(g == "%s_module_%s" % (o, m) for o in others) for g in got), "field holds its own function", "own:%s:%s" % (m, fld), "%s.%s = %s" % (m, fld, ",".join(map(str, got))), "the %s field of module %s holds %s" % (fld, m, got), f.file)
        pair(ctx, p, st, m, f, mon)

class Fill(Monitor):
    """what the fields of the module hold at the exits"""
    def __init__(s, root): s.exits = []; s.root = root
    def key(s, st): return tuple(sorted(st.mon.items()))
    def on_store(s, st, i, p, v, cx):
        t = s.eng.tag_of(p, *s.eng.split(p.l))
        if t and t[0] == "module_t":
            b = s.eng.split(v.l)[0]
            if v.l.const(): st.mon[t[1]] = st.mon.get(t[1]) if v.l.c == 0 and False else ("const" if v.l.c else None)
            else: st.mon[t[1]] = b.info[1].name if b is not None and b.info and b.info[0] == "fn" else "value"
            if st.mon[t[1]] is None and t[1] != "type": del st.mon[t[1]]
    def on_return(s, st, i, v, cx, depth):
        if depth == 1: s.exits.append(dict(st.mon))

ACQ = {"create_http_handler": "delete_http_handler", "add_http_handler": "remove_http_handler"}
class Pair(Monitor):
    """acquisitions of the start and releases of the stop, in order"""
    def __init__(s): s.exits = []
    def key(s, st): return (tuple(st.mon.get("ev", ())),)
    def join(s, a, b, n, jv): return {"ev": a.mon.get("ev", ())} if a.mon.get("ev") == b.mon.get("ev") else {"ev": ("?",)}
    def ev(s, st, e): st.mon["ev"] = st.mon.get("ev", ()) + (e,)
    def on_call(s, st, i, fns, exts, slot, args, cx):
        if slot and slot[1] in ("create_http_handler", "delete_http_handler", "add_http_handler", "remove_http_handler"):
            s.ev(st, slot[1])
            return [(st, None)]
        for x in exts:
            if x in ("luaL_newstate", "lua_newstate"): s.ev(st, "lua_open")
            if x == "lua_close": s.ev(st, "lua_close")
    def on_alloc(s, st, i, y, size, cx): s.ev(st, "alloc:" + typ(i))
    def on_free(s, st, i, p, cx): s.ev(st, "free:" + typ_arg(i, s.eng, p))
    def on_return(s, st, i, v, cx, depth):
        if depth == 1: s.exits.append((st.mon.get("ev", ()), st, v))
def typ(i):
    n = i.fn.name
    return n[len("create_"):] if n.startswith("create_") else n
def typ_arg(i, e, p):
    n = i.fn.name
    return n[len("delete_"):] if n.startswith("delete_") else n

def pair(ctx, p, st, m, info, fill):
    from vsa import roots
    names = {k: {x.get(k) for x in fill.exits} for k in ("start", "stop")}
    res = {}
    for k in ("start", "stop"):
        f = p.byname.get(next(iter(names[k])) if names[k] else "", None) or p.byname.get("%s_module_%s" % (k, m))
        f = f[0] if isinstance(f, list) else f
        if f is None: return
        ctx.fns.add(f.name)
        mon = Pair(); e = ai.Engine(p, mon, depth=5, budget=100000, inline=lambda t: t.file.startswith("modules/") and not roots.has_loop(t)); e.run(f)
        res[k] = (f, mon.exits)
        if not mon.exits: raise AnalysisBroken("no exit of " + f.name)
    sf, starts = res["start"]; tf, stops = res["stop"]
    ok = [ev for ev, s, v in starts if v is None or not s.ne0(v.l)]
    ctx.rule("start paths of " + m, len(ok), 1)
    INV = {"create_http_handler": "delete_http_handler", "add_http_handler": "remove_http_handler", "lua_open": "lua_close"}
    full = max((ev for ev, s, v in stops), key=len)
    for ev in ok:
        for a in sorted(set(ev)):
            b = INV.get(a) or (a.replace("alloc:", "free:") if a.startswith("alloc:") else None)
            if b is None: continue
            ctx.expect(ev.count(a) == full.count(b), "stop releases what start acquired", "pair:%s:%s" % (m, a), "%s: %s is undone by %s" % (m, a, b), "module %s: the start does %s %d time(s), the stop does %s %d time(s)" % (m, a, ev.count(a), b, full.count(b)), tf.file)
        if "create_http_handler" in ev and "add_http_handler" in ev: ctx.expect(ev.index("create_http_handler") < ev.index("add_http_handler"), "handler registered after its creation", "pair-order:%s" % m, m, "the handler is registered before it is created", sf.file)
    for ev, s, v in stops:
        for r in ("free:", "delete_http_handler", "lua_close"):
            pos = [n for n, x in enumerate(ev) if x.startswith(r)]
            if pos and "remove_http_handler" in full:
                ctx.expect("remove_http_handler" in ev and ev.index("remove_http_handler") < pos[0], "handler unregistered before its release", "stop-order:%s:%s" % (m, r), "%s: %s after the removal" % (m, r), "module %s: %s happens before the handler is removed from the service" % (m, r), tf.file)
        for x in set(ev):
            if x.startswith("free:") or x in ("delete_http_handler", "lua_close"): ctx.expect(ev.count(x) <= 1, "released once", "stop-twice:%s:%s" % (m, x), "%s once" % x, "module %s: %s happens twice" % (m, x), tf.file)

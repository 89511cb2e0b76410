"""Signal discipline over the call graph: everything reachable from a function installed as signal handler may only store
the status of the service (or locals) and call async-signal-safe functions; the main loop tests that status again on
every round, closes the connections after it, and survives an interrupted wait; broken pipes are ignored both by
disposition and by the flag of every send."""
from vsa import cfg, slots
from vsa.ir import AnalysisBroken
SAFE = {"signal", "sigaction", "sigemptyset", "sigaddset", "write", "_exit", "__errno_location", "kill", "getpid", "raise", "strlen", "llvm.dbg.declare", "llvm.dbg.value"}
TERM = {1: "SIGHUP", 2: "SIGINT", 3: "SIGQUIT", 15: "SIGTERM"}
STATUS = ("tag", "service_t", "status")

def run(ctx):
    p = ctx.prog(); st = slots.static(p)
    regs = []      # (fn, instr, signo or None, handlers)
    for f in p.fns.values():
        if "/test/" in f.file: continue
        for i in f.instrs():
            if i.op == "call" and i.x.k == "g" and i.x.v in ("signal", "sigaction", "bsd_signal", "sigset"):
                no = i.a[0].v if i.a[0].k == "int" else None
                h = i.a[1]
                if h.k == "g" and i.x.v == "signal":
                    t = p.resolve(f.mod, h.v); regs.append((f, i, no, [t] if t else [h.v]))
                elif h.k == "null" or (h.k == "int" and h.v == 0): regs.append((f, i, no, ["default"]))
                elif h.k == "ce" or h.k == "int": regs.append((f, i, no, ["ignore" if const_int(h) == 1 else "default" if const_int(h) == 0 else "?"]))
                elif i.x.v == "sigaction":
                    ts = st.slots.get(("sigaction", "__sigaction_handler"), []) or [x for k, v in st.slots.items() if "sigaction" in k[0] for x in v]
                    regs.append((f, i, no, list(ts) or ["?"]))
                else: regs.append((f, i, no, [t for t in sources(st, f, h)] or ["?"]))
    ctx.rule("signal registrations", len(regs), 3)
    handlers = {t for _, _, _, ts in regs for t in ts if hasattr(t, "params")}
    ctx.rule("signal handlers", len(handlers), 1)
    recorded = set()
    for h in handlers:
        path = {h: (h.name,)}; todo = [h]
        while todo:
            g = todo.pop(0); ctx.fns.add(g.name)
            for i in g.instrs():
                if i.op == "store":
                    a = st.addr(g, i.a[1])
                    if a[0] == "alloca": continue
                    if a == STATUS:
                        recorded.add(h)
                        ctx.expect(closed(p, i.a[0]), "status recorded", "value:%s" % g.name, "%s marks the service as closed" % g.name, "the handler stores %s in the status of the service, the loop goes on" % i.a[0], i.where); continue
                    if flag_type(p, g, i): ctx.ok("flag store", "%s stores a %s" % (g.name, i.a[0].ty)); recorded.add(h) if False else None; continue
                    ctx.bad("store:%s:%s" % (g.name, "/".join(map(str, a[:3])) if a[0] != "alloca" else ""), "signal handler writes %s (path %s)" % (show(a), " -> ".join(path[g])), i.where)
                elif i.op == "call" and i.x.k != "meta":
                    for t in st.targets(g, i):
                        if hasattr(t, "params"):
                            if t not in path: path[t] = path[g] + (t.name,); todo.append(t)
                        elif t.startswith("llvm.dbg") or t in SAFE: ctx.ok("async-signal-safe call", "%s in %s" % (t, g.name))
                        else: ctx.bad("call:%s:%s" % (g.name, t), "signal handler calls %s, which is not async-signal-safe (path %s)" % (t, " -> ".join(path[g])), i.where)
                    if i.x.k == "loc" and not st.targets(g, i): ctx.bad("callptr:%s" % g.name, "signal handler calls an unknown function (path %s)" % " -> ".join(path[g]), i.where)
    # ---- a missing service is not touched
    for h in handlers:
        for g in st.reach([h]):
            for i in g.instrs():
                if i.op in ("load", "store") and st.addr(g, i.a[0] if i.op == "load" else i.a[1]) == STATUS:
                    src = base_global(p, st, g, i.a[0] if i.op == "load" else i.a[1])
                    if src is None: continue
                    ok = any(op == "ne" and c == 0 and base_value(p, st, g, x) == src for x, op, c in guards(p, st, g, i, h))
                    ctx.expect(ok, "service present", "service-null:%s" % h.name, "%s tests that there is a service first" % g.name, "the handler follows the service reference (%s) without testing it: a signal before the creation or after the destruction crashes" % (src if isinstance(src, str) else "parameter of " + src[1].name), i.where)
    # ---- terminating signals are recorded, broken pipes ignored
    for no, nm in TERM.items():
        hs = [t for _, i, n, ts in regs if n == no for t in ts if t not in handlers or True]
        inst = [t for f, i, n, ts in regs if n == no and f not in handlers for t in ts]
        if not inst and no in (1, 3): ctx.open("signal:" + nm, "not registered"); continue
        ctx.expect(any(t in recorded for t in inst), "termination recorded", "signal:" + nm, "%s is recorded by %s" % (nm, ",".join(getattr(t, "name", t) for t in inst)), "%s is not handled by a function that records the request" % nm, regs[0][1].where)
    pipe = [t for f, i, n, ts in regs if n == 13 for t in ts]
    okpipe = bool(pipe) and all(t == "ignore" or (hasattr(t, "params") and t in handlers and len(list(t.instrs())) <= 6) for t in pipe)
    ctx.expect(okpipe, "broken pipe ignored", "signal:SIGPIPE", "SIGPIPE is ignored", "SIGPIPE is not ignored: a client that disconnects kills the server", regs[0][1].where)
    ns = 0
    for f in p.fns.values():
        if "/test/" in f.file: continue
        for i in f.instrs():
            if i.op == "call" and i.x.k == "g" and i.x.v in ("send", "sendto", "sendmsg"):
                ns += 1; fl = i.a[2 if i.x.v == "sendmsg" else 3]
                if fl.k == "int": ctx.expect(bool(fl.v & 0x4000) or okpipe, "send does not raise", "send:%s" % f.name, "%s sends without raising SIGPIPE" % f.name, "send may raise SIGPIPE", i.where)
    ctx.rule("send calls", ns, 1)
    # ---- the main loop
    loops = 0
    for f in p.fns.values():
        if "/test/" in f.file: continue
        polls = [i for i in f.instrs() if i.op == "call" and st.slot_of(f, i) == ("polling_t", "poll")]
        for i in polls:
            loops += 1
            body = cycle(f, i.blk.name)
            if not body: ctx.bad("loop:%s" % f.name, "the wait of the event loop is not inside a loop", i.where); continue
            tests = []
            for b in body:
                t = f.blocks[b].ins[-1]
                if t.op == "br" and len(t.x) == 2 and (t.x[0] not in body) != (t.x[1] not in body):
                    for x, op, c in term_atoms(p, f, t):
                        ld = cfg.origin_instr(p, f, x)
                        if cfg.load_tag(p, f, x) == STATUS[1:] and ld is not None and ld.blk.name in body: tests.append((b, t))
            every = [b for b, t in tests if not reaches(f, i.blk.name, i.blk.name, {b})]
            ctx.expect(bool(every), "loop tests the status each round", "loop-status:%s" % f.name, "every round of %s loads and tests the status" % f.name, "a round of the main loop can start again without looking at the status of the service", i.where)
            after = {t for b in body for t in f.blocks[b].succ if t not in body}
            closes = [j for j in f.instrs() if j.op == "call" and any(hasattr(t, "params") and reaches_close(st, t) for t in st.targets(f, j)) and j.blk.name not in body]
            ok = closes and all(not ret_without(f, a, {j.blk.name for j in closes}) for a in after)
            ctx.expect(bool(ok), "connections closed after the loop", "loop-close:%s" % f.name, "%s closes the connections after the loop" % f.name, "the main loop can end without closing the connections", i.where)
            r = [j for j in f.instrs() if j.op == "call" and st.slot_of(f, j) == ("service_t", "register_signals") or j.op == "call" and any(hasattr(t, "params") and any(t is q[0] for q in regs) for t in st.targets(f, j))]
            ok = any(True for j in r if j.blk.name not in body)
            ctx.expect(ok, "signals registered before the loop", "register:%s" % f.name, "%s registers the signals" % f.name, "the signal handlers are never installed before the loop", i.where)
            if r:
                j = r[0]
                skip = {b.name for b in f.order if any(x[1] in ("eq",) and cfg.load_tag(p, f, x[0]) == ("service_t", "register_signals") for x in term_atoms(p, f, b.ins[-1]))}
                ok = cfg.dominates(f, j.blk.name, i.blk.name) or guarded_only_by_slot(p, f, j, i)
                ctx.expect(ok, "signals registered before the loop", "register-dom:%s" % f.name, "registration precedes the loop of %s on every path" % f.name, "the main loop can be entered without registering the signals", j.where)
    ctx.rule("main loops", loops, 1)
    # ---- interrupted waits
    nw = 0
    for f in p.fns.values():
        if "/test/" in f.file or "/polling/" not in f.file: continue
        waits = [i for i in f.instrs() if i.op == "call" and i.x.k == "g" and i.x.v in ("epoll_wait", "epoll_pwait", "select", "poll")]
        for w in waits:
            nw += 1
            for j in f.instrs():
                if j.op == "call" and j.x.k == "g" and j.x.v in ("close", "exit", "abort", "_exit", "shutdown"):
                    at = cfg.atoms(p, f, j.blk)
                    ok = any(op == "ne" and c == 4 for x, op, c in at)
                    ctx.expect(ok, "interrupted wait", "eintr:%s:%s" % (f.name, j.x.v), "%s is not called in %s when the wait was interrupted" % (j.x.v, f.name), "an interrupted wait (signal) reaches %s" % j.x.v, j.where)
    ctx.rule("waits", nw, 1)

def const_int(v):
    if v.k == "int": return v.v
    if v.k == "null": return 0
    if v.k == "ce" and v.v[0] == "cast": return const_int(v.v[2])
    return None
def sources(st, f, v):
    out = []
    for n in st._node(f, v):
        if n[0] == "fn": out.append(n[1])
        else: out += [x[1] for x in st.sol.get(n, ())]
    return out
def closed(p, v):
    return v.k == "int" and v.v != open_value(p)
def open_value(p):
    from checks import C29
    for en in ("connection_status_e", "status_e"):
        try: ev = C29.enum_of(p, en)
        except AnalysisBroken: continue
        for a, b in ev.items():
            if a == "STATUS_OPEN": return b
            if b == "STATUS_OPEN": return a
    return 1
def flag_type(p, g, i):
    """store of a constant to a plain flag: a global variable of volatile sig_atomic_t"""
    v = i.a[1]
    if v.k != "g" or i.a[0].k != "int": return False
    gl = p.resolve_global(g.mod, v.v)
    t = g.mod.md.get(gl["dbg"], "") if gl and gl.get("dbg") else ""
    x = gl["mod"].md_node(gl["dbg"]) if gl and gl.get("dbg") else None
    for _ in range(2):
        if x and x[0] == "DIGlobalVariableExpression": x = gl["mod"].md_node(x[1].get("var"))
    d = x[1].get("type") if x else None
    vol = sig = False
    for _ in range(5):
        n = gl["mod"].md_node(d) if d else None
        if n is None: break
        if n[1].get("tag") == "DW_TAG_volatile_type": vol = True
        if "sig_atomic" in n[1].get("name", ""): sig = True
        d = n[1].get("baseType")
    return vol and sig
def show(a):
    if a[0] == "tag": return "%s.%s" % (a[1], a[2])
    return " ".join(map(str, a))
def base_value(p, st, f, v):
    i = cfg.origin_instr(p, f, v)
    if i is not None and i.op == "load":
        x = i.a[0]
        if x.k == "g": return x.v
        a = st.addr(f, x)
        if a[0] == "global": return a[1]
    o = cfg.origin(p, f, v)
    return None if o.k != "loc" else (f.name, o.v)
def base_global(p, st, f, ptr):
    d = st.index(f)
    v = ptr
    while v.k == "loc" and v.v in d and d[v.v].op in ("gep", "bitcast"): v = d[v.v].a[0]
    i = d.get(v.v) if v.k == "loc" else None
    if i is not None and i.op == "load":
        a = i.a[0]
        return a.v if a.k == "g" else None
    if i is None and v.k == "loc":
        return ("param", f, [n for n, (pn, _) in enumerate(f.params) if pn == v.v][0] if any(pn == v.v for pn, _ in f.params) else -1)
    return None
def guards(p, st, g, i, h):
    """conditions that hold at the instruction, including those of the only call site when the reference is a parameter"""
    src = base_global(p, st, g, i.a[0] if i.op == "load" else i.a[1])
    if isinstance(src, tuple):
        n = src[2]; out = []
        reach = st.reach([h])
        sites = [(c, j) for c in reach for j in st.calls.get(c, ()) if g in st.targets(c, j)]
        for c, j in sites:
            bv = base_value(p, st, c, j.a[n]) if 0 <= n < len(j.a) else None
            ok = any(op == "ne" and k == 0 and base_value(p, st, c, x) == bv for x, op, k in all_atoms(p, c, j.blk))
            if not ok: return out
        class X: pass
        return [(Guard(src), "ne", 0)] if sites else []
    return all_atoms(p, g, i.blk)
class Guard:
    def __init__(s, src): s.src = src; s.k = "guard"; s.v = src
def all_atoms(p, g, b):
    out = cfg.atoms(p, g, b)
    return out
_bv = base_value
def base_value(p, st, f, v):
    if v.k == "guard": return v.src
    return _bv(p, st, f, v)
def cycle(f, b):
    """blocks on a cycle through b"""
    fwd = cfg.reach(f, f.blocks[b].succ)
    if b not in fwd: return set()
    out = set()
    P = cfg.preds(f); w = [b]; back = set()
    while w:
        x = w.pop()
        for q in P[x]:
            if q not in back: back.add(q); w.append(q)
    return (fwd & back) | {b}
def term_atoms(p, f, t):
    if t.op != "br" or len(t.x) != 2: return []
    d = cfg.defs(p, f); v = t.a[0]; out = []
    todo = [v]; n = 0
    while todo and n < 20:
        n += 1; v = todo.pop()
        if v.k != "loc" or v.v not in d: continue
        i = d[v.v]
        if i.op == "icmp": out += [(x, i.x, i.a[1].v if i.a[1].k == "int" else i.a[1]) for x in i.a if x.k == "loc"]; todo += i.a
        elif i.op in ("zext", "freeze", "and", "or", "xor", "trunc"): todo += i.a
        elif i.op == "call": pass
        elif i.op == "phi": todo += [x for _, x in i.x]
    return out
def reaches(f, a, b, without):
    seen = set(); w = list(f.blocks[a].succ)
    while w:
        x = w.pop()
        if x in without or x in seen: continue
        if x == b: return True
        seen.add(x); w += f.blocks[x].succ
    return False
def ret_without(f, a, need):
    seen = set(); w = [a]
    while w:
        x = w.pop()
        if x in need or x in seen: continue
        seen.add(x)
        if f.blocks[x].ins[-1].op == "ret": return True
        w += f.blocks[x].succ
    return False
def reaches_close(st, t):
    for g in st.reach([t]):
        for i in st.calls.get(g, ()):
            if st.slot_of(g, i) == ("connection_t", "close_connection"): return True
            if any(getattr(x, "name", "") == "close_connection" for x in st.targets(g, i)): return True
    return False
def guarded_only_by_slot(p, f, j, i):
    """the registration is skipped only when the slot is empty (CALL_F) and that choice is made on every path to the loop"""
    d = cfg.idom(f); b = j.blk.name
    a = d[b]; t = f.blocks[a].ins[-1]
    if not any(cfg.load_tag(p, f, x) == ("service_t", "register_signals") for x, op, c in term_atoms(p, f, t)): return False
    return cfg.dominates(f, a, i.blk.name)

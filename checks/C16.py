"""Contract of the polling systems: every operation of each of them is interpreted with a connection in every recorded state, and what it
does to the kernel's view and to the lists is compared with what the operation stands for; polling is interpreted for what every reported
event leads to, and dispatching for the handlers that are called.  The same obligations hold for the system built on epoll and the one on select."""
from vsa import conn, poll, roots, run as R
from vsa.slots import static
from vsa.ir import AnalysisBroken
from vsa.poll import IN, OUT, ERR, HUP, ET, BASE
ADD, DEL, MOD = 1, 2, 3
CELLS = [dict(status=s, write_registered=w, read_registered=r, write_valid=v, is_outstanding=o, on_write=h) for s in (1, 2, 3) for w in (0, 1) for r in (0, 1) for v in (0, 1) for o in (0, 1) for h in (0, 1)]
def word(c): return "status %d%s" % (c["status"], "".join(", %s %d" % (k, c[k]) for k in sorted(c) if k != "status"))
def roles(ctx, p, tab):
    """what each list of ready or pending connections leads to for an open connection"""
    r = {}
    for (f, l), t in tab.items():
        on = {e.split("@")[0] for ev in t.get(1, {}) for e in ev if str(e).startswith("on_")}
        if len(on) == 1: r[l[1]] = on.pop()
    return r
def check(ctx, conf, used):
    p = ctx.prog(defines=poll.loads(None, conf)); st = static(p); poll.Op.prog = p; poll.Wrap.prog = p
    dl = [p.need("delete_connection")]; tab, bad = conn.dispatch(ctx, p)
    here = {f.key for op in ("poll", "call") for f in poll.targets(p, op)}
    tab = {k: v for k, v in tab.items() if k[0].key in here}
    role = roles(ctx, p, tab); lists = poll.roles(ctx, p)
    for op in sorted(used):
        ctx.expect(bool(poll.targets(p, op)), "operation provided", "%s:missing:%s" % (conf, op), "%s of %s" % (op, conf), "the polling system based on %s does not provide %s" % (conf, op), "polling_t")
    # ---- polling: what every event leads to
    copies = {}; maps = {}; args = None; kern = {}
    for f, (bad, good, visits, waits, iters, ends, opens, S) in poll.run(ctx, p, "poll", lambda f: poll.Round(f, lists, dl)):
        for k, m in opens.items(): ctx.open("%s:%s" % (f.name, k), m)
        for k, (m, w) in sorted(bad.items()):
            if k.startswith("again:"): ctx.bad("%s:%s" % (f.name, k), m, w, "entry " + f.name)
        for k, w in good.items():
            if k[0] == "copied": copies[k[1]] = k[2]
            if k[0] == "select":
                ctx.expect(k[2] is True, "highest descriptor", "%s:highest" % f.name, w, "%s does not ask for the events of all descriptors up to the highest one" % f.name, w)
                for n, (x, y) in zip(("on_read", "on_write", "on_error"), k[1]):
                    ctx.expect(x is not None and y is not None, "registered set asked for", "%s:set:%s" % (f.name, n), "%s: %s from %s" % (n, x, y), "%s does not ask select for a fresh copy of a registered set (%s)" % (f.name, n), w)
                    kern[x] = n; maps.setdefault("sets", {})[n] = y
        ctx.rule("waits for events (%s)" % conf, len(waits), 1)
        for w, zero, empty in waits: ctx.expect(zero or empty, "no wait with work pending", "%s:waits" % f.name, w, "%s may wait for events while connections have pending work" % f.name, w)
        ctx.expect(any(not zero for w, zero, empty in waits), "waits when idle", "%s:spins" % f.name, f.name, "%s never waits for events" % f.name, waits[0][0])
        ctx.rule("combinations of events (%s)" % conf, len(iters), 1)
        seen = set()
        for (tests, adds), w in sorted(iters.items(), key=str):
            if not tests and not adds: continue
            for n, on in (("on_read", IN), ("on_write", OUT), ("on_error", ERR | HUP)):
                ls = [a for a in adds if role.get(a) == n]
                yes = any(v for (k, x), v in tests if k == "mask" and x & on and not x & ~(on | 0x2018 if n == "on_error" else on) or k == "set" and kern.get(x) == n); no = 0
                for (k, x), v in tests:
                    if not v: no |= x if k == "mask" else on if kern.get(x) == n else 0
                seen.add((n, bool(ls)))
                ctx.expect(len(ls) == 1 and yes or not ls and not on & ~no, "event reaches its handler", "%s:event:%s" % (f.name, n), "%s %s" % (n, w),
                           "%s %s the connection for %s although the event was %s" % (f.name, "queues" if ls else "does not queue", n, "reported" if yes else "not reported or not looked at"), w)
        for n in ("on_read", "on_write", "on_error"): ctx.expect((n, True) in seen, "every event handled", "%s:unhandled:%s" % (f.name, n), n, "%s never queues a connection for %s" % (f.name, n), f.file)
    # ---- dispatching
    want = {"on_read": ("read_valid=1",), "on_write": ("write_valid=1",), "on_error": ()}
    n = 0
    for (f, l), t in sorted(tab.items(), key=lambda x: (x[0][0].name, str(x[0][1]))):
        if l[1] not in role: continue
        pend = f.key in {g.key for g in poll.targets(p, "poll")}
        for ev, w in t.get(1, {}).items():
            n += 1; ctx.expect(sum(1 for e in ev if e.startswith("on_")) == 1 and (role[l[1]] + "@1") in ev, "handler called once", "%s:%s:handler" % (f.name, l[1]), "%s of %s" % (role[l[1]], l[1]), "%s does not call %s once for an open connection in %s (%s)" % (f.name, role[l[1]], l[1], " ".join(ev)), w)
        for s in (1, 2, 3):
            for ev, w in t.get(s, {}).items():
                for x in want[role[l[1]]] if not pend else ():
                    ctx.expect(x in ev and all(not e.startswith("on_") for e in ev[:ev.index(x)]), "readiness recorded", "%s:%s:valid" % (f.name, l[1]), "%s in %s" % (x, l[1]), "%s does not record the readiness of the connections in %s before their handlers run" % (f.name, l[1]), w)
                if s == 3 and not pend and role[l[1]] != "on_error":
                    hs = [k for k, e in enumerate(ev) if e.startswith("on_handshake")]
                    ctx.expect(len(hs) == 1, "handshake goes on", "%s:%s:handshake" % (f.name, l[1]), l[1], "%s does not go on with the handshake of a connection in %s" % (f.name, l[1]), w)
                    if "->1" in ev: ctx.expect("on_read@1" in ev[ev.index("->1"):], "data read after the handshake", "%s:%s:first-read" % (f.name, l[1]), l[1], "%s does not read from a connection in %s whose handshake just ended" % (f.name, l[1]), w)
    ctx.rule("dispatch paths of open connections (%s)" % conf, n, 5)
    for src, dst in copies.items():
        ctx.ok("pending list handled", "%s handled as %s" % (src, role.get(dst)))
        if src not in role and dst in role: role[src] = role[dst]
    pending = {o: role.get(o) for o in lists["outstanding"]}
    for n in ("on_read", "on_write"):
        ctx.expect(n in pending.values(), "pending work handled", "%s:pending:%s" % (conf, n), str(pending), "the pending work of %s is never handled in the system based on %s" % (n, conf), "polling")
    for (f, l), t in tab.items():
        if l[1] in lists["outstanding"] and pending.get(l[1]) == "on_read":
            for s in t:
                for ev, w in t[s].items(): ctx.expect("is_outstanding=0" in ev, "connection can be queued again", "%s:%s:flag" % (f.name, l[1]), l[1], "%s leaves a connection of %s marked as pending, it is never queued again" % (f.name, l[1]), w)
    # ---- operations
    sets = maps.get("sets", {}); rd, wt = sets.get("on_read"), sets.get("on_write")
    every = set(); outs = {}
    for op in poll.OPS:
        for c in CELLS:
            if op in ("register_read",) and c["read_registered"] or op == "unregister_read" and not c["read_registered"]: continue
            if op == "unregister_write" and not c["write_registered"]: continue
            if op in ("register_connection",) and (c["write_registered"] or not c["read_registered"] or c["is_outstanding"]): continue
            if op not in ("register_write", "add_outstanding") and (not c["write_valid"] or not c["on_write"] or c["is_outstanding"]): continue
            if op == "add_outstanding" and (c["write_registered"] or not c["read_registered"]): continue
            for rm in (0, 1) if op == "unregister_connection" else (None,):
                cell = dict(c, **({} if rm is None else {"remove": rm})); outs[op, word(cell)] = (cell, poll.run(ctx, p, op, lambda f: poll.Op(f, cell)))
    for (op, w0), (c, res) in outs.items():
        for f, m in res: every |= {e[1] for k in m[0] for e in k[0] if e[0] == "bit" and e[2] == "set"}
    for (op, w0), (c, res) in sorted(outs.items()):
        for f, (out, bad, S, loops, opens, low) in res:
            for k, m in opens.items(): ctx.open("%s:%s" % (f.name, k), m)
            if not out: raise AnalysisBroken("no path through %s" % f.name)
            for (ev, own, fin, io, hi, ats), w in sorted(out.items(), key=str):
                nm = f.name
                def need(cond, k, msg): ctx.expect(cond, "%s: %s" % (op, k), "%s:%s" % (nm, k), "%s (%s)" % (nm, w0), "%s, connection with %s: %s" % (nm, w0, msg), w)
                ctl = [e for e in ev if e[0] == "ctl"]; bits = [e for e in ev if e[0] == "bit"]; app = [e[1] for e in ev if e[0] == "append"]
                pw = [a for a in app if pending.get(a) == "on_write"]; pr = [a for a in app if pending.get(a) == "on_read"]
                for e in ctl:
                    need(e[3] and (e[1] == DEL or e[4]), "target", "the events are requested for another descriptor or reported with another pointer")
                    need(e[1] == DEL or e[2] not in (None, "?"), "mask", "the requested events are not known")
                for e in bits: need(e[3] and e[2] in ("set", "clear"), "bit", "the bit of another descriptor changes in %s" % e[1])
                for e in bits:
                    if e[2] == "set": need(hi is True, "highest", "the highest descriptor does not cover the descriptor added to %s" % e[1])
                for a in app: need(dict(ats).get(a) is True or a in lists["removal"], "place", "the connection is not put at the end of %s and counted" % a)
                final = {}
                for e in bits: final[e[1]] = e[2]
                mask = [e[2] for e in ctl if e[1] in (ADD, MOD) and isinstance(e[2], int)]
                if conf == "epoll":
                    if op == "register_connection":
                        need(len(ctl) == 1 and ctl[0][1] == ADD, "added", "the connection is not added to the kernel's list once")
                        for x in mask: need(x & IN, "read interest", "the events asked for (0x%x) do not include readable" % x); need(x & OUT and x & ET, "write interest", "the events asked for (0x%x) do not report when the socket becomes writable" % x)
                    elif op == "unregister_connection": need([e[1] for e in ctl] == [DEL], "removed", "the connection is not removed from the kernel's list")
                    elif op in ("register_read", "unregister_read"):
                        need(len(ctl) == 1 and ctl[0][1] == MOD, "changed", "the kernel's view does not change once")
                        for x in mask: need(bool(x & IN) == (op == "register_read"), "read interest", "the events asked for are 0x%x" % x); need(x & OUT and x & ET, "write interest", "the events asked for (0x%x) do not report when the socket becomes writable" % x)
                    else:
                        for x in mask: need(x & IN or not c["read_registered"], "read interest kept", "the events asked for (0x%x) do not include readable any more" % x); need(x & OUT and x & ET, "write interest kept", "the events asked for (0x%x) do not report when the socket becomes writable" % x)
                        need(not any(e[1] in (ADD, DEL) for e in ctl), "not removed", "the connection is added or removed")
                else:
                    if op in ("register_connection", "register_read"): need(final.get(rd) == "set", "read interest", "the descriptor is not added to %s" % rd)
                    if op == "unregister_read": need(final == {rd: "clear"}, "read interest", "the descriptor is not removed from %s only" % rd)
                    if op == "register_write" and not c["write_registered"]: need(final == {wt: "set"}, "write interest", "the descriptor is not added to %s" % wt)
                    if op == "unregister_write": need(final == {wt: "clear"}, "write interest", "the descriptor is not removed from %s only" % wt)
                    if op == "unregister_connection":
                        for x in sorted(every): need(final.get(x) == "clear" or x == wt and not c["write_registered"], "interest in " + x, "the descriptor stays in %s" % x)
                        need("set" not in final.values(), "no interest", "the descriptor is added to a set")
                if op == "register_write":
                    can = c["status"] == 1 and c["on_write"] and c["write_valid"]
                    if c["write_registered"]: need(not app, "queued once", "the connection is queued again in %s" % ", ".join(app)); continue
                    need(not app or can and app == pw and len(pw) == 1, "pending write", "the connection is queued for writing although it is not open, not writable or has no handler" if not can else "the connection is queued %d times (%s)" % (len(app), ", ".join(app)))
                    need(not can or bool(pw) or bool(mask) or final.get(wt) == "set", "write not lost", "the connection is writable, no event is going to tell, and it is not queued")
                elif op == "add_outstanding":
                    need(app == pr and len(app) <= 1 and not (app and c["is_outstanding"]), "pending read", "the connection is queued %d times" % len(app))
                    need((io == 1) == (bool(app) or bool(c["is_outstanding"])), "mark", "the connection is %s as pending although it is %s" % ("marked" if io == 1 else "not marked", "not queued" if io == 1 else "queued"))
                    need(bool(app) or c["is_outstanding"] or bool(mask) or conf != "epoll", "read not lost", "data is pending, no event is going to tell, and the connection is not queued")
                elif op != "unregister_connection": need(not app, "no work", "the connection is queued in %s" % ", ".join(app))
        if op in ("register_write",) and c["status"] == 1 and c["on_write"] and c["write_valid"] and not c["write_registered"]:
            for f, m in res: ctx.expect(any(pending.get(e[1]) == "on_write" for k in m[0] for e in k[0] if e[0] == "append"), "writable connections written", "%s:queues" % f.name, f.name, "%s never queues an open, writable connection" % f.name, f.file)
        if op == "add_outstanding" and not c["is_outstanding"]:
            for f, m in res: ctx.expect(any(e[0] == "append" for k in m[0] for e in k[0]), "pending reads queued", "%s:queues" % f.name, f.name, "%s never queues a connection" % f.name, f.file)
    # ---- operations of connections
    fl = {"register_read": ("read_registered", 1), "unregister_read": ("read_registered", 0), "register_write": ("write_registered", 1), "unregister_write": ("write_registered", 0), "add_outstanding": None}
    for op, x in fl.items():
        fs = [f for f in conn.slot_targets(p, (conn.CN, op)) if not roots.is_test(f)]
        ctx.rule("operations of connections (%s)" % conf, len(fs), 1)
        for f, out, inc in R.sweep(ctx, p, fs, poll.Wrap, inline=lambda f: poll.Wrap(f).inl, depth=6):
            for (ev, flags), w in out.items():
                ctx.expect(ev == (op,), "handed over", "%s:calls" % f.name, f.name, "%s calls %s instead of %s of the polling system" % (f.name, ", ".join(ev) or "nothing", op), w)
                if x: ctx.expect(dict(flags) == dict([x]), "recorded interest", "%s:flag" % f.name, f.name, "%s leaves %s recorded" % (f.name, ", ".join("%s=%s" % y for y in flags) or "nothing"), w)
                else: ctx.expect(not flags, "recorded interest", "%s:flag" % f.name, f.name, "%s changes the recorded interest" % f.name, w)
    for op, x in (("invalidate_read", "read_valid"), ("invalidate_write", "write_valid")):
        fs = [f for f in conn.slot_targets(p, (conn.CN, op)) if not roots.is_test(f)]
        for f, out, inc in R.sweep(ctx, p, fs, poll.Wrap, inline=lambda f: poll.Wrap(f).inl, depth=6):
            for (ev, flags), w in out.items(): ctx.expect(not ev and dict(flags) == {x: 0}, "readiness withdrawn", "%s:valid" % f.name, f.name, "%s does not record that the socket is not ready (%s only)" % (f.name, x), w)
def run(ctx):
    ctx.explain.append(__doc__ + "\n" + poll.__doc__)
    used = set()
    for conf in ("epoll", "select"):
        p = ctx.prog(defines=poll.loads(None, conf)); st = static(p)
        for f in st.calls:
            if not roots.is_test(f): used |= {st.slot_of(f, i)[1] for i in st.calls[f] if (st.slot_of(f, i) or ())[:1] == (poll.PT,)}
    ctx.rule("operations of the polling system the program uses", len(used), 8)
    for conf in ("epoll", "select"): check(ctx, conf, used)

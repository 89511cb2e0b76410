"""Typestate analysis of sockets and effect analysis of the event loop: every function that makes a connection is interpreted with
the mode of its socket followed up to the opening of the connection, every socket operation of the handlers is interpreted with a
would-block result, and no blocking library function is reachable from the handlers the event loop calls."""
from vsa import conn, parser, roots, run as R
from vsa.slots import static
from vsa.ir import AnalysisBroken
BLOCKS = {"sleep", "usleep", "nanosleep", "clock_nanosleep", "connect", "gethostbyname", "gethostbyname_r", "gethostbyaddr", "getaddrinfo", "getnameinfo", "poll", "ppoll", "select", "pselect", "epoll_wait", "epoll_pwait",
 "system", "popen", "wait", "waitpid", "pthread_join", "pthread_cond_wait", "sem_wait", "flock", "lockf", "tcdrain", "pause", "sigsuspend", "sigwait", "getchar", "scanf", "fsync"}
HANDLERS = ("on_read", "on_write", "on_error", "on_handshake")
def run(ctx):
    p = ctx.prog(); st = static(p); ctx.explain.append(__doc__ + "\n" + conn.__doc__)
    conn.Conn.prog = p; conn.Conn.pf = frozenset(parser.find(p))
    cr = conn.creators(p); ctx.rule("functions that make a connection of a socket", len(cr), 1)
    hs = {t for h in HANDLERS for t in conn.slot_targets(p, (conn.CN, h))}; ctx.rule("handlers of the event loop", len(hs), 4)
    ents = set(hs)
    for f in st.calls:
        if not roots.is_test(f) and f not in cr and any(t in cr for i in st.calls[f] for t in st.targets(f, i)): ents |= {f} if roots.big(f) else conn.tops(p, f)
    made = 0; waits = 0
    for f, (out, bad, good, _), inc in R.sweep(ctx, p, sorted(ents, key=lambda f: (f.file, f.name)), conn.Mode, inline=lambda r: conn.Mode(r).inl, depth=6):
        if inc: ctx.open("%s:cut" % f.name, "analysis of %s stopped early" % f.name)
        for k, (msg, w) in sorted(bad.items()):
            if k.split(":")[0] in ("blocking", "mode", "waits"): ctx.bad("%s:%s" % (f.name, k), msg, w, "entry " + f.name)
        for (rule, w), n in good.items():
            if rule in ("socket of a new connection", "non-blocking mode", "transfer", "accept"): ctx.ok(rule, "%s %s" % (n, w)); made += rule == "socket of a new connection"
        for (r, kind, lib, cls), evs in sorted(out.items()):
            if cls != "would" and (kind, cls) != ("accept", "none"): continue
            waits += 1
            for ev, w in sorted(evs):
                key = "%s:%s-%s" % (r, kind, lib or "accept"); op = {"in": "reading", "out": "writing", "shake": "the handshake", "accept": "accepting"}[kind]
                other = any(x in ev for x in ("open",))
                ctx.expect(ev[-1] == "return" or kind == "shake" and "status=3" in ev, "would-block result waits", key + ":retry", "%s %s" % (r, op), "%s tries again in place after %s would have blocked" % (r, op), w)
                if kind != "accept" or "close" in ev: ctx.expect("close" not in ev, "would-block result is no error", key + ":close", "%s %s" % (r, op), "%s closes the connection because %s would have blocked" % (r, op), w)
    ctx.rule("sockets made into connections", made, 3); ctx.rule("would-block results", waits, 5)
    # blocking functions
    seen = {}; w = [(h, (h.name,)) for h in sorted(hs, key=lambda f: f.name)]
    for t in sorted({t for s in (("io_connection_t", "on_data"), (conn.DT, "callback")) for t in conn.slot_targets(p, s)}, key=lambda f: f.name): w.append((t, (t.name,)))
    while w:
        f, path = w.pop(0)
        if f in seen: continue
        seen[f] = path; ctx.fns.add(f.name)
        for i in st.calls.get(f, ()):
            for t in st.targets(f, i):
                nm = t if isinstance(t, str) else None
                if nm in BLOCKS: ctx.bad("blocks:%s:%s" % (f.name, nm), "%s, which runs in the event loop, calls %s and waits for it" % (f.name, nm), i.where, " -> ".join(path))
                elif nm is None and t not in seen and not roots.is_test(t): w.append((t, path + (t.name,)))
    ctx.ok("no blocking call", "%d functions reachable from the handlers" % len(seen), len(seen)); ctx.rule("functions reachable from the handlers", len(seen), 50)

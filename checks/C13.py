"""Typestate analysis: the function that closes a connection is interpreted from every status, for plain and encrypted connections,
and the events of every path are compared with what closing demands; every function that closes connections, or runs below one
that may, is interpreted to the end to show that nothing is done with a connection that was closed."""
from vsa import conn, parser, roots, run as R
from vsa.slots import static
from vsa.ir import AnalysisBroken
ONCE = ("on_close", "unregister", "removed from the list", "socket closed")
KINDS = {"null": "", "reopen": "", "io": ""}
def users(p):
    """where the analysis of code that closes connections starts"""
    st = static(p); r = set()
    for f in st.calls:
        if not roots.is_test(f) and any((st.slot_of(f, i) or ())[:2] == (conn.CN, "close_connection") for i in st.calls[f]): r |= conn.tops(p, f)
    return r
def run(ctx):
    p = ctx.prog(); st = static(p); ctx.explain.append(__doc__ + "\n" + conn.__doc__)
    conn.Conn.prog = p; conn.Conn.pf = frozenset(parser.find(p))
    cl = conn.closers(p); ctx.rule("functions that close a connection", len(cl), 1)
    live = ({x for x in conn.called(p) if x in conn.Conn.opaque} | {"close_connection", "open_connection"}) & set(conn.offsets(p, conn.CN))
    sites = set()
    for status in (1, 3, 2):
        for secure in (False, True):
            nm = {1: "open", 2: "closed", 3: "handshaking"}[status] + (" encrypted" if secure else "")
            for f, (ends, bad, good), inc in R.sweep(ctx, p, cl, lambda f: conn.Closer(f, status, secure), inline=lambda r: conn.Closer(r, 1, False).inl, depth=6):
                if inc: ctx.open("%s:cut" % f.name, "analysis of %s stopped early" % f.name)
                if not ends: raise AnalysisBroken("no path through %s" % f.name)
                for (rule, w), n in good.items(): sites.add(w)
                for ev, fin, nul, wrote, w in sorted(ends, key=str):
                    def need(c, k, msg): ctx.expect(c, "closing: " + k, "%s:%s:%s" % (f.name, nm.replace(" ", "-"), k), "%s of an %s connection: %s" % (f.name, nm, " ".join(ev)), "%s, closing an %s connection: %s" % (f.name, nm, msg), w)
                    if status == 2:
                        need(not ev and not wrote, "idle", "a connection that is already closed is closed again (%s)" % (", ".join(ev) or "its fields change")); continue
                    for x in ONCE:
                        n = sum(1 for y in ev if y.split(" while")[0] == x)
                        need(n == 1, x, "%s happens %d times" % (x, n))
                    need(fin == "2", "status", "the status of the connection does not end as closed")
                    need(not any(y == "on_close while open" for y in ev), "guard", "the close notification runs while the connection does not count as closed yet, it may be closed again from there")
                    o = [y.split(" while")[0] for y in ev]
                    if "unregister" in o and "socket closed" in o: need(o.index("unregister") < o.index("socket closed"), "order", "the socket is closed before its events are removed from the polling system")
                    for x in sorted(live - set(nul)): need(False, "left " + x, "%s can still be called on the closed connection" % x)
                    ctx.ok("operations emptied", "%s: %s" % (f.name, " ".join(nul)), len(live))
    # code that closes connections
    us = users(p); ctx.rule("functions that close connections", len(us), 5)
    for f, (out, bad, good), inc in R.sweep(ctx, p, sorted(us, key=lambda f: (f.file, f.name)), conn.Conn, inline=lambda r: conn.Conn(r).inl, depth=6):
        if inc: ctx.open("%s:cut" % f.name, "analysis of %s stopped early" % f.name)
        for k, (msg, w) in sorted(bad.items()):
            if k.split(":")[0] in KINDS: ctx.bad("%s:%s" % (f.name, k), msg, w, "entry " + f.name)
        for (rule, w), n in good.items():
            if rule in ("close", "status"): ctx.ok(rule, "%s %s" % (n, w))
        for (r, kind, lib, cls), evs in sorted(out.items()):
            for ev, w in evs:
                if "closed again" in ev: ctx.bad("%s:again" % r, "%s closes a connection again after it was closed" % r, w)
                elif ev.count("close") > 1: ctx.bad("%s:twice" % r, "%s closes a connection more than once" % r, w)
    # the socket of a connection is closed nowhere else
    n = 0
    for f in p.fns.values():
        if roots.is_test(f): continue
        for i in f.instrs():
            if i.op == "call" and i.x.k == "g" and i.x.v in ("close", "closesocket", "shutdown") and i.a and i.a[0].k == "loc":
                d = st.defs[f].get(i.a[0].v); a = st.addr(f, d.a[0]) if d is not None and d.op == "load" else ("?",)
                if a[:3] == ("tag", conn.CN, "socket_handle"):
                    n += 1; ctx.expect(i.where in sites, "socket closed by the closing function", "socket:%s" % f.name, "%s %s" % (f.name, i.where), "%s closes the socket of a connection outside the function that closes connections" % f.name, i.where)
    ctx.rule("closing of connection sockets", n, 1)

"""Typestate analysis of encrypted connections next to plain ones: the read, write, accept and handshake handlers are interpreted with
the results of the plain and of the encrypted library split in the same classes, and the answers to each class have to be the same;
the session released by the closing function and the handlers called for connections that are still in their handshake are part of it."""
from vsa import conn, parser, roots, run as R
from vsa.slots import static
from vsa.ir import AnalysisBroken
NAME = {"in": "reading", "out": "writing"}
CLS = {"data": "data was read", "end": "the other side ended the stream", "would": "the operation would block", "fail": "the operation failed", "all": "everything was sent", "part": "part was sent"}
def shut(ev): return ev.count("close") + ev.count("closed by it")
def answers(ctx, root, kind, lib, cls, ev, w):
    key = "%s:%s-%s:" % (root, kind + "-" + lib, cls); what = "%s, %s %s: %s" % (root, lib, cls, " ".join(ev))
    def need(c, k, msg): ctx.expect(c, "answer: " + k, key + k, what, "%s, %s (%s) after %s: %s" % (root, NAME[kind], "encrypted" if lib == "ssl" else "plain", CLS[cls], msg), w)
    if cls in ("end", "fail"): need(shut(ev) == 1, "closed", "the connection is %s" % ("left open" if not shut(ev) else "closed more than once"))
    else: need("close" not in ev, "kept", "the connection is closed")
    if cls in ("end", "fail", "would"): need(ev[-1] != "again", "again", "the operation is tried again")
    if cls == "data": need(ev[-1] == "again" or shut(ev) or "add_outstanding" in ev, "rest", "the rest of the data waits for an event that may not come")
def run(ctx):
    p = ctx.prog(); st = static(p); ctx.explain.append(__doc__ + "\n" + conn.__doc__)
    conn.Conn.prog = p; conn.Conn.pf = frozenset(parser.find(p))
    ents = {t for h in ("on_read", "on_write", "on_handshake") for t in conn.slot_targets(p, (conn.CN, h))}
    for f in p.fns.values():
        if roots.is_test(f): continue
        for i in st.calls.get(f, ()):
            n = i.x.v if i.x.k == "g" else None
            if n in conn.SHAKE or n in conn.ACCEPT: ents |= conn.tops(p, f)
            elif (n in conn.INPUT or n in conn.OUTPUT) and i.a and i.a[0].k == "loc":
                d = st.defs[f].get(i.a[0].v); a = st.addr(f, d.a[0]) if d is not None and d.op == "load" else ("?",)
                if a[:2] == ("tag", conn.CN): ents |= conn.tops(p, f)
    ctx.rule("handlers that use sockets and sessions", len(ents), 3)
    inl = lambda r: conn.Secure(r).inl
    tab = {}; shakes = 0; accepts = 0
    for f, (out, bad, good, _), inc in R.sweep(ctx, p, sorted(ents, key=lambda f: (f.file, f.name)), conn.Secure, inline=inl, depth=6):
        if inc: ctx.open("%s:cut" % f.name, "analysis of %s stopped early" % f.name)
        for k, (msg, w) in sorted(bad.items()):
            if k.split(":")[0] in ("session", "clear", "empty", "short", "over", "lost-data"): ctx.bad("%s:%s" % (f.name, k), msg, w, "entry " + f.name)
        for (rule, w), n in good.items(): ctx.ok(rule, "%s %s" % (n, w))
        for (r, kind, lib, cls), evs in sorted(out.items()):
            for ev, w in sorted(evs):
                if kind in NAME:
                    tab.setdefault((r, kind), {}).setdefault(cls, {}).setdefault(lib, {})[ev] = w
                    answers(ctx, r, kind, lib, cls, ev, w)
                elif kind == "shake":
                    shakes += 1; s = next((x for x in ev if x.startswith("status=")), "status=?"); n = shut(ev); what = "%s %s: %s" % (r, cls, " ".join(ev))
                    if cls == "done": ctx.expect(s == "status=1" and not n, "handshake done", "%s:shake-done" % r, what, "%s: after the handshake completed the connection is %s" % (r, "closed" if n else "not open for data"), w)
                    elif cls == "would": ctx.expect(s == "status=3" and not n and ("again" not in ev or kind == "shake" and w.count(":") and ev[-1] == "again"), "handshake waits", "%s:shake-would" % r, what, "%s: when the handshake would block the connection is %s" % (r, "closed" if n else "not kept in its handshake (%s)" % s), w)
                    else: ctx.expect(s == "status=2" and n == 1, "handshake failed", "%s:shake-fail" % r, what, "%s: when the handshake failed the connection is not closed exactly once (%s)" % (r, " ".join(ev)), w)
                elif kind == "accept" and cls == "new":
                    accepts += 1; kinds = {"plain", "encrypted", "either"} & set(ev); shaken = ev[-1] == "again" and "open" in ev
                    plain = "plain" in kinds
                    # an accepted connection goes on to its handshake ("again" at the handshake), or is closed, unless its listener is known to be plain
                    nxt = w.split(":")[-1]
                    ctx.expect(plain or "close" in ev or (ev[-1] == "again" and w in sites(p, conn.SHAKE)), "accepted connection", "%s:accept-plain" % r, "%s: %s" % (r, " ".join(ev)), "%s leaves a connection accepted by an encrypted listener without handshake" % r, w)
    ctx.rule("handshake results", shakes, 6); ctx.rule("accepted connections", accepts, 2)
    n = 0
    for (r, kind), cs in sorted(tab.items()):
        for cls, libs in sorted(cs.items()):
            if cls not in CLS: continue
            if set(libs) != {"plain", "ssl"}:
                ctx.bad("%s:%s-%s:only" % (r, kind, cls), "%s handles %s connections only" % (r, "plain" if "plain" in libs else "encrypted"), next(iter(next(iter(libs.values())).values()))); continue
            a, b = set(libs["plain"]), set(libs["ssl"]); n += len(a | b)
            for ev in sorted(a ^ b):
                l = "plain" if ev in a else "ssl"
                ctx.bad("%s:%s-%s:differs" % (r, kind, cls), "%s, %s, when %s: %s connections are answered by '%s', the others never are" % (r, NAME[kind], CLS[cls], "plain" if l == "plain" else "encrypted", " ".join(ev)), libs[l][ev])
            ctx.ok("same answers", "%s %s %s: %d" % (r, kind, cls, len(a & b)), len(a & b))
    ctx.rule("answers compared", n, 8)
    # closing releases the session
    for status in (1, 3):
        for secure in (True, False):
            for f, (ends, bad, good), inc in R.sweep(ctx, p, conn.closers(p), lambda f: conn.Closer(f, status, secure), inline=lambda r: conn.Closer(r, 1, False).inl, depth=6):
                for ev, fin, nul, wrote, w in sorted(ends, key=str):
                    k = sum(1 for x in ev if x.split(" while")[0] == "session released")
                    ctx.expect(k == (1 if secure else 0), "session released", "%s:session" % f.name, "%s: %d" % (f.name, k), "%s releases the session of an %s connection %d times" % (f.name, "encrypted" if secure else "plain", k), w)
    # handlers of connections in their handshake
    tab, bad = conn.dispatch(ctx, p); hs = 0
    for (f, l), ss in sorted(tab.items(), key=lambda x: (x[0][0].file, x[0][0].name, x[0][1])):
        for ev, w in sorted(ss.get(3, {}).items()):
            key = "%s:%s" % (f.name, l[1])
            early = [x for x in ev if x in ("on_read@3", "on_write@3")]
            ctx.expect(not early, "no data before the handshake", key + ":early", "%s: %s" % (key, " ".join(ev)), "%s calls %s of a connection whose handshake is not complete" % (f.name, early[0][:-2] if early else ""), w)
            if l[1].split("_")[0] in ("read", "write") and any(x.startswith("on_") for s in ss.values() for e in s for x in e) and "outstanding" not in l[1]:
                hs += 1; ctx.expect("on_handshake@3" in ev, "handshake resumed", key + ":resume", "%s: %s" % (key, " ".join(ev)), "%s does not resume the handshake of a connection that became ready for %s" % (f.name, l[1].split("_")[0] + "ing"), w)
                if "->1" in ev: ctx.expect("on_read@1" in ev, "data after the handshake", key + ":after", "%s: %s" % (key, " ".join(ev)), "%s does not read the data that may have come with the end of the handshake" % f.name, w)
        for ev, w in sorted(ss.get(1, {}).items()): ctx.expect("on_handshake@1" not in ev, "handshake once", "%s:%s:again" % (f.name, l[1]), "%s %s" % (f.name, l[1]), "%s runs the handshake of a connection that is open" % f.name, w)
    ctx.rule("ready lists with connections in their handshake", hs, 4)
def sites(p, names):
    if "_shake" not in p.__dict__:
        st = static(p); p._shake = {i.where for f in st.calls for i in st.calls[f] if i.x.k == "g" and i.x.v in names}
    return p._shake

"""Typestate analysis of the write queue of connections: every function that touches the queue is interpreted with the results
of the socket split in classes (all sent / part sent / would block / failure), and what it does to the element at the head of
the queue after each class is compared with what the class demands."""
from vsa import conn, parser, roots, run as R
from vsa.slots import static
from vsa.ir import AnalysisBroken
INERT = ("closed by it",)
def want(ctx, root, kind, lib, cls, ev, where):
    n = lambda x: ev.count(x)
    def say(k, msg): ctx.bad("%s:%s-%s:%s" % (root, lib, cls, k), "%s, after %s: %s" % (root, {"all": "the whole element was sent", "part": "part of the element was sent", "would": "a would-block result", "fail": "a failed send", "": "no send"}[cls], msg), where)
    adv = n("advance data"), n("advance size"); setf = [x for x in ev if x.startswith("set ") and x[4:] in ("data", "size")]
    odd = [x for x in ev if x.endswith(" queue") and x != "append queue" and not (x.startswith("delete") and "drained" in ev)]
    if odd: say("order", "the queue is changed by %s" % odd[0])
    if cls == "all":
        if n("pop") < 1: say("kept", "the element stays in the queue and will be sent again")
        if n("pop") > 1: say("popped", "%d elements leave the queue" % n("pop"))
        if n("free") < 1: say("leak", "the element is not released")
        if n("data_t.callback") > 1: say("callback", "the completion callback runs %d times" % n("data_t.callback"))
        if n("close"): say("close", "the connection is closed")
    elif cls == "part":
        if adv != (1, 1) or setf: say("cursor", "the data pointer and the remaining size of the element do not move by the number of bytes sent (%s)" % ", ".join(ev))
        if n("pop") or n("free"): say("popped", "the element leaves the queue although part of it was not sent")
        if n("data_t.callback"): say("callback", "the completion callback runs although part of the element was not sent")
        if n("close"): say("close", "the connection is closed")
    elif cls in ("would", "fail"):
        if adv != (0, 0) or setf: say("cursor", "the element changes although nothing was sent (%s)" % ", ".join(ev))
        if n("data_t.callback"): say("callback", "the completion callback runs although nothing was sent")
        if cls == "would" and (n("pop") or n("free")): say("popped", "the element leaves the queue although nothing was sent")
        if cls == "would" and n("close"): say("close", "the connection is closed")
    shut = n("close") or n("closed by it"); empty = n("drained")
    if n("unregister_write") and not empty: say("unregister", "the interest in writing is dropped while elements may be queued")
    if empty and not shut and not n("unregister_write"): say("interest", "the queue is empty but the connection stays registered for writing: later data is not sent")
    ctx.ok("answer to %s" % (cls or "start"), "%s %s: %s" % (root, lib, " ".join(ev)))
def run(ctx):
    p = ctx.prog(); st = static(p); ctx.explain.append(__doc__ + "\n" + conn.__doc__)
    conn.Conn.prog = p; conn.Conn.pf = frozenset(parser.find(p))
    handlers = set(conn.slot_targets(p, (conn.CN, "on_write")))
    ents = set(handlers)
    for g in conn.loads(p, (conn.CN, "write_queue")): ents |= conn.tops(p, g)
    ctx.rule("functions that touch the write queue", len(ents), 3)
    class Q(conn.Queue): start = True
    inl = lambda r: Q(r).inl
    res = R.sweep(ctx, p, sorted(ents, key=lambda f: (f.file, f.name)), Q, inline=inl, depth=6)
    seen = {}; sent = 0; appends = 0; sites = set()
    for f, (out, bad, good, ops), inc in res:
        if inc: ctx.open("%s:cut" % f.name, "analysis of %s stopped early" % f.name)
        for k, (msg, w) in bad.items():
            if k.split(":")[0] in ("io", "dead", "null", "parse", "unclosed"): continue
            ctx.bad("%s:%s" % (f.name, k), msg, w, "entry " + f.name)
        for (rule, w), n in good.items(): ctx.ok(rule, "%s %s" % (n, w)); sites.add(w)
        seen.update(ops)
        for (r, kind, lib, cls), evs in sorted(out.items()):
            if kind == "out": sent += 1
            for ev, w in sorted(evs):
                if kind == "out": want(ctx, r, kind, lib, cls, ev[:-1], w)
                elif kind == "start":
                    if f in handlers: want(ctx, r, kind, "", "", ev[:-1], w)
                    elif "append queue" in ev:
                        appends += 1; k = ev.index("append queue")
                        ctx.expect(ev.count("append queue") == 1, "queued once", "%s:queued" % r, "%s" % r, "%s queues the data %d times" % (r, ev.count("append queue")), w)
                        ctx.expect("register_write" in ev[k:], "interest taken", "%s:interest" % r, r, "%s queues data without registering the connection for writing afterwards" % r, w)
                    elif "pop" in ev or "drained" in ev:
                        ctx.expect("drained" in ev, "queue emptied", "%s:undrained" % r, r, "%s can end with elements left in the queue" % r, w)
                    for x in ev:
                        if x.endswith(" queue") and x != "append queue" and not (x.startswith("delete") and "drained" in ev): ctx.bad("%s:order" % r, "%s changes the queue by %s" % (r, x), w)
    ctx.rule("classes of send results", sent, 4); ctx.rule("paths that queue data", appends, 1)
    # nothing is sent around the queue, no completion callback runs elsewhere
    for f in p.fns.values():
        if roots.is_test(f): continue
        for i in st.calls.get(f, ()):
            so = st.slot_of(f, i) or ()
            if so[:2] == (conn.DT, "callback") and i.where not in sites: ctx.bad("callback:%s" % f.name, "%s runs a completion callback outside the functions that empty the queue" % f.name, i.where)
            name = i.x.v if i.x.k == "g" else None
            if name in conn.OUTPUT and i.a:
                k = 0
                a = st.defs[f].get(i.a[0].v) if i.a[0].k == "loc" else None
                t = st.addr(f, a.a[0]) if a is not None and a.op == "load" else ("?",)
                if t[0] == "tag" and t[1] == conn.CN and len(t) == 3 and i.where not in sites: ctx.bad("around:%s" % f.name, "%s sends on a connection around its queue" % f.name, i.where)

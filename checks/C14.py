"""Lifetime analysis of connections in the event loop: for both polling systems, the operations that queue and unqueue a connection are
interpreted to find the lists that can hold it, and polling, dispatching and closing are interpreted to show which of those lists are gone
through, up to which size, in which order, and what is left in them after connections are destroyed."""
from vsa import conn, poll, roots
from vsa.slots import static
from vsa.ir import AnalysisBroken
def purge(ctx, p, lists):
    """removal of a connection: it is queued for destruction once and leaves every other list"""
    for status in (1, 2, 3):
        for wr in (0, 1):
            cell = dict(poll.BASE, status=status, write_registered=wr, remove=1)
            for f, (out, bad, S, loops, opens, low) in poll.run(ctx, p, "unregister_connection", lambda f: poll.Op(f, cell)):
                for k, m in opens.items(): ctx.open("%s:%s" % (f.name, k), m)
                if not out: raise AnalysisBroken("no path through %s" % f.name)
                moves = any(e[0].startswith("stores") for k in out for e in k[0])
                for o in lists["outstanding"]:
                    for w, n in loops.get(o, {}).items(): ctx.expect(n <= 1 or moves, "whole list gone through", "%s:cut-short:%s" % (f.name, o), "%s: %s" % (f.name, o), "%s stops going through %s before its end, the connections behind it are lost" % (f.name, o), w)
                for lw, w in low.items():
                    for o in lists["outstanding"]: ctx.expect(dict(lw).get(o + "_size", 0) <= 0, "pending count may reach zero", "%s:low:%s" % (f.name, o), "%s: %s" % (f.name, o), "%s leaves connections counted in %s even when there are none" % (f.name, o), w)
                for (ev, own, fin, io, hi, ats), w in out.items():
                    fin = dict(fin); at = dict(ats); own = set(own); nm = f.name
                    app = [e[1] for e in ev if e[0] == "append"]; wild = [e[1] for e in ev if e[0].startswith("stores")]
                    for x in wild: ctx.open("%s:moves" % nm, "%s moves elements of %s in a way that is not followed" % (nm, x))
                    there = any((r, "dropped") in own for r in lists["removal"])
                    ctx.expect(len(app) == (0 if there else 1) and all(a in lists["removal"] for a in app), "queued once for destruction", "%s:queue" % nm, "%s: %s" % (nm, "already queued" if there else "appended"),
                               "%s, removing a connection %s, puts it on the lists %s" % (nm, "that is queued for destruction already" if there else "that is not queued yet", ", ".join(app) or "(none)"), w)
                    for a in app: ctx.expect(at.get(a) is True, "appended at the end", "%s:place:%s" % (nm, a), "%s: %s" % (nm, a), "%s does not put the connection at the end of %s and count it" % (nm, a), w)
                    for o in lists["outstanding"]:
                        cl = {c for l, c in own if l == o}
                        ctx.expect("dropped" in cl and not cl & {"kept", "kept unseen", "unseen"}, "pending work forgotten", "%s:purge:%s" % (nm, o), "%s: %s" % (nm, o),
                                   "%s leaves the connection it removes in %s" % (nm, o) if cl else "%s never looks for the connection it removes in %s" % (nm, o), w)
                        ctx.expect("others left" not in cl, "other work kept", "%s:others:%s" % (nm, o), "%s: %s" % (nm, o), "%s may drop other connections from %s" % (nm, o), w)
                        z = fin.get(o + "_size")
                        ctx.expect(z is not None and o + "_size" not in str(z) , "pending count updated", "%s:count:%s" % (nm, o), "%s: %s" % (nm, o), "%s does not update the number of connections in %s" % (nm, o), w)
def check(ctx, conf, ends_of):
    p = ctx.prog(defines=poll.loads(None, conf)); st = static(p); poll.Op.prog = p
    dl = [p.need("delete_connection")]; lists = poll.roles(ctx, p)
    ctx.rule("lists of connections to destroy (%s)" % conf, len(lists["removal"]), 1); ctx.rule("lists of pending connections (%s)" % conf, len(lists["outstanding"]), 2)
    purge(ctx, p, lists)
    filled = set(); seen = {}; dead = {}
    for op in ("poll", "call", "close"):
        for f, (bad, good, visits, waits, iters, ends, opens, S) in poll.run(ctx, p, op, lambda f: poll.Round(f, lists, dl)):
            for k, m in opens.items(): ctx.open("%s:%s" % (f.name, k), m)
            for k, (m, w) in sorted(bad.items()):
                if not k.startswith("again:"): ctx.bad("%s:%s" % (f.name, k), m, w, "entry " + f.name)
            for k, w in good.items():
                if k[0] == "destroyed": dead.setdefault(op, set()).add(k[1]); ctx.ok("destroyed from the list", "%s %s" % (k[1], w))
                if k[0] == "dispatch": ctx.ok("dispatched before destruction", "%s %s" % (k[1], w))
            for l, ws in visits.items():
                for w, n in ws.items(): ctx.ok("list gone through up to its size", "%s: %s %s" % (n, l, w))
            if not ends: raise AnalysisBroken("no path through %s" % f.name)
            if op == "poll":
                for t, adds in iters: filled |= set(adds)
                seen[f] = ends
            if op == "call": used = set(visits) - set(lists["removal"]) - set(lists["outstanding"])
            if op in ("call", "close"):
                for waited, fresh, fin, gone, w in ends:
                    fin = dict(fin)
                    for r in lists["removal"]:
                        if op == "call": ctx.expect(fin.get(r + "_size") == 0, "list emptied", "%s:left:%s" % (f.name, r), "%s: %s" % (f.name, r), "%s returns with connections it destroyed left in %s" % (f.name, r), w)
            if op != "poll":
                for r in lists["removal"]: ctx.expect(r in dead.get(op, ()), "queued connections destroyed", "%s:never:%s" % (f.name, r), "%s: %s" % (f.name, r), "%s does not destroy the connections of %s" % (f.name, r), f.key[0] if isinstance(f.key, tuple) else f.file)
    ctx.rule("lists of ready connections (%s)" % conf, len(used & filled), 3)
    for f, ends in seen.items():
        for waited, fresh, fin, gone, w in ends:
            for l in sorted(used):
                ctx.expect(l + "_size" in fresh and waited or dict(fin).get(l + "_size") == 0, "ready lists renewed", "%s:stale:%s" % (f.name, l), "%s: %s" % (f.name, l), "%s may return with the connections of an earlier round in %s" % (f.name, l), w)
    # nothing else destroys connections, and what is removed from the polling system is queued
    n = 0
    for f in st.calls:
        if roots.is_test(f): continue
        for i in st.calls[f]:
            if any(t in dl for t in st.targets(f, i)):
                n += 1; tops = conn.tops(p, f)
                ok = all(t.key in ends_of for t in tops)
                ctx.expect(ok, "destroyed by the event loop only", "%s:destroys" % f.name, "%s %s" % (f.name, i.where), "%s destroys a connection outside of the end of a round" % f.name, i.where)
            if (st.slot_of(f, i) or ())[:2] == (poll.PT, "unregister_connection"):
                a = i.a[2]
                ctx.expect(a.k == "int" and a.v != 0, "removed for good", "%s:remove" % f.name, "%s %s" % (f.name, i.where), "%s removes a connection from the polling system without queueing it for destruction" % f.name, i.where)
    ctx.rule("calls that destroy a connection (%s)" % conf, n, 2)
def run(ctx):
    ctx.explain.append(__doc__ + "\n" + poll.__doc__)
    confs = ("epoll", "select"); ends_of = {f.key for c in confs for op in ("call", "close") for f in poll.targets(ctx.prog(defines=poll.loads(None, c)), op)}
    for conf in confs: check(ctx, conf, ends_of)
    # a connection that was closed is not used by what is dispatched later in the round
    p = ctx.prog(); tab, bad = conn.dispatch(ctx, p)
    for k, (msg, w) in sorted(bad.items()): ctx.bad("dispatch:" + k, msg, w)
    n = 0
    for (f, l), t in sorted(tab.items(), key=lambda x: (x[0][0].file, x[0][0].name, str(x[0][1]))):
        for ev, w in t.get(2, {}).items():
            n += 1; on = [e for e in ev if str(e).startswith("on_")]
            ctx.expect(not on, "closed connections skipped", "%s:%s:closed" % (f.name, l), "%s: %s" % (f.name, l), "%s calls %s of a connection that was closed earlier in the round" % (f.name, ", ".join(map(str, on))), w)
    ctx.rule("dispatch loops", n, 3)

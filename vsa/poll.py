"""The operations of a polling system (the targets of the slots of polling_t) are interpreted with one connection in a given recorded
state.  What an operation does to the kernel's view and to the lists is a sequence of events: epoll_ctl calls with their operation,
event bits, descriptor and pointer; bits set or cleared in the descriptor sets; the connection appended to a list; elements of a list
kept or dropped; and the fields it leaves behind."""
from .ai import Monitor, V, V0, Lin, INF
from .conn import CN, offsets, OPEN, Conn
from .slots import static
from . import roots, conn
PT = "polling_t"
OPS = ("register_connection", "unregister_connection", "register_read", "unregister_read", "register_write", "unregister_write", "add_outstanding")
IN, OUT, ERR, HUP, ET = 1, 4, 8, 16, 1 << 31
class Op(Monitor):
    """mon: C = connection, L = state of the polling system, ev = events, own = lists in which the connection was met"""
    prog = None
    def __init__(s, root, cell):
        s.root = root; s.cell = cell; s.out = {}; s.bad = {}; s.S = None; s.loops = {}; s.opens = {}; s.low = {}
    def result(s): return (s.out, s.bad, s.S, {fd: {w: exits_of(i.fn, i) for w, i in d.items()} for fd, d in s.loops.items()}, s.opens, s.low)
    def key(s, st): return st.mon.get("ev")
    def join(s, a, b, n, jv):
        """what is known of the current element ends here; what was seen of the lists is kept of both"""
        r = {k: a.mon[k] for k in a.mon if k in b.mon and a.mon[k] == b.mon[k]}
        own = a.mon["own"] | b.mon["own"]
        for x in (a, b):
            if "el" in x.mon: own |= {s.seen(x)}
        r.pop("el", None); r["own"] = own
        return r
    def on_entry(s, st, f, args):
        s.offs = offsets(s.prog, CN); e = s.eng
        st.mon["ev"] = (); st.mon["own"] = frozenset()
        b = e.split(args[1].l)[0]; st.mon["C"] = b; st.iv[b] = (4096, INF)
        if s.cell is None: return
        m = dict(st.mem.get(b, {}))
        for k in ("status", "write_registered", "read_registered", "write_valid", "is_outstanding"):
            o, z = s.offs[k]; m[o] = (V(Lin(s.cell[k])), z)
        o, z = s.offs["on_write"]
        if s.cell["on_write"]: m[o] = (V(e.lin(e.sym(("on_write",), "ext", 4096, INF, "on_write"))), z)
        else: m[o] = (V0, z)
        o, z = s.offs["socket_handle"]; s.h = e.sym(("handle",), "ext", 0, 1023, "socket_handle"); m[o] = (V(e.lin(s.h)), z)
        st.mem[b] = m
        if len(args) > 2 and "remove" in s.cell:
            y = e.split(args[2].l)
            st.iv[args[2].l.t[0][0]] = (s.cell["remove"],) * 2
    def on_init(s, st, f, ins, y, base, off, tag, ty):
        if base is st.mon.get("L"):
            fd = s.field(st, off)
            if fd and (fd.endswith("_size") or fd.endswith("_capacity") or fd.endswith("_count")): y.lo, y.hi = 0, 1 << 20
            elif fd and s.fields[fd][1] <= 8 and ty is not None and ty.k == "ptr": y.lo = 4096
            elif fd == "sockets_set_highest": y.lo, y.hi = -1, 1023
        return None
    def event(s, st, x): st.mon["ev"] = (st.mon.get("ev", ()) + (x,))[-10:]
    # ---- the state of the polling system
    def on_gep(s, st, i, b, r, cx):
        if s.S is None and s.eng.split(b.l)[0] is st.mon.get("L") and s.eng.split(b.l)[0] is not None and i.x.k == "named":
            n = i.x.name.replace("%", "").replace("struct.", "").strip('"')
            if offsets(s.prog, n): s.S = n; s.fields = offsets(s.prog, n)
    fields = {}
    def field(s, st, off):
        """field of the polling state an address range lies in"""
        l = st.norm(off) if not isinstance(off, int) else Lin(off); lo, hi = st.lo(l), st.hi(l)
        for n, (o, z) in s.fields.items():
            if o <= lo and hi < o + z: return n
        for n, (o, z) in s.fields.items():
            if l.t and z > 8 and o <= l.c < o + z and all(k > 0 and k % 8 == 0 for _, k in l.t): return n
        return None
    def on_load(s, st, i, p, v, cx):
        if i.ty.k != "ptr": return None
        a = s.eng.st.addr(i.fn, i.a[0])
        if a[:3] == ("tag", PT, "lower"):
            st.mon["L"] = s.eng.split(v.l)[0]; return None
        b, o = s.eng.split(p.l); L = st.mon.get("L")
        if b is not None and b is L:
            fd = s.field(st, o)
            if fd and s.fields[fd][1] > 8: return s.element(st, i, fd, p)
        elif b is not None and b in st.mon.get("heap", {}) : return s.element(st, i, st.mon["heap"][b], p)
        if b is L and b is not None:
            fd = s.field(st, o); h = s.eng.split(v.l)[0]
            if fd and h is None and len(v.l.t) == 1 and v.l.t[0][0].lo != v.l.t[0][0].hi and fd + "_size" in s.fields and st.norm(v.l) != Lin(0):
                h = s.eng.sym(("list", fd, i.where), "ext", 4096, INF, "list " + fd, ("ptr", None)); s.eng.forget(st, h)
                o2, z2 = s.fields[fd]; st.mem[L] = {**st.mem.get(L, {}), o2: (V(s.eng.lin(h)), z2)}
                st.mon["heap"] = {**st.mon.get("heap", {}), h: fd}
                return V(s.eng.lin(h))
            if fd and h is not None and fd + "_size" in s.fields: st.mon["heap"] = {**st.mon.get("heap", {}), h: fd}
        return None
    def element(s, st, i, fd, p):
        """an element of a list is looked at: it is another connection or this one"""
        el = st.mon.get("el"); at = st.norm(p.l)
        if el and el[3] == at and i not in st.mon["by"]: st.mon["by"] = st.mon["by"] | {i}; return V(s.eng.lin(el[0]))
        s.close_el(st, i)
        b = s.eng.sym(("element", fd), "ext", 4096, INF, "element of " + fd, ("ptr", None)); s.eng.forget(st, b)
        st.mon["el"] = (b, fd, i.where, at); st.mon["by"] = frozenset((i,)); s.loops.setdefault(fd, {})[i.where] = i; st.mon["kept"] = False
        return V(s.eng.lin(b))
    def mine(s, st, l):
        """True / False / None: the pointer is the connection"""
        d = st.norm(l.add(s.eng.lin(st.mon["C"]), -1))
        if d == Lin(0) or st.eq0(d): return True
        if st.ne0(d): return False
        return None
    def seen(s, st):
        el = st.mon["el"]; m = s.mine(st, s.eng.lin(el[0])); kept = st.mon.get("kept")
        return (el[1], {True: "kept" if kept else "dropped", None: "kept unseen" if kept else "unseen", False: "others kept" if kept else "others left"}[m])
    def close_el(s, st, i):
        if "el" in st.mon: st.mon["own"] = st.mon["own"] | {s.seen(st)}; del st.mon["el"]; st.mon.pop("kept", None)
    def on_store(s, st, i, p, v, cx):
        e = s.eng; b, o = e.split(p.l); L = st.mon.get("L")
        if b is None: return
        if b is L:
            fd = s.field(st, o)
            if fd is None: s.opens["%s:%s" % (i.fn.name, "store")] = "%s stores outside of one known field of the polling state" % i.fn.name; return
        elif b in st.mon.get("heap", {}): fd = st.mon["heap"][b]
        else: return
        big = b is not L or s.fields[fd][1] > 8
        if i.a[0].ty.k == "ptr" and big:
            el = st.mon.get("el")
            if v.l == e.lin(st.mon["C"]): s.event(st, ("append", fd)); st.mon["at"] = {**st.mon.get("at", {}), fd: (b is L, o)}
            elif el and v.l == e.lin(el[0]): st.mon["kept"] = True
            else: s.event(st, ("stores something in", fd))
        elif i.a[0].ty.k == "ptr":
            h = e.split(v.l)[0]
            if h is not None: st.mon["heap"] = {**st.mon.get("heap", {}), h: fd}
        elif big:
            d = st_def(e, i.fn, i.a[0]); k = "set" if d is not None and d.op == "or" else "clear" if d is not None and d.op == "and" else "changes"
            own = s.handle(st, i.fn, i.a[1]); s.event(st, ("bit", fd, k, own))
    def handle(s, st, f, v):
        """the number of the descriptor in a set is the socket of the connection"""
        e = s.eng; seen = set(); w = [v]; r = None; y = e.lin(s.h) if s.cell else None
        while w:
            x = w.pop()
            if x.k != "loc" or (x.v in seen): continue
            seen.add(x.v); d = st_def(e, f, x)
            l = st.env.get(x.v)
            if l is not None and y is not None and st.norm(l.l) == y: return True
            if d is None: continue
            w += [a for a in d.a if hasattr(a, "k")] if d.op in ("gep", "sdiv", "udiv", "lshr", "ashr", "sext", "zext", "trunc", "and", "srem", "urem", "shl", "add", "sub", "freeze") else []
        return False
    def on_alloc(s, st, i, y, size, cx):
        st.mon["new"] = (y, size)
    # ---- calls
    def on_call(s, st, i, fns, exts, slot, args, cx):
        e = s.eng; name = exts[0] if len(exts) == 1 and not fns else None
        if name == "epoll_ctl":
            op = st.norm(args[1].l); fd = st.norm(args[2].l) == (e.lin(s.h) if s.cell else None)
            b, o = e.split(args[3].l); bits = ptr = None
            if b is not None:
                m = st.mem.get(b, {}); o = st.norm(o)
                if o.const():
                    x = m.get(o.c); y = m.get(o.c + 4)
                    if x: bits = st.norm(x[0].l); bits = bits.c & 0xffffffff if bits.const() else "?"
                    if y: ptr = y[0].l == e.lin(st.mon["C"])
            r = []
            for res in (0, -1):
                t = st.copy(); t.mon = dict(st.mon); s.event(t, ("ctl", op.c if op.const() else "?", bits, fd, ptr, res)); r.append((t, V(Lin(res))))
            return r
        if name in ("realloc",) or fns and fns[0].name in ("realloc",): return None
        return None
    def inline(s, st, i, t, slot, args): return s.inl(t)
    def inl(s, t): return t.file == s.root.file or roots.size(t) < 120
    def on_return(s, st, i, v, cx, depth):
        if depth != 1: return
        s.close_el(st, i); e = s.eng; L = st.mon.get("L"); fin = {}
        cells = st.mem.get(L, {}) if L is not None else {}
        for n, (o, z) in s.fields.items():
            if z <= 8 and o in cells:
                y = e.syms.get(("init", L, Lin(o), z)) if 0 else None
                fin[n] = cells[o][0]
        d = {}
        for n, x in fin.items():
            l = st.norm(x.l)
            d[n] = "%s" % (repr(l),) if len(l.t) > 1 or l.const() else (l.t[0][0].name, l.t[0][1], l.c)
        C = st.mem.get(st.mon["C"], {}); io = C.get(s.offs["is_outstanding"][0])
        io = st.norm(io[0].l) if io else None
        hi = None
        if "sockets_set_highest" in fin and s.cell: hi = st.ge(st.norm(fin["sockets_set_highest"].l).add(e.lin(s.h), -1))
        ats = {}
        for fd, (inl, o) in st.mon.get("at", {}).items():
            z = fin.get(fd + "_size"); ats[fd] = None
            if z is not None and fd + "_size" not in ats: ats[fd] = st.norm(o).addc(-s.fields[fd][0] if inl else 0) == st.norm(st.norm(z.l).addc(-1).scale(8))
        low = tuple(sorted((n, st.lo(st.norm(x.l))) for n, x in fin.items() if n.endswith("_size")))
        s.low.setdefault(low, i.where)
        s.out.setdefault((st.mon["ev"], st.mon["own"], tuple(sorted((k, str(x)) for k, x in d.items())), io.c if io is not None and io.const() else None, hi, tuple(sorted(ats.items(), key=str))), i.where)
BASE = dict(status=OPEN, write_registered=0, read_registered=1, write_valid=1, is_outstanding=0, on_write=1)
def loads(p, conf): return ("VSA_NO_EPOLL",) if conf == "select" else ()
def targets(p, op): return [f for f in conn.slot_targets(p, (PT, op)) if not roots.is_test(f)]
def run(ctx, p, op, make, opened=True):
    """interprets the targets of one slot"""
    from . import run as R
    r = []
    for f, m, inc in R.sweep(ctx, p, targets(p, op), make, inline=lambda f: make(f).inl, depth=6):
        if inc: ctx.open("%s:cut" % f.name, "analysis of %s stopped early" % f.name)
        r.append((f, m))
    return r
def roles(ctx, p):
    """lists the connections to destroy and the pending connections are appended to, found from what the operations do"""
    Op.prog = p; rem, pend = set(), set()
    for op, kw, s in (("unregister_connection", dict(remove=1), rem), ("register_write", {}, pend), ("add_outstanding", dict(), pend)):
        for f, (out, bad, S, loops, opens, low) in run(ctx, p, op, lambda f: Op(f, dict(BASE, **kw))):
            for ev, own, fin, io, hi, ats in out: s |= {e[1] for e in ev if e[0] == "append"}
    ch = set(x + y for x in rem | pend for y in ("", "_size", "_capacity"))
    return {"removal": tuple(sorted(rem)), "outstanding": tuple(sorted(pend)), "changed": tuple(sorted(ch))}
def st_def(e, f, v):
    return e.st.index(f).get(v.v) if v.k == "loc" else None

def exits_of(f, i):
    """number of edges that leave the innermost loop around an instruction"""
    from . import cfg
    nm = lambda b: getattr(b, "name", b)
    me = nm(i.blk); best = None
    for b in f.order:
        w = [nm(p) for p in f.blocks[b.name].pred]; r = {nm(q) for q in cfg.reach(f, [b.name])}
        back = [p for p in w if p in r and cfg_dom(f, b.name, p)]
        if not back: continue
        body = {b.name}; w = list(back)
        while w:
            x = w.pop()
            if x in body: continue
            body.add(x); w += [nm(p) for p in f.blocks[x].pred]
        if me in body and (best is None or len(body) < len(best)): best = body
    if best is None: return 0
    return sum(1 for x in best for q in f.blocks[x].succ if nm(q) not in best)
def cfg_dom(f, a, b):
    """block a is on every way from the entry to b"""
    nm = lambda x: getattr(x, "name", x)
    seen = set(); w = [f.order[0].name]
    if a == f.order[0].name: return True
    while w:
        x = w.pop()
        if x == a or x in seen: continue
        if x == b: return False
        seen.add(x); w += [nm(q) for q in f.blocks[x].succ]
    return True
def loop_of(f, i):
    """(branch, bound, index) of the counting loop around the access i: index from zero, step one, left only at the bound"""
    from . import cfg
    d = {x.res: x for b in f.order for x in b.ins if x.res}
    def strip(v):
        while v.k == "loc" and d.get(v.v) is not None and d[v.v].op in ("zext", "sext", "freeze"): v = d[v.v].a[0]
        return v
    g = d.get(i.a[0 if i.op == "load" else 1].v) if i.a[0 if i.op == "load" else 1].k == "loc" else None
    if g is None or g.op != "gep": return None
    for x in g.a[1:]:
        v = strip(x)
        ph = d.get(v.v) if v.k == "loc" else None
        if ph is None or ph.op != "phi": continue
        init = step = None
        for b, w in ph.x:
            if w.k == "int" and w.v == 0: init = 0
            elif w.k == "loc":
                s = d.get(w.v)
                if s is not None and s.op == "add" and s.a[0].k == "loc" and s.a[0].v == ph.res and s.a[1].k == "int" and s.a[1].v == 1: step = 1
                else: step = "?"
        if init != 0 or step != 1: continue
        # the loop: blocks that reach the head and are reached from it
        head = ph.blk if not isinstance(ph.blk, str) else f.blocks[ph.blk]
        name = getattr(head, "name", head)
        body = set(); w = [p for p in f.blocks[name].pred]
        w = [getattr(p, "name", p) for p in w]
        back = [p for p in w if p in {getattr(q, "name", q) for q in cfg.reach(f, [name])}]
        body = {name}; w = list(back)
        while w:
            b = w.pop()
            if b in body: continue
            body.add(b); w += [getattr(p, "name", p) for p in f.blocks[b].pred]
        exits = [(b, t) for b in body for t in (getattr(q, "name", q) for q in f.blocks[b].succ) if t not in body]
        if len(exits) != 1: continue
        br = f.blocks[exits[0][0]].ins[-1]
        c = d.get(br.a[0].v) if br.a and br.a[0].k == "loc" else None
        if c is None or c.op != "icmp": continue
        a, b = strip(c.a[0]), strip(c.a[1])
        if a.k == "loc" and a.v == ph.res and c.x in ("ult", "slt", "ne"): return br, c.a[1], ph
        if b.k == "loc" and b.v == ph.res and c.x in ("ugt", "sgt", "ne"): return br, c.a[0], ph
    return None
class Round(Op):
    """poll, call and close of a polling system: which lists are gone through, up to which size, in which order"""
    ON = ("on_read", "on_write", "on_error", "on_handshake")
    def __init__(s, root, lists, deleters):
        Op.__init__(s, root, None); s.lists = lists; s.deleters = deleters; s.good = {}; s.visits = {}; s.waits = []; s.iters = {}; s.ends = []
    def result(s): return (s.bad, s.good, s.visits, s.waits, s.iters, s.ends, s.opens, s.S)
    def key(s, st): return (st.mon.get("gone"), st.mon.get("waited"), st.mon.get("tests"), st.mon.get("adds"), st.mon.get("fresh"), st.mon.get("iter") is not None)
    def join(s, a, b, n, jv): 
        r = {k: a.mon[k] for k in a.mon if k in b.mon and a.mon[k] == b.mon[k]}
        r["seenl"] = a.mon.get("seenl", frozenset()) & b.mon.get("seenl", frozenset())
        r["drained"] = a.mon.get("drained", frozenset()) & b.mon.get("drained", frozenset())
        for k in ("heap", "filled", "copied", "was"):
            x, y = a.mon.get(k, {}), b.mon.get(k, {})
            r[k] = {n: (x[n] if n in x else y[n]) for n in {**x, **y} if n not in x or n not in y or x[n] == y[n]}
        return r
    def on_entry(s, st, f, args):
        s.offs = offsets(s.prog, CN); st.mon["seenl"] = frozenset(); st.mon["fresh"] = frozenset(); st.mon["tests"] = st.mon["adds"] = ()
    def on_init(s, st, f, ins, y, base, off, tag, ty):
        if tag and len(tag) == 2 and tag[0] == CN and tag[1] in s.ON and y.lo < 1: y.lo = 4096
        return Op.on_init(s, st, f, ins, y, base, off, tag, ty)
    def cur(s, st, f, i, fd):
        """current value of a field of the polling state"""
        o, z = s.fields[fd]; L = st.mon["L"]
        from .ir import I
        return st.norm(s.eng.load(st, f, i, V(s.eng.lin(L).addc(o)), I(8 * z), False).l)
    def element(s, st, i, fd, p):
        el = st.mon.get("el"); at = st.norm(p.l)
        if el and el[3] == at and i not in st.mon["by"]: st.mon["by"] = st.mon["by"] | {i}; return V(s.eng.lin(el[0]))
        b = s.eng.sym(("element", fd), "ext", 4096, INF, "element of " + fd, ("ptr", None)); s.eng.forget(st, b)
        st.mon["el"] = (b, fd, i.where, at); st.mon["by"] = frozenset((i,))
        if st.mon.get("gone") and fd not in s.removal(): s.alarm(i, "late", "%s goes on with the connections of %s after closed connections were destroyed" % (i.fn.name, fd))
        lp = loop_of(i.fn, i)
        if lp is None: s.opens["loop:%s:%s" % (i.fn.name, fd)] = "the loop over %s in %s is not a counting loop from zero" % (fd, i.fn.name); st.mon["bound"] = None
        else:
            bv = st.mon.get("brv", {}).get((lp[0], lp[1].v if lp[1].k == "loc" else None)) or st.norm(s.eng.val(st, i.fn, lp[1]).l); z = fd + "_size"; ok = None
            if z in s.fields:
                c = s.cur(st, i.fn, i, z); was = st.mon.get("was", {}).get(z)
                ok = bv == c or was is not None and bv == was
                if not ok: s.alarm(i, "bound:" + fd, "%s goes through %s up to a number that is not its current size (%s instead of %s)" % (i.fn.name, fd, bv, c))
            elif fd in st.mon.get("filled", {}):
                ok = bv == st.mon["filled"][fd]
                if not ok: s.alarm(i, "bound:" + fd, "%s goes through %s up to another number than it was filled with" % (i.fn.name, fd))
            else: s.opens["size:%s:%s" % (i.fn.name, fd)] = "the number of elements of %s is not known in %s" % (fd, i.fn.name)
            if ok: s.visits.setdefault(fd, {})[i.where] = i.fn.name
            st.mon["bound"] = bv
        st.mon["seenl"] = st.mon["seenl"] | {fd}
        return V(s.eng.lin(b))
    def on_branch(s, st, i, c, cx):
        d = st_def(s.eng, i.fn, i.a[0]) if i.a else None
        if d is not None and d.op == "icmp":
            st.mon["brv"] = {**st.mon.get("brv", {}), **{(i, x.v): st.norm(s.eng.val(st, i.fn, x).l) for x in d.a if x.k == "loc" and x.v in st.env}}
    def removal(s): return s.lists.get("removal", ())
    def alarm(s, i, k, msg): s.bad.setdefault("%s:%s" % (k, i.fn.name), (msg, i.where))
    def on_load(s, st, i, p, v, cx):
        b, o = s.eng.split(p.l)
        if i.ty.k == "ptr" and b is not None and b in st.mon.get("events", ()):
            s.iter_end(st, i); y = s.eng.sym(("ready",), "ext", 4096, INF, "ready connection", ("ptr", None)); s.eng.forget(st, y); st.mon["iter"] = y
            return V(s.eng.lin(y))
        if i.ty.k == "i" and b is not None and b is st.mon.get("L") and st.mon.get("iter") is not None:
            fd = s.field(st, o)
            if fd and s.fields[fd][1] > 8: st.mon["bits"] = {**st.mon.get("bits", {}), i: fd}
        return Op.on_load(s, st, i, p, v, cx)
    def iter_end(s, st, i):
        if st.mon.pop("iter", None) is not None or st.mon.get("tests") or st.mon.get("adds"):
            s.iters.setdefault((st.mon.get("tests", ()), st.mon.get("adds", ())), i.where)
        st.mon["tests"] = (); st.mon["adds"] = ()
    def on_assume(s, st, i, c, truth, cx):
        if st.mon.get("iter") is None: return
        d = st_def(s.eng, i.fn, i.a[0]) if i.a and i.a[0].k == "loc" else None
        if d is None or d.op != "icmp": return
        if not isinstance(truth, (bool, int)): return
        zero = [x for x in d.a if x.k == "int" and x.v == 0]
        one = [x for x in d.a if x.k == "int" and x.v > 0 and x.v & (x.v - 1) == 0] if d.x in ("eq", "ne") else []
        if not zero and not one or d.x not in ("ne", "eq", "sgt", "ugt"): return
        w = [x for x in d.a if x.k == "loc"]; n = 0; m = None
        while w and n < 8:
            x = w.pop(); n += 1; y = st_def(s.eng, i.fn, x)
            if y is None: continue
            if y.op in ("zext", "sext", "trunc", "freeze"): w.append(y.a[0])
            elif y.op == "icmp": w += [q for q in y.a if q.k == "loc"]
            elif y.op == "and":
                k = [q for q in y.a if q.k == "int"]
                if k and (zero or k[0].v & 0xffffffff == one[0].v): m = ("mask", k[0].v & 0xffffffff)
                elif k: return
                else:
                    for q in y.a:
                        ld = st_def(s.eng, i.fn, q)
                        if ld in st.mon.get("bits", {}): m = ("set", st.mon["bits"][ld])
        if m is None: return
        t = bool(truth) if (d.x != "eq") == bool(zero) else not truth
        st.mon["tests"] = st.mon.get("tests", ()) + ((m, t),)
    def on_copy(s, st, i, dst, src, n, cx, what):
        a, o = s.eng.split(dst.l); b, q = s.eng.split(src.l); L = st.mon.get("L")
        if a is L and b is L and L is not None:
            x, y = s.field(st, o), s.field(st, q)
            if x and y: st.mon["copied"] = {**st.mon.get("copied", {}), x: y}
    def on_store(s, st, i, p, v, cx):
        e = s.eng; b, o = e.split(p.l); L = st.mon.get("L")
        if b is None or b is not L:
            if b in st.mon.get("heap", {}) and i.a[0].ty.k == "ptr": s.alarm(i, "refill:", "%s changes a list while it is gone through" % i.fn.name)
            return
        fd = s.field(st, o)
        if fd is None: s.opens["store:" + i.fn.name] = "%s stores outside of one known field of the polling state" % i.fn.name; return
        if s.fields[fd][1] > 8:
            if i.a[0].ty.k != "ptr": return
            if st.mon.get("iter") is not None and v.l == e.lin(st.mon["iter"]): st.mon["adds"] = st.mon.get("adds", ()) + (fd,)
            elif st.mon.get("el") and v.l == e.lin(st.mon["el"][0]):
                el = st.mon["el"]; src = el[3].add(e.lin(L), -1).addc(-s.fields[el[1]][0]); d = st.norm(o).addc(-s.fields[fd][0])
                if st.norm(src) != st.norm(d): s.alarm(i, "copy:" + fd, "%s stores the elements of %s at other positions of %s" % (i.fn.name, el[1], fd))
                st.mon["filled"] = {**st.mon.get("filled", {}), fd: st.mon.get("bound")}; s.good.setdefault(("copied", el[1], fd), i.where)
            else: s.alarm(i, "foreign:" + fd, "%s puts something in %s that is not the ready connection" % (i.fn.name, fd))
            return
        if fd.endswith("_size"):
            was = s.cur(st, i.fn, i, fd); st.mon["was"] = {**st.mon.get("was", {}), fd: was}
            st.mon["fresh"] = st.mon.get("fresh", frozenset()) | {fd}
            if st.norm(v.l) == Lin(0): st.mon["drained"] = st.mon.get("drained", frozenset()) | {fd[:-5]}
    def on_call(s, st, i, fns, exts, slot, args, cx):
        e = s.eng; so = slot or (); name = exts[0] if len(exts) == 1 and not fns else None
        if so and so[0] == CN:
            if so[1] in s.ON:
                if st.mon.get("gone"): s.alarm(i, "late", "%s calls %s after closed connections were destroyed" % (i.fn.name, so[1]))
                for l in s.lists.get("outstanding", ()):
                        if st.mon.get("el") and st.mon["el"][1] in st.mon.get("filled", {}) and l not in st.mon.get("drained", ()): s.alarm(i, "again:" + l, "%s handles pending connections while %s still holds them, they are handled again in every round" % (i.fn.name, l))
                s.good.setdefault(("dispatch", so[1]), i.where); s.handlers(st, i)
            return [(st, V0)]
        if so[:2] == ("iterator_t", "get_next_function") or fns and len(fns) == 1 and fns[0].name == "get_next_iterator":
            s.iter_end(st, i); r = []
            for null in (True, False):
                t = st.copy(); t.mon = dict(st.mon); b, o = e.split(args[1].l); o = st.norm(o)
                y = e.sym(("ready",), "ext", 4096, INF, "connection of the list", ("ptr", None)); e.forget(t, y)
                if not null: t.mon["iter"] = y
                if b is not None and o.const(): t.mem[b] = {**t.mem.get(b, {}), o.c: (V0 if null else V(e.lin(y)), 8)}
                r.append((t, V0))
            return r
        if fns and any(t in s.deleters for t in fns):
            el = st.mon.get("el")
            if not el or st.norm(args[0].l) != e.lin(el[0]): s.alarm(i, "wrong", "%s destroys another connection than the one it took from the list" % i.fn.name)
            elif el[1] not in s.removal(): s.alarm(i, "wrong", "%s destroys a connection of %s" % (i.fn.name, el[1]))
            elif st.mon.get("done") is el[0]: s.alarm(i, "twice", "%s destroys a connection twice" % i.fn.name)
            else: s.good.setdefault(("destroyed", el[1]), i.where)
            st.mon["gone"] = True
            return [(st, V0)]
        if name in ("epoll_wait", "epoll_pwait"):
            s.wait(st, i, args[3], cx, args[2]); b = e.split(args[1].l)[0]; st.mon["events"] = frozenset((b,)); st.mon["fresh"] = frozenset(); st.mon["waited"] = True
            return None
        if name == "select":
            t = args[4]; b, o = e.split(t.l); v = None
            if b is not None:
                c = st.mem.get(b, {}).get(st.norm(o).c if st.norm(o).const() else None); v = c[0] if c else None
            if not (st.norm(t.l) == Lin(0)): s.wait(st, i, v, cx, None)
            L = st.mon.get("L"); fs = []
            for k in (1, 2, 3):
                b, o = e.split(args[k].l); fs.append(s.field(st, o) if b is L and L is not None else None)
            hi = st.lo(st.norm(args[0].l).add(s.cur(st, i.fn, i, "sockets_set_highest"), -1).addc(-1)) >= 0 if "sockets_set_highest" in s.fields else None
            s.good.setdefault(("select", tuple((x, st.mon.get("copied", {}).get(x)) for x in fs), hi), i.where)
            for x in fs:
                if x: o, z = s.fields[x]; e.havoc_range(st, L, o, o + z) if 0 else None
            st.mon["fresh"] = frozenset(); st.mon["waited"] = True
            return None
        return None
    def wait(s, st, i, v, cx, n):
        l = st.norm(v.l) if v is not None else None; z = []
        for fd in s.lists.get("outstanding", ()):
            c = s.cur(st, i.fn, i, fd + "_size"); z.append(st.hi(c) == 0)
        s.waits.append((i.where, l is not None and l == Lin(0), all(z)))
    def handlers(s, st, i):
        """a handler may close connections and queue others: the lists it may change are unknown afterwards"""
        e = s.eng; L = st.mon.get("L")
        if L is None: return
        m = dict(st.mem.get(L, {}))
        for fd in s.lists.get("changed", ()):
            if fd in s.fields and s.fields[fd][1] <= 8:
                o, z = s.fields[fd]; y = e.sym(("after", i.where, fd), "ext", 4096 if not fd.endswith(("_size", "_capacity", "_count")) else 0, INF if not fd.endswith(("_size", "_capacity", "_count")) else 1 << 20, fd + " after a handler"); e.forget(st, y)
                m[o] = (V(e.lin(y)), z)
        st.mem[L] = m
        st.mon["was"] = {k: x for k, x in st.mon.get("was", {}).items() if k not in s.lists.get("changed", ())}
    def on_return(s, st, i, v, cx, depth):
        if depth != 1: return
        s.iter_end(st, i); L = st.mon.get("L"); fin = {}
        for n, (o, z) in s.fields.items():
            if n.endswith("_size"):
                c = s.cur(st, i.fn, i, n); fin[n] = 0 if c == Lin(0) else "?"
        s.ends.append((bool(st.mon.get("waited")), tuple(sorted(st.mon.get("fresh", ()))), tuple(sorted(fin.items())), bool(st.mon.get("gone")), i.where))
    def inl(s, t): return t not in s.deleters and (t.file == s.root.file or roots.size(t) < 120)
class Wrap(Monitor):
    """the operations of connections that hand over to the polling system: which of its operations they call, which flags they leave"""
    prog = None
    def __init__(s, root): s.root = root; s.out = {}
    def result(s): return s.out
    def key(s, st): return st.mon.get("ev")
    def on_entry(s, st, f, args): st.mon["ev"] = (); st.mon["C"] = s.eng.split(args[0].l)[0]
    def on_call(s, st, i, fns, exts, slot, args, cx):
        if (slot or ())[:1] == (PT,):
            own = any(s.eng.split(a.l)[0] is st.mon["C"] for a in args[1:2])
            st.mon["ev"] = (st.mon["ev"] + (slot[1] + ("" if own else " of another connection"),))[-6:]; return [(st, V0)]
        return None
    def on_return(s, st, i, v, cx, depth):
        if depth != 1: return
        m = st.mem.get(st.mon["C"], {}); f = []
        for n in ("read_registered", "write_registered", "read_valid", "write_valid"):
            o, z = offsets(s.prog, CN)[n]
            if o in m:
                l = st.norm(m[o][0].l); f.append((n, l.c if l.const() else "?"))
        s.out.setdefault((st.mon["ev"], tuple(f)), i.where)
    def inline(s, st, i, t, slot, args): return s.inl(t)
    def inl(s, t): return not roots.has_loop(t) and roots.size(t) < 80

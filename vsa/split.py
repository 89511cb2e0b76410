"""Message parsing over several reads: what the scanner must keep between calls, and what its callers must do with the
buffer that the kept text marks point into.

Rules on the parse function (SSA form of the compiler's IR):
 kept     a loop variable that starts from a field of the parser is written back to that field, with its latest value, on
          every way from the loop to a return that is no error
 unkept   a loop variable that starts from anything else is the position in the data, or only decides leaving the loop
 look     bytes are only read at the current position
 outside  no callback runs outside the loop, except where no data was received
Rules on the callers (every path, by abstract interpretation): see Caller."""
from .ai import *
from .slots import static
from . import roots
from .parser import PS, SS, static_defs
TEXT = ("on_url", "on_header_field", "on_header_value", "on_path", "on_location", "on_virtual_url")

def order(f): return {b.name: n for n, b in enumerate(f.order)}
def body(f, h):
    """blocks of the natural loop(s) of header h"""
    idx = order(f); r = {h}; w = [q for q in f.blocks[h].pred if idx[q] >= idx[h]]
    while w:
        b = w.pop()
        if b in r: continue
        r.add(b); w += f.blocks[b].pred
    return r
def strip(d, v):
    while v.k == "loc" and v.v in d and d[v.v].op in ("zext", "sext", "trunc", "freeze"): v = d[v.v].a[0]
    return v
def field(p, f, v):
    d = static_defs(f); v = strip(d, v)
    if v.k == "loc" and v.v in d and d[v.v].op == "load":
        a = static(p).addr(f, d[v.v].a[0])
        if a[0] == "tag" and a[1] == PS and len(a) == 3: return a[2]
    return None
def heads(p, f):
    """headers of the loop over the data: loop headers with a phi that starts from the parser's state, else every outermost loop"""
    idx = order(f); hs = [b for b in f.order if any(idx[q] >= idx[b.name] for q in b.pred)]
    r = [b for b in hs if any(ph.op == "phi" and any(idx[q] < idx[b.name] and field(p, f, v) for q, v in ph.x) for ph in b.ins)]
    if r: return r
    inner = set()
    for b in hs:
        for c in hs:
            if b is not c and b.name in body(f, c.name): inner.add(b.name)
    return [b for b in hs if b.name not in inner]

def web(f, ph, loop):
    """values the loop variable has in the loop: connected phis, and what flows into them from inside the loop"""
    d = static_defs(f); users = {}
    for i in f.instrs():
        if i.op in ("phi", "select", "zext", "sext", "trunc", "freeze"):
            for v in ([x for _, x in i.x] if i.op == "phi" else i.a[-2:] if i.op == "select" else i.a[:1]):
                if v.k == "loc": users.setdefault(v.v, []).append(i)
    idx = order(f); r = set(); w = [ph.res]
    while w:
        n = w.pop()
        if n in r: continue
        r.add(n)
        for i in users.get(n, ()):
            w.append(i.res)
    # backwards from the header: values that come from inside
    w = [v.v for q, v in ph.x if q in loop and v.k == "loc"]; seen = set()
    while w:
        n = w.pop()
        if n in seen: continue
        seen.add(n); r.add(n)
        i = d.get(n)
        if i is not None and i.op in ("phi", "select", "zext", "sext", "trunc", "freeze"):
            w += [x.v for x in ([x for _, x in i.x] if i.op == "phi" else i.a[-2:] if i.op == "select" else i.a[:1]) if x.k == "loc"]
    return r

def current(f, d, v, web, loop, seen=frozenset()):
    """the value is the latest one of the loop variable: one it has in the loop, or a merge after the loop of only such values"""
    v = strip(d, v)
    if v.k != "loc" or v.v not in d or v.v in seen: return v.k == "loc" and v.v in seen
    i = d[v.v]
    if block_of(f, i) in loop: return v.v in web
    seen = seen | {v.v}
    if i.op == "phi": return all(q in loop or current(f, d, x, web, loop, seen) for q, x in i.x)
    if i.op == "select": return all(current(f, d, x, web, loop, seen) for x in i.a[-2:])
    return False
def kept(ctx, p, f):
    st = static(p); d = static_defs(f); idx = order(f); n = 0
    marks = set()
    for hb in heads(p, f):
        loop = body(f, hb.name); vars_ = {}; other = []
        for ph in hb.ins:
            if ph.op != "phi": continue
            fld = None
            for q, v in ph.x:
                if idx[q] < idx[hb.name]: fld = field(p, f, v) or fld
            if fld: vars_[fld] = (ph, web(f, ph, loop))
            else: other.append(ph)
        # ---- kept: must analysis of the stores from the loop on
        stores = {}
        def saved(b):
            r = set()
            for i in f.blocks[b].ins:
                if i.op == "store":
                    a = st.addr(f, i.a[1])
                    if a[0] == "tag" and a[1] == PS and len(a) == 3 and a[2] in vars_:
                        if current(f, d, i.a[0], vars_[a[2]][1], loop): r.add(a[2])
                        elif b not in loop: r.discard(a[2])
                if i.op == "call":
                    for g in st.targets(f, i):
                        if isinstance(g, str): continue
                        for j in g.instrs():
                            if j.op != "store": continue
                            a = st.addr(g, j.a[1])
                            if not (a[0] == "tag" and a[1] == PS and len(a) == 3 and a[2] in vars_): continue
                            v = strip(static_defs(g), j.a[0])
                            for k, (pn, _) in enumerate(g.params):
                                if v.k == "loc" and v.v == pn and k < len(i.a) and current(f, d, i.a[k], vars_[a[2]][1], loop): r.add(a[2])
            return r
        out = [b for b in idx if b not in loop and any(q in loop for q in f.blocks[b].pred)]
        # a store at the end of every iteration keeps it as well
        full = frozenset(vars_)
        inn = {}; w = []
        for b in out: inn[b] = frozenset(); w.append(b)
        done = {}
        while w:
            b = w.pop()
            o = frozenset(inn[b] | saved(b))
            if done.get(b) == o: continue
            done[b] = o
            for t in f.blocks[b].succ:
                if t in loop: continue
                x = o if t not in inn else inn[t] & o
                if t not in inn or x != inn[t] or t not in done: inn[t] = x; w.append(t)
        bad = {}
        for b in f.order:
            if b.name not in done or b.ins[-1].op != "ret": continue
            r = b.ins[-1]; v = r.a[0] if r.a else None; edges = []
            i = d.get(v.v) if v is not None and v.k == "loc" else None
            own = saved(b.name)
            if i is not None and i.op == "phi" and i.blk == b.name or (i is not None and i.op == "phi" and getattr(i.blk, "name", None) == b.name):
                for q, x in i.x:
                    if q not in done: continue
                    if x.k == "int" and x.v < 0: continue
                    edges.append((q, done[q] | own))
            elif v is not None and v.k == "int" and v.v < 0: continue
            else: edges.append((b.name, done[b.name]))
            for q, s in edges:
                for fld in full - s: bad[fld] = q
        for fld in sorted(vars_):
            n += 1
            ph = vars_[fld][0]
            if ph.ty.k == "ptr": marks.add(fld)
            if fld in bad: ctx.bad("kept:%s:%s" % (f.name, fld), "%s ends a call without writing %s back to the parser: the value is lost when the message goes on in the next read" % (f.name, fld), "%s:%s" % (f.file, f.name), "the way to the return through block %s stores no current value of it" % bad[fld])
            else: ctx.ok("loop variable kept across calls", "%s: %s" % (f.name, fld))
        # ---- unkept
        for ph in other:
            n += 1
            if position(f, ph, idx, hb): ctx.ok("loop variable is the position in the data", "%s: %s" % (f.name, ph.res)); continue
            u = influences(f, ph, loop)
            if u is not None: ctx.bad("unkept:%s:%s" % (f.name, ph.res.strip("%").split(".")[0]), "%s is not kept in the parser but decides how later bytes are read" % ph.res, u.where, "loop variable of %s that starts afresh in every call" % f.name)
            else: ctx.ok("loop variable only decides leaving the loop", "%s: %s" % (f.name, ph.res))
        # ---- look
        pos = {ph.res for ph in other if position(f, ph, idx, hb)}
        for i in f.instrs():
            if i.op != "load" or i.blk_name not in loop if hasattr(i, "blk_name") else i.op != "load": continue
            if i.ty.k != "i" or i.ty.n != 8: continue
            a = i.a[0]; where = None
            if a.k != "loc": continue
            if a.v in pos: where = "at"
            else:
                g = d.get(a.v)
                if g is not None and g.op == "gep" and g.a[0].k == "loc" and g.a[0].v in pos:
                    where = "at" if all(x.k == "int" and x.v == 0 for x in g.a[1:]) else "off"
                elif g is not None and g.op == "gep" and g.a[0].k == "loc" and g.a[0].v in [x for x, t in f.params if t.k == "ptr"] and len(g.a) == 2 and g.x is not None and g.x.k == "i":
                    x = strip(d, g.a[1]); where = "at" if x.k == "loc" and x.v in pos else "off"
            if where == "at": ctx.ok("byte read at the current position", i.where); n += 1
            elif where == "off": ctx.bad("look:" + f.name, "%s looks at another byte than the current one: what it finds depends on where the reads were split" % f.name, i.where, "")
        # ---- outside
        for i in f.instrs():
            if i.op != "call" or (st.slot_of(f, i) or ("",))[0] != SS: continue
            b = block_of(f, i)
            if b in loop: continue
            if nodata(f, b): ctx.ok("callback only when nothing was received", i.where); n += 1
            else: ctx.bad("outside:%s:%s" % (f.name, st.slot_of(f, i)[1]), "%s calls %s outside of the scanning loop: an event at the end of every read, wherever it was split" % (f.name, st.slot_of(f, i)[1]), i.where, "")
    ctx.rule("loop variables and byte reads of " + f.name, n, 3)
    return marks
def block_of(f, i):
    m = f.__dict__.get("_blkof")
    if m is None:
        m = f._blkof = {}
        for b in f.order:
            for j in b.ins: m[id(j)] = b.name
    return m[id(i)]
def position(f, ph, idx, hb):
    """starts at the data argument, or at 0 and is used to index it"""
    d = static_defs(f); ps = {x for x, t in f.params if t.k == "ptr"}
    for q, v in ph.x:
        if idx[q] >= idx[hb.name]: continue
        if v.k == "loc" and v.v in ps: return True
        if v.k == "int" and v.v == 0:
            w = {ph.res}
            for i in f.instrs():
                if i.op == "gep" and i.a[0].k == "loc" and i.a[0].v in ps and len(i.a) == 2:
                    x = strip(d, i.a[1])
                    if x.k == "loc" and x.v in w: return True
    return False
def influences(f, ph, loop):
    """a use of the variable other than counting it and leaving the loop"""
    seen = set(); w = [ph.res]
    def exits(b):
        for _ in range(4):
            if b not in loop: return True
            s = f.blocks[b].succ
            if len(s) != 1 or len([i for i in f.blocks[b].ins if i.op not in ("br", "phi")]): return b not in loop
            b = s[0]
        return False
    while w:
        n = w.pop()
        if n in seen: continue
        seen.add(n)
        for i in f.instrs():
            ops = [x for _, x in i.x] if i.op == "phi" else list(i.a or ())
            if i.op in ("br", "switch") and i.a: ops = [i.a[0]]
            if not any(v.k == "loc" and v.v == n for v in ops): continue
            if block_of(f, i) not in loop: continue
            if i.op in ("add", "sub", "phi", "icmp", "zext", "sext", "trunc", "xor", "and", "or", "freeze", "select"): w.append(i.res)
            elif i.op == "br":
                if not any(exits(t) for t in f.blocks[block_of(f, i)].succ): return i
            else: return i
    return None
def nodata(f, b):
    """every way to the block takes the branch where the size argument is zero"""
    d = static_defs(f); sizes = {x for x, t in f.params if t.k == "i"}
    zero = set()
    for blk in f.order:
        t = blk.ins[-1]
        if t.op != "br" or len(blk.succ) != 2: continue
        c = d.get(t.a[0].v) if t.a and t.a[0].k == "loc" else None
        if c is None or c.op != "icmp" or c.x not in ("eq", "ne", "ugt", "ult"): continue
        a = strip(d, c.a[0])
        if a.k == "loc" and a.v in sizes and c.a[1].k == "int":
            if c.x == "eq" and c.a[1].v == 0: zero.add((blk.name, blk.succ[0]))
            if c.x in ("ne", "ugt") and c.a[1].v == 0: zero.add((blk.name, blk.succ[1]))
            if c.x == "ult" and c.a[1].v == 1: zero.add((blk.name, blk.succ[0]))
    # reachable without a zero edge
    seen = set(); w = [f.order[0].name]
    while w:
        x = w.pop()
        if x in seen: continue
        seen.add(x)
        for t in f.blocks[x].succ:
            if (x, t) not in zero: w.append(t)
    return b not in seen

class Caller(Monitor):
    """a function that feeds the parser: the marks the parser keeps into the buffer

    mon: good = marks known to be NULL or moved along; mv = buffer fields that got a new buffer; fresh = buffer fields known to
    have been NULL; start = the parser is known to be at the start of a message"""
    def __init__(s, root, pf, marks, feeds, text, starts, keptf):
        s.root = root; s.pf = pf; s.marks = marks; s.feeds = feeds; s.text = text; s.starts = starts; s.kept = keptf
        s.bad = {}; s.good = {}
    def result(s): return (s.bad, s.good)
    def key(s, st):
        m = st.mon
        return (m.get("good"), m.get("mv"), m.get("fresh"), m.get("start"))
    def join(s, a, b, n, jv):
        e = frozenset(); r = {}
        r["good"] = a.mon.get("good", e) & b.mon.get("good", e); r["fresh"] = a.mon.get("fresh", e) & b.mon.get("fresh", e)
        r["mv"] = a.mon.get("mv", e) | b.mon.get("mv", e); r["hold"] = a.mon.get("hold", e) | b.mon.get("hold", e)
        r["start"] = a.mon.get("start") and b.mon.get("start")
        r["cells"] = a.mon.get("cells", e) & b.mon.get("cells", e)
        if a.mon.get("cp") == b.mon.get("cp"): r["cp"] = a.mon.get("cp")
        return r
    def tag(s, f, v):
        a = s.eng.st.addr(f, v)
        return (a[1], a[2]) if a[0] == "tag" and len(a) == 3 else None
    def add(s, st, k, x): st.mon[k] = st.mon.get(k, frozenset()) | {x}
    def on_assume(s, st, i, c, truth, cx):
        if i.op not in ("br", "select"): return
        f = i.fn; d = static_defs(f); v = i.a[0]
        j = d.get(v.v) if v.k == "loc" else None
        if j is None or j.op != "icmp" or j.x not in ("eq", "ne"): return
        s.compared(st, f, j, truth == (j.x == "eq"))
    def compared(s, st, f, j, equal):
        d = static_defs(f)
        for x, y in ((0, 1), (1, 0)):
            v = strip(d, j.a[x])
            if v.k != "loc" or v.v not in d or d[v.v].op != "load": continue
            t = s.tag(f, d[v.v].a[0])
            if t is None: continue
            if equal and j.a[y].k == "null":
                if t[0] == PS and t[1] in s.marks: s.add(st, "good", t[1])
                if t in s.feeds: s.add(st, "fresh", t)
            if equal and t == (PS, "state") and j.a[y].k == "int" and (j.a[y].v & 0xff) in s.starts: st.mon["start"] = True
    def on_load(s, st, i, p, v, cx):
        t = s.tag(i.fn, i.a[0])
        if t in s.feeds:
            b = s.eng.split(v.l)[0]
            if b is not None: s.add(st, "hold", b)
        if t is not None and t[0] == PS and (t[1] in s.marks or t[1] == "state"):
            b, o = s.eng.split(p.l)
            if b is not None and not o.t: s.add(st, "cells", (t[1], b, o.c))
        return None
    def settle(s, st):
        """marks that hold NULL, and a state that is a start, without a branch that says so"""
        for n, b, o in sorted(st.mon.get("cells", ()), key=lambda x: (x[0], x[2], str(x[1]))):
            c = st.mem.get(b, {}).get(o)
            if not c: continue
            l = st.norm(c[0].l); lo, hi = st.lo(l), st.hi(l)
            if n == "state":
                if lo == hi and (int(lo) & 0xff) in s.starts: st.mon["start"] = True
            elif lo == hi == 0: s.add(st, "good", n)
    def on_store(s, st, i, p, v, cx):
        t = s.tag(i.fn, i.a[1])
        if t is None: return
        e = s.eng
        if t in s.feeds:
            b = e.split(v.l)[0]
            if b is not None and b.info and b.info[0] == "heap":
                s.add(st, "hold", b)
                if t not in st.mon.get("fresh", ()): s.add(st, "mv", t)
        if t[0] == PS and t[1] in s.kept:
            base = e.split(p.l)[0]
            if base is not None and base.info and base.info[0] == "heap": return
            old = e.load(st, i.fn, i, p, i.a[0].ty)
            l = st.norm(v.l); o = st.norm(old.l)
            mine = l.key() == o.key() if hasattr(l, "key") else l == o
            syms = {y for y, _ in o.t}
            moved = bool(syms & {y for y, _ in l.t})
            k = (i.fn.name, t[1]); s.settle(st)
            if t[1] in s.marks:
                if moved or st.mon.get("start") or t[1] in st.mon.get("good", ()): s.good[k] = i.where; s.add(st, "good", t[1]); return
            if st.mon.get("start") or mine or moved: s.good[k] = i.where; return
            s.bad[("reset:%s:%s" % k)] = ("%s sets the parser's %s although a message may be going on: what was read of it is forgotten" % k, i.where)
    def on_copy(s, st, i, dst, n, cx, *a, **k): pass
    def on_free(s, st, i, p, cx):
        b = s.eng.split(p.l)[0]
        if b is None or b not in st.mon.get("hold", ()): return
        if b.info and b.info[0] == "alloca": return
        s.settle(st); lost = sorted(s.marks - st.mon.get("good", frozenset()))
        k = "free:%s" % i.fn.name
        if lost and not st.mon.get("start"): s.bad[k] = ("the buffer that %s of the parser may point into is released while a message may be going on" % ", ".join(lost), i.where)
        else: s.good[(i.fn.name, "free")] = i.where
    def on_call(s, st, i, fns, exts, slot, args, cx):
        if not any(g in s.pf for g in fns or ()): 
            return None
        e = s.eng; g = [g for g in fns if g in s.pf][0]; s.settle(st)
        n = next(n for n in range(len(g.params) - 1) if g.params[n][1].k == "ptr" and g.params[n + 1][1].k == "i")
        base, off = e.split(args[n].l)
        k = "%s" % i.fn.name
        trans = base is not None and ((base.info and base.info[0] == "alloca") or any(base is y for a in e.argstack[0] for y, _ in a.l.t))
        if trans and s.text(i.fn): s.bad["transient:" + k] = ("%s hands the parser a buffer that only lives during one read, while text is delivered from it: text split over two reads is delivered from storage that is gone" % i.fn.name, i.where)
        elif trans: s.good[(k, "transient")] = i.where
        lost = sorted(s.marks - st.mon.get("good", frozenset()))
        if st.mon.get("mv") and lost and not st.mon.get("start"): s.bad["moved:" + k] = ("%s replaces the buffer (%s) but leaves %s of the parser pointing into the old one" % (i.fn.name, ", ".join("%s.%s" % t for t in st.mon["mv"]), ", ".join(lost)), i.where)
        else: s.good[(k, "feed")] = i.where
        for x in ("good", "mv", "fresh", "start"): st.mon.pop(x, None)
        return [(st, None)]
def feeds(p, f, call, n):
    """pointer fields the data argument is loaded from, or that the same value is stored to"""
    st = static(p); d = static_defs(f); r = set(); w = [call.a[n]]; seen = set(); roots_ = set()
    while w:
        v = w.pop()
        if v.k != "loc" or v.v in seen: continue
        seen.add(v.v); i = d.get(v.v)
        if i is None: continue
        if i.op == "gep": w.append(i.a[0])
        elif i.op == "phi": w += [x for _, x in i.x]
        elif i.op == "select": w += i.a[1:]
        elif i.op == "load":
            a = st.addr(f, i.a[0])
            if a[0] == "tag" and len(a) == 3: r.add((a[1], a[2]))
        elif i.op == "call": roots_.add(v.v)
    for i in f.instrs():
        if i.op == "store" and i.a[0].k == "loc" and i.a[0].v in roots_:
            a = st.addr(f, i.a[1])
            if a[0] == "tag" and len(a) == 3: r.add((a[1], a[2]))
    return r

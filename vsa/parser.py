"""Abstract interpretation of the message parser, its loop split by the parsing state.

The parse function is found by what it does: it reads and writes the `state` field of the parser structure and loops
over the data it is given.  Its loop is solved per part: one part for every combination of the values of the loop
variables that only ever take constants (the parsing state, the header state) and of the flag bits known to be set.
A message that is parsed piecewise re-enters with the combination an earlier call left, so the entry combinations are
closed over the combinations found at the exits."""
from .ai import *
from .slots import static
from . import roots, run as R
from .ir import AnalysisBroken

PS = "http_parser_t"; SS = "http_settings_t"

def find(p):
    """the parse functions: functions with a loop that call the settings' callbacks and store the parser's state"""
    st = static(p); out = []
    for f in p.fns.values():
        if roots.is_test(f) or not roots.has_loop(f): continue
        g = set(st.reach([f])) if False else {f}
        cb = any(i.op == "call" and i.x.k != "g" and (st.slot_of(f, i) or ("",))[0] == SS for i in f.instrs())
        sto = any(i.op == "store" and st.addr(f, i.a[1]) == ("tag", PS, "state") for i in f.instrs())
        lod = any(i.op == "load" and st.addr(f, i.a[0]) == ("tag", PS, "state") for i in f.instrs())
        if lod and (cb or sto) and any(t.k == "ptr" for _, t in f.params): out.append(f)
    if not out:
        f = p.resolve(None, "process_data_http_parser") if False else None
    return out

def finite(f, blk):
    """integer phis of a block whose value is always one of constants or the initial one"""
    d = {i.res: i for i in f.instrs() if i.res}
    ok = []
    for ph in blk.ins:
        if ph.op != "phi" or ph.ty.k != "i": continue
        seen = set(); w = [ph.res]; good = True; consts = set(); inits = []
        while w and good:
            n = w.pop()
            if n in seen: continue
            seen.add(n)
            i = d.get(n)
            if i is None: good = False; break
            if i.op == "phi": vs = [v for _, v in i.x]
            elif i.op == "select": vs = i.a[1:]
            elif i.op in ("zext", "sext", "trunc", "freeze"): vs = i.a[:1]
            elif i.op == "load": inits.append(i); vs = []
            else: good = False; break
            for v in vs:
                if v.k == "int": consts.add(v.v)
                elif v.k == "loc": w.append(v.v)
        if good and len(consts) > 1: ok.append(ph)
    return ok

class Parse(Monitor):
    """mon: ck = flag bits known to be set; _e = the parser fields at entry"""
    def __init__(s, root):
        s.root = root; s.abort = {}; s.tab = {}; s.data = {}; s.len = {}; s.exits = {}; s.rets = {}; s.cb = {}; s.parts = set(); s.trans = {}
    def result(s): return s
    def key(s, st):
        m = st.mon
        return (m.get("ck", 0), m.get("in"), m.get("acc"))
    def join(s, a, b, n, jv):
        r = {}
        for k in ("it", "acc", "bs"):
            if k in a.mon and a.mon[k] == b.mon.get(k): r[k] = a.mon[k]
        if "bs" in r: r["by"] = merge(s.bytes(a) | s.bytes(b))
        for k in ("ck", "in", "_e"):
            if k in a.mon and k in b.mon and a.mon[k] == b.mon[k]: r[k] = a.mon[k]
        if "ck" not in r: r["ck"] = a.mon.get("ck", 0) & b.mon.get("ck", 0)
        return r
    def bytes(s, st):
        """the values the byte looked at may have, as intervals"""
        y = st.mon.get("bs")
        lo, hi = st.b(y) if y is not None else (0, 255)
        old = st.mon.get("by")
        if old: return frozenset((max(a, lo), min(b, hi)) for a, b in old if max(a, lo) <= min(b, hi))
        return frozenset([(lo, hi)])
    def arrive(s, st):
        """an iteration is over: where it started, whether it took a digit into the length, and on which bytes"""
        m = st.mon
        if m.get("it") is not None and "bs" in m:
            r = s.trans.setdefault(m["it"], [0, 0, set()])
            if m.get("acc"): r[0] += 1
            else: r[1] += 1; r[2] |= s.bytes(st)
        for k in ("it", "acc", "bs", "by"): m.pop(k, None)
    # ---- entry values
    def on_init(s, st, f, ins, y, base, off, tag, ty):
        e = st.mon.get("_e")
        if e and tag and tag[0] == PS and len(tag) == 2 and st.basever.get(base) is None:
            c = dict(e).get(tag[1])
            if c is not None and not isinstance(c, tuple): return V(Lin(c))
            if c is not None and (c[0] > y.lo or c[1] < y.hi): st.iv[y] = (max(c[0], y.lo), min(c[1], y.hi))
        return None
    # ---- known bits of the flags
    relevant = 0
    def guards(s, p, fns):
        """flag bits that decide whether a call that never returns is reached"""
        r = 0
        for f in fns:
            for b in f.order:
                t = b.ins[-1]
                if t.op != "br" or len(t.x) != 2: continue
                if not any(s.dead(f, x) for x in t.x): continue
                j = s.defs(f).get(t.a[0].v) if t.a[0].k == "loc" else None
                if j is not None and j.op == "icmp":
                    for x in j.a: r |= s.mask(f, x) or 0
        s.relevant = r
    def dead(s, f, b, n=0):
        bl = f.blocks[b]
        if bl.ins[-1].op == "unreachable": return True
        return n < 3 and len(bl.succ) == 1 and s.dead(f, bl.succ[0], n + 1)
    def defs(s, f):
        d = f.__dict__.get("_defs")
        if d is None: d = f._defs = {i.res: i for i in f.instrs() if i.res}
        return d
    def kb(s, f, v, ck, n=0):
        if v.k == "int": return v.v & 0xff
        if v.k != "loc" or n > 12: return 0
        i = s.defs(f).get(v.v)
        if i is None: return 0
        if i.op == "load": return ck if s.tag(f, i.a[0]) == (PS, "flags") else 0
        if i.op in ("zext", "sext", "trunc", "freeze"): return s.kb(f, i.a[0], ck, n + 1)
        if i.op == "or": return s.kb(f, i.a[0], ck, n + 1) | s.kb(f, i.a[1], ck, n + 1)
        if i.op == "and": return s.kb(f, i.a[0], ck, n + 1) & s.kb(f, i.a[1], ck, n + 1)
        return 0
    def tag(s, f, v):
        a = s.eng.st.addr(f, v)
        return (a[1], a[2]) if a[0] == "tag" and len(a) == 3 else None
    def mask(s, f, v, n=0):
        """v is (flags & constant): the constant"""
        if v.k != "loc" or n > 6: return None
        i = s.defs(f).get(v.v)
        if i is None: return None
        if i.op in ("zext", "sext", "trunc", "freeze"): return s.mask(f, i.a[0], n + 1)
        if i.op == "and":
            for x, y in ((0, 1), (1, 0)):
                if i.a[y].k == "int" and s.isflags(f, i.a[x]): return i.a[y].v & 0xff
        return None
    def isflags(s, f, v, n=0):
        if v.k != "loc" or n > 6: return False
        i = s.defs(f).get(v.v)
        if i is None: return False
        if i.op in ("zext", "sext", "trunc", "freeze"): return s.isflags(f, i.a[0], n + 1)
        return i.op == "load" and s.tag(f, i.a[0]) == (PS, "flags")
    def on_mask(s, st, i, r, cx):
        if st.mon.get("ck"):
            m = s.mask(i.fn, Val("loc", i.res, i.ty)) if i.res else None
            if m and m & st.mon["ck"] and not st.norm(r).const(): s.eng.assume_ge(st, r.addc(-1))
    def on_assume(s, st, i, c, truth, cx):
        if i.op not in ("br", "select"): return
        f = i.fn; v = i.a[0]; d = s.defs(f)
        j = d.get(v.v) if v.k == "loc" else None
        if j is None or j.op != "icmp" or j.x not in ("eq", "ne"): return
        for x, y in ((0, 1), (1, 0)):
            if j.a[y].k == "int" and j.a[y].v == 0:
                m = s.mask(f, j.a[x])
                if m and m & (m - 1) == 0 and truth == (j.x == "ne"): st.mon["ck"] = (st.mon.get("ck", 0) | m) & s.relevant
    def on_store(s, st, i, p, v, cx):
        t = s.tag(i.fn, i.a[1])
        if t == (PS, "flags"):
            st.mon["ck"] = s.kb(i.fn, i.a[0], st.mon.get("ck", 0)) & s.relevant
        if t == (PS, "content_length"): s.stored(st, i, v, p)
    # ---- lengths
    def chain(s, f, v):
        """operations a value is made with"""
        d = s.defs(f); w = [v]; seen = set(); r = set()
        while w:
            v = w.pop()
            if v.k != "loc" or v.v in seen: continue
            seen.add(v.v); i = d.get(v.v)
            if i is None: continue
            r.add(i.op)
            if i.op in ("add", "sub", "mul", "shl", "or"): w += i.a[:2]
            elif i.op in ("zext", "sext", "trunc", "freeze"): w.append(i.a[0])
            elif i.op == "phi": w += [x for _, x in i.x]
            elif i.op == "select": w += i.a[1:]
        return r
    def scaled(s, f, v): return bool(s.chain(f, v) & {"mul", "shl"})
    def stored(s, st, i, v, p):
        """what is kept in the length field fits it and is made of digits: base * (what was there) + a digit"""
        e = s.eng; l = st.norm(v.l); n = i.a[0].ty.n
        r = s.len.setdefault((i.fn.name, i.where, "store"), [0, None]); r[0] += 1
        if s.consumes(i.fn, i.a[0]) or l.const(): return
        if st.hi(l) > (1 << (n - 1)) - 1 or st.lo(l) < -(1 << (n - 1)): r[1] = "a length from %s to %s is kept in %d bits" % (st.lo(l), st.hi(l), n); return
        if st.mon.get("bs") is None: return
        old = st.norm(e.load(st, i.fn, i, p, i.a[0].ty).l)
        for k in (0, 1, 10, 16):
            d = l.add(old, -k)
            if st.lo(d) >= 0 and st.hi(d) <= 15:
                if k: st.mon["acc"] = 1
                return
        r[1] = "a byte that is no digit is counted in the length: %s, before %s (%s..%s)" % (l, old, st.lo(l), st.hi(l))
    def consumes(s, f, v):
        """the value is the length less something that is no constant: what was read is taken off it"""
        d = s.defs(f)
        while v.k == "loc" and v.v in d and d[v.v].op in ("trunc", "zext", "sext", "freeze"): v = d[v.v].a[0]
        i = d.get(v.v) if v.k == "loc" else None
        return i is not None and i.op == "sub" and i.a[1].k == "loc" and not s.scaled(f, v)
    def on_trunc(s, st, i, v, m, cx):
        if not hasattr(i, "fn") or not s.scaled(i.fn, i.a[0]): return
        if not s.feeds(i.fn, i): return
        l = st.norm(v.l); n = i.ty.n
        r = s.len.setdefault((i.fn.name, i.where, "trunc"), [0, None]); r[0] += 1
        if st.hi(l) > (1 << n) - 1 or st.lo(l) < -(1 << (n - 1)): r[1] = "a length from %s to %s is cut to %d bits" % (st.lo(l), st.hi(l), n)
    def feeds(s, f, i):
        c = f.__dict__.get("_lentr")
        if c is None:
            c = f._lentr = set(); d = s.defs(f)
            for j in f.instrs():
                if not (j.op == "store" and s.tag(f, j.a[1]) == (PS, "content_length")) and j.op != "ret": continue
                if not j.a: continue
                w = [j.a[0]]; seen = set()
                while w:
                    v = w.pop()
                    if v.k != "loc" or v.v in seen or v.v not in d: continue
                    seen.add(v.v); k = d[v.v]
                    if k.op == "trunc": c.add(v.v)
                    if k.op in ("add", "sub", "mul", "shl", "or"): w += k.a[:2]
                    elif k.op in ("zext", "sext", "trunc", "freeze"): w.append(k.a[0])
                    elif k.op == "phi": w += [x for _, x in k.x]
                    elif k.op == "select": w += k.a[1:]
        return i.res in c
    # ---- accesses
    def on_load(s, st, i, p, v, cx):
        if s.eng.split(p.l)[0] is s.dbase and "bs" not in st.mon and i.ty.k == "i" and i.ty.n == 8:
            q = st.norm(v.l)
            if len(q.t) == 1 and q.t[0][1] == 1 and q.c == 0: st.mon["bs"] = q.t[0][0]
        return None
    def on_access(s, st, i, p, size, write, cx):
        e = s.eng
        base, off = e.split(p.l)
        if base is None or i.op not in ("load", "store"): return
        if base is s.dbase:
            off = st.norm(off)
            r = s.data.setdefault(i.where, [0, None]); r[0] += 1
            if not (st.ge(off) and st.ge(s.dsize.add(off, -1).addc(-size))): r[1] = "reads at offset %s of the data (%s..%s)" % (off, st.lo(off), st.hi(off))
        elif base.info and base.info[0] == "global" and not write:
            sz = s.gsize(i.fn, base)
            if sz is None: return
            off = st.norm(off)
            r = s.tab.setdefault((i.where, base.name), [0, None, None]); r[0] += 1
            if st.lo(off) >= 0 and st.hi(off) + size <= sz: return
            if st.ge(off) and st.ge(Lin(sz - size).add(off, -1)): return
            r[1] = "entry at %s (%s..%s) of %s, %d bytes" % (off, st.lo(off), st.hi(off), base.name, sz)
    def gsize(s, f, base):
        g = base.info[1]
        try: return g["mod"].sizeof(g["ty"])
        except Exception: return None
    # ---- calls
    def on_call(s, st, i, fns, exts, slot, args, cx):
        if exts and not fns and any(x in s.eng.noreturn for x in exts):
            t = ""
            for a in i.a:
                if a.k in ("g", "ce"):
                    t = s.text(i.fn, a); break
            s.abort[(i.fn.name, exts[0], t)] = (i.where, s.where(st))
            return None
        if slot and slot[0] == SS:
            s.cb.setdefault(slot[1], set()).add(i.where)
            return [(st, None)]
        if i.x.k != "g" and slot is None: return None
        return None
    def text(s, f, a):
        try:
            g = f.mod.globals.get(a.v if a.k == "g" else a.v[2].v)
            return g["init"].v.decode().rstrip("\0") if g else ""
        except Exception: return ""
    def where(s, st): return "state %s" % (s.cur,)
    cur = None
    def on_return(s, st, i, v, cx, depth):
        if depth != 1: return
        e = s.eng
        l = st.norm(v.l) if v is not None else None
        err = l is not None and l.const() and l.c < 0
        cell = {}
        for name in ("state", "header_state"):
            c = e.load(st, i.fn, i, V(e.lin(s.pbase).add(Lin(s.off[name][0]))), s.off[name][1])
            q = st.norm(c.l); cell[name] = q.c if q.const() else None
        if not err:
            c = (cell["state"], cell["header_state"], st.mon.get("ck", 0)); r = s.exits.setdefault(c, {})
            for name, (o, ty) in s.off.items():
                if ty.k != "i" or name in cell: continue
                q = s.eng.load(st, i.fn, i, V(e.lin(s.pbase).add(Lin(o))), ty).l
                a, b = r.get(name, (INF, -INF))
                r[name] = (min(a, st.lo(q)), max(b, st.hi(q)))
        r = s.rets.setdefault(i.where, [0, None]); r[0] += 1
        if l is not None and not err:
            if not st.ge(l): r[1] = "result %s (%s..%s) may be below the number of bytes" % (l, st.lo(l), st.hi(l))
            elif not st.ge(s.dsize.add(l, -1)): r[1] = "result %s may be above the size of the data" % l

def layout(p, f):
    """offsets of the parser fields from the accesses the function makes"""
    st = static(p); off = {}
    for i in f.instrs():
        if i.op == "gep" and i.x is not None:
            t = st.gep_tag(f, i.x, i.a[1:])
            if t and t[0] == PS and len(t) == 2 and all(a.k == "int" for a in i.a[1:]):
                o = 0
                if i.x.k != "named" or len(i.a) != 3: continue
                off[t[1]] = f.mod.field_offset(i.x, i.a[2].v)
    return off

def explore(p, f, combos):
    """one fixpoint from the given entry combinations -> (monitor, engine)"""
    mon = Parse(f); mon.dbase = None; f_prog[:] = [p]
    heads = {}
    for b in f.order:
        ph = finite(f, b)
        idx = {x.name: n for n, x in enumerate(f.order)}
        if ph and any(idx.get(q, -1) >= idx[b.name] for q in b.pred): heads[b.name] = ph
    if not heads: raise AnalysisBroken("no loop over the parsing state in " + f.name)
    def part(g, h, st):
        if g is not f or h not in heads: return None
        st.mon.pop("in", None); st.mon.pop("_e", None)
        mon.arrive(st)
        k = []
        for q in heads[h]:
            v = st.env.get(q.res)
            c = st.norm(v.l) if v is not None else None
            k.append(c.c if c is not None and c.const() else None)
        for b, cells in st.mem.items():
            if b.info and b.info[0] == "alloca":
                for o, c in cells.items():
                    if o == 0 and c[1] <= 4:
                        q = st.norm(c[0].l)
                        if q.const(): k.append((b.name, q.c))
        mon.parts.add(tuple(x for x in k if not isinstance(x, tuple)) + (st.mon.get("ck", 0),))
        st.mon["it"] = tuple(x for x in k if not isinstance(x, tuple))
        return tuple(sorted(k, key=repr)) if any(isinstance(x, tuple) for x in k) else tuple(k)
    e = Engine(p, mon, depth=6, inline=lambda t: True, budget=6000000, partition=part, cap=24)
    e.fine = 64
    def again(g, h, st):
        """the message goes on in a later call: loop variables kept in the parser keep their value, the others start afresh"""
        if g is not f or h not in heads: return None
        x = st.copy(); d = static_defs(f)
        for ph in f.blocks[h].ins:
            if ph.op != "phi" or ph.res not in x.env: continue
            for q, v in ph.x:
                if idx[q] < idx[h] and not fromfield(f, v): x.env[ph.res] = e.val(x, f, v)
        return x
    idx = {x.name: n for n, x in enumerate(f.order)}
    e.reenter = again
    mon.off = layout(p, f)
    mon.guards(p, [g for g in p.fns.values() if g.file == f.file])
    def setup(e, st, g, args):
        ptrs = [n for n, (pn, pt) in enumerate(g.params) if pt.k == "ptr"]
        mon.pbase = e.split(args[pnum(p, f)].l)[0]
        dn = dnum(p, f)
        mon.dbase = e.split(args[dn].l)[0]; mon.dsize = args[dn + 1].l
        for y, _ in mon.dsize.t: y.lo = max(y.lo, 0); y.hi = min(y.hi, 1 << 31)
        out = []
        for c in sorted(combos, key=repr):
            x = st.copy(); x.mon = {"ck": c[2] & mon.relevant, "in": c, "_e": tuple((n, v) for n, v in (("state", c[0]), ("header_state", c[1])) if v is not None) + tuple(sorted(combos[c].items()))}
            out.append(x)
        return out
    e.run(f, setup=setup)
    return mon, e
def fromfield(f, v):
    """the parser field an initial value is loaded from"""
    d = static_defs(f)
    while v.k == "loc" and v.v in d and d[v.v].op in ("zext", "sext", "trunc", "freeze"): v = d[v.v].a[0]
    if v.k == "loc" and v.v in d and d[v.v].op == "load":
        a = static(f_prog[0]).addr(f, d[v.v].a[0])
        if a[0] == "tag" and a[1] == PS: return a[2]
    return None
def merge(iv):
    if len(iv) <= 8: return frozenset(iv)
    r = []
    for a, b in sorted(iv):
        if r and a <= r[-1][1] + 1: r[-1] = (r[-1][0], max(b, r[-1][1]))
        else: r.append((a, b))
    return frozenset(r)
f_prog = []
def initial(p, f):
    """combinations set by the functions that create parsers (or otherwise assign the parsing state) -> {(state, header state, bits): ranges}"""
    st = static(p); out = {}
    for g in p.fns.values():
        if g is f or roots.is_test(g): continue
        vals = {}
        for i in g.instrs():
            if i.op == "store":
                a = st.addr(g, i.a[1])
                if a[0] == "tag" and a[1] == PS and len(a) == 3: vals.setdefault(a[2], []).append(consts(g, i.a[0]))
        if "state" not in vals or "header_state" not in vals: continue
        for x in set().union(*[v or () for v in vals["state"]]):
            for h in set().union(*[v or () for v in vals["header_state"]]):
                fl = [v for v in vals.get("flags", [None])]
                fl = fl[-1] if fl and fl[-1] else {0}
                r = {}
                for n in ("content_length", "index"):
                    v = vals.get(n, [None])[-1]
                    if v: r[n] = (min(v), max(v))
                out[(x, h, min(fl))] = r
    return out
def consts(f, v, n=0):
    d = static_defs(f)
    if v.k == "int": return {v.v}
    if v.k != "loc" or n > 4 or v.v not in d: return None
    i = d[v.v]
    if i.op in ("select", "phi"):
        r = set()
        for x in (i.a[1:] if i.op == "select" else [q for _, q in i.x]):
            c = consts(f, x, n + 1)
            if c is None: return None
            r |= c
        return r
    if i.op in ("zext", "sext", "trunc", "freeze"): return consts(f, i.a[0], n + 1)
    return None
def static_defs(f):
    d = f.__dict__.get("_defs")
    if d is None: d = f._defs = {i.res: i for i in f.instrs() if i.res}
    return d
def closure(p, f, log=None):
    """entry combinations closed over the exits -> (monitor of the last run, engine, entry combinations, runs)"""
    ent = initial(p, f)
    if not ent: raise AnalysisBroken("no initial parser state found")
    for n in range(6):
        mon, e = explore(p, f, ent)
        if log: log(n, mon, e, ent)
        if e.incomplete: return mon, e, ent, n + 1
        new = {c: dict(r) for c, r in ent.items()}; ch = False
        for c, r in mon.exits.items():
            o = new.get(c)
            if o is None: new[c] = dict(r); ch = True; continue
            for k, (a, b) in r.items():
                if k not in o: continue
                x, y = o[k]
                if a < x or b > y:
                    ch = True
                    if n >= 2: a, b = (-INF if a < x else x), (INF if b > y else y)
                    o[k] = (min(a, x), max(b, y))
            for k in list(o):
                if k not in r: del o[k]
        ent = new
        if not ch: return mon, e, ent, n + 1
    raise AnalysisBroken("the parser's entry states do not settle")
def pnum(p, f):
    st = static(p)
    for n, (pn, pt) in enumerate(f.params):
        if pt.k != "ptr": continue
        for i in f.instrs():
            if i.op == "gep" and i.a[0].k == "loc" and i.a[0].v == pn:
                t = st.gep_tag(f, i.x, i.a[1:])
                if t and t[0] == PS: return n
    raise AnalysisBroken("parser argument of %s not found" % f.name)
def dnum(p, f):
    """the data argument: a pointer directly followed by an integer"""
    for n in range(len(f.params) - 1):
        if f.params[n][1].k == "ptr" and f.params[n + 1][1].k == "i": return n
    raise AnalysisBroken("data argument of %s not found" % f.name)
class Result: pass
def analyse(p, f):
    """what the exploration from the initial states found"""
    ent = initial(p, f)
    if not ent: raise AnalysisBroken("no initial parser state found")
    m, e = explore(p, f, ent)
    r = Result()
    r.abort = m.abort; r.tab = m.tab; r.len = m.len; r.trans = m.trans; r.parts = m.parts; r.data = m.data
    r.incomplete = e.incomplete; r.steps = e.budget0 - e.budget; r.visited = {g.key for g in e.visited}
    return r
_bg = None
def _work(n): return analyse(_bg[0], _bg[1][n])
def start(p, fs):
    """analyse the parse functions in the background: a function that waits for and returns the results"""
    global _bg
    import multiprocessing
    static(p); _bg = (p, fs)
    pool = multiprocessing.get_context("fork").Pool(len(fs))
    r = pool.map_async(_work, range(len(fs)))
    def wait():
        x = r.get(); pool.close(); pool.join(); return x
    return wait

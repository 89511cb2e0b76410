"""What a function leaves set in the structures it allocates: a forward analysis over the control flow of every allocating function
(fields stored on every path from the allocation to each way out, stores made by called functions included)."""
from . import slots, cfg, roots

ALLOC = {"malloc": 0, "realloc": None}
ZERO = {"calloc"}
FILL = {"llvm.memset": 0, "llvm.memcpy": 0, "llvm.memmove": 0, "memset": 0, "memcpy": 0}

class Initial:
    def __init__(s, prog):
        s.p = prog; s.sl = slots.static(prog); s.sums = {}; s.busy = set()
    def defs(s, f):
        return {i.res: i for i in f.instrs() if i.res}
    def alias(s, f, start):
        """names in f that are the pointer itself; (name -> byte offset) for addresses derived from it"""
        out = {start: 0}; ch = True
        while ch:
            ch = False
            for i in f.instrs():
                if not i.res or i.res in out: continue
                if i.op == "gep" and i.a[0].k == "loc" and i.a[0].v in out:
                    o = s.offset(f, i)
                    b = out[i.a[0].v]
                    out[i.res] = None if o is None or b is None else b + o; ch = True
                elif i.op in ("bitcast",) and i.a[0].k == "loc" and i.a[0].v in out: out[i.res] = out[i.a[0].v]; ch = True
                elif i.op == "phi":
                    vs = [a[0] if isinstance(a, tuple) else a for a in i.a]
                    if vs and all((v.k == "loc" and (out.get(v.v, 1) == 0 or v.v == i.res)) or v.k == "null" for v in vs) and any(v.k == "loc" and v.v in out for v in vs): out[i.res] = 0; ch = True
        return out
    def offset(s, f, i):
        t = i.x; m = f.mod; o = 0
        for n, a in enumerate(i.a[1:]):
            if a.k not in ("int", "zero"): return None
            v = a.v if a.k == "int" else 0
            if n == 0: o += v * m.sizeof(t)
            else:
                t2 = m.struct_def(t) if t.k == "named" else t
                if t2.k == "arr": o += v * m.sizeof(t2.el); t = t2.el
                else: o += m.field_offset(t, v)[0]; t = t2.elems[v]
        return o
    def struct_of(s, f, al):
        for i in f.instrs():
            if i.op == "gep" and i.a[0].k == "loc" and al.get(i.a[0].v, 1) == 0 and i.x.k == "named" and len(i.a) > 2: return i.x
        return None
    # a state: frozenset of byte offsets set; ALL when everything is
    def effect(s, f, i, al):
        """offsets set by the instruction; True: everything"""
        out = set()
        if i.op == "store":
            a = i.a[1]
            if a.k == "loc" and a.v in al and al[a.v] is not None:
                w = f.mod.sizeof(i.a[0].ty)
                out.update(range(al[a.v], al[a.v] + w))
        elif i.op == "call":
            nm = i.x.v if i.x.k == "g" else None
            base = ".".join(nm.split(".")[:2]) if nm and nm.startswith("llvm.") else nm
            if base in FILL and i.a and i.a[0].k == "loc" and i.a[0].v in al and al[i.a[0].v] is not None:
                n = i.a[2]
                if n.k == "int": out.update(range(al[i.a[0].v], al[i.a[0].v] + n.v))
                else: return True if al[i.a[0].v] == 0 else out
            ts = s.sl.targets(f, i); ex = any(isinstance(t, str) for t in ts)
            for n, a in enumerate(i.a):
                if a.k == "loc" and a.v in al and al[a.v] is not None:
                    if ts and not ex:
                        r = None
                        for t in ts:
                            z = s.summary(t, n)
                            r = z if r is None else r & z
                        out.update(al[a.v] + k for k in r)
                    elif base not in FILL and al[a.v]: out.update(range(al[a.v], al[a.v] + 8))
        return out
    def flow(s, f, al, start):
        """offsets set at every way out reached from start (an instruction, or None for the entry)"""
        IN = {}; res = None
        b0 = start.blk if start is not None else f.order[0]
        work = []
        def run(b, st, frm):
            nonlocal res
            on = frm is None
            for i in b.ins:
                if not on:
                    if i is frm: on = True
                    continue
                e = s.effect(f, i, al)
                st = ALL if e is True or st is ALL else st | e
                if i.op == "call" and i.x.k == "g" and i.x.v in ("free",) and i.a[0].k == "loc" and al.get(i.a[0].v, 1) == 0: return
                if i.op == "ret": res = st if res is None or res is ALL else (res if st is ALL else res & st); return
            for n in b.succ:
                n = n if not isinstance(n, str) else f.blocks[n]
                old = IN.get(n)
                new = st if old is None else (old if st is ALL else (st if old is ALL else old & st))
                if old is None or new != old: IN[n] = new; work.append(n)
        run(b0, frozenset(), start)
        while work:
            b = work.pop(); run(b, IN[b], None)
        return res
    def summary(s, t, n):
        k = (t, n)
        if k in s.sums: return s.sums[k]
        if k in s.busy or n >= len(t.params): return frozenset()
        s.busy.add(k)
        pn = t.params[n][0] if isinstance(t.params[n], tuple) else t.params[n]
        pn = getattr(pn, "v", pn)
        r = s.flow(t, s.alias(t, pn), None)
        r = frozenset(range(4096)) if r is ALL else frozenset(r or ())
        s.busy.discard(k); s.sums[k] = r
        return r
    def sites(s):
        for f in s.p.fns.values():
            if roots.is_test(f): continue
            for i in f.instrs():
                if i.op == "call" and i.x.k == "g" and i.x.v in ALLOC and i.res:
                    al = s.alias(f, i.res); t = s.struct_of(f, al)
                    if t is None: continue
                    yield f, i, t, al, s.flow(f, al, i)
class _All:
    def __or__(s, o): return s
    def __and__(s, o): return o
ALL = _All()

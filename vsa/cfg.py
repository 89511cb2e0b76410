"""Control-flow facts of one function: predecessors, dominators, the branch outcomes a block depends on, tracing of
values to their origin."""
from .slots import static

def preds(f):
    r = f.__dict__.get("_preds")
    if r is None:
        r = {b.name: [] for b in f.order}
        for b in f.order:
            for x in b.succ:
                if b.name not in r[x]: r[x].append(b.name)
        f._preds = r
    return r
def rpo(f):
    r = f.__dict__.get("_rpo")
    if r is None:
        seen = set(); out = []
        st = [(f.order[0].name, iter(f.blocks[f.order[0].name].succ))]; seen.add(f.order[0].name)
        while st:
            n, it = st[-1]
            for x in it:
                if x not in seen:
                    seen.add(x); st.append((x, iter(f.blocks[x].succ))); break
            else:
                out.append(n); st.pop()
        r = f._rpo = out[::-1]
    return r
def idom(f):
    r = f.__dict__.get("_idom")
    if r is None:
        order = rpo(f); num = {b: n for n, b in enumerate(order)}; P = preds(f)
        r = {order[0]: order[0]}; ch = True
        while ch:
            ch = False
            for b in order[1:]:
                new = None
                for p in P[b]:
                    if p in r:
                        if new is None: new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while num[x] > num[y]: x = r[x]
                                while num[y] > num[x]: y = r[y]
                            new = x
                if r.get(b) != new: r[b] = new; ch = True
        f._idom = r
    return r
def dominates(f, a, b):
    d = idom(f)
    if b not in d: return True
    while True:
        if a == b: return True
        if d[b] == b: return False
        b = d[b]
def instr_dominates(f, i, j):
    bi, bj = i.blk, j.blk
    if bi is bj or getattr(bi, "name", bi) == getattr(bj, "name", bj): return blk(f, bi).ins.index(i) < blk(f, bj).ins.index(j)
    return dominates(f, bname(bi), bname(bj))
def bname(b): return getattr(b, "name", b)
def blk(f, b): return f.blocks[bname(b)]
def edge_dominates(f, a, t, b):
    """does every path to b pass the edge a -> t"""
    if a == t: return False
    if [x for x in f.blocks[a].succ].count(t) > 1: return False
    for p in preds(f)[t]:
        if p != a and not dominates(f, t, p): return False
    return dominates(f, t, b)
def conds(f, b):
    """branch outcomes that hold whenever block b is entered, outermost last: (kind, value, operator, constant-or-value)
    kind 'icmp' (the comparison instruction, truth) or 'case' (switch value, set of constants or None, excluded constants)"""
    d = idom(f); out = []
    b = bname(b); cur = b
    while cur in d:
        if d[cur] == cur: break
        a = d[cur]; t = f.blocks[a].ins[-1]
        if t.op == "br" and len(t.x) == 2 and t.x[0] != t.x[1]:
            for n, tgt in enumerate(t.x):
                if edge_dominates(f, a, tgt, b): out.append(("br", t.a[0], n == 0, a))
        elif t.op == "switch":
            cases = {}
            for c, tgt in t.x[1]: cases.setdefault(tgt, []).append(c)
            dflt = t.x[0]
            for tgt in set(list(cases) + [dflt]):
                ok = all(p == a or dominates(f, tgt, p) for p in preds(f)[tgt]) and dominates(f, tgt, b)
                if ok: out.append(("case", t.a[0], None if tgt == dflt else cases[tgt], a))
        cur = a
    return out
def defs(prog, f): return static(prog).index(f)
def origin(prog, f, v, through=("zext", "sext", "trunc", "bitcast", "freeze")):
    """the value behind conversions"""
    d = defs(prog, f)
    while v.k == "loc" and v.v in d and d[v.v].op in through: v = d[v.v].a[0]
    return v
def origin_instr(prog, f, v):
    v = origin(prog, f, v)
    return defs(prog, f).get(v.v) if v.k == "loc" else None
def load_tag(prog, f, v):
    """(struct, field) the value was loaded from, or None"""
    i = origin_instr(prog, f, v)
    if i is None or i.op != "load": return None
    a = static(prog).addr(f, i.a[0])
    return (a[1], a[2]) if a[0] == "tag" else None
def atoms(prog, f, b):
    """conds as (value, op, constant) triples where the comparison is with a constant; op in eq ne lt..."""
    out = []
    d = defs(prog, f)
    NEG = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt"}
    for c in conds(f, b):
        if c[0] == "case":
            if c[2] is not None: out.append((c[1], "in", tuple(c[2])))
            continue
        _, v, truth, _ = c
        n = 0
        while v.k == "loc" and v.v in d and n < 6:
            i = d[v.v]; n += 1
            if i.op == "icmp":
                x, y = i.a
                op = i.x if truth else NEG[i.x]
                if y.k == "int" and y.v == 0 and i.x in ("eq", "ne") and x.k == "loc" and x.v in d and d[x.v].op in ("zext", "icmp") and (d[x.v].op == "icmp" or (d[x.v].a[0].ty.k == "i" and d[x.v].a[0].ty.n == 1)):
                    truth = op == "ne"; v = x if d[x.v].op == "icmp" else d[x.v].a[0]; continue
                if y.k in ("int", "null"): out.append((x, op, y.v if y.k == "int" else 0))
                elif x.k in ("int", "null"): out.append((y, {"slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}.get(op, op), x.v if x.k == "int" else 0))
                else: out.append((x, op, y))
                break
            elif i.op in ("zext", "freeze"): v = i.a[0]
            else:
                out.append((v, "ne" if truth else "eq", 0)); break
    return out
def reach(f, starts, stop=()):
    seen = set(); w = list(starts)
    while w:
        b = w.pop()
        if b in seen or b in stop: continue
        seen.add(b); w += f.blocks[b].succ
    return seen

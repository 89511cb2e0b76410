"""Linear-congruence evaluation: the value of a loop-free arithmetic function when its parameter is m*q + r, as a linear
expression a*q + b of the unknown quotient q (q >= 1). Exact for + - * / % by constants; None when it is not linear."""
from .ir import AnalysisBroken

def evaluate(fn, arg, m, r, args=None):
    env = {}
    for n, (pn, pt) in enumerate(fn.params): env[pn] = (m, r) if n == arg else (args or {}).get(n)
    def val(v):
        if v.k == "int": return (0, v.v)
        if v.k == "loc": return env.get(v.v)
        return None
    cur = fn.order[0].name; prev = None; steps = 0
    while True:
        steps += 1
        if steps > 200: return None
        blk = fn.blocks[cur]; new = {}
        for i in blk.ins:
            if i.op != "phi": break
            for b, v in phi_in(i):
                if b == prev: new[i.res] = val(v)
        env.update(new)
        for i in blk.ins:
            if i.op == "phi": continue
            if i.op == "ret": return val(i.a[0]) if i.a else None
            if i.op == "br":
                if len(i.x) == 1: prev, cur = cur, i.x[0]; break
                c = val(i.a[0])
                if c is None or c[0]: return None
                prev, cur = cur, i.x[0] if c[1] else i.x[1]; break
            if not i.res: continue
            a = [val(x) for x in i.a]
            env[i.res] = step(i, a)
def phi_in(i): return list(i.x)
def step(i, a):
    if any(x is None for x in a): return None
    op = i.op
    if op in ("zext", "sext", "trunc", "freeze"): return a[0]
    if op == "add": return (a[0][0] + a[1][0], a[0][1] + a[1][1])
    if op == "sub": return (a[0][0] - a[1][0], a[0][1] - a[1][1])
    if op == "mul":
        if a[1][0] == 0: return (a[0][0] * a[1][1], a[0][1] * a[1][1])
        if a[0][0] == 0: return (a[1][0] * a[0][1], a[1][1] * a[0][1])
        return None
    if op == "shl" and a[1][0] == 0: return (a[0][0] << a[1][1], a[0][1] << a[1][1])
    if op in ("udiv", "sdiv", "lshr", "ashr"):
        if a[1][0]: return None
        c = a[1][1] if op.endswith("div") else 1 << a[1][1]
        if c <= 0 or a[0][0] % c: return None
        return (a[0][0] // c, a[0][1] // c)
    if op in ("urem", "srem", "and"):
        if a[1][0]: return None
        c = a[1][1] if op != "and" else a[1][1] + 1
        if c <= 0 or a[0][0] % c or (op == "and" and c & (c - 1)): return None
        return (0, a[0][1] % c)
    if op == "icmp":
        d = (a[0][0] - a[1][0], a[0][1] - a[1][1])
        if d[0]: 
            if i.x in ("eq", "ne"): return None
            s = 1 if d[0] > 0 else -1
            if d[0] * 1 + d[1] > 0 and s > 0: v = 1
            elif d[0] + d[1] < 0 and s < 0: v = -1
            else: return None
        else: v = d[1]
        p = i.x[1:] if i.x[0] in "us" else i.x
        return (0, int({"eq": v == 0, "ne": v != 0, "gt": v > 0, "ge": v >= 0, "lt": v < 0, "le": v <= 0}[p]))
    if op == "select":
        if a[0][0]: return None
        return a[1] if a[0][1] else a[2]
    return None

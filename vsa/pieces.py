"""Piecewise-linear value of a loop-free function of one byte: the argument range is split at the constants it is compared
with, giving an exact partition 0..255 -> a*x + b per interval (an interval analysis that loses nothing here)."""
from .ir import AnalysisBroken
from . import cfg

def sx(v, n): 
    v &= (1 << n) - 1
    return v - (1 << n) if v >> (n - 1) else v

class Unknown(Exception): pass

def pieces(prog, fn, lo=0, hi=255):
    """-> list of (lo, hi, fval) with fval(x) -> returned int; raises Unknown"""
    out = []; work = [(lo, hi, ())]; n = 0
    while work:
        n += 1
        if n > 4000: raise Unknown("too many pieces")
        lo, hi, _ = work.pop()
        r = walk(prog, fn, lo, hi)
        if r[0] == "split":
            c = r[1]
            if not (lo < c <= hi): raise Unknown("cannot split at %r" % (c,))
            work.append((lo, c - 1, ())); work.append((c, hi, ()))
        else: out.append((lo, hi, r[1]))
    return sorted(out)

def bounds(v, lo, hi):
    a, b = v
    x, y = a * lo + b, a * hi + b
    return (x, y) if x <= y else (y, x)
def walk(prog, fn, lo, hi):
    env = {fn.params[0][0]: (1, 0)}
    cur = fn.order[0].name; prev = None; steps = 0
    def val(v):
        if v.k == "int": return (0, v.v)
        if v.k == "loc":
            if v.v not in env: raise Unknown(v.v)
            return env[v.v]
        raise Unknown(repr(v))
    class Split(Exception): pass
    def decide(op, a, b):
        """truth of a op b for all x in the range, or Split"""
        d = (a[0] - b[0], a[1] - b[1])
        l, h = bounds(d, lo, hi)
        p = op[1:] if op[0] in "us" else op
        t = {"eq": (l == h == 0, h < 0 or l > 0), "ne": (h < 0 or l > 0, l == h == 0), "lt": (h < 0, l >= 0), "le": (h <= 0, l > 0), "gt": (l > 0, h <= 0), "ge": (l >= 0, h < 0)}[p]
        if t[0]: return 1
        if t[1]: return 0
        if lo == hi: raise Unknown("undecided at a point")
        for c in range(lo + 1, hi + 1):     # first point where the sign pattern changes
            if sgn(d[0] * c + d[1]) != sgn(d[0] * lo + d[1]): raise_split(c)
        raise Unknown("no split")
    def sgn(v): return (v > 0) - (v < 0)
    def raise_split(c):
        e = Split(); e.c = c; raise e
    def inrange(a, f, t):
        l, h = bounds(a, lo, hi)
        if f <= l and h <= t: return True
        if h < f or l > t: return False
        for c in range(lo + 1, hi + 1):
            if (f <= a[0] * c + a[1] <= t) != (f <= a[0] * lo + a[1] <= t): raise_split(c)
        raise Unknown("range")
    try:
        while True:
            steps += 1
            if steps > 300: raise Unknown("loop")
            blk = fn.blocks[cur]; new = {}
            for i in blk.ins:
                if i.op != "phi": break
                for b, v in i.x:
                    if b == prev:
                        try: new[i.res] = val(v)
                        except Unknown: pass
            env.update(new)
            for i in blk.ins:
                op = i.op
                if op == "phi": continue
                if op == "ret": 
                    if not i.a: return ("ret", None)
                    v = val(i.a[0])
                    return ("ret", v)
                if op == "br":
                    if len(i.x) == 1: prev, cur = cur, i.x[0]; break
                    c = val(i.a[0])
                    if c[0]: raise Unknown("branch")
                    prev, cur = cur, i.x[0] if c[1] & 1 else i.x[1]; break
                if op == "switch":
                    v = val(i.a[0]); tgt = i.x[0]
                    for c, t in i.x[1]:
                        if decide("eq", v, (0, c)): tgt = t; break
                    prev, cur = cur, tgt; break
                if op == "call":
                    nm = i.x.v if i.x.k == "g" else None
                    if nm is None: raise Unknown("indirect call")
                    if nm.startswith("llvm.dbg"): continue
                    if nm in ("isdigit", "tolower", "toupper", "isupper", "islower", "isalpha"):
                        a = val(i.a[0])
                        up = lambda: inrange(a, 65, 90)
                        lw = lambda: inrange(a, 97, 122)
                        if nm == "isdigit": env[i.res] = (0, int(inrange(a, 48, 57)))
                        elif nm == "isupper": env[i.res] = (0, int(up()))
                        elif nm == "islower": env[i.res] = (0, int(lw()))
                        elif nm == "isalpha": env[i.res] = (0, int(up() or lw()))
                        elif nm == "tolower": env[i.res] = (a[0], a[1] + 32) if up() else a
                        else: env[i.res] = (a[0], a[1] - 32) if lw() else a
                        continue
                    t = prog.resolve(fn.mod, nm)
                    if t is None or len(i.a) != 1: raise Unknown(nm)
                    a = val(i.a[0])
                    if a == (1, 0):
                        r = walk(prog, t, lo, hi)
                        if r[0] == "split": return r
                        env[i.res] = r[1]; continue
                    if a[0] == 0:
                        r = walk_const(prog, t, a[1]); env[i.res] = r; continue
                    raise Unknown(nm)
                if not i.res: continue
                if op in ("alloca", "gep"):
                    if op == "gep":
                        # table lookup: remember table and index
                        base = i.a[0]
                        if base.k == "g":
                            try: env[i.res] = ("tab", base.v, val(i.a[-1]))
                            except Unknown: pass
                    continue
                if op == "load":
                    p = env.get(i.a[0].v) if i.a[0].k == "loc" else None
                    if p and p[0] == "tab":
                        g = prog.resolve_global(fn.mod, p[1]); T = flat(g["init"])
                        ix = p[2]
                        if ix[0] == 0: env[i.res] = (0, sx(T[ix[1]], 8)); continue
                        if lo == hi: env[i.res] = (0, sx(T[ix[0] * lo + ix[1]], 8)); continue
                        raise_split(lo + 1)
                    raise Unknown("load")
                try: a = [val(x) for x in i.a]
                except Unknown:
                    continue
                if op in ("zext", "sext", "trunc", "freeze"):
                    n = i.ty.n if op == "trunc" else i.a[0].ty.n
                    if op == "trunc":
                        l, h = bounds(a[0], lo, hi)
                        if l >= 0 and h < 1 << n or l >= -(1 << (n - 1)) and h < 1 << (n - 1): env[i.res] = a[0]
                        elif lo == hi: env[i.res] = (0, l & ((1 << n) - 1))
                        else: raise_split((lo + hi + 1) // 2)
                    elif op == "zext":
                        l, h = bounds(a[0], lo, hi)
                        if l >= 0: env[i.res] = a[0]
                        elif h < 0: env[i.res] = (a[0][0], a[0][1] + (1 << n))
                        else: inrange(a[0], 0, 1 << 40); raise Unknown("zext")
                    elif op == "sext":
                        l, h = bounds(a[0], lo, hi); m = 1 << (n - 1)
                        if n == 1: env[i.res] = (0, -(a[0][1] & 1))
                        elif h < m: env[i.res] = a[0]
                        elif l >= m: env[i.res] = (a[0][0], a[0][1] - 2 * m)
                        else: inrange(a[0], -m, m - 1); raise Unknown("sext")
                    else: env[i.res] = a[0]
                elif op == "add": env[i.res] = (a[0][0] + a[1][0], a[0][1] + a[1][1])
                elif op == "sub": env[i.res] = (a[0][0] - a[1][0], a[0][1] - a[1][1])
                elif op == "icmp": env[i.res] = (0, decide(i.x, a[0], a[1]))
                elif op == "select": env[i.res] = a[1] if a[0][1] else a[2]
                elif op in ("mul", "shl", "and", "or", "xor", "lshr", "ashr", "udiv", "sdiv", "urem", "srem"):
                    if a[1][0] == 0 and op == "mul": env[i.res] = (a[0][0] * a[1][1], a[0][1] * a[1][1])
                    elif op == "and" and a[1][0] == 0 and (a[1][1] & (a[1][1] + 1)) == 0 and bounds(a[0], lo, hi)[0] >= 0 and bounds(a[0], lo, hi)[1] <= a[1][1]: env[i.res] = a[0]
                    elif all(x[0] == 0 for x in a) or lo == hi:
                        x, y = (q[0] * lo + q[1] for q in a)
                        env[i.res] = (0, {"mul": lambda: x * y, "shl": lambda: x << y, "and": lambda: x & y, "or": lambda: x | y, "xor": lambda: x ^ y, "lshr": lambda: x >> y, "ashr": lambda: x >> y, "udiv": lambda: x // y, "sdiv": lambda: x // y, "urem": lambda: x % y, "srem": lambda: x % y}[op]())
                    else: raise_split((lo + hi + 1) // 2)
                else: raise Unknown(op)
    except Split as e: return ("split", e.c)
def walk_const(prog, t, c):
    r = walk(prog, t, c, c)
    return (0, r[1][0] * c + r[1][1])
def flat(v):
    """integers of an initialiser"""
    if v.k == "str": return list(v.v)
    if v.k == "agg":
        out = []
        for e in v.v: out += flat(e)
        return out
    if v.k == "int": return [v.v]
    if v.k == "zero":
        return [0] * count(v.ty)
    raise AnalysisBroken("initialiser kind %s" % v.k)
def count(t):
    if t.k == "arr": return t.n * count(t.el)
    if t.k == "lit": return sum(count(x) for x in t.elems)
    return 1

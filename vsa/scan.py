"""What a function that scans a path reports about its parent directory segments, decided as a dataflow problem over a
finite domain: the scanner is run in product with the automaton of '..' segments over the classes of bytes (dot,
slash, backslash, end, other); counters are kept relative to the number of segments found so far, registers that are
not live are dropped, and the fixpoint enumerates every reachable abstract state.  The result is the set of pairs
(a parent segment is present, returned value)."""
from .ir import Val

class Unknown(Exception): pass
CL = (46, 47, 92, 0, "o")
START, D1, D2, X, END = "S", "1", "2", "x", "E"
def step(d, c):
    """-> (state, a parent segment ended here)"""
    if d == END: return END, False
    if c == 0: return END, d == D2
    if c == 47: return START, d == D2
    if c == 46: return {START: D1, D1: D2}.get(d, X), False
    return X, False

def live(f):
    use = {}; dfn = {}; pu = {}
    for b in f.order:
        u = set(); d = set()
        for i in b.ins:
            if i.op == "phi":
                d.add(i.res)
                for p, v in i.x:
                    if v.k == "loc": pu.setdefault((p, b.name), set()).add(v.v)
                continue
            for v in i.a:
                if v.k == "loc" and v.v not in d: u.add(v.v)
            if i.res: d.add(i.res)
        use[b.name] = u; dfn[b.name] = d
    li = {b.name: set() for b in f.order}; ch = True
    while ch:
        ch = False
        for b in reversed(f.order):
            o = set()
            for x in b.succ: o |= (li[x] - {i.res for i in f.blocks[x].ins if i.op == "phi"}) | pu.get((b.name, x), set())
            n = use[b.name] | (o - dfn[b.name]) | {i.res for i in b.ins if i.op == "phi"}
            if n != li[b.name]: li[b.name] = n; ch = True
    return li

def counters(f):
    """registers whose value goes round a loop through an addition"""
    d = {i.res: i for i in f.instrs() if i.res}
    out = set()
    for i in f.instrs():
        if i.op != "phi" or i.ty.k == "p": continue
        seen = set(); w = [(v, False) for _, v in i.x]; hit = False
        while w:
            v, ad = w.pop()
            if v.k != "loc" or (v.v, ad) in seen: continue
            seen.add((v.v, ad))
            if v.v == i.res:
                if ad: hit = True
                continue
            q = d.get(v.v)
            if q is None: continue
            if q.op == "phi": w += [(x, ad) for _, x in q.x]
            elif q.op == "add": w += [(x, True) for x in q.a]
            elif q.op in ("zext", "sext", "trunc"): w.append((q.a[0], ad))
            elif q.op == "select": w += [(x, ad) for x in q.a[1:]]
        if hit: out.add(i.res)
    ch = True
    while ch:
        ch = False
        for i in f.instrs():
            if i.res in out or not i.res: continue
            ins = [v.v for _, v in i.x if v.k == "loc"] if i.op == "phi" else [v.v for v in i.a if v.k == "loc"] if i.op in ("add", "zext", "sext", "trunc") else [v.v for v in i.a[1:] if v.k == "loc"] if i.op == "select" else []
            if any(x in out for x in ins) and i.ty.k != "p": out.add(i.res); ch = True
    return out

def indexes(f, cnt):
    """counters that are used as positions in the text"""
    d = {i.res: i for i in f.instrs() if i.res}; out = set()
    w = [i.a[-1].v for i in f.instrs() if i.op == "gep" and i.a[-1].k == "loc" and i.a[0].k == "loc" and i.a[0].v == f.params[0][0]]
    while w:
        x = w.pop()
        if x in out or x not in cnt: continue
        out.add(x); q = d[x]
        w += [v.v for v in ([z for _, z in q.x] if q.op == "phi" else q.a) if v.k == "loc"]
    ch = True
    while ch:
        ch = False
        for i in d.values():
            if i.res not in out and i.res in cnt and i.op in ("add", "zext", "sext", "trunc") and any(v.k == "loc" and v.v in out for v in i.a): out.add(i.res); ch = True
    return out

def is_scanner(f):
    """takes one string, stores nothing, compares a byte of it with a dot"""
    if len(f.params) != 1 or f.order == []: return False
    if any(i.op in ("store", "alloca") for i in f.instrs()): return False
    return any(i.op == "icmp" and any(v.k == "int" and v.v == 46 for v in i.a) for i in f.instrs()) or any(i.op == "switch" and any(c == 46 for c, _ in i.x[1]) for i in f.instrs()) or any(i.op == "call" and i.x.k == "g" and i.x.v in ("strstr", "strncmp", "strcmp", "memcmp") for i in f.instrs()) and len(list(f.instrs())) < 200

def summary(prog, f, limit=40000):
    """-> set of (found, value); value is an int, or ("c", d) for d more than the number of parent segments"""
    li = live(f); cnt = counters(f); out = set(); idx = indexes(f, cnt); cnt = (cnt - idx, idx)
    init = (f.order[0].name, None, ((f.params[0][0], ("base",) if idx else ("p", 0)),), START, (), False)
    seen = {init}; work = [init]
    while work:
        if len(seen) > limit: raise Unknown("too many states")
        for n in run_block(prog, f, work.pop(), li, cnt, out):
            if n not in seen: seen.add(n); work.append(n)
    return out

def run_block(prog, f, s, li, cnt, out):
    moved = s[3] != START or s[5]
    bn, prev, envt, dfa, win, K = s; cnt, idx = cnt
    todo = [(dict(envt), win, 0, prev)]; res = []
    blk = f.blocks[bn]
    while todo:
        env, win, n, prev = todo.pop()
        def val(v):
            if v.k == "int": return v.v
            if v.k == "null": return 0
            if v.k == "loc":
                if v.v not in env: raise Unknown(v.v)
                return env[v.v]
            raise Unknown(repr(v))
        def sees(k):
            """class of the byte at offset k, or None after queueing the refinements"""
            nonlocal win
            if k < 0: raise Unknown("reads behind")
            if 0 in win[:k]: return "o"          # behind the end: anything
            if k < len(win) and win[k] is not None: return win[k]
            base = win + (None,) * (k + 1 - len(win))
            for c in CL: todo.append((dict(env), base[:k] + (c,) + base[k + 1:], n, prev))
            return None
        cond = None; stop = False
        while n < len(blk.ins) and not stop:
            i = blk.ins[n]; op = i.op; n0 = n
            if op == "phi":
                new = {}
                while blk.ins[n].op == "phi":
                    j = blk.ins[n]
                    for p, v in j.x:
                        if p == prev:
                            try: q = val(v)
                            except Unknown: continue
                            if j.res in cnt and isinstance(q, int) and not K: q = ("c", q)
                            if j.res in idx and isinstance(q, int):
                                if dfa != START or win and False or moved: raise Unknown("position")
                                q = ("i", q)
                            new[j.res] = q
                    n += 1
                env.update(new); continue
            if op == "load":
                p = val(i.a[0])
                if p == ("base",) and prev is None: p = ("p", 0)
                if not (isinstance(p, tuple) and p[0] == "p"): raise Unknown("load")
                c = sees(p[1])
                if c is None: stop = True; break
                env[i.res] = ("b", c); n += 1; continue
            if op == "gep":
                p = val(i.a[0]); k = val(i.a[-1])
                if p == ("base",):
                    if len(i.a) != 2 or not (isinstance(k, tuple) and k[0] == "i" or isinstance(k, int) and prev is None): raise Unknown("gep")
                    env[i.res] = ("p", k if isinstance(k, int) else k[1]); n += 1; continue
                if not (isinstance(p, tuple) and p[0] == "p") or not isinstance(k, int) or len(i.a) != 2: raise Unknown("gep")
                env[i.res] = ("p", p[1] + k); n += 1; continue
            if op in ("zext", "sext", "trunc", "freeze", "bitcast"):
                if i.a[0].k == "loc" and i.a[0].v in env: env[i.res] = env[i.a[0].v]
                n += 1; continue
            if op in ("icmp", "switch", "select", "br"):
                pass
            if op == "icmp":
                a, b = val(i.a[0]), val(i.a[1]); r = truth(i.x, a, b, K)
                if r is None:
                    for q in (1, 0): todo.append((dict(env, **{i.res: q}), win, n + 1, prev))
                    stop = True; break
                env[i.res] = r; n += 1; continue
            if op == "select":
                c = val(i.a[0]); env[i.res] = val(i.a[1] if c else i.a[2])
                if i.res in cnt and isinstance(env[i.res], int) and not K: env[i.res] = ("c", env[i.res])
                n += 1; continue
            if op in ("add", "sub", "and", "or", "xor"):
                a, b = val(i.a[0]), val(i.a[1])
                if op == "add" and isinstance(a, tuple) and a[0] == "c" and isinstance(b, int): r = ("c", max(-3, min(3, a[1] + b)))
                elif op == "add" and isinstance(b, tuple) and b[0] == "c" and isinstance(a, int): r = ("c", max(-3, min(3, b[1] + a)))
                elif op == "add" and isinstance(a, tuple) and a[0] == "i" and isinstance(b, int): r = ("i", a[1] + b)
                elif op == "add" and isinstance(b, tuple) and b[0] == "i" and isinstance(a, int): r = ("i", b[1] + a)
                elif isinstance(a, int) and isinstance(b, int):
                    r = {"add": a + b, "sub": a - b, "and": a & b, "or": a | b, "xor": a ^ b}[op]
                    if i.ty.n == 1: r &= 1
                else: raise Unknown(op)
                env[i.res] = r; n += 1; continue
            if op == "call":
                nm = i.x.v if i.x.k == "g" else None
                if nm and nm.startswith("llvm."): n += 1; continue
                if nm in ("strncmp", "memcmp", "strcmp"):
                    p, t = val(i.a[0]), const(prog, f, i.a[1])
                    if not (isinstance(p, tuple) and p[0] == "p") or t is None: raise Unknown(nm)
                    k = val(i.a[2]) if nm != "strcmp" else len(t) + 1
                    t = t + (0,); eq = 1; wait = False
                    for m in range(min(k, len(t))):
                        c = sees(p[1] + m)
                        if c is None: wait = True; break
                        if c != t[m]: eq = 0; break
                        if c == 0: break
                    if wait: stop = True; break
                    env[i.res] = 0 if eq else ("nz",); n += 1; continue
                raise Unknown(nm or "indirect call")
            if op == "br":
                if len(i.x) == 1: tg = i.x[0]
                else:
                    c = val(i.a[0])
                    if not isinstance(c, int): raise Unknown("branch")
                    tg = i.x[0] if c & 1 else i.x[1]
                res += leave(f, bn, tg, env, dfa, win, K, li, cnt); stop = True; break
            if op == "switch":
                v = val(i.a[0]); tg = i.x[0]
                if isinstance(v, tuple) and v[0] == "b":
                    for c, t in i.x[1]:
                        if v[1] == c: tg = t
                    if v[1] == "o":
                        for c, t in i.x[1]:
                            if c not in CL: res += leave(f, bn, t, env, dfa, win, K, li, cnt)
                elif isinstance(v, int):
                    for c, t in i.x[1]:
                        if v == c: tg = t
                else: raise Unknown("switch")
                res += leave(f, bn, tg, env, dfa, win, K, li, cnt); stop = True; break
            if op == "ret":
                v = val(i.a[0]) if i.a else 0
                d, k2, e2 = dfa, K, 0
                for c in win:
                    if c is None: break
                    d, hit = step(d, c)
                    if hit: k2 = True; e2 += 1
                    if d == END: break
                if isinstance(v, tuple) and v[0] == "c": v = ("c", v[1] - e2)
                out.add((k2, v))
                if d != END: out.add((True, v if not (isinstance(v, tuple) and v[0] == "c") else ("c", -9)))
                stop = True; break
            raise Unknown(op)
    return res

def leave(f, bn, tg, env, dfa, win, K, li, cnt):
    """state at the entry of the next block: dead registers dropped, the cursor moved up to the first live pointer"""
    blk = f.blocks[tg]; keep = set(li[tg])
    for i in blk.ins:
        if i.op != "phi": break
        keep.discard(i.res)
        for p, v in i.x:
            if p == bn and v.k == "loc": keep.add(v.v)
    env = {k: v for k, v in env.items() if k in keep}
    ptr = [v[1] for v in env.values() if isinstance(v, tuple) and v[0] in ("p", "i")]
    m = max(0, min(ptr)) if ptr else 0
    out = []; todo = [(env, dfa, win, K, m)]
    while todo:
        env, dfa, win, K, m = todo.pop()
        if m == 0:
            if dfa == END: win = ()
            out.append((tg, bn, tuple(sorted(env.items(), key=lambda x: x[0])), dfa, win, K)); continue
        if not win or win[0] is None:
            for c in CL if dfa != END else ("o",): todo.append((env, dfa, (c,) + win[1:], K, m))
            continue
        d, hit = step(dfa, win[0])
        e2 = {k: (v[0], v[1] - 1) if isinstance(v, tuple) and v[0] in ("p", "i") else ("c", max(-3, v[1] - 1)) if hit and isinstance(v, tuple) and v[0] == "c" else v for k, v in env.items()}
        todo.append((e2, d, win[1:], K or hit, m - 1))
    return out

def truth(op, a, b, K):
    p = op[1:] if op[0] in "us" else op
    if isinstance(b, tuple) and not isinstance(a, tuple):
        return truth({"lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}.get(p, p), b, a, K)
    if isinstance(a, int) and isinstance(b, int):
        return int({"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[p])
    if not isinstance(a, tuple): raise Unknown("compare")
    if a[0] == "p" and b == 0: return {"eq": 0, "ne": 1}.get(p)
    if a[0] == "nz" and b == 0 and p in ("eq", "ne"): return int(p == "ne")
    if a[0] == "b":
        if isinstance(b, tuple) and b[0] == "b":
            if a[1] != "o" and b[1] != "o" and p in ("eq", "ne"): return int((a[1] == b[1]) == (p == "eq"))
            return None
        if p in ("eq", "ne"):
            if a[1] == "o": return int(p == "ne") if b in CL else None
            return int((a[1] == b) == (p == "eq"))
        if a[1] == "o": return None
        return truth(op, a[1], b, K)
    if a[0] == "c" and isinstance(b, int):
        if not K: return truth(op, a[1], b, K)
        lo = a[1] + 1 - b                 # a - b >= lo
        if p in ("gt",) and lo > 0 or p == "ge" and lo >= 0 or p == "ne" and lo > 0: return 1
        if p in ("le",) and lo > 0 or p == "lt" and lo >= 0 or p == "eq" and lo > 0: return 0
        return None
    if a[0] == "p" and isinstance(b, tuple) and b[0] == "p" and p in ("eq", "ne"): return int((a[1] == b[1]) == (p == "eq"))
    if a[0] == "i": return None
    raise Unknown("compare")

def const(prog, f, v):
    if v.k == "g":
        g = prog.resolve_global(f.mod, v.v)
        x = g and g.get("init")
        if x is not None and x.k == "str":
            b = list(x.v)
            return tuple(b[:b.index(0)] if 0 in b else b)
    return None

"""Abstract interpreter over the SSA form.

Domain: values are linear expressions over symbols (inputs, initial memory contents, call results, join values,
addresses of storage); a state maps SSA names and memory cells to values and carries intervals, linear inequalities
and disequalities on the symbols.  States are merged where control flow joins: states that agree on values are
merged at once, others are kept apart up to a small bound (trace partitioning, always split by the monitor's
typestate); loops are solved by fixpoint iteration with widening.  Calls are inlined up to a bound or summarised by
their transitive modification set.  No program path is executed or handed to a solver: branch feasibility is decided
by the domain's own entailment test (intervals plus elimination with recorded inequalities)."""
import math
import re, sys
from .ir import Val, Ty, AnalysisBroken, strip_struct, I, PTR
from .slots import static, field_name, field_di

sys.setrecursionlimit(20000)
INF = float("inf")

# ------------------------------------------------------------------ symbols and linear expressions
class Sym:
    __slots__ = ("id", "name", "kind", "lo", "hi", "defn", "info", "key", "taint")
    def __repr__(s): return s.name

class Lin:
    __slots__ = ("c", "t", "h")
    def __init__(s, c, t=()):
        s.c = c; s.t = t; s.h = hash((c, t))
    def __hash__(s): return s.h
    def __eq__(s, o): return s is o or (o.__class__ is Lin and s.h == o.h and s.c == o.c and s.t == o.t)
    def __ne__(s, o): return not s.__eq__(o)
    def __repr__(s):
        r = ""
        for y, k in s.t:
            r += ("+" if k > 0 and r else "-" if k < 0 else "") + ("" if abs(k) == 1 else "%s*" % abs(k)) + y.name
        if s.c or not r: r += ("%+d" if r else "%d") % s.c
        return r
    def add(s, o, k=1):
        if not o.t: return Lin(s.c + k * o.c, s.t)
        if not s.t and k == 1: return Lin(s.c + o.c, o.t)
        d = dict(s.t)
        for y, q in o.t:
            n = d.get(y, 0) + k * q
            if n: d[y] = n
            else: d.pop(y, None)
        return Lin(s.c + k * o.c, tuple(sorted(d.items(), key=lambda x: x[0].id)))
    def scale(s, k):
        if k == 1: return s
        if k == 0: return ZERO
        return Lin(s.c * k, tuple((y, q * k) for y, q in s.t))
    def addc(s, c): return Lin(s.c + c, s.t)
    def const(s): return not s.t
    def subst(s, m):
        """replace symbols by linear expressions"""
        if not any(y in m for y, _ in s.t): return s
        r = Lin(s.c)
        for y, k in s.t:
            r = r.add(m[y], k) if y in m else r.add(Lin(0, ((y, k),)))
        return r
ZERO = Lin(0); ONE = Lin(1)

class V:
    """abstract value: linear expression plus the extent of the object part a pointer refers to"""
    __slots__ = ("l", "ext")
    def __init__(s, l, ext=None): s.l = l; s.ext = ext
    def __repr__(s): return repr(s.l)
    def __eq__(s, o): return s.l == o.l and s.ext == o.ext
    def __hash__(s): return hash(s.l)
V0 = V(ZERO); V1 = V(ONE)

class Ext:
    """part of an object: start (linear offset from the object's base), size (linear, None unknown), tag (struct, field), element debug type"""
    __slots__ = ("lo", "size", "tag", "di", "mod")
    def __init__(s, lo, size, tag, di=None, mod=None): s.lo = lo; s.size = size; s.tag = tag; s.di = di; s.mod = mod
    def __eq__(s, o): return o is not None and s.lo == o.lo and s.size == o.size and s.tag == o.tag
    def __ne__(s, o): return not s == o
    def __hash__(s): return hash((s.lo, s.tag))
    def __repr__(s): return "ext(%s,%s,%s)" % (s.lo, s.size, s.tag)

class Cond:
    """truth of a linear comparison: op in 'eq' 'ne' 'ge' 'lt' (against 0), 'uge' 'ult' of (a,b) possibly wrapping"""
    __slots__ = ("op", "l", "b")
    def __init__(s, op, l, b=None): s.op = op; s.l = l; s.b = b
    def key(s): return (s.op, s.l, s.b)
    def neg(s):
        return Cond({"eq": "ne", "ne": "eq", "ge": "lt", "lt": "ge", "uge": "ult", "ult": "uge"}[s.op], s.l, s.b)
    def __repr__(s): return "(%s %s%s)" % (s.l, {"eq": "==0", "ne": "!=0", "ge": ">=0", "lt": "<0"}.get(s.op, s.op), " " + repr(s.b) if s.b is not None else "")

class Infeasible(Exception): pass

class State:
    __slots__ = ("env", "mem", "iv", "facts", "ne", "tagver", "basever", "dflt", "mon", "trail", "cver", "defs")
    def __init__(s):
        s.env = {}; s.mem = {}; s.iv = {}; s.facts = frozenset(); s.ne = frozenset(); s.tagver = {}; s.basever = {}; s.dflt = {}; s.mon = {}; s.trail = (); s.cver = {}; s.defs = {}
    def copy(s):
        n = State.__new__(State)
        n.env = dict(s.env); n.mem = dict(s.mem); n.iv = dict(s.iv); n.facts = s.facts; n.ne = s.ne; n.tagver = s.tagver; n.basever = s.basever; n.dflt = s.dflt; n.mon = dict(s.mon); n.trail = s.trail; n.cver = s.cver; n.defs = s.defs
        return n
    # ---- bounds
    def b(s, y):
        r = s.iv.get(y)
        return r if r is not None else (y.lo, y.hi)
    def lo(s, l):
        r = l.c
        for y, k in l.t:
            a, b = s.iv.get(y) or (y.lo, y.hi)
            x = a if k > 0 else b
            if x == INF or x == -INF: return -INF
            r += k * x
        return r
    def hi(s, l):
        r = l.c
        for y, k in l.t:
            a, b = s.iv.get(y) or (y.lo, y.hi)
            x = b if k > 0 else a
            if x == INF or x == -INF: return INF
            r += k * x
        return r
    def lo2(s, l):
        """lower bound, also from a fact about the same combination"""
        r = s.lo(l)
        if len(l.t) > 1:
            for f in s.facts:
                if f.t == l.t and l.c - f.c > r: r = l.c - f.c
        return r
    def hi2(s, l):
        r = s.hi(l)
        if len(l.t) > 1:
            n = l.scale(-1)
            for f in s.facts:
                if f.t == n.t and f.c - n.c < r: r = f.c - n.c
        return r
    def norm(s, l):
        """replace symbols with a single possible value"""
        if not l.t: return l
        m = None
        for y, k in l.t:
            r = s.iv.get(y)
            if r is not None and r[0] == r[1]:
                if m is None: m = {}
                m[y] = Lin(int(r[0]))
        return l.subst(m) if m else l
    # ---- entailment of l >= 0
    def ge(s, l, depth=3):
        if s.lo(l) >= 0: return True
        if depth == 0 or not l.t or not s.facts: return False
        return s._ge(l, depth, set())
    def _ge(s, l, depth, seen):
        if s.lo(l) >= 0: return True
        if depth == 0: return False
        if l in seen or len(seen) > 24: return False
        seen.add(l)
        if len(l.t) > 6: return False
        for y, k in l.t:
            # the bound used for y is its lower bound when k>0, upper when k<0; try to improve it with a fact
            for f in s.facts:
                q = 0
                for z, kk in f.t:
                    if z is y: q = kk; break
                if q == 0 or (q > 0) != (k > 0): continue
                # l*|q| - f*|k|
                n = l.scale(abs(q)).add(f, -abs(k))
                if len(n.t) > len(l.t) + 2: continue
                if s._ge(n, depth - 1, seen): return True
        return False
    def eq0(s, l):
        return (l.const() and l.c == 0) or (s.ge(l) and s.ge(l.scale(-1)))
    def ne0(s, l):
        if l.const(): return l.c != 0
        if s.lo(l) > 0 or s.hi(l) < 0: return True
        if l in s.ne or l.scale(-1) in s.ne: return True
        n = s.norm(l)
        if n is not l and n != l: return s.ne0(n)
        # distinct storage objects
        r = [y for y, k in l.t if y.kind == "region"]
        if len(l.t) == 2 and len(r) == 2 and {k for _, k in l.t} == {1, -1}: return True
        if len(r) == 1 and len(l.t) == 1: return True
        if s.facts and (s.ge(l.addc(-1), 2) or s.ge(l.scale(-1).addc(-1), 2)): return True
        return False
    def cond(s, c):
        """truth of a condition: True, False or None"""
        if c.op in ("eq", "ne"):
            r = None
            if s.eq0(c.l): r = True
            elif s.ne0(c.l): r = False
            return r if c.op == "eq" else (None if r is None else not r)
        if c.op in ("ge", "lt"):
            if s.ge(c.l): r = True
            elif s.ge(c.l.scale(-1).addc(-1)): r = False
            else: r = None
            return r if c.op == "ge" else (None if r is None else not r)
        # unsigned with possibly negative operands
        a, b = c.l, c.b
        r = None
        if s.lo(a) >= 0 or s.ge(a):
            if s.lo(b) >= 0 or s.ge(b): return s.cond(Cond("ge" if c.op == "uge" else "lt", a.add(b, -1)))
            if s.hi(b) < 0: r = False     # b huge
        elif s.hi(a) < 0 and (s.lo(b) >= 0): r = True
        return r if c.op == "uge" else (None if r is None else not r)

class Budget(Exception): pass

# ------------------------------------------------------------------ engine
class Engine:
    CAP = 16
    HARD = 96
    def __init__(s, prog, monitor, depth=6, budget=600000, inline=None, slot_inline=True, partition=None, cap=None):
        s.prog = prog; s.st = static(prog); s.mon = monitor; s.maxdepth = depth; s.budget0 = budget; s.budget = budget
        s.inline_pred = inline or (lambda f: True); s.slot_inline = slot_inline
        s.crange = {}; s.syms = {}; s.depc = {}; s.nsym = 0; s.ctxs = {}; s.live = {}; s.wto = {}; s.sign = {}
        s.partition = partition
        if cap: s.CAP = cap
        s.stack = []; s.incomplete = None; s.fine = 0
        s.visited = set(); s.cut = {}
        s.noreturn = {"exit", "abort", "__assert_fail", "_exit"}
        from . import models
        s.models = models.TABLE
        monitor.eng = s
    # ---- symbols
    def sym(s, key, kind, lo=-INF, hi=INF, name=None, info=None, defn=None, taint=frozenset()):
        y = s.syms.get(key)
        if y is None:
            y = Sym(); y.id = s.nsym; s.nsym += 1; y.key = key; y.kind = kind; y.lo = lo; y.hi = hi; y.defn = defn; y.info = info; y.taint = taint
            y.name = name or "%s%d" % (kind, y.id)
            s.syms[key] = y
        return y
    def lin(s, y): return Lin(0, ((y, 1),))
    def term(s, key, lo=-INF, hi=INF, name=None, defn=None):
        return s.lin(s.sym(("term",) + key, "term", lo, hi, name, None, defn, s.taint_of_key(key)))
    def taint_of_key(s, key):
        t = frozenset()
        for k in key:
            if isinstance(k, Lin):
                for y, _ in k.t: t |= y.taint
        return t
    def taint(s, v):
        t = frozenset()
        for y, _ in v.l.t: t |= y.taint
        return t
    def ctx(s, parent, ins):
        k = (parent, id(ins))
        r = s.ctxs.get(k)
        if r is None: r = len(s.ctxs) + 1; s.ctxs[k] = r
        return r
    def bool(s, st, c):
        """value (0/1) of a condition"""
        r = st.cond(c)
        if r is not None: return ONE if r else ZERO
        n = c.neg()
        if n.key() in s.condkeys:
            return Lin(1, ((s.condkeys[n.key()], -1),))
        y = s.condkeys.get(c.key())
        if y is None:
            y = s.sym(("cond",) + c.key(), "cond", 0, 1, None, None, c, s.taint_of_key((c.l, c.b) if c.b is not None else (c.l,)))
            s.condkeys[c.key()] = y
        return s.lin(y)
    condkeys = None

    # ---- assumptions
    def assume_ge(s, st, l, prop=True):
        """st := st and l >= 0 ; raises Infeasible"""
        l = st.norm(l)
        if l.const():
            if l.c < 0: raise Infeasible()
            return
        if st.hi(l) < 0: raise Infeasible()
        if st.lo(l) >= 0: return
        if len(l.t) == 1:
            y, k = l.t[0]
            a, b = st.b(y)
            if k > 0: a = max(a, -(l.c // k))
            else: b = min(b, l.c // (-k))
            s.setiv(st, y, a, b)
            return
        l = s.tighten(st, l)
        if st.facts and st.ge(l.scale(-1).addc(-1)): raise Infeasible()
        if len(st.facts) < 40: st.facts = st.facts | {l}
        if prop:
            for y, k in l.t:
                rest = Lin(l.c, tuple(x for x in l.t if x[0] is not y))
                h = st.hi(rest)
                if h != INF:
                    a, b = st.b(y)
                    if k > 0: na = -(h // k) if h == int(h) else a; a2, b2 = max(a, na), b
                    else: a2, b2 = a, min(b, h // (-k))
                    if (a2, b2) != (a, b): s.setiv(st, y, a2, b2)
    def tighten(s, st, l):
        """l >= 0 for an integer l = r (mod g) means l - r >= 0"""
        g = 0; r = l.c
        for y, k in l.t:
            m = s.stride.get(y)
            if m is None:
                for c in s.moduli:
                    z = s.syms.get(("term", "urem", s.lin(y), c))
                    if z is not None:
                        a, b = st.b(z)
                        if a == b: m = (c, a); break
            if m is None: m = (1, 0)
            g = math.gcd(g, abs(k) * m[0]); r += k * m[1]
        if g > 1 and r % g: return l.addc(-(r % g))
        return l
    stride = {}; moduli = ()
    def stride_of(s, f, b, name):
        """(k, c) when the loop variable starts at the constant c and every round adds the constant k"""
        r = None
        for i in f.blocks[b].ins:
            if i.op != "phi": break
            if i.res != name: continue
            d = s.st.index(f)
            for p, v in i.x:
                if v.k == "int": c, k = v.v, 0
                elif v.k == "loc" and v.v in d and d[v.v].op in ("add", "gep") and d[v.v].a[0].k == "loc" and d[v.v].a[0].v == name and d[v.v].op == "add" and d[v.v].a[1].k == "int": c, k = None, d[v.v].a[1].v
                else: return None
                if r is None: r = [None, None]
                if c is not None:
                    if r[0] not in (None, c): return None
                    r[0] = c
                else:
                    if r[1] not in (None, k): return None
                    r[1] = k
        return (abs(r[1]), r[0]) if r and r[0] is not None and r[1] is not None and abs(r[1]) > 1 else None
    def setiv(s, st, y, a, b):
        if a > b: raise Infeasible()
        o = st.b(y)
        if o == (a, b): return
        st.iv[y] = (a, b)
        # disequalities at the edges
        for l in st.ne:
            if len(l.t) == 1 and l.t[0][0] is y:
                v = -l.c / l.t[0][1]
                if a == b == v: raise Infeasible()
                if v == a and a != -INF: a += 1
                elif v == b and b != INF: b -= 1
                if a > b: raise Infeasible()
                st.iv[y] = (a, b)
        if a == b:
            if y.defn is not None:
                if isinstance(y.defn, Cond): s.assume(st, y.defn if a == 1 else y.defn.neg())
                else: s.mon.on_singleton(st, y, a)
            d = st.defs.get(y)
            if d is not None:
                s.assume(st, d if a == 1 else d.neg())
    def assume_ne(s, st, l):
        l = st.norm(l)
        if l.const():
            if l.c == 0: raise Infeasible()
            return
        if st.lo(l) > 0 or st.hi(l) < 0: return
        if len(l.t) == 1:
            y, k = l.t[0]
            v = -l.c / k
            a, b = st.b(y)
            if v != int(v): return
            if a == b == v: raise Infeasible()
            if v == a: s.setiv(st, y, a + 1, b); return
            if v == b: s.setiv(st, y, a, b - 1); return
        p = st.ge(l); m = st.ge(l.scale(-1))
        if p and m: raise Infeasible()
        if p: s.assume_ge(st, l.addc(-1)); return
        if m: s.assume_ge(st, l.scale(-1).addc(-1)); return
        if l.scale(-1) not in st.ne and len(st.ne) < 60: st.ne = st.ne | {l}
    def assume(s, st, c):
        if c.op == "eq":
            if st.ne0(c.l): raise Infeasible()
            s.assume_ge(st, c.l); s.assume_ge(st, c.l.scale(-1))
        elif c.op == "ne": s.assume_ne(st, c.l)
        elif c.op == "ge": s.assume_ge(st, c.l)
        elif c.op == "lt": s.assume_ge(st, c.l.scale(-1).addc(-1))
        else:
            a, b = c.l, c.b
            an = st.ge(a); bn = st.ge(b)
            if c.op == "ult":      # a <u b
                if bn:             # then 0 <= a < b
                    s.assume_ge(st, a); s.assume_ge(st, b.add(a, -1).addc(-1))
                elif an and st.hi(b) < 0: pass
            else:
                if an and bn: s.assume_ge(st, a.add(b, -1))
                elif an:           # b wraps or a >= b: if b non-negative then a>=b; nothing certain otherwise
                    if st.hi(b) < 0: raise Infeasible()
                    # a fits: b must be non-negative
                    s.assume_ge(st, b); s.assume_ge(st, a.add(b, -1))
    def assume_val(s, st, l, truth):
        s.assume(st, Cond("ne" if truth else "eq", l))

    # ---- static helpers
    def liveness(s, f):
        r = s.live.get(f)
        if r is not None: return r
        use = {}; dfn = {}; phiuse = {}
        def names(v, acc):
            if v.k == "loc": acc.add(v.v)
            elif v.k == "ce": pass
        for b in f.order:
            u = set(); d = set()
            for i in b.ins:
                if i.op == "phi":
                    for p, v in i.x:
                        if v.k == "loc": phiuse.setdefault(p, set()).add(v.v)
                    d.add(i.res); continue
                acc = set()
                for v in i.a: names(v, acc)
                if i.op == "call" and i.x.k == "loc": acc.add(i.x.v)
                u |= acc - d
                if i.res: d.add(i.res)
            use[b.name] = u; dfn[b.name] = d
        lin = {b.name: set() for b in f.order}; lout = {b.name: set() for b in f.order}
        ch = True
        while ch:
            ch = False
            for b in reversed(f.order):
                o = set(phiuse.get(b.name, ()))
                for x in b.succ:
                    bl = f.blocks[x]
                    o |= lin[x]
                n = use[b.name] | (o - dfn[b.name])
                # phi results are defined at block entry; they are live inside
                for i in b.ins:
                    if i.op == "phi": n.discard(i.res)
                if n != lin[b.name]: lin[b.name] = n; ch = True
                lout[b.name] = o
        r = {}
        for b in f.order:
            r[b.name] = frozenset(lin[b.name] | {i.res for i in b.ins if i.op == "phi"})
        s.live[f] = r
        return r
    def order(s, f):
        """weak topological order: list of block names and nested (head, [components])"""
        r = s.wto.get(f)
        if r is not None: return r
        def sccs(nodes, succ):
            idx = {}; low = {}; st = []; on = set(); out = []; n = [0]
            for root in nodes:
                if root in idx: continue
                work = [(root, iter(succ(root)))]
                idx[root] = low[root] = n[0]; n[0] += 1; st.append(root); on.add(root)
                while work:
                    v, it = work[-1]
                    adv = False
                    for w in it:
                        if w not in nodeset[0]: continue
                        if w not in idx:
                            idx[w] = low[w] = n[0]; n[0] += 1; st.append(w); on.add(w)
                            work.append((w, iter(succ(w)))); adv = True; break
                        elif w in on: low[v] = min(low[v], idx[w])
                    if adv: continue
                    work.pop()
                    if work: low[work[-1][0]] = min(low[work[-1][0]], low[v])
                    if low[v] == idx[v]:
                        c = []
                        while True:
                            w = st.pop(); on.discard(w); c.append(w)
                            if w == v: break
                        out.append(c)
            return list(reversed(out))
        nodeset = [None]
        def build(nodes, entry, cut):
            ns = set(nodes); nodeset[0] = ns
            succ = lambda v: [x for x in f.blocks[v].succ if x in ns and not (x == cut)]
            ordered = [entry] + [x for x in nodes if x != entry] if entry in ns else nodes
            comps = sccs(ordered, succ)
            out = []
            for c in comps:
                if len(c) == 1 and not (c[0] in f.blocks[c[0]].succ and c[0] != cut): out.append(c[0])
                else:
                    cs = set(c)
                    heads = [x for x in c if any(p not in cs for p in f.blocks[x].pred)] or [c[0]]
                    o = {b.name: n for n, b in enumerate(f.order)}
                    h = min(heads, key=lambda x: o[x])
                    inner = [x for x in sorted(c, key=lambda x: o[x]) if x != h]
                    if inner:
                        sub = build2(inner, f.blocks[h].succ, cs)
                    else: sub = []
                    out.append((h, sub))
            return out
        def build2(nodes, entries, cs):
            ns = set(nodes); nodeset[0] = ns
            succ = lambda v: [x for x in f.blocks[v].succ if x in ns]
            first = [x for x in entries if x in ns]
            ordered = first + [x for x in nodes if x not in first]
            comps = sccs(ordered, succ)
            out = []
            o = {b.name: n for n, b in enumerate(f.order)}
            for c in comps:
                if len(c) == 1 and c[0] not in f.blocks[c[0]].succ: out.append(c[0])
                else:
                    cset = set(c)
                    heads = [x for x in c if any(p not in cset for p in f.blocks[x].pred)] or [c[0]]
                    h = min(heads, key=lambda x: o[x])
                    inner = [x for x in sorted(c, key=lambda x: o[x]) if x != h]
                    out.append((h, build2(inner, f.blocks[h].succ, cset) if inner else []))
            return out
        reach = set(); w = [f.order[0].name]
        while w:
            x = w.pop()
            if x in reach: continue
            reach.add(x); w += f.blocks[x].succ
        nodes = [b.name for b in f.order if b.name in reach]
        r = build2(nodes, [f.order[0].name], set(nodes))
        s.wto[f] = r
        return r
    def signs(s, f):
        """signedness of SSA values by use and debug type: name -> True signed / False unsigned"""
        r = s.sign.get(f)
        if r is not None: return r
        r = {}
        for i in f.instrs():
            if i.op == "zext":
                if i.a[0].k == "loc": r.setdefault(i.a[0].v, False)
            elif i.op == "sext":
                if i.a[0].k == "loc": r.setdefault(i.a[0].v, True)
            elif i.op == "icmp" and i.x[0] in "su" and i.x not in ("s", "u"):
                for v in i.a:
                    if v.k == "loc" and v.ty.k == "i": r.setdefault(v.v, i.x[0] == "s")
            elif i.op in ("sdiv", "srem", "sitofp"):
                for v in i.a:
                    if v.k == "loc": r.setdefault(v.v, True)
            elif i.op in ("udiv", "urem", "uitofp"):
                for v in i.a:
                    if v.k == "loc": r.setdefault(v.v, False)
        for n, d in f.dbgvars.items():
            x = f.mod.md_node(d)
            c = f.mod.di_class(x[1].get("type")) if x else None
            if c and c[0] == "int" and n not in r: r[n] = c[2]
        s.sign[f] = r
        return r
    def range(s, ty, signed):
        if ty.k == "i":
            n = ty.n
            if n == 1: return (0, 1)
            if signed is None: return (-(1 << (n-1)), (1 << n) - 1)
            if signed: return (-(1 << (n-1)), (1 << (n-1)) - 1)
            return (0, (1 << n) - 1 if n < 64 else (1 << 63) - 1)
        if ty.k == "ptr": return (0, (1 << 63) - 1)
        return (-INF, INF)

    # ---- operands
    def val(s, st, f, v):
        k = v.k
        if k == "loc":
            r = st.env.get(v.v)
            if r is None:
                r = V(s.lin(s.sym(("undef", f.name, v.v), "undef", name="undef:" + v.v)))
            return r
        if k == "int": return V(Lin(v.v))
        if k == "null" or k == "zero": return V0
        if k == "g": return s.global_addr(f, v.v)
        if k == "undef":
            return V(s.lin(s.sym(("undef", f.name, "u"), "undef", name="undef")))
        if k == "ce":
            e = v.v
            if e[0] == "gep": return s.gep(st, f, e[1], s.val(st, f, e[2]), [s.val(st, f, x) for x in e[3]], None, None)
            if e[0] == "cast": return s.val(st, f, e[2])
            return V(s.lin(s.sym(("ce", id(v)), "ext", name="const")))
        if k == "fp": return V(s.lin(s.sym(("fp", v.v), "const", name=v.v)))
        return V(s.lin(s.sym(("odd", id(v)), "ext")))
    def global_addr(s, f, name):
        fn = s.prog.resolve(f.mod, name)
        if fn is not None:
            y = s.sym(("fn", fn.key), "region", 4096, INF, "&" + fn.name, ("fn", fn))
            return V(s.lin(y))
        g = s.prog.resolve_global(f.mod, name)
        if g is None or name in f.mod.fns:
            return V(s.lin(s.sym(("extfn", name), "region", 4096, INF, "&" + name, ("extfn", name))))
        y = s.sym(("global", g["mod"].relpath if g["internal"] else "", name), "region", 4096, INF, "&" + name, ("global", g))
        sz = g["mod"].sizeof(g["ty"])
        return V(s.lin(y), Ext(ZERO, Lin(sz), ("@", name), None, g["mod"]))

    # ---- addresses
    def split(s, l):
        """pointer linear expression -> (base symbol, offset Lin) or (None, l)"""
        base = None
        for y, k in l.t:
            if k == 1 and s.is_base(y):
                if base is None or y.kind == "region": base = y
                elif base.kind != "region" and y.kind != "region" and base.id > y.id: base = y
        if base is None: return None, l
        return base, Lin(l.c, tuple(x for x in l.t if x[0] is not base))
    def is_base(s, y):
        return y.kind == "region" or (y.info is not None and y.info[0] in ("ptr", "fn", "extfn", "global", "alloca", "heap"))
    def gep(s, st, f, sty, base, idx, ins, cx):
        mod = f.mod
        l = base.l; ext = base.ext; t = sty
        b, off0 = s.split(l)
        for n, ix in enumerate(idx):
            if n == 0:
                sz = mod.sizeof(t)
                if not (ix.l.const() and ix.l.c == 0):
                    l = l.add(s.scaled(ix.l, sz))
                    if ext is None and False: pass
                continue
            if t.k in ("named", "lit"):
                d = mod.struct_def(t)
                j = ix.l.c
                off, ft = mod.field_offset(t, j)
                if ins is not None: s.mon.on_field(st, ins, V(l, ext), t, j, cx)
                l = l.addc(off)
                bb, o = s.split(l)
                nm = strip_struct(t.name) if t.k == "named" else "lit"
                fn = field_name(mod, t.name, j) if t.k == "named" else "f%d" % j
                if t.k == "named" and t.name.startswith("union."): tag = ext.tag if ext else None
                else: tag = (nm, fn)
                ext = Ext(o if bb is not None else l, Lin(mod.sizeof(ft)), tag, None, mod)
                t = ft
            elif t.k in ("arr", "vec"):
                sz = mod.sizeof(t.el)
                if not (ix.l.const() and ix.l.c == 0): l = l.add(s.scaled(ix.l, sz))
                t = t.el
        return V(l, ext)
    def scaled(s, l, k): return l.scale(k)

    # ---- memory
    def cell_size(s, ty, mod): return mod.sizeof(ty)
    def di_of_cell(s, st, f, ptr, base, off):
        """debug type reference (module, ref) of the cell at ptr"""
        if ptr.ext is not None and ptr.ext.tag is not None and ptr.ext.tag[0] != "@":
            d = field_di(f.mod, ptr.ext.tag) if ptr.ext.lo == off else None
            if d is not None: return (f.mod, d)
            d = field_di(f.mod, ptr.ext.tag)
            if d is not None:
                c = f.mod.di_class(d)
                if c and c[0] == "array": return (f.mod, c[1])
        if base is not None and base.info is not None and base.info[0] in ("ptr", "heap", "alloca") and base.info[1] is not None:
            m, d = base.info[1]
            c = m.di_class(d)
            if c is None: return None
            while c and c[0] == "array": d = c[1]; c = m.di_class(d)
            if c is None: return None
            if c[0] == "struct":
                if off.const():
                    fl = m.struct_fields(c[1]) or []
                    for o, sz, nm, r in fl:
                        if o == off.c: return (m, r)
                return None
            return (m, d)
        return None
    def tag_of(s, ptr, base, off):
        if ptr.ext is not None and ptr.ext.tag is not None: return ptr.ext.tag
        if base is not None and base.info is not None and base.info[0] == "ptr" and base.info[1] is not None and off.const():
            m, d = base.info[1]
            c = m.di_class(d)
            if c and c[0] == "struct":
                for o, sz, nm, r in m.struct_fields(c[1]) or []:
                    if o == off.c: return (c[1], nm)
        return None
    def fresh_of_type(s, key, ty, f, di, signed, name, kind="init", taint=frozenset()):
        lo, hi = s.range(ty, signed); info = None
        if di is not None:
            m, d = di
            c = m.di_class(d)
            if c:
                if c[0] == "int" and ty.k == "i" and ty.n == c[1]: lo, hi = c[3] if len(c) > 3 else s.range(ty, c[2])
                elif c[0] == "ptr": info = ("ptr", (m, c[1]))
                elif c[0] == "fnptr": info = ("ptr", None)
        if ty.k == "ptr" and info is None: info = ("ptr", None)
        return s.sym(key, kind, lo, hi, name, info, None, taint)
    def load(s, st, f, ins, ptr, ty, signed=None, cx=0):
        base, off = s.split(ptr.l)
        if base is None:
            y = s.fresh_of_type(("wild", cx, id(ins)), ty, f, None, signed, "wild%s" % (ins.line if ins else ""), "ext"); s.forget(st, y)
            return V(s.lin(y))
        off = st.norm(off)
        sz = f.mod.sizeof(ty)
        cells = st.mem.get(base)
        key = off.c if off.const() else off
        if cells is not None:
            c = cells.get(key)
            if c is not None and c[1] == sz: return c[0]
            if c is None and not off.const():
                # try equal constant keys
                for k, cc in cells.items():
                    if not isinstance(k, int) and cc[1] == sz and st.eq0(k.add(off, -1)): return cc[0]
        r = s.initial(st, f, base, off, ptr, ty, sz, signed, ins, cx)
        if key is not None and (off.const() or True):
            cells = dict(st.mem.get(base, ())); cells[key] = (r, sz); st.mem[base] = cells
        return r
    def initial(s, st, f, base, off, ptr, ty, sz, signed, ins, cx):
        """value of a cell that was not written on this path"""
        info = base.info
        bv = st.basever.get(base)
        if info and info[0] == "global":
            g = info[1]
            if g["init"] is not None and s.st.constant(g):
                r = s.const_load(g, off, ty, sz, st)
                if r is not None: return r if r.__class__ is V else V(r)
        if base in st.dflt and bv is None:
            return V(Lin(st.dflt[base]))
        if info and info[0] in ("alloca", "heap") and bv is None and not st.mem.get(base, {}).get("?"):
            if info[0] == "alloca" or info[0] == "heap":
                return V(s.lin(s.sym(("uninit", base, off, sz), "undef", *s.range(ty, signed), name="uninit(%s%s)" % (base.name, "+%s" % off if not (off.const() and off.c == 0) else ""), info=("ptr", None) if ty.k == "ptr" else None)))
        tag = s.tag_of(ptr, base, off)
        tv = st.tagver.get(tag) if tag else None
        di = s.di_of_cell(st, f, ptr, base, off)
        nm = "%s.%s" % (base.name, tag[1] if tag else off)
        if tag and ptr.ext is not None and ptr.ext.tag == tag and ptr.ext.lo != off: nm += "[%s]" % off.add(ptr.ext.lo, -1)
        if bv or tv: nm += "'"
        y = s.fresh_of_type(("init", base, off, sz, bv, tv), ty, f, di, signed, nm, "init", s.mon.taint_init(st, f, base, off, tag, bv, tv))
        r = V(s.lin(y))
        h = s.mon.on_init(st, f, ins, y, base, off, tag, ty)
        if h is not None: r = h
        if ty.k == "ptr":
            r = s.attach_ext(st, f, r, tag)
        return r
    def attach_ext(s, st, f, v, tag): return v
    def const_load(s, g, off, ty, sz, st):
        m = g["mod"]
        def at(t, v, o):
            if v.k in ("zero", "null"): return 0
            if v.k == "undef": return None
            if v.k == "str":
                if sz == 1 and 0 <= o < len(v.v): b = v.v[o]; return b - 256 if b > 127 else b
                return None
            if v.k == "int": return v.v if o == 0 else None
            if v.k == "agg":
                if t.k in ("arr", "vec"):
                    es = m.sizeof(t.el)
                    i = o // es
                    if 0 <= i < len(v.v): return at(t.el, v.v[i], o - i * es)
                    return None
                d = m.struct_def(t)
                for j in range(len(v.v)):
                    fo, ft = m.field_offset(t, j)
                    if fo <= o < fo + m.sizeof(ft): return at(ft, v.v[j], o - fo)
                return None
            if v.k == "g":
                return ("g", v.v) if o == 0 else None
            return None
        if off.const():
            r = at(g["ty"], g["init"], off.c)
            if isinstance(r, int): return Lin(r)
            if isinstance(r, tuple):
                class FF: pass
                ff = FF(); ff.mod = m
                return s.global_addr(ff, r[1])
            return None
        if ty.k == "ptr" and g["ty"].k == "arr":
            # a table of string literals indexed by an unknown value
            L = []
            n = m.sizeof(g["ty"]) // sz
            for i in range(n if n <= 4096 else 0):
                r = at(g["ty"], g["init"], i * sz)
                if not isinstance(r, tuple): return None
                h = m.globals.get(r[1])
                if h is None or h["init"] is None or h["init"].k not in ("str", "zero"): return None
                L.append(max(h["init"].v.find(b"\0"), 0) if h["init"].k == "str" else 0)
            if L:
                y = s.sym(("strtab", g["name"], m.relpath, off), "term", 4096, INF, "%s[%s]" % (g["name"], off), ("ptr", None, ("strtab", min(L), max(L))))
                return V(s.lin(y))
            return None
        if ty.k == "i":
            # hull of the whole table
            t = g["ty"]
            vals = []
            n = m.sizeof(t) // sz if sz else 0
            if 0 < n <= 4096:
                for i in range(n):
                    r = at(t, g["init"], i * sz)
                    if not isinstance(r, int): return None
                    vals.append(r)
                return s.term(("tab", g["name"], m.relpath, off, sz), min(vals), max(vals), name="%s[%s]" % (g["name"], off))
        return None
    def store(s, st, f, ins, ptr, val, ty, cx):
        base, off = s.split(ptr.l)
        if base is None: return
        off = st.norm(off)
        sz = f.mod.sizeof(ty)
        cells = dict(st.mem.get(base, ()))
        if off.const():
            o = off.c
            for k in list(cells):
                if k == "?": continue
                if isinstance(k, int):
                    if k != o and k < o + sz and o < k + cells[k][1]: del cells[k]
                elif s.may_overlap(st, ptr, k, off, sz, cells[k][1]): del cells[k]
            cells[o] = (val, sz)
        else:
            # weak update: forget what may overlap
            for k in list(cells):
                if k == "?": continue
                kl = Lin(k) if isinstance(k, int) else k
                if s.may_overlap(st, ptr, kl, off, sz, cells[k][1]): del cells[k]
            cells[off] = (val, sz)
            st.tagver = dict(st.tagver)
            # cells read later for the first time inside the same extent are no longer initial
            if base.info and base.info[0] in ("alloca", "heap"): cells["?"] = (V0, 0)
            if ptr.ext is not None and ptr.ext.tag is not None: st.tagver[ptr.ext.tag] = (cx, id(ins))
        st.mem[base] = cells
        if sz == 1:
            st.cver = dict(st.cver); st.cver[base] = (cx, id(ins))
    def may_overlap(s, st, ptr, kl, off, sz, ksz):
        if ptr.ext is not None and ptr.ext.size is not None:
            lo = ptr.ext.lo; hi = lo.add(ptr.ext.size)
            # k outside the extent?
            if st.ge(lo.add(kl, -1).addc(-ksz), 1) or st.ge(kl.add(hi, -1), 1): return False
        d = kl.add(off, -1)
        if st.ge(d.addc(-sz), 2) or st.ge(d.scale(-1).addc(-ksz), 2): return False
        return True
    def havoc_range(s, st, f, ptr, size, cx, ins):
        """forget the contents of [ptr, ptr+size) (size Lin or None for the whole part)"""
        base, off = s.split(ptr.l)
        if base is None: return
        cells = dict(st.mem.get(base, ()))
        off = st.norm(off)
        for k in list(cells):
            if k == "?": continue
            kl = Lin(k) if isinstance(k, int) else k
            out = False
            if size is not None:
                if st.ge(off.add(kl, -1).addc(-cells[k][1]), 1) or st.ge(kl.add(off, -1).add(size, -1), 1): out = True
            if not out and ptr.ext is not None and ptr.ext.size is not None:
                lo = ptr.ext.lo; hi = lo.add(ptr.ext.size)
                if st.ge(lo.add(kl, -1).addc(-cells[k][1]), 1) or st.ge(kl.add(hi, -1), 1): out = True
            if not out and ptr.ext is None and size is None and st.ge(off.add(kl, -1).addc(-cells[k][1]), 1): out = True
            if not out: del cells[k]
        st.mem[base] = cells
        tok = (cx, id(ins))
        if ptr.ext is not None and ptr.ext.tag is not None:
            st.tagver = dict(st.tagver); st.tagver[ptr.ext.tag] = tok
            if base.info and base.info[0] in ("alloca", "heap"): cells["?"] = (V0, 0)
        else:
            if base.info and base.info[0] in ("alloca", "heap") :
                cells["?"] = (V0, 0)
            st.basever = dict(st.basever); st.basever[base] = tok
        st.cver = dict(st.cver); st.cver[base] = tok
    def havoc_tags(s, st, tags, tok):
        if not tags: return
        st.tagver = dict(st.tagver)
        for t in tags: st.tagver[t] = tok
        for base in list(st.mem):
            cells = st.mem[base]
            info = base.info
            if info and info[0] in ("alloca",) : 
                # only address-exposed allocas with matching tags are affected
                pass
            kill = None
            for k, (v, sz) in cells.items():
                if k == "?": continue
                tg = s.cell_tags.get((base, k))
                if tg is not None and tg in tags:
                    if kill is None: kill = []
                    kill.append(k)
            if kill:
                cells = dict(cells)
                for k in kill: del cells[k]
                if info and info[0] in ("alloca", "heap"): cells["?"] = (V0, 0)
                st.mem[base] = cells
    cell_tags = None

    # ---- joining
    def rename_state(s, st, m):
        """replace symbols (old loop values) throughout a state"""
        n = State()
        lm = {y: s.lin(z) for y, z in m.items()}
        def rl(l): return l.subst(lm)
        def rv(v):
            l = rl(v.l)
            e = v.ext
            if e is not None:
                lo = rl(e.lo); sz = rl(e.size) if e.size is not None else None
                if lo is not e.lo or sz is not e.size: e = Ext(lo, sz, e.tag, e.di, e.mod)
            if l is v.l and e is v.ext: return v
            return V(l, e)
        n.env = {k: rv(v) for k, v in st.env.items()}
        n.mem = {}
        for b, cells in st.mem.items():
            nb = m.get(b, b)
            n.mem[nb] = {(k if isinstance(k, (int, str)) else rl(k)): (rv(c[0]), c[1]) for k, c in cells.items()}
        n.iv = {m.get(y, y): r for y, r in st.iv.items()}
        n.facts = frozenset(rl(l) for l in st.facts); n.ne = frozenset(rl(l) for l in st.ne)
        n.tagver = st.tagver
        n.basever = {m.get(b, b): v for b, v in st.basever.items()}
        n.dflt = {m.get(b, b): v for b, v in st.dflt.items()}
        n.cver = {m.get(b, b): v for b, v in st.cver.items()}
        n.defs = {m.get(y, y): Cond(c.op, rl(c.l), rl(c.b) if c.b is not None else None) for y, c in st.defs.items()}
        n.trail = st.trail
        n.mon = s.mon.rename(st.mon, m, rl, rv)
        return n
    def join2(s, a, b, f, cx, blk, live, header=False, part=()):
        n = State(); ma = {}; mb = {}; js = []; slots = {}
        def b_value(x, slot):
            off = slot[0] == "off"
            if off: slot = slot[1]
            if slot[0] == "mon": return None
            if slot[0] == "env": v = x.env.get(slot[1])
            elif slot[0] == "mem":
                c = x.mem.get(slot[1], {}).get(slot[2]); v = c[0] if c else None
            else: return None
            if v is None: return None
            return s.split(v.l)[1] if off else v.l
        primed = s.primed
        def jv(slot, va, vb, ty_lo=None):
            if va.l == vb.l:
                if va.ext == vb.ext: return va
                return V(va.l, None)
            key = ("J", cx, blk, slot) + part
            pa, oa = s.split(va.l); pb, ob = s.split(vb.l)
            if pa is pb and pa is not None and pa not in primed:
                # same object: join the offsets
                key += ("off",)
                y = s.syms.get(key)
                if y is None:
                    nm = slot[1] if slot[0] != "mem" else "%s+%s" % (slot[1].name, slot[2])
                    y = s.sym(key, "join", -INF, INF, "%s.o@%s" % (nm, blk), None, None, frozenset())
                for _l in (oa, ob):
                    for z, _ in _l.t:
                        if z.taint - y.taint: y.taint = y.taint | z.taint
                if y not in ma:
                    ma[y] = oa; mb[y] = ob; js.append(y); slots[y] = ("off", slot)
                return V(s.lin(pa).add(s.lin(y)), va.ext if va.ext == vb.ext else None)
            y = s.syms.get(key)
            und = any(z.kind == "undef" or z in s.undefjoin for z, _ in va.l.t + vb.l.t)
            if y is None:
                pa = s.split(va.l)[0]; pb = s.split(vb.l)[0]
                info = None
                for p, l in ((pa, va.l), (pb, vb.l)):
                    if p is not None and info is None:
                        info = ("ptr", p.info[1] if p.info and p.info[0] in ("ptr", "heap", "alloca") else None)
                t = s.taint(va) | s.taint(vb)
                nm = slot[1] if slot[0] != "mem" else "%s+%s" % (slot[1].name, slot[2])
                lo, hi = s.cell_range(slot) if slot[0] == "mem" else (-INF, INF)
                y = s.sym(key, "join", lo, hi, "%s@%s" % (nm, blk), info, None, t)
                if header and slot[0] == "env":
                    q = s.stride_of(f, blk, slot[1])
                    if q: s.stride[y] = q
            else: y.taint = y.taint | s.taint(va) | s.taint(vb)
            if und: s.undefjoin.add(y)
            if y not in ma:
                ma[y] = va.l; mb[y] = vb.l; js.append(y); slots[y] = slot
            e = va.ext if va.ext == vb.ext else None
            if e is None and va.ext is not None and vb.ext is not None and va.ext.tag == vb.ext.tag and va.ext.size == vb.ext.size and va.ext.size is not None:
                # same kind of part of different objects: extent relative to the join symbol when the offset into the part agrees
                da = va.l.add(va.ext.lo, -1); db = vb.l.add(vb.ext.lo, -1)
                pa, oa = s.split(va.l); pb, ob = s.split(vb.l)
                if pa is not None and pb is not None:
                    oa = oa.add(va.ext.lo, -1); ob = ob.add(vb.ext.lo, -1)
                    if oa == ob: e = Ext(oa.scale(-1), va.ext.size, va.ext.tag, va.ext.di, va.ext.mod)
            return V(s.lin(y), e)
        ea, eb = a.env, b.env
        for k in live:
            va = ea.get(k); vb = eb.get(k)
            if va is None or vb is None:
                if va is not None or vb is not None:
                    u = V(s.lin(s.sym(("undef", f.name, k), "undef", name="undef:" + k)))
                    n.env[k] = jv(("env", k), va or u, vb or u)
                continue
            n.env[k] = jv(("env", k), va, vb)
        bases = set(a.mem) | set(b.mem)
        for base in sorted(bases, key=lambda y: y.id):
            ca = a.mem.get(base); cb = b.mem.get(base)
            if ca is cb: n.mem[base] = ca; continue
            info = base.info
            fresh = info and info[0] in ("alloca", "heap")
            if base in primed: continue
            if fresh and (ca is None or cb is None):
                n.mem[base] = ca if ca is not None else cb; continue
            ca = ca or {}; cb = cb or {}
            nc = {}
            for k in set(ca) | set(cb):
                if k == "?": nc[k] = (V0, 0); continue
                x = ca.get(k); y = cb.get(k)
                if x is not None and y is not None:
                    if x[1] != y[1]: continue
                    nc[k] = (jv(("mem", base, k), x[0], y[0]), x[1]); continue
                if not isinstance(k, int): continue
                # the cell was never read on one side: it still has its initial value there
                have, other = (x, b) if x is not None else (y, a)
                iv = s.missing(other, base, k, have)
                if iv is None: continue
                nc[k] = (jv(("mem", base, k), x[0] if x else iv, y[0] if y else iv), have[1])
            n.mem[base] = nc
        n.dflt = {k: v for k, v in a.dflt.items() if b.dflt.get(k) == v or k not in b.mem}
        for k, v in b.dflt.items():
            if k not in a.mem: n.dflt[k] = v
        n.tagver = s.jdict(a.tagver, b.tagver, cx, blk); n.basever = s.jdict(a.basever, b.basever, cx, blk); n.cver = s.jdict(a.cver, b.cver, cx, blk)
        n.mon = s.mon.join(a, b, n, jv)
        n.trail = a.trail
        # intervals
        for y in set(a.iv) | set(b.iv):
            if y in primed: continue
            la, ha = a.b(y); lb, hb = b.b(y)
            if y in ma: continue
            r = (min(la, lb), max(ha, hb))
            if r != (y.lo, y.hi): n.iv[y] = r
        for y in js:
            r = (min(a.lo2(ma[y]), b.lo2(mb[y])), max(a.hi2(ma[y]), b.hi2(mb[y])))
            if r != (-INF, INF): n.iv[y] = r
        # inequalities
        out = set()
        if a.facts or b.facts or len(js) > 0:
            cand = set(); must = []; keep = set()
            inv_a = {}; inv_b = {}
            for y in js:
                for m, inv in ((ma, inv_a), (mb, inv_b)):
                    l = m[y]
                    if len(l.t) == 1 and abs(l.t[0][1]) == 1:
                        z, k = l.t[0]      # y = k z + c  ->  z = k (y - c)
                        inv.setdefault(z, []).append(Lin(-l.c * k, ((y, k),)) if k == 1 else Lin(l.c, ((y, -1),)))
            def expand(F, inv):
                yield F
                for z, _ in F.t:
                    for e in inv.get(z, ())[:3]:
                        yield F.subst({z: e})
                zs = [z for z, _ in F.t if z in inv]
                if len(zs) == 2: yield F.subst({zs[0]: inv[zs[0]][0], zs[1]: inv[zs[1]][0]})
            for F in a.facts:
                for G in expand(F, inv_a): cand.add(G)
            for F in b.facts:
                for G in expand(F, inv_b): cand.add(G)
            if header:
                # constants standing for a joined value: F(c) -> F(y)
                for y in js:
                    for x, m in ((a, ma), (b, mb)):
                        if not m[y].t:
                            c = m[y].c
                            for F in x.facts:
                                if len(F.t) <= 2 and abs(F.c) <= 4 and abs(c) <= 4:
                                    cand.add(F.addc(c).add(s.lin(y), -1))
                            # bounds of unrelated symbols the value was compared with
                    if not ma[y].t:
                        for z, (lo, hi) in b.iv.items():
                            if lo in (1, 2, ma[y].c + 1) and lo != -INF and z.kind != "join" and z not in primed and not mb[y].t and mb[y].c <= lo and z.info is None:
                                c = s.lin(z).add(s.lin(y), -1); cand.add(c); keep.add(c)
            # distance of a joined value from what it was on each side
            if not header:
                for y in js:
                    d = mb[y].add(ma[y], -1)
                    if not d.t and d.c and ma[y].t:
                        yl = s.lin(y).add(ma[y], -1)
                        cand.add(yl.addc(-min(0, d.c))); cand.add(yl.scale(-1).addc(max(0, d.c)))
            # values that advance together: the ratio of their steps
            elif len(js) <= 12 and s.first_round:
                st_ = []
                for y in js:
                    lo = INF; hi = -INF
                    for x in s.first_round:
                        v = b_value(x, slots[y])
                        if v is None: lo, hi = -INF, INF; break
                        d = v.add(ma[y], -1); lo = min(lo, x.lo(d)); hi = max(hi, x.hi(d))
                    if lo != -INF and hi != INF and -16 <= lo and hi <= 16 and not any(z.kind == "join" and z in js for z, _ in ma[y].t): st_.append((y, lo, hi))
                for y, lo, hi in st_:
                    for z, lb, hb in st_:
                        if y is z or lb <= 0: continue
                        dy = s.lin(y).add(ma[y], -1); dz = s.lin(z).add(ma[z], -1)
                        if hi >= 0: must.append(dz.scale(hi).add(dy, -lb))
                        if lo > 0 and hb > 0: must.append(dy.scale(hb).add(dz, -lo))
            # differences kept between joined values
            if len(js) <= 9:
                for i in range(len(js)):
                    for j in range(i + 1, len(js)):
                        y, z = js[i], js[j]
                        da = ma[y].add(ma[z], -1); db = mb[y].add(mb[z], -1)
                        if da == db and len(da.t) <= 3:
                            d = Lin(0, tuple(sorted(((y, 1), (z, -1)), key=lambda q: q[0].id))).add(da, -1)
                            cand.add(d); cand.add(d.scale(-1))
                        elif header or (len(da.t) <= 2 and len(db.t) <= 2):
                            # order between the joined values
                            d = Lin(0, tuple(sorted(((y, 1), (z, -1)), key=lambda q: q[0].id)))
                            if s.split(ma[y])[0] is s.split(ma[z])[0]:
                                cand.add(d); cand.add(d.scale(-1))
            if len(cand) > 90: cand = sorted(cand, key=lambda g: (len(g.t), repr(g)))[:90]
            if header and s.late_round: cand = {G for G in cand if G in a.facts}
            seq = must + sorted((x for x in cand if x not in must), key=lambda g: (len(g.t), [(z.id, k) for z, k in g.t], g.c)) if len(cand) > 1 or must else cand
            held = {}
            for G in seq:
                if not G.t or any(z in primed for z, _ in G.t): continue
                if held.get(G.t, INF) <= G.c: continue
                if len(out) >= 30: break
                ga = G.subst(ma); gb = G.subst(mb)
                if a.ge(ga, 2) and b.ge(gb, 2):
                    held[G.t] = G.c
                    if n.lo(G) < 0 or G in keep: out.add(G)
        n.facts = frozenset(out)
        ne = set()
        for L in a.ne | b.ne:
            if any(z in primed for z, _ in L.t): continue
            if a.ne0(L.subst(ma)) and b.ne0(L.subst(mb)): ne.add(L)
        n.ne = frozenset(ne)
        if a.defs or b.defs:
            n.defs = {k: v for k, v in a.defs.items() if k in b.defs and b.defs[k].key() == v.key() and k not in ma}
        # boolean join symbols: keep their meaning when the two sides decide it
        return n
    def cell_range(s, slot):
        """range of the type of the field kept in a cell"""
        tag = s.cell_tags.get((slot[1], slot[2])) if isinstance(slot[2], int) else None
        r = (-INF, INF)
        if not tag or len(tag) != 2: return r
        c = s.crange.get(tag)
        if c is None:
            c = r
            if not s.stack: return r
            m = s.stack[-1][0].mod; d = field_di(m, tag)
            if d is None: return r
            k = m.di_class(d)
            if k and k[0] == "int" and k[1] <= 32: c = k[3] if len(k) > 3 else s.range(Ty("i", n=k[1]), k[2])
            s.crange[tag] = c
        return c
    primed = frozenset()
    def jdict(s, a, b, cx, blk):
        if a is b or a == b: return a
        r = {}
        for k in set(a) | set(b):
            x = a.get(k); y = b.get(k)
            r[k] = x if x == y else ("j", cx, blk)
        return r
    def missing(s, st, base, k, have):
        """value the cell (base,k) has in st, where it was never accessed"""
        v, sz = have
        info = base.info
        bv = st.basever.get(base)
        if base in st.dflt and bv is None: return V(Lin(st.dflt[base]))
        if info and info[0] in ("alloca", "heap") and bv is None and "?" not in st.mem.get(base, {}):
            if base not in st.mem: return None
            return V(s.lin(s.sym(("uninit", base, Lin(k), sz), "undef", name="uninit(%s+%s)" % (base.name, k), info=("ptr", None) if v.l.t and s.split(v.l)[0] is not None else None)))
        tag = s.cell_tags.get((base, k))
        tv = st.tagver.get(tag) if tag else None
        key = ("init", base, Lin(k), sz, bv, tv)
        y = s.syms.get(key)
        if y is None:
            # same type as the other side
            p = s.split(v.l)[0]
            y = s.sym(key, "init", -INF, INF, "%s.%s" % (base.name, tag[1] if tag else k), ("ptr", p.info[1] if p is not None and p.info and p.info[0] in ("ptr", "heap", "alloca") else None) if p is not None else None)
            if p is None and tag is not None and s.stack:
                m = s.stack[-1][0].mod
                d = field_di(m, tag)
                c = m.di_class(d) if d else None
                if c and c[0] == "int" and c[1] == sz * 8: y.lo, y.hi = c[3] if len(c) > 3 else s.range(I(c[1]), c[2])
                s.mon.on_init(st, s.stack[-1][0], None, y, base, Lin(k), tag, None)
        return V(s.lin(y))
    def same(s, a, b, live):
        """do two states agree on all values (facts may differ)"""
        if s.mon.key(a) != s.mon.key(b): return False
        for k in live:
            x = a.env.get(k); y = b.env.get(k)
            if x is y: continue
            if x is None or y is None or x.l != y.l: return False
        if a.mem.keys() != b.mem.keys():
            # bases only read on one side do not matter if all cells are initial: compare conservatively
            pass
        for base in set(a.mem) | set(b.mem):
            ca = a.mem.get(base); cb = b.mem.get(base)
            if ca is cb: continue
            if ca is None or cb is None:
                c = ca if ca is not None else cb
                if base.info and base.info[0] in ("alloca", "heap"): return False
                for k, (v, sz) in c.items():
                    if k == "?": continue
                    st = b if ca is not None else a
                    if not isinstance(k, int): return False
                    iv = s.missing(st, base, k, (v, sz))
                    if iv is None or iv.l != v.l: return False
                continue
            for k in set(ca) | set(cb):
                if k == "?": continue
                x = ca.get(k); y = cb.get(k)
                if x is not None and y is not None:
                    if x[0].l != y[0].l: return False
                else:
                    if not isinstance(k, int): return False
                    st = b if y is None else a
                    h = x or y
                    iv = s.missing(st, base, k, h)
                    if iv is None or iv.l != h[0].l: return False
        return True
    def reduce(s, states, f, cx, blk, live):
        """merge states that agree; above the bound merge by typestate"""
        if len(states) <= 1: return states
        out = []; sig = {}
        lv = tuple(live)
        for x in states:
            e = x.env
            k = (s.mon.key(x), tuple([None if k not in e else e[k].l for k in lv]))
            b = sig.get(k)
            if b is None: sig[k] = [len(out)]; out.append(x); continue
            for n in b:
                if s.same(x, out[n], live):
                    out[n] = s.join2(out[n], x, f, cx, blk, live); break
            else:
                b.append(len(out)); out.append(x)
        if len(out) <= s.CAP: return out
        groups = {}
        if s.fine:
            # keep apart the states that differ in a decided scalar
            for x in out: groups.setdefault((s.mon.key(x), s.decided(x, live)), []).append(x)
            if len(groups) > s.fine: groups = {}
        if not groups:
            for x in out: groups.setdefault(s.mon.key(x), []).append(x)
        res = []
        for k, g in groups.items():
            part = ("p", k) if len(groups) > 1 else ()
            j = g[0]
            for x in g[1:]: j = s.join2(j, x, f, cx, blk, live, part=part)
            res.append(j)
        return res
    def decided(s, x, live):
        k = [(v, c) for v, c in ((v, x.norm(x.env[v].l)) for v in live if v in x.env) if c.const() and -16 <= c.c <= 16]
        for b, cells in x.mem.items():
            if b.info and b.info[0] == "alloca" and 0 in cells:
                c = x.norm(cells[0][0].l)
                if c.const() and -16 <= c.c <= 16: k.append((b.name, c.c))
        return tuple(sorted((a, c.c if isinstance(c, Lin) else c) for a, c in k))
    def state_eq(s, a, b, live):
        for k in live:
            x = a.env.get(k); y = b.env.get(k)
            if (x is None) != (y is None) or (x is not None and x.l != y.l): return False
        if a.iv != b.iv or a.facts != b.facts or a.ne != b.ne: return False
        for base in set(a.mem) | set(b.mem):
            ca = a.mem.get(base, {}); cb = b.mem.get(base, {})
            if ca is cb: continue
            if set(ca) != set(cb): return False
            for k in ca:
                if ca[k][0].l != cb[k][0].l: return False
        return s.mon.key(a) == s.mon.key(b) and s.mon.equal(a.mon, b.mon)

    # ---- running
    def run(s, f, setup=None, args=None, st=None):
        """analyse f as an entry point; -> list of (state, return value) at its exits"""
        s.budget = s.budget0; s.condkeys = s.condkeys if s.condkeys is not None else {}; s.cell_tags = s.cell_tags if s.cell_tags is not None else {}
        s.syms = {}; s.depc = {}; s.nsym = 0; s.ctxs = {}; s.condkeys = {}; s.cell_tags = {}; s.undefjoin = set(); s.argstack = []; s.stride = {}; s.moduli = ()
        s.stack = []; s.incomplete = None; s.primed = frozenset(); s.entry = f
        st = st or State()
        if args is None:
            args = s.entry_args(f)
        starts = setup(s, st, f, args) if setup else None
        s.mon.on_entry(st, f, args)
        try:
            return s.call_fn(st, f, args, 0, None, starts)
        except Budget:
            s.incomplete = "budget"
            return []
    def entry_args(s, f):
        args = []
        di = f.mod.fn_di_types(f)
        for n, (pn, pt) in enumerate(f.params):
            d = di[n + 1] if di and n + 1 < len(di) else None
            nm = f.mod.var_name(f, pn) if pn in f.dbgvars else pn.lstrip("%")
            y = s.fresh_of_type(("param", n), pt, f, (f.mod, d) if d and d != "null" else None, s.signs(f).get(pn), nm, "param", s.mon.taint_param(f, n, nm))
            if pt.k == "i":
                r = s.st.param_range(f, n)
                if r is not None and r[0] <= r[1]:
                    y.lo = max(y.lo, r[0]); y.hi = min(y.hi, r[1])
                    if y.lo > y.hi: y.lo, y.hi = r
            args.append(V(s.lin(y)))
        return args
    def call_fn(s, st, f, args, cx, ins, starts=None):
        """inline f; returns [(state, value)]"""
        s.visited.add(f)
        saved = st.env
        st = st.copy(); st.env = {}
        for (pn, pt), v in zip(f.params, args): st.env[pn] = v
        s.stack.append((f, ins)); s.argstack.append(args)
        try:
            exits = []
            if starts:
                for x in starts: x.env = dict(st.env)
            pend = {f.order[0].name: [(x, None) for x in starts] if starts else [(st, None)]}
            s.run_comps(f, s.order(f), pend, cx, exits)
        finally:
            s.stack.pop(); s.argstack.pop()
        out = []
        for st2, v in exits:
            st2.env = saved if len(exits) == 1 else dict(saved)
            out.append((st2, v))
        if len(out) > 1: out = s.reduce_exits(out, f, cx, saved)
        return out
    def reduce_exits(s, exits, f, cx, saved):
        # merge exits which agree on memory, monitor state and value
        states = []
        for st, v in exits:
            st.env = {"$ret": v} if v is not None else {}
            states.append(st)
        r = s.reduce(states, f, cx, "$exit", ("$ret",))
        out = []
        for st in r:
            v = st.env.get("$ret")
            st.env = dict(saved)
            out.append((st, v))
        return out
    def run_comps(s, f, comps, pend, cx, exits):
        for c in comps:
            if isinstance(c, tuple): s.run_loop(f, c, pend, cx, exits)
            else:
                inc = pend.pop(c, None)
                if not inc: continue
                sts = s.enter(f, c, inc, cx)
                sts = s.reduce(sts, f, cx, c, s.liveness(f)[c])
                for st in sts: s.exec_block(f, c, st, pend, cx, exits)
    def enter(s, f, b, inc, cx):
        """evaluate phis on each incoming edge, drop dead names"""
        blk = f.blocks[b]; live = s.liveness(f)[b]
        phis = [i for i in blk.ins if i.op == "phi"]
        out = []
        for st, pred in inc:
            if phis:
                new = {}
                for i in phis:
                    for p, v in i.x:
                        if p == pred: new[i.res] = s.val(st, f, v); break
                st.env.update(new)
            st.env = {k: v for k, v in st.env.items() if k in live}
            out.append(st)
        return out
    def run_loop(s, f, comp, pend, cx, exits):
        h, inner = comp
        inc = pend.pop(h, None)
        if not inc: return
        live = s.liveness(f)[h]
        acc = {}; it = 0
        inc = s.enter(f, h, inc, cx)
        if s.partition and s.partition(f, h, inc[0]) is not None: return s.run_loop_parts(f, h, inner, inc, live, pend, cx, exits)
        exits0 = len(exits)
        while True:
            changed = False
            for st in inc:
                if it > 0:
                    m = {}
                    m = s.header_syms(st, cx, h)
                    if m:
                        s.primed = s.primed | frozenset(m.values())
                        st = s.rename_state(st, m)
                pk = (s.mon.key(st), s.partition(f, h, st) if s.partition else None)
                part = ("h", pk) if (len(acc) > 0 or pk[0]) else ("h", pk)
                old = acc.get(pk)
                if old is None:
                    if it > 0:
                        # a new typestate first reached inside the loop: strip old loop values
                        pass
                    acc[pk] = st; changed = True; continue
                s.first_round = [x for x in inc if (s.mon.key(x), s.partition(f, h, x) if s.partition else None) == pk] if it == 1 else ()
                s.late_round = it > 4
                n = s.join2(old, st, f, cx, h, live, header=True, part=part)
                if it >= 2:
                    s.thresholds = s.stored_max(f) if it < 12 else ()
                    s.widen(old, n)
                if not s.state_eq(old, n, live):
                    acc[pk] = n; changed = True
            if not changed: break
            it += 1
            if it > 25:
                s.incomplete = "loop " + f.name + ":" + h; break
            del exits[exits0:]
            out = {}
            for st in list(acc.values()):
                s.exec_block(f, h, st.copy(), out, cx, exits)
            s.run_comps(f, inner, out, cx, exits)
            back = out.pop(h, [])
            inc = s.enter(f, h, back, cx)
            last = out
        for b, l in last.items(): pend.setdefault(b, []).extend(l)
    def run_loop_parts(s, f, h, inner, inc, live, pend, cx, exits):
        """loop whose head is split by the partition function: each part is solved from a work list"""
        acc = {}; rounds = {}; outs = {}; exs = {}; todo = []
        def feed(states, it):
            for st in states:
                m = s.header_syms(st, cx, h) if it else None
                if m:
                    s.primed = s.primed | frozenset(m.values())
                    st = s.rename_state(st, m)
                pk = (s.mon.key(st), s.partition(f, h, st))
                old = acc.get(pk)
                if old is None: acc[pk] = st; rounds[pk] = 0
                else:
                    s.first_round = (); s.late_round = rounds[pk] > 4
                    n = s.join2(old, st, f, cx, h, live, header=True, part=("h", pk))
                    if rounds[pk] >= 2:
                        s.thresholds = s.stored_max(f) if rounds[pk] < 12 else ()
                        s.widen(old, n)
                    if s.state_eq(old, n, live): continue
                    acc[pk] = n
                if pk not in todo: todo.append(pk)
                if s.reenter and not it == 2:
                    x = s.reenter(f, h, acc[pk])
                    if x is not None: feed([x], 2)
        feed(inc, 0)
        while todo:
            pk = todo.pop(0); rounds[pk] += 1
            if rounds[pk] > 40:
                s.incomplete = "loop " + f.name + ":" + h; break
            out = {}; ex = []
            s.exec_block(f, h, acc[pk].copy(), out, cx, ex)
            s.run_comps(f, inner, out, cx, ex)
            back = out.pop(h, [])
            outs[pk] = out; exs[pk] = ex
            feed(s.enter(f, h, back, cx), 1)
        s.parts = acc
        for pk in acc:
            exits.extend(exs.get(pk, ()))
            for b, l in outs.get(pk, {}).items():
                if s.reenter:
                    for x, _ in l: x.facts = frozenset(); x.ne = frozenset()
                pend.setdefault(b, []).extend(l)
    parts = None; reenter = None
    def header_syms(s, st, cx, h):
        """join symbols of this loop header that occur in st -> primed versions"""
        m = {}
        def see(l):
            for y, _ in l.t:
                k = y.key
                if k[0] == "J" and k[1] == cx and k[2] == h and y not in m:
                    z = s.sym(("prev",) + k, "join", y.lo, y.hi, y.name + "~", y.info, y.defn, y.taint)
                    if y in s.stride: s.stride[z] = s.stride[y]
                    m[y] = z
        for v in st.env.values():
            see(v.l)
            if v.ext is not None: see(v.ext.lo)
        for b, cells in st.mem.items():
            k = b.key
            if k[0] == "J" and k[1] == cx and k[2] == h: see(s.lin(b))
            for kk, c in cells.items():
                see(c[0].l)
                if not isinstance(kk, (int, str)): see(kk)
        for l in st.facts: see(l)
        for l in st.ne: see(l)
        for y in st.iv: see(s.lin(y))
        s.mon.see(st.mon, see)
        return m
    thresholds = (); first_round = (); late_round = False
    def stored_max(s, f):
        """widening thresholds: the largest small constant stored and the constants values are tested for equality with,
        in the function and in what it calls directly or indirectly inside its directory"""
        r = f.__dict__.get("_smax")
        if r is None:
            cs = [i.a[0].v for i in f.instrs() if i.op == "store" and i.a[0].k == "int" and 1 < i.a[0].v < 4096]
            r = {max(cs)} if cs else set()
            seen = {f}; todo = [(f, 0)]
            while todo:
                g, d = todo.pop()
                for i in g.instrs():
                    if i.op == "icmp" and i.x in ("eq", "ne"):
                        for a in i.a:
                            if a.k == "int" and 8 <= a.v <= 1 << 20: r |= {a.v - 1, a.v}
                if d < 3 and s.small_group(f):
                    for h in s.st.callees.get(g, ()):
                        if hasattr(h, "params") and h not in seen and h.file.startswith("src/viriatum_commons"): seen.add(h); todo.append((h, d + 1))
            r = f._smax = tuple(sorted(r))[-8:]
        return r
    def small_group(s, f): return f.file.startswith("src/viriatum_commons")
    def widen(s, old, new):
        for y, (a, b) in list(new.iv.items()):
            oa, ob = old.b(y)
            if y not in old.iv and y.kind == "join": pass
            na, nb = a, b
            if a < oa: na = -INF if a < -1 else (0 if a >= 0 else -1)
            if b > ob:
                nb = INF
                for t in s.thresholds:
                    if t >= b: nb = t; break
            if y.info is not None and na < 0: na = 0
            if na == -INF and y.lo != -INF: na = y.lo
            if nb == INF and y.hi != INF: nb = y.hi
            if (na, nb) != (a, b): new.iv[y] = (na, nb)
        for y in list(old.iv):
            pass
    def exec_block(s, f, b, st, pend, cx, exits):
        blk = f.blocks[b]
        s.exec_from(f, blk, 0, st, pend, cx, exits)
    def exec_from(s, f, blk, n, st, pend, cx, exits):
        ins = blk.ins; N = len(ins)
        while n < N:
            i = ins[n]
            s.budget -= 1
            if s.budget < 0: raise Budget()
            op = i.op
            if op == "phi": n += 1; continue
            try:
                if op == "br":
                    if len(i.x) == 1: pend.setdefault(i.x[0], []).append((st, blk.name)); return
                    c = s.val(st, f, i.a[0])
                    s.mon.on_branch(st, i, c, cx)
                    l = st.norm(c.l)
                    if l.const():
                        pend.setdefault(i.x[0] if l.c != 0 else i.x[1], []).append((st, blk.name)); return
                    for truth, tgt in ((True, i.x[0]), (False, i.x[1])):
                        st2 = st.copy()
                        try:
                            s.assume_val(st2, l, truth)
                            s.mon.on_assume(st2, i, c, truth, cx)
                            pend.setdefault(tgt, []).append((st2, blk.name))
                        except Infeasible: pass
                    return
                if op == "switch":
                    v = s.val(st, f, i.a[0]); s.mon.on_branch(st, i, v, cx)
                    l = st.norm(v.l)
                    d, cases = i.x
                    bits = i.a[0].ty.n
                    if l.const():
                        for cv, tgt in cases:
                            if (cv - l.c) % (1 << bits) == 0:
                                pend.setdefault(tgt, []).append((st, blk.name)); return
                        pend.setdefault(d, []).append((st, blk.name)); return
                    bytgt = {}
                    for cv, tgt in cases: bytgt.setdefault(tgt, []).append(cv)
                    rest = st.copy()
                    lo, hi = st.lo(l), st.hi(l)
                    for tgt, cvs in bytgt.items():
                        for cv in cvs:
                            if lo >= 0 and cv < 0: cv += 1 << bits
                            st2 = st.copy()
                            try:
                                s.assume(st2, Cond("eq", l.addc(-cv)))
                                s.mon.on_assume(st2, i, v, cv, cx)
                                pend.setdefault(tgt, []).append((st2, blk.name))
                            except Infeasible: pass
                    try:
                        for cv, _ in cases:
                            if lo >= 0 and cv < 0: cv += 1 << bits
                            s.assume(rest, Cond("ne", l.addc(-cv)))
                        pend.setdefault(d, []).append((rest, blk.name))
                    except Infeasible: pass
                    return
                if op == "ret":
                    v = s.val(st, f, i.a[0]) if i.a else None
                    s.mon.on_return(st, i, v, cx, len(s.stack))
                    exits.append((st, v)); return
                if op == "unreachable": return
                if op == "call":
                    outs = s.do_call(st, f, i, cx)
                    if len(outs) == 1:
                        st = outs[0]; n += 1; continue
                    for o in outs: s.exec_from(f, blk, n + 1, o, pend, cx, exits)
                    return
                if op == "select":
                    c = s.val(st, f, i.a[0]); l = st.norm(c.l)
                    s.mon.on_branch(st, i, c, cx)
                    if l.const(): st.env[i.res] = s.val(st, f, i.a[1] if l.c else i.a[2]); n += 1; continue
                    va = s.val(st, f, i.a[1]); vb = s.val(st, f, i.a[2])
                    if va.l == vb.l: st.env[i.res] = va; n += 1; continue
                    for truth, vv in ((True, va), (False, vb)):
                        st2 = st.copy()
                        try:
                            s.assume_val(st2, l, truth)
                            s.mon.on_assume(st2, i, c, truth, cx)
                        except Infeasible: continue
                        st2.env[i.res] = vv
                        s.exec_from(f, blk, n + 1, st2, pend, cx, exits)
                    return
                s.simple(st, f, i, cx)
            except Infeasible:
                return
            n += 1
    def simple(s, st, f, i, cx):
        op = i.op
        if op == "alloca":
            sz = f.mod.sizeof(i.x)
            if i.a:
                nv = s.val(st, f, i.a[0]).l
                size = nv.scale(sz)
            else: size = Lin(sz)
            di = None
            d = f.mod.var_di(f, i.res)
            if d: di = (f.mod, d)
            y = s.sym(("alloca", cx, id(i)), "region", 4096, INF, "&" + i.res[1:], ("alloca", di, size, i))
            st.mem[y] = {}
            if y in st.basever: st.basever = {k: v for k, v in st.basever.items() if k is not y}
            if y in st.dflt: st.dflt = {k: v for k, v in st.dflt.items() if k is not y}
            st.env[i.res] = V(s.lin(y), Ext(ZERO, size, ("%" + f.name, i.res[1:]), None, f.mod))
            return
        if op == "load":
            p = s.val(st, f, i.a[0])
            s.mon.on_access(st, i, p, f.mod.sizeof(i.ty), False, cx)
            base, off = s.split(p.l)
            v = s.load(st, f, i, p, i.ty, s.signs(f).get(i.res), cx)
            if base is not None:
                off = st.norm(off)
                if off.const() and (base, off.c) not in s.cell_tags:
                    t = s.tag_of(p, base, off)
                    if t: s.cell_tags[(base, off.c)] = t
            if i.ty.k == "i" and len(v.l.t) == 1 and v.l.t[0][0].kind == "join" and st.lo(v.l) == -INF and v.l.c == 0 and v.l.t[0][1] == 1:
                # the cell holds an unsigned type
                d = s.di_of_cell(st, f, p, base, off) if base is not None else None
                c = d[0].di_class(d[1]) if d else None
                if c and c[0] == "int" and not c[2]: st.iv[v.l.t[0][0]] = (0, st.b(v.l.t[0][0])[1])
            v = s.mon.on_load(st, i, p, v, cx) or v
            st.env[i.res] = v
            return
        if op == "store":
            v = s.val(st, f, i.a[0]); p = s.val(st, f, i.a[1])
            s.mon.on_access(st, i, p, f.mod.sizeof(i.a[0].ty), True, cx)
            s.mon.on_store(st, i, p, v, cx)
            s.store(st, f, i, p, v, i.a[0].ty, cx)
            base, off = s.split(p.l)
            if base is not None:
                off = st.norm(off)
                if off.const():
                    t = s.tag_of(p, base, off)
                    if t: s.cell_tags[(base, off.c)] = t
            return
        if op == "gep":
            b = s.val(st, f, i.a[0]); idx = [s.val(st, f, x) for x in i.a[1:]]
            r = s.gep(st, f, i.x, b, idx, i, cx)
            s.mon.on_gep(st, i, b, r, cx)
            st.env[i.res] = r
            return
        if op == "icmp":
            a = s.val(st, f, i.a[0]); b = s.val(st, f, i.a[1])
            s.mon.on_compare(st, i, a, b, cx)
            st.env[i.res] = V(s.icmp(st, i.x, a.l, b.l, i.a[0].ty))
            return
        v = s.arith(st, f, i, cx)
        if i.op == "and": s.mon.on_mask(st, i, v.l, cx)
        st.env[i.res] = v
    def icmp(s, st, pred, a, b, ty):
        if pred in ("eq", "ne"):
            n = ty.n if ty.k == "i" else 64
            if b.const() and not a.const(): b = s.fit_const(st, a, b, n)
            elif a.const() and not b.const(): a = s.fit_const(st, b, a, n)
            d = a.add(b, -1)
            if ty.k == "ptr" and b.const() and b.c == 0 and len(a.t) > 1:
                # a pointer computed inside an object that exists is not null
                y, o = s.split(a)
                if y is not None and not o.const() and st.lo(s.lin(y)) >= 1: return ZERO if pred == "eq" else ONE
            # boolean shortcuts
            d2 = d
            if len(d.t) == 1 and d.t[0][0].kind == "cond":
                y, k = d.t[0]
                c = d.c
                if k in (1, -1):
                    z = -c * k      # y == z
                    if z == 0: r = Lin(1, ((y, -1),))
                    elif z == 1: r = s.lin(y)
                    else: r = ZERO
                    return r if pred == "eq" else (ONE.add(r, -1))
            return s.bool(st, Cond(pred, d))
        sg = pred[0] == "s"; o = pred[1:]
        if not sg and ty.k == "i":
            if a.const() and a.c < 0: a = Lin(a.c + (1 << ty.n))
            if b.const() and b.c < 0: b = Lin(b.c + (1 << ty.n))
        if o in ("gt", "le"): x, y, op = b, a, ("lt" if o == "gt" else "ge")      # a>b == b<a ; a<=b == b>=a
        else: x, y, op = a, b, o if o != "ge" else "ge"
        # now op in lt, ge over (x,y)
        if sg or (st.lo(x) >= 0 and st.lo(y) >= 0):
            return s.bool(st, Cond(op, x.add(y, -1)))
        if st.ge(x) and st.ge(y): return s.bool(st, Cond(op, x.add(y, -1)))
        if ty.k == "ptr": return s.bool(st, Cond(op, x.add(y, -1)))
        return s.bool(st, Cond("u" + op, x, y))
    def fit_const(s, st, a, c, n):
        lo, hi = st.lo(a), st.hi(a)
        if c.c < 0 and lo >= 0: return Lin(c.c + (1 << n))
        if c.c > hi and lo < 0 and c.c >= (1 << (n-1)) and n < 64: return Lin(c.c - (1 << n))
        return c
    def arith(s, st, f, i, cx):
        op = i.op
        if op in ("zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "freeze", "addrspacecast"):
            v = s.val(st, f, i.a[0])
            if op in ("bitcast", "ptrtoint", "inttoptr", "freeze", "addrspacecast"): return v
            l = st.norm(v.l); n = i.x.n if i.x.k == "i" else 64; m = i.ty.n
            lo, hi = st.lo(l), st.hi(l)
            if op == "zext":
                if lo >= 0: return V(l)
                if hi < 0 and lo >= -(1 << (n-1)): return V(l.addc(1 << n))
                return V(s.term(("zext", n, l), 0, (1 << n) - 1))
            if op == "sext":
                if hi <= (1 << (n-1)) - 1: return V(l)
                if lo >= (1 << (n-1)): return V(l.addc(-(1 << n)))
                return V(s.term(("sext", n, l), -(1 << (n-1)), (1 << (n-1)) - 1))
            # trunc to m bits
            if lo >= -(1 << (m-1)) and hi <= (1 << m) - 1: return V(l)
            sg = s.signs(f).get(i.res)
            r0, r1 = s.range(I(m), sg if sg is not None else (True if m == 32 else None))
            if l.const():
                x = l.c & ((1 << m) - 1)
                if sg is not False and x >= (1 << (m-1)): x -= 1 << m
                return V(Lin(x))
            s.mon.on_trunc(st, i, v, m, cx)
            return V(s.term(("trunc", m, l), r0, r1, name="(trunc%d %s)" % (m, l)))
        if op in ("fadd", "fsub", "fmul", "fdiv", "frem", "fneg", "fcmp", "sitofp", "uitofp", "fpext", "fptrunc"):
            vs = tuple(s.val(st, f, x).l for x in i.a)
            if op == "fcmp": return V(s.term((op, i.x) + vs, 0, 1))
            return V(s.term((op,) + vs))
        if op in ("fptosi", "fptoui"):
            lo, hi = s.range(i.ty, op == "fptosi")
            return V(s.term((op, s.val(st, f, i.a[0]).l), lo, hi))
        if op in ("extractvalue", "insertvalue", "va_arg"):
            lo, hi = s.range(i.ty, None)
            return V(s.lin(s.sym(("odd", cx, id(i)), "ext", lo, hi, None, ("ptr", None) if i.ty.k == "ptr" else None)))
        va = s.val(st, f, i.a[0]); vb = s.val(st, f, i.a[1])
        a = st.norm(va.l); b = st.norm(vb.l); n = i.ty.n if i.ty.k == "i" else 64
        if op == "add":
            r = a.add(b)
            s.mon.on_arith(st, i, r, cx)
            return V(r, va.ext or vb.ext)
        if op == "sub":
            r = a.add(b, -1)
            s.mon.on_arith(st, i, r, cx)
            return V(r, va.ext if vb.ext is None else None)
        if op == "mul":
            if a.const(): a, b = b, a
            if b.const():
                r = a.scale(b.c); s.mon.on_arith(st, i, r, cx); return V(r)
            lo = 0 if st.lo(a) >= 0 and st.lo(b) >= 0 else -INF
            r = s.term(("mul",) + tuple(sorted((a, b), key=repr)), lo, INF)
            s.mon.on_arith(st, i, r, cx)
            return V(r)
        if op in ("sdiv", "udiv", "srem", "urem"):
            if b.const() and b.c > 0:
                if a.const():
                    q = abs(a.c) // b.c * (1 if a.c >= 0 else -1); return V(Lin(q if op[1:] == "div" else a.c - q * b.c))
                lo, hi = st.lo(a), st.hi(a)
                if lo >= 0 or op[0] == "u":
                    if op[1:] == "rem":
                        if op == "urem" and b.c not in s.moduli: s.moduli += (b.c,)
                        return V(s.term((op, a, b.c), 0, b.c - 1))
                    q = s.term((op, a, b.c), 0 if lo < 0 else lo // b.c, (hi // b.c) if hi != INF else INF)
                    if lo >= 0:
                        try:
                            s.assume_ge(st, a.add(q, -b.c)); s.assume_ge(st, q.scale(b.c).addc(b.c - 1).add(a, -1))
                        except Infeasible: pass
                    return V(q)
                if op == "srem": return V(s.term((op, a, b.c), -(b.c - 1), b.c - 1))
            if b.const() and b.c == 0: s.mon.on_div0(st, i, cx)
            elif not b.const(): s.mon.on_div(st, i, vb, cx)
            lo = 0 if st.lo(a) >= 0 and st.lo(b) >= 0 else -INF
            hi = INF
            if lo == 0: hi = st.hi(a) if op[1:] == "div" else min(st.hi(a), st.hi(b) - 1)
            return V(s.term((op, a, b), lo, hi))
        if op == "shl":
            if b.const(): 
                r = a.scale(1 << b.c) if b.c < 64 else ZERO
                if n <= 32 and st.lo(a) >= 0 and st.hi(r) > (1 << n) - 1: return V(s.term(("shl", a, b.c, n), 0, (1 << n) - 1))
                return V(r)
            return V(s.term((op, a, b), 0 if st.lo(a) >= 0 else -INF, INF))
        if op in ("lshr", "ashr"):
            if b.const():
                if a.const(): return V(Lin(a.c >> b.c))
                lo, hi = st.lo(a), st.hi(a)
                if lo >= 0: return V(s.term((op, a, b.c), lo // (1 << b.c), hi // (1 << b.c) if hi != INF else INF))
                if op == "lshr": return V(s.term((op, a, b.c), 0, (1 << (n - b.c)) - 1))
            return V(s.term((op, a, b), 0 if op == "lshr" else -INF, INF))
        if op == "and":
            if a.const(): a, b = b, a
            if b.const():
                if a.const(): return V(Lin(a.c & b.c))
                if b.c == 0: return V0
                lo, hi = st.lo(a), st.hi(a)
                mask = b.c if b.c >= 0 else b.c + (1 << n)
                if lo >= 0 and hi != INF and (mask & (mask + 1)) == 0 and hi <= mask: return V(a)
                # and of or-terms: (x | m) & c
                y = a.t[0][0] if len(a.t) == 1 and a.c == 0 and a.t[0][1] == 1 else None
                if y is not None and y.key[0] == "term" and y.key[1] in ("or", "and") and isinstance(y.key[3], int):
                    m2 = y.key[3]
                    if y.key[1] == "or":
                        if (m2 & mask) == mask: return V(Lin(mask))
                        if (m2 & mask) == 0: return s.mk_and(st, y.key[2], mask, n)
                    else:
                        return s.mk_and(st, y.key[2], m2 & mask, n)
                return s.mk_and(st, a, mask, n)
            if n == 1:
                return V(s.term(("and1",) + tuple(sorted((a, b), key=repr)), 0, 1))
            h = min(x for x in (st.hi(a) if st.lo(a) >= 0 else INF, st.hi(b) if st.lo(b) >= 0 else INF))
            return V(s.term(("and",) + tuple(sorted((a, b), key=repr)), 0 if h != INF else -INF, h))
        if op == "or":
            if a.const(): a, b = b, a
            if a.const() and b.const(): return V(Lin(a.c | b.c))
            if b.const():
                if b.c == 0: return V(a)
                mask = b.c
                y = a.t[0][0] if len(a.t) == 1 and a.c == 0 and a.t[0][1] == 1 else None
                if y is not None and y.key[0] == "term" and y.key[1] == "or" and isinstance(y.key[3], int):
                    return V(s.term(("or", y.key[2], y.key[3] | mask), 0 if mask >= 0 else -INF, (1 << n) - 1))
                return V(s.term(("or", a, mask), mask if mask >= 0 and st.lo(a) >= 0 else -INF, (1 << n) - 1))
            return V(s.term(("or",) + tuple(sorted((a, b), key=repr)), 0 if st.lo(a) >= 0 and st.lo(b) >= 0 else -INF, INF))
        if op == "xor":
            if a.const(): a, b = b, a
            if a.const() and b.const(): return V(Lin(a.c ^ b.c))
            if b.const() and n == 1 and (b.c & 1): return V(ONE.add(a, -1))
            if b.const() and b.c == -1: return V(a.scale(-1).addc(-1))
            return V(s.term(("xor",) + tuple(sorted((a, b), key=repr)), -INF, INF))
        raise AnalysisBroken("arith " + op)
    def mk_and(s, st, a, mask, n):
        if mask == 0: return V0
        if a.const(): return V(Lin(a.c & mask))
        return V(s.term(("and", a, mask), 0, mask))

    # ---- calls
    def depth(s): return len(s.stack)
    def recursive(s, f): return any(g is f for g, _ in s.stack)
    def callee(s, st, f, i):
        """-> (list of Fn, list of external names, slot or None)"""
        if i.x.k == "g":
            t = s.prog.resolve(f.mod, i.x.v)
            if t is not None: return [t], [], None
            return [], [i.x.v], None
        v = s.val(st, f, i.x)
        base, off = s.split(v.l)
        if base is not None and base.info and base.info[0] == "fn": return [base.info[1]], [], s.st.slot_of(f, i)
        ts = s.st.targets(f, i)
        return [t for t in ts if hasattr(t, "params")], [t for t in ts if not hasattr(t, "params")], s.st.slot_of(f, i)
    def do_call(s, st, f, i, cx):
        if i.x.k == "meta": return [st]
        if i.x.k == "g" and i.x.v.startswith("llvm.dbg"): return [st]
        args = [s.val(st, f, a) if a.k != "meta" else V0 for a in i.a]
        if i.x.k != "g": s.mon.on_callptr(st, i, s.val(st, f, i.x), cx)
        fns, exts, slot = s.callee(st, f, i)
        ncx = s.ctx(cx, i)
        r = s.mon.on_call(st, i, fns, exts, slot, args, ncx)
        if r == "stop": return []
        if isinstance(r, list):       # monitor provided the outcome: [(state, value)]
            out = []
            for st2, v in r:
                if i.res: st2.env[i.res] = v if v is not None else s.ret_sym(st2, f, i, ncx)
                out.append(st2)
            return out
        if len(fns) == 1 and not exts:
            t = fns[0]
            if s.mon.inline(st, i, t, slot, args) and s.inline_pred(t) and (slot is None or s.slot_inline) and s.depth() < s.maxdepth and not s.recursive(t):
                outs = s.call_fn(st, t, args, ncx, i)
                res = []
                for st2, v in outs:
                    if i.res: st2.env[i.res] = v if v is not None else V0
                    s.mon.after_call(st2, i, fns, exts, slot, args, v, ncx)
                    res.append(st2)
                return res
        if 1 < len(fns) <= 3 and not exts and s.slot_inline and s.depth() < s.maxdepth and all(s.small(t) and s.mon.inline(st, i, t, slot, args) and not s.recursive(t) for t in fns):
            res = []
            for t in fns:
                for st2, v in s.call_fn(st.copy(), t, args, ncx, i):
                    if i.res: st2.env[i.res] = v if v is not None else V0
                    s.mon.after_call(st2, i, [t], exts, slot, args, v, ncx)
                    res.append(st2)
            return res
        if not fns and len(exts) == 1:
            nm = exts[0]
            if nm in s.noreturn: return []
            m = s.models.get(nm) or s.models.get(".".join(nm.split(".")[:2]))
            if m is not None:
                r = m(s, st, f, i, args, ncx)
                if isinstance(r, list):
                    out = []
                    for st2, v in r:
                        if i.res: st2.env[i.res] = v
                        s.mon.after_call(st2, i, fns, exts, slot, args, v, ncx)
                        out.append(st2)
                    return out
                if i.res: st.env[i.res] = r if r is not None else s.ret_sym(st, f, i, ncx)
                s.mon.after_call(st, i, fns, exts, slot, args, st.env.get(i.res), ncx)
                return [st]
        return s.summary(st, f, i, fns, exts, slot, args, ncx)
    def small(s, t):
        r = t.__dict__.get("_small")
        if r is None:
            idx = {b.name: n for n, b in enumerate(t.order)}
            r = t._small = t.file.startswith("src/viriatum_commons") and sum(len(b.ins) for b in t.order) < 60 and not any(idx[x] <= idx[b.name] for b in t.order for x in b.succ)
        return r
    def summary(s, st, f, i, fns, exts, slot, args, ncx):
        """effect of a call that is not inlined"""
        tok = (ncx, "h")
        if fns: s.cut[i.where] = s.cut.get(i.where, 0) + 1
        if not fns and not exts:
            pass
        tags = set(); params = set()
        for t in fns:
            T, P = s.st.mods(t); tags |= T; params |= P
        hv = {t for t in tags if len(t) == 2}
        s.havoc_tags(st, hv, tok)
        for p in params:
            if isinstance(p, int) and p < len(args): s.havoc_range(st, f, args[p], None, ncx, i)
            elif isinstance(p, tuple) and p[1] < len(args):
                b, o = s.split(args[p[1]].l)
        if exts or not fns:
            for n, a in enumerate(args):
                if i.a[n].ty.k == "ptr":
                    b, o = s.split(a.l)
                    if b is not None and b.info and (b.info[0] == "alloca" or b.info[0] == "heap" and not exts): s.havoc_range(st, f, a, None, ncx, i)
        # addresses of locals stored in memory may be written by the callee: only when the callee writes through loaded pointers
        v = None
        if i.res:
            v = s.ret_sym(st, f, i, ncx)
            st.env[i.res] = v
        s.mon.after_call(st, i, fns, exts, slot, args, v, ncx)
        return [st]
    def ret_sym(s, st, f, i, ncx):
        di = None
        fns = s.st.targets(f, i)
        nm = None
        for t in fns:
            if hasattr(t, "params"):
                d = t.mod.fn_di_types(t)
                if d and d[0] != "null": di = (t.mod, d[0])
                nm = t.name
            else: nm = t
        y = s.fresh_of_type(("ret", ncx), i.ty, f, di, s.signs(f).get(i.res), "%s()" % (nm or "call"), "ret", s.mon.taint_ret(st, i, nm))
        s.forget(st, y)
        return V(s.lin(y))
    def forget(s, st, y):
        """the symbol is produced anew: drop what was known about its previous instance"""
        d = s.deps
        if y in st.iv or any(y in d(z) for z in st.iv): st.iv = {z: v for z, v in st.iv.items() if z is not y and y not in d(z)}
        if st.facts: st.facts = frozenset(l for l in st.facts if all(z is not y and y not in d(z) for z, _ in l.t))
        if st.ne: st.ne = frozenset(l for l in st.ne if all(z is not y and y not in d(z) for z, _ in l.t))
        if y in st.mem: del st.mem[y]
        if any(k is y or y in d(k) for k in st.defs): st.defs = {k: v for k, v in st.defs.items() if k is not y and y not in d(k)}
    def deps(s, z):
        """the symbols a symbol is made from: the object a field is read from, the operands of a term"""
        r = s.depc.get(z)
        if r is None:
            s.depc[z] = frozenset(); r = set(); w = [z.key] if not (isinstance(z.key, tuple) and z.key and z.key[0] == "J") else []
            while w:
                x = w.pop()
                if isinstance(x, Sym): r.add(x); r |= s.deps(x)
                elif isinstance(x, Lin): w += [q for q, _ in x.t]
                elif isinstance(x, (tuple, frozenset)): w += list(x)
            r = s.depc[z] = frozenset(r)
        return r

class Monitor:
    """hooks with default behaviour; st.mon is the monitor's part of the state"""
    eng = None
    def key(s, st): return tuple(sorted((k, v) for k, v in st.mon.items() if not k.startswith("_"))) if st.mon else ()
    def equal(s, a, b): return True
    def join(s, a, b, n, jv): return {k: v for k, v in a.mon.items() if k in b.mon and b.mon[k] == v}
    def rename(s, mon, m, rl, rv): return dict(mon)
    def see(s, mon, see): pass
    def on_entry(s, st, f, args): pass
    def on_return(s, st, i, v, cx, depth): pass
    def on_branch(s, st, i, c, cx): pass
    def on_assume(s, st, i, c, truth, cx): pass
    def on_singleton(s, st, y, v): pass
    def on_compare(s, st, i, a, b, cx): pass
    def on_access(s, st, i, p, size, write, cx): pass
    def on_load(s, st, i, p, v, cx): return None
    def on_store(s, st, i, p, v, cx): pass
    def on_gep(s, st, i, b, r, cx): pass
    def on_field(s, st, i, v, t, j, cx): pass
    def on_arith(s, st, i, r, cx): pass
    def on_mask(s, st, i, r, cx): pass
    def on_trunc(s, st, i, v, m, cx): pass
    def on_div(s, st, i, v, cx): pass
    def on_div0(s, st, i, cx): pass
    def on_callptr(s, st, i, v, cx): pass
    def on_call(s, st, i, fns, exts, slot, args, cx): return None
    def after_call(s, st, i, fns, exts, slot, args, v, cx): pass
    def inline(s, st, i, t, slot, args): return True
    def on_init(s, st, f, ins, y, base, off, tag, ty): return None
    def on_copy(s, st, i, dst, src, n, cx, what): pass
    def on_free(s, st, i, p, cx): pass
    def on_alloc(s, st, i, y, size, cx): pass
    def taint_init(s, st, f, base, off, tag, bv, tv): return base.taint
    def taint_param(s, f, n, name): return frozenset()
    def taint_ret(s, st, i, name): return frozenset()
    # where we are, for reports
    def chain(s):
        return " <- ".join("%s%s" % (f.name, " (called at %s)" % i.where if i is not None else "") for f, i in reversed(s.eng.stack))

"""Whole-program facts that need no flow sensitivity: static address tags, function-pointer slots
(field based), call graph, transitive modification sets."""
from .ir import strip_struct, AnalysisBroken

def field_name(mod, sname, idx, prog=None):
    """name of the idx-th LLVM field of a struct, using debug information"""
    key = ("fname", sname, idx)
    c = mod._mdc.get(key)
    if c: return c
    nm = strip_struct(sname)
    name = "f%d" % idx
    try:
        from .ir import Ty
        off, _ = mod.field_offset(Ty("named", name=sname), idx)
        fl = mod.struct_fields(nm)
        if fl:
            best = [f for f in fl if f[0] == off]
            if best: name = best[0][2]
    except AnalysisBroken:
        pass
    mod._mdc[key] = name
    return name

def field_di(mod, tag):
    """debug type reference of the field (struct, name)"""
    key = ("fdi", tag)
    if key in mod._mdc: return mod._mdc[key]
    r = None
    fl = mod.struct_fields(tag[0])
    if fl:
        for f in fl:
            if f[2] == tag[1]: r = f[3]
    mod._mdc[key] = r
    return r

class Static:
    def __init__(s, prog):
        s.prog = prog
        s.defs = {}
        s.addr_cache = {}
        for f in prog.fns.values():
            s.index(f)
        s.build_slots()
        s.build_callgraph()
        s._mod = None

    def index(s, f):
        if f in s.defs: return s.defs[f]
        d = {}
        for i in f.instrs():
            if i.res: d[i.res] = i
        s.defs[f] = d
        return d

    # ---- static address: ('tag', struct, field) / ('param', i) / ('alloca', instr) / ('global', name) / ('unk',)
    def gep_tag(s, f, sty, idx):
        """innermost struct field selected by a GEP with these indices, or None"""
        t = sty; tag = None
        for n, ix in enumerate(idx):
            if n == 0: continue
            if t.k in ("named", "lit"):
                d = f.mod.struct_def(t)
                if d is None: return tag
                if t.k == "named":
                    nm = strip_struct(t.name)
                    if t.name.startswith("union."): pass
                    else: tag = (nm, field_name(f.mod, t.name, ix.v))
                t = d.elems[ix.v] if d.k == "lit" else t
            elif t.k in ("arr", "vec"): t = t.el
        return tag
    def addr(s, f, v, depth=0):
        if v.k == "g": return ("global", v.v)
        if v.k == "ce" and v.v[0] == "gep":
            tg = s.gep_tag(f, v.v[1], v.v[3])
            if tg: return ("tag",) + tg
            return s.addr(f, v.v[2], depth + 1)
        if v.k != "loc" or depth > 60: return ("unk",)
        k = (f, v.v)
        if k in s.addr_cache: return s.addr_cache[k]
        s.addr_cache[k] = ("unk",)
        r = ("unk",)
        i = s.index(f).get(v.v)
        if i is None:
            for n, (pn, pt) in enumerate(f.params):
                if pn == v.v: r = ("param", n)
        elif i.op == "gep":
            tg = s.gep_tag(f, i.x, i.a[1:])
            r = ("tag",) + tg if tg else s.addr(f, i.a[0], depth + 1)
        elif i.op == "alloca": r = ("alloca", i)
        elif i.op in ("bitcast", "freeze"): r = s.addr(f, i.a[0], depth + 1)
        elif i.op == "load":
            a = s.addr(f, i.a[0], depth + 1)
            r = ("deref",) + a if a[0] != "deref" and a[0] != "alloca" else ("unk",)
        elif i.op in ("phi", "select"):
            rs = set(s.addr(f, x, depth + 1) for x in (i.a if i.op == "phi" else i.a[1:]))
            rs.discard(("unk",))
            if len(rs) == 1: r = rs.pop()
        s.addr_cache[k] = r
        return r

    # ---- function pointer slots
    def build_slots(s):
        flow = {}   # node -> set(nodes) (subset edges a -> b : values of a flow into b)
        base = {}   # node -> set(fn keys)
        s.ret_nodes = {}
        memo = {}
        def node(f, v):
            """nodes the value of v may come from"""
            k = (f, v.k, v.v) if v.k in ("loc", "g") else None
            if k is None: return []
            if k not in memo: memo[k] = node0(f, v, set())
            return memo[k]
        def node0(f, v, seen):
            if v.k == "g":
                t = s.prog.resolve(f.mod, v.v)
                if t is not None: return [("fn", t)]
                if v.v in f.mod.fns: return [("ext", v.v)]
                return []
            if v.k != "loc" or v.v in seen: return []
            seen.add(v.v)
            i = s.index(f).get(v.v)
            if i is None:
                for n, (pn, pt) in enumerate(f.params):
                    if pn == v.v: return [("param", f, n)]
                return []
            if i.op == "load":
                a = s.addr(f, i.a[0])
                return [s.cell(f, a)] if s.cell(f, a) else []
            if i.op in ("phi", "select"):
                out = []
                for x in (i.a if i.op == "phi" else i.a[1:]): out += [q for q in node0(f, x, seen) if q not in out]
                return out
            if i.op == "bitcast": return node0(f, i.a[0], seen)
            if i.op == "call":
                return [("ret", f, i.res)]
            return []
        s._node = node
        def edge(src, dst):
            if src[0] in ("fn", "ext"): base.setdefault(dst, set()).add(src)
            else: flow.setdefault(src, set()).add(dst)
        s.calls = {}    # f -> list of (instr, callee Val)
        for f in s.prog.fns.values():
            cl = []
            for i in f.instrs():
                if i.op == "store" and i.a[0].ty.k == "ptr":
                    c = s.cell(f, s.addr(f, i.a[1]))
                    if c:
                        for n in node(f, i.a[0]): edge(n, c)
                elif i.op == "call":
                    if i.x.k == "meta": continue
                    cl.append(i)
                elif i.op == "ret" and i.a and i.a[0].ty.k == "ptr":
                    for n in node(f, i.a[0]): edge(n, ("retval", f))
            s.calls[f] = cl
        # initialisers of globals
        for m in s.prog.mods:
            for g in m.globals.values():
                if g["init"] is not None: s.init_edges(m, g, g["ty"], g["init"], base)
        # direct calls: arguments -> parameters
        for f, cl in s.calls.items():
            for i in cl:
                if i.x.k == "g":
                    t = s.prog.resolve(f.mod, i.x.v)
                    if t is not None:
                        for n, a in enumerate(i.a):
                            if a.ty.k == "ptr" and n < len(t.params):
                                for nd in node(f, a): edge(nd, ("param", t, n))
                        if i.res: flow.setdefault(("retval", t), set()).add(("ret", f, i.res))
        sol = {}
        work = []
        for n, fs in base.items():
            sol[n] = set(fs); work.append(n)
        s.sol = sol; s.flow = flow
        done_calls = set()
        while True:
            while work:
                n = work.pop()
                for d in flow.get(n, ()):
                    o = sol.setdefault(d, set()); b = len(o); o |= sol[n]
                    if len(o) != b: work.append(d)
            # indirect calls propagate arguments
            ch = False
            for f, cl in s.calls.items():
                for i in cl:
                    if i.x.k == "loc":
                        for t in s.targets(f, i):
                            if (f, id(i), t) in done_calls or not hasattr(t, "params"): continue
                            done_calls.add((f, id(i), t))
                            for n, a in enumerate(i.a):
                                if a.ty.k == "ptr" and n < len(t.params):
                                    for nd in node(f, a):
                                        d = ("param", t, n)
                                        if nd[0] in ("fn", "ext"):
                                            o = sol.setdefault(d, set())
                                            if nd not in o: o.add(nd); work.append(d); ch = True
                                        else:
                                            if d not in flow.setdefault(nd, set()):
                                                flow[nd].add(d); work.append(nd) if nd in sol else None; ch = True
                            if i.res:
                                flow.setdefault(("retval", t), set()).add(("ret", f, i.res))
                                if ("retval", t) in sol: work.append(("retval", t))
            if not ch and not work: break
        s.slots = {}
        for n, fs in sol.items():
            if n[0] == "tag": s.slots[(n[1], n[2])] = sorted((x[1] for x in fs if x[0] == "fn"), key=lambda t: (t.file, t.name))
    def constant(s, g):
        """is the global never written by the program (declared constant, or only ever loaded from)"""
        if g["const"]: return True
        if s._consts is None:
            bad = set()
            def gk(m, name):
                h = s.prog.resolve_global(m, name)
                return id(h) if h is not None else None
            def base(v):
                while v.k == "ce" and v.v[0] in ("gep", "cast"): v = v.v[2]
                return v.v if v.k == "g" else None
            for f in s.prog.fns.values():
                der = {}        # ssa name -> global it points into
                for i in f.instrs():
                    if i.op == "gep":
                        v = i.a[0]; b = base(v) if v.k != "loc" else der.get(v.v)
                        if b: der[i.res] = b
                    elif i.op == "phi":
                        for _, v in i.x:
                            b = base(v) if v.k != "loc" else der.get(v.v)
                            if b: bad.add(gk(f.mod, b))
                    for n, v in enumerate(i.a):
                        b = base(v) if v.k != "loc" else der.get(v.v)
                        if not b: continue
                        if i.op == "load" or i.op in ("gep", "icmp"): continue
                        if i.op == "call" and i.x.k == "g" and (i.x.v in s.PURE or (i.x.v.startswith("llvm.memcpy") and n == 1) or i.x.v.startswith("llvm.dbg")): continue
                        bad.add(gk(f.mod, b))
                if f.retuses if hasattr(f, "retuses") else False: pass
            for m in s.prog.mods:
                for h in m.globals.values():
                    if h["init"] is not None: s._init_uses(m, h["init"], bad)
            s._consts = bad
        return id(g) not in s._consts
    _consts = None
    PURE = {"strlen", "strcmp", "strncmp", "memcmp", "printf", "sprintf", "snprintf", "fprintf", "fwrite", "puts"}
    def _init_uses(s, m, v, bad):
        if v.k == "agg":
            for e in v.v: s._init_uses(m, e, bad)
        elif v.k == "g":
            h = s.prog.resolve_global(m, v.v)
            if h is not None and not h["const"]: bad.add(id(h))
    def param_range(s, f, n, seen=None):
        """hull of the constants passed for a parameter at every resolved call site, None when some site passes something else"""
        if s._sites is None:
            s._sites = {}
            for g, cl in s.calls.items():
                for i in cl:
                    for t in s.targets(g, i):
                        if hasattr(t, "params"): s._sites.setdefault(t, []).append((g, i))
        seen = seen or set()
        if (f, n) in seen: return (s.INFV, -s.INFV)
        seen.add((f, n))
        sites = s._sites.get(f)
        if not sites: return None
        lo, hi = s.INFV, -s.INFV
        for g, i in sites:
            if n >= len(i.a): return None
            r = s.arg_range(g, i.a[n], seen)
            if r is None: return None
            lo = min(lo, r[0]); hi = max(hi, r[1])
        return (lo, hi)
    def arg_range(s, g, a, seen):
        if a.k == "int": return (a.v, a.v)
        if a.k != "loc": return None
        for m, (pn, pt) in enumerate(g.params):
            if pn == a.v: return s.param_range(g, m, seen)
        d = s.index(g).get(a.v)
        if d is None: return None
        if d.op in ("zext", "sext") and not (d.op == "zext" and d.a[0].ty.n == 1): return s.arg_range(g, d.a[0], seen)
        if d.op == "zext": return (0, 1)
        if d.op in ("select", "phi"):
            if (g, a.v) in seen: return (s.INFV, -s.INFV)
            seen.add((g, a.v))
            rs = [s.arg_range(g, x, seen) for x in (d.a[1:] if d.op == "select" else [v for _, v in d.x])]
            if any(r is None for r in rs): return None
            return (min(r[0] for r in rs), max(r[1] for r in rs))
        if d.op == "trunc":
            return s.arg_range(g, d.a[0], seen)
        return None
    INFV = 1 << 70
    _sites = None
    def init_edges(s, m, g, ty, v, base, tag=None):
        if v.k == "agg":
            d = m.struct_def(ty) if ty.k in ("named", "lit") else None
            for j, e in enumerate(v.v):
                if d is not None:
                    tg = ("tag", strip_struct(ty.name), field_name(m, ty.name, j)) if ty.k == "named" else tag
                    s.init_edges(m, g, d.elems[j], e, base, tg)
                else: s.init_edges(m, g, ty.el, e, base, tag)
        elif v.k == "g":
            t = s.prog.resolve(m, v.v)
            if t is not None:
                dst = tag or ("global", v.v)
                base.setdefault(tag if tag else ("glob", g["name"]), set()).add(("fn", t))
    def cell(s, f, a):
        if a[0] == "tag": return a
        if a[0] == "global": return ("glob", a[1])
        if a[0] == "alloca": return ("al", a[1])
        return None
    def targets(s, f, i):
        """functions an (in)direct call instruction may call: list of Fn or external names"""
        if i.x.k == "g":
            t = s.prog.resolve(f.mod, i.x.v)
            return [t] if t is not None else [i.x.v]
        out = []
        for n in s._node(f, i.x):
            if n[0] == "fn": out.append(n[1])
            elif n[0] == "ext": out.append(n[1])
            else:
                for x in s.sol.get(n, ()):
                    if x[1] not in out: out.append(x[1])
        return sorted(out, key=lambda t: (getattr(t, "file", ""), getattr(t, "name", t)))
    def slot_of(s, f, i):
        """(struct, field) an indirect call goes through, or None"""
        if i.x.k != "loc": return None
        for n in s._node(f, i.x):
            if n[0] == "tag": return (n[1], n[2])
        return None

    # ---- call graph and address-taken functions
    def build_callgraph(s):
        s.callees = {}; s.callers = {}; s.taken = set()
        for f, cl in s.calls.items():
            cs = set()
            for i in cl:
                for t in s.targets(f, i):
                    cs.add(t)
                    if hasattr(t, "params"): s.callers.setdefault(t, set()).add(f)
            s.callees[f] = cs
        for n, fs in s.sol.items():
            for x in fs:
                if x[0] == "fn": s.taken.add(x[1])
        # SCC membership for recursion guard is done dynamically
    def reach(s, roots, stop=()):
        seen = set(); w = list(roots)
        while w:
            f = w.pop()
            if f in seen or f in stop: continue
            seen.add(f)
            for t in s.callees.get(f, ()):
                if hasattr(t, "params"): w.append(t)
        return seen

    WRITERS = {"memcpy": [0], "llvm.memcpy": [0], "memset": [0], "llvm.memset": [0], "memmove": [0], "llvm.memmove": [0], "strcpy": [0], "strncpy": [0], "strcat": [0],
               "sprintf": [0], "snprintf": [0], "vsnprintf": [0], "vsprintf": [0], "fread": [0], "recv": [1], "read": [1], "SSL_read": [1], "stat": [1], "fgets": [0]}
    def local_mods(s, f):
        tags = set(); params = set()
        for i in f.instrs():
            a = None
            if i.op == "store": a = [s.addr(f, i.a[1])]
            elif i.op == "call" and i.x.k == "g" and s.prog.resolve(f.mod, i.x.v) is None:
                nm = i.x.v
                for k in (nm, ".".join(nm.split(".")[:2])):
                    if k in s.WRITERS:
                        a = [s.addr(f, i.a[n]) for n in s.WRITERS[k] if n < len(i.a)]; break
            if a:
                for x in a:
                    if x[0] == "tag": tags.add((x[1], x[2]))
                    elif x[0] == "param": params.add(x[1])
                    elif x[0] == "global": tags.add(("@", x[1]))
                    elif x[0] == "deref": tags.add(("*",) + x[1:]) if x[1] == "tag" else params.add(("d", x[-1])) if x[1] == "param" else None
        return tags, params
    def mods(s, f):
        """(tags, params) a call of f may modify, transitively"""
        if s._mod is None:
            loc = {g: s.local_mods(g) for g in s.prog.fns.values()}
            res = {g: (set(t), set(p)) for g, (t, p) in loc.items()}
            ch = True
            while ch:
                ch = False
                for g, cl in s.calls.items():
                    T, P = res[g]; n0 = len(T) + len(P)
                    for i in cl:
                        for t in s.targets(g, i):
                            if not hasattr(t, "params"): continue
                            TT, PP = res[t]
                            T |= TT
                            for p in PP:
                                if isinstance(p, int) and p < len(i.a):
                                    x = s.addr(g, i.a[p])
                                    if x[0] == "tag": T.add((x[1], x[2]))
                                    elif x[0] == "param": P.add(x[1])
                    if len(T) + len(P) != n0: ch = True
            s._mod = res
        return s._mod[f]

_st = {}
def static(prog):
    if id(prog) not in _st: _st[id(prog)] = Static(prog)
    return _st[id(prog)]

"""Typestate of every resource an operation acquires for its own use (open files, directories, sockets, libraries, iterators, parser
handlers and other created objects): each function that acquires one is interpreted over all its paths, a failing acquisition
included.  Obligations: at every way out, and before the same place acquires again, the resource was released, handed to the caller
or stored where it outlives the operation; and it is released at most once.  What a called function does with a resource it is given
(keeps it, releases it, only uses it) is derived from its code."""
import re
from vsa import ai, slots, roots, conn
from vsa.ai import Monitor, V, Lin
from vsa.ir import AnalysisBroken
V0 = V(Lin(0))
OPEN = {"fopen": ("file", 0), "fdopen": ("file", 0), "tmpfile": ("file", 0), "opendir": ("directory", 0), "dlopen": ("library", 0), "socket": ("descriptor", -1), "open": ("descriptor", -1), "open64": ("descriptor", -1), "fopen64": ("file", 0),
        "dup": ("descriptor", -1), "epoll_create": ("descriptor", -1), "popen": ("pipe", 0), "mmap": ("mapping", -1), "accept": ("descriptor", -1), "malloc": ("memory", None), "calloc": ("memory", None), "strdup": ("memory", None)}
CLOSE = {"fclose": "file", "closedir": "directory", "dlclose": "library", "close": "descriptor", "pclose": "pipe", "munmap": "mapping", "free": "memory"}
KEEPING = {"pthread_create", "epoll_ctl"}
ITER = re.compile(r"^create_\w*iterator_|^create_(linked_list|hash_map|sort_map|string_buffer|huffman|http_client_parameters|bencoding_engine|bencoding_handler|module|environment|huffman_node|http_handler|service_options|thread_pool_task|template_handler|template_engine|template_settings|http_parser|http_settings|\w+_stream)$")

class Sum:
    """what functions do with their parameters, and what they hand out"""
    def __init__(s, p):
        s.p = p; s.sl = slots.static(p); s.memo = {}; s.acq = {}; s.uses = {}
        s.find()
    def name(s, v): return v.v if v.k == "g" else None
    def usemap(s, f):
        u = s.uses.get(f)
        if u is None:
            u = s.uses[f] = {}
            for i in f.instrs():
                for n, v in enumerate(i.a):
                    if v.k == "loc": u.setdefault(v.v, []).append((i, n))
        return u
    def fate(s, f, n):
        """set of: stored, released, returned"""
        k = (f, n)
        if k in s.memo: return s.memo[k]
        s.memo[k] = frozenset()
        if n >= len(f.params): return frozenset()
        r = s.flow(f, f.params[n][0])
        s.memo[k] = frozenset(r)
        return s.memo[k]
    def flow(s, f, x):
        out = set(); todo = [x]; seen = set(); um = s.usemap(f)
        cells = set()
        while todo:
            x = todo.pop()
            if x in seen: continue
            seen.add(x)
            for i, n in um.get(x, ()):
                if i.op == "store" and n == 0:
                    a = i.a[1]
                    d = s.sl.index(f).get(a.v) if a.k == "loc" else None
                    if d is not None and d.op == "alloca":
                        for j, m in um.get(a.v, ()):
                            if j.op == "load": todo.append(j.res)
                            elif j.op == "call": out.add("stored")
                    else: out.add("stored")
                elif i.op in ("phi", "select", "bitcast", "inttoptr", "ptrtoint", "sext", "zext", "trunc"): todo.append(i.res)
                elif i.op == "ret": out.add("returned")
                elif i.op == "call":
                    if i.x.k == "g":
                        if i.x.v in CLOSE: out.add("released"); continue
                        if i.x.v in KEEPING: out.add("stored"); continue
                    ts = s.sl.targets(f, i)
                    if not ts and i.x.k != "g": out.add("stored")
                    for t in ts:
                        if hasattr(t, "params"):
                            if t.name.startswith("create_") and "iterator" in t.name: continue    # an iterator only looks at its structure
                            out |= s.fate(t, n) - {"returned"}
        return out
    def frees(s, t):
        """offsets of the object released by a deleter whose content it releases as well"""
        k = ("frees", t)
        if k not in s.memo:
            s.memo[k] = r = set()
            for i in t.instrs():
                if i.op == "load" and i.ty.k == "ptr":
                    a = s.sl.addr(t, i.a[0])
                    if a[0] == "tag" and "released" in s.flow(t, i.res):
                        o = conn.offsets(s.p, a[1]).get(a[2])
                        if o: r.add(o[0])
        return s.memo[k]
    def deleter(s, t): return t.name.startswith("delete_") and not t.name.endswith("_handler")
    def fresh(s, f, v, depth=0):
        """kind of resource a value acquired in f is, if it is one"""
        if v.k != "loc" or depth > 6: return None
        i = s.sl.index(f).get(v.v)
        if i is None: return None
        if i.op == "call":
            if i.x.k == "g" and i.x.v in OPEN: return OPEN[i.x.v][0]
            return None
        if i.op in ("phi", "select", "bitcast"):
            for a in i.a:
                k = s.fresh(f, a, depth + 1)
                if k: return k
        if i.op == "load" and i.a[0].k == "loc":
            d = s.sl.index(f).get(i.a[0].v)
            if d is not None and d.op == "alloca":
                for j, n in s.usemap(f).get(i.a[0].v, ()):
                    if j.op == "store" and n == 1:
                        k = s.fresh(f, j.a[0], depth + 1)
                        if k: return k
                    if j.op == "call":
                        for t in s.sl.targets(f, j):
                            if hasattr(t, "params") and (t, n) in s.acq: return s.acq[t, n]
        return None
    def find(s):
        """functions that hand out a resource through a pointer they are given"""
        for _ in range(3):
            n0 = len(s.acq)
            for f in s.p.fns.values():
                if roots.is_test(f): continue
                ps = {pn: n for n, (pn, pt) in enumerate(f.params) if pt.k == "ptr"}
                for i in f.instrs():
                    if i.op == "store" and i.a[1].k == "loc" and i.a[1].v in ps:
                        k = s.fresh(f, i.a[0])
                        if k and (f, ps[i.a[1].v]) not in s.acq: s.acq[f, ps[i.a[1].v]] = "object of " + f.name if f.name.startswith("create_") else k
                    if i.op == "call":
                        for n, a in enumerate(i.a):
                            if a.k == "loc" and a.v in ps:
                                for t in s.sl.targets(f, i):
                                    if hasattr(t, "params") and (t, n) in s.acq: s.acq.setdefault((f, ps[a.v]), s.acq[t, n])
            if len(s.acq) == n0: break

class Res(Monitor):
    def __init__(s, root, S, want): s.root = root; s.S = S; s.want = want; s.found = {}; s.good = set(); s.kinds = {}
    def result(s): return s.found, s.good
    def key(s, st): return tuple(sorted((y.id, v) for y, v in st.mon.items()))
    def join(s, a, b, n, jv): return {k: v for k, v in a.mon.items() if b.mon.get(k) == v}
    def inline(s, st, i, t, slot, args):
        if slot: return False
        for n, a in enumerate(args):
            y = s.which(st, a)
            if y is not None and "released" in s.S.fate(t, n): return not (s.S.deleter(t) and s.matches(s.kinds[y][0], t.name))
        if s.S.deleter(t): return False
        if any(x == t for x, n in s.S.acq): return False
        return t.file == s.root.file and roots.size(t) < 60
    def which(s, st, v):
        l = st.norm(v.l)
        if len(l.t) == 1 and l.t[0][1] == 1 and l.c == 0 and l.t[0][0] in st.mon: return l.t[0][0]
        return None
    def acquire(s, st, i, cx, kind, none, put=None):
        e = s.eng; ptr = kind not in ("descriptor",)
        y = e.sym(("res", cx, id(i)), "ret", 4096 if ptr else 0, 1 << 47 if ptr else (1 << 31) - 1, "%s@%d" % (kind, i.line), ("ptr", None) if ptr else None)
        if st.mon.get(y) == "open": s.say(y, "again", "is acquired again without a release of the one acquired before", i.where)
        e.forget(st, y); s.kinds[y] = (kind, i.where)
        st.mem = {k: v for k, v in st.mem.items() if k is not y}
        st.mon[y] = "open"
        s.good.add(("acquired", kind, i.where))
        return V(e.lin(y))
    def say(s, y, what, msg, where):
        kind, w = s.kinds[y]
        s.found.setdefault("%s:%s:%s" % (s.root.name, kind.replace(" ", "-"), what), ("%s: the %s acquired at %s %s" % (s.root.name, kind, w, msg), where))
    def on_call(s, st, i, fns, exts, slot, args, cx):
        e = s.eng; nm = i.x.v if i.x.k == "g" else None
        if nm in OPEN and not fns and (OPEN[nm][0] in s.want):
            kind, none = OPEN[nm]
            t = st.copy() if none is not None else None
            v = s.acquire(st, i, cx, kind, none)
            return [(st, v)] + ([(t, V(Lin(none)))] if t is not None else [])
        if (nm in CLOSE and not fns) or len(fns) == 1 and s.S.deleter(fns[0]):
            for a in args:
                y = s.which(st, a)
                if y is not None and (nm in CLOSE or s.matches(s.kinds[y][0], fns[0].name)):
                    if st.mon[y] == "released": s.say(y, "twice", "is released twice", i.where)
                    if fns:
                        for z, w in list(st.mon.items()):
                            if isinstance(w, tuple) and w[1] is y: st.mon[z] = "released" if w[2] in s.S.frees(fns[0]) else "open"
                    elif nm == "free":
                        for z, w in list(st.mon.items()):
                            if isinstance(w, tuple) and w[1] is y: st.mon[z] = "open"
                    st.mon[y] = "released"; s.good.add(("released", s.kinds[y][0], i.where))
            return None
        if len(fns) == 1 and not exts:
            t = fns[0]
            for n, a in enumerate(args):
                k = s.S.acq.get((t, n))
                if k is None or not (k in s.want or "object" in s.want and k.startswith("object of ") and ITER.match(k[10:])): continue
                b, o = e.split(a.l)
                if b is None or not (b.info and b.info[0] == "alloca") or not o.const(): continue
                if b in getattr(s, "shared", ()): continue
                for m, x in enumerate(args):
                    if m != n: s.given(st, i, t, m, x)
                r = []
                if i.ty.k == "i":
                    u = st.copy(); r.append((u, V(Lin(1))))
                v = s.acquire(st, i, cx, k if k.startswith("object") else k, None)
                for m, x in enumerate(args):
                    if m != n and i.a[m].ty.k == "ptr":
                        for z in [st] + [x0 for x0, _ in r]: e.havoc_range(z, i.fn, x, None, cx, i)
                st.mem[b] = {**st.mem.get(b, {}), o.c: (v, 8)}
                return [(st, V0)] + r
        for n, a in enumerate(args):
            y = s.which(st, a)
            if y is None: continue
            if not fns and nm is not None:
                if nm in KEEPING: st.mon[y] = "kept"
                elif st.mon[y] == "released" and nm not in ("printf", "fprintf", "llvm.lifetime"): s.say(y, "used", "is used after its release", i.where)
                continue
            if slot and slot[0] == "module_t": continue    # the functions of a module use the module and its environment, the loader goes on owning them
            for t in fns: s.given(st, i, t, n, a)
            if not fns and nm is None and not exts: st.mon[y] = "kept"
        return None
    def fails(s, st, v):
        lo, hi = st.lo(v.l), st.hi(v.l)
        return lo > 0 or hi < 0 or st.ne0(v.l)
    def given(s, st, i, t, n, a):
        y = s.which(st, a)
        if y is None: return
        fate = s.S.fate(t, n)
        if "stored" in fate and st.mon[y] == "open" and not (t.name.startswith("create_") and "iterator" in t.name): st.mon[y] = "kept"; s.good.add(("kept by " + t.name, s.kinds[y][0], i.where))
        elif "released" in fate and not s.inline(st, i, t, None, [a] if n == 0 else [V0] * n + [a]): st.mon[y] = "kept"
    def on_store(s, st, i, p, v, cx):
        y = s.which(st, v)
        if y is None: return
        b, o = s.eng.split(p.l)
        if b in st.mon and b is not y and o.const():
            if st.mon[y] == "open" and st.mon[b] != "kept": st.mon[y] = ("in", b, o.c)    # lives as long as the object it is part of
            elif st.mon[y] == "open": st.mon[y] = "kept"
        elif b is None or not (b.info and b.info[0] == "alloca"):
            if st.mon[y] == "open": st.mon[y] = "held" if s.kinds[y][0] in ("file", "directory", "descriptor", "library") else "kept"; s.good.add(("stored", s.kinds[y][0], i.where))
    def matches(s, kind, name):
        if not kind.startswith("object of create_"): return True
        k = kind[len("object of create_"):].replace("element_iterator", "iterator"); d = name[len("delete_"):]
        return k == d or k.startswith("iterator") and d.startswith("iterator")
    def on_copy(s, st, i, dst, src, n, cx, what):
        b, o = s.eng.split(src.l) if src is not None and src.l is not None else (None, None)
        d, _ = s.eng.split(dst.l)
        if b is None or not o.const() or d is not None and d.info and d.info[0] == "alloca": return
        for off, (v, sz) in (st.mem.get(b) or {}).items():
            y = s.which(st, v) if v is not None and v.l is not None else None
            if y is not None and st.mon[y] == "open": st.mon[y] = "kept"; s.good.add(("stored", s.kinds[y][0], i.where))
    def on_alloc(s, st, i, y, size, cx): pass
    def on_return(s, st, i, v, cx, depth):
        if depth != 1: return
        back = s.which(st, v) if v is not None and v.l is not None else None
        for y, x in st.mon.items():
            if x == "held" and v is not None and v.l is not None and s.fails(st, v): s.say(y, "left", "is not released although %s fails" % s.root.name, i.where)
            if x == "open" and y is not back: s.say(y, "left", "is not released before %s returns" % s.root.name, i.where)
        s.good.add(("exit", "", i.where))

_S = None
def make(f): return Res(f, _S, _W)
_W = ("file", "directory", "descriptor", "library", "pipe", "mapping", "object", "memory")
def run(ctx):
    global _S
    from vsa.run import sweep
    p = ctx.prog(); _S = Sum(p)
    ents = []
    for f in p.fns.values():
        if roots.is_test(f): continue
        hit = False
        for i in f.instrs():
            if i.op != "call": continue
            if i.x.k == "g" and i.x.v in OPEN and OPEN[i.x.v][0] in _W and not any(hasattr(t, "params") for t in _S.sl.targets(f, i)): hit = True
            for t in _S.sl.targets(f, i):
                if hasattr(t, "params") and any(x == t for x, n in _S.acq): hit = True
        if hit: ents.append(f)
    ents.sort(key=lambda f: -roots.size(f))
    n = 0
    for f, (found, good), inc in sweep(ctx, p, ents, make, inline=lambda root: (lambda t: True), depth=4):
        if inc: ctx.open("%s:incomplete" % f.name, "analysis of %s: %s" % (f.name, inc))
        acq = {g for g in good if g[0] == "acquired"}; n += len(acq)
        for g in good: ctx.ok("resource " + g[0].split(" by ")[0] if g[0] != "exit" else "exit without open resource", "%s %s at %s" % (f.name, g[1], g[2]) if g[0] != "exit" else None)
        for k, (m, w) in sorted(found.items()): ctx.bad(k, m, w)
    ctx.rule("acquisitions", n, 20)

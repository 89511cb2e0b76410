"""Monitor of the life of a connection in the functions the event loop calls.

Socket results are split in classes (data / end / would block / failure; all sent / part sent), for the plain and the
encrypted library alike; a callback into upper layers returns with the connection still open or closed by it.  Closing
makes the connection CLOSED, empties the operations that the closing function empties, and ends the life of the
structures hanging from it.  What happens between an input/output operation and the next one, or the return, is the
answer to the class of its result."""
import re
from .ai import *
from .slots import static
from . import roots, parser
CN, IO, HC, DT = "connection_t", "io_connection_t", "http_connection_t", "data_t"
OPEN, CLOSED, HANDSHAKE = 1, 2, 3
INPUT = {"recv": 1, "read": 1, "recvfrom": 1, "SSL_read": 1, "recvmsg": 1}; OUTPUT = {"send": 1, "write": 1, "SSL_write": 1, "sendto": 1}
ACCEPT = {"accept", "accept4"}
SHAKE = {"SSL_accept", "SSL_connect", "SSL_do_handshake"}
DOWN = {(CN, "lower"), (IO, "lower"), (HC, "http_parser"), (HC, "http_settings"), (HC, "buffer")}
UP = {(IO, "connection"), (HC, "io_connection"), ("http_parser_t", "parameters")}
def cleared(prog):
    """operations of a connection that closing it empties"""
    st = static(prog); r = set()
    for f in closers(prog):
        for g in [f] + [t for i in st.calls.get(f, ()) for t in st.targets(f, i) if not isinstance(t, str) and t.file == f.file]:
            for i in g.instrs():
                if i.op == "store" and i.a[0].k == "null":
                    a = st.addr(g, i.a[1])
                    if a[0] == "tag" and a[1] == CN and len(a) == 3: r.add(a[2])
    return r
def called(prog):
    """operations of a connection: the fields some function calls through"""
    st = static(prog)
    return {so[1] for f in st.calls for i in st.calls[f] for so in [st.slot_of(f, i) or ()] if len(so) > 1 and so[0] == CN}
def closers(prog):
    st = static(prog); r = set()
    for f in st.calls:
        for i in st.calls[f]:
            if (st.slot_of(f, i) or ())[:2] == (CN, "close_connection"): r |= {t for t in st.targets(f, i) if not isinstance(t, str)}
    return sorted(r, key=lambda f: (f.file, f.name))
def offsets(prog, sname):
    """field name -> (offset, size) of a struct, from any module that has it"""
    for m in prog.mods:
        f = m.struct_fields(sname)
        if f: return {n: (o, z) for o, z, n, d in f}
    return {}
def may_close(prog):
    """functions that may close a connection before they return"""
    if "_mayclose" in prog.__dict__: return prog._mayclose
    st = static(prog); r = set(closers(prog))
    for f in st.calls:
        if any((st.slot_of(f, i) or ())[:2] == (CN, "close_connection") for i in st.calls[f]): r.add(f)
    w = list(r)
    while w:
        f = w.pop()
        for g in st.callers.get(f, ()):
            if g not in r: r.add(g); w.append(g)
    prog._mayclose = r
    return r

def tops(prog, g):
    """where the analysis of g starts: g, or the functions of its file that it is a helper of"""
    st = static(prog); r = set(); seen = set(); w = [g]
    while w:
        f = w.pop()
        if f in seen: continue
        seen.add(f); cs = [c for c in st.callers.get(f, ()) if c is not f and not roots.is_test(c)]
        if f in st.taken or not cs or any(c.file != f.file for c in cs) or not any(i.x.k == "g" for c in cs for i in st.calls[c] if f in st.targets(c, i)): r.add(f)
        else: w += cs
    return r
def loads(prog, tag):
    """functions that read a field"""
    st = static(prog); k = "_loads%s" % (tag,)
    if k not in prog.__dict__:
        prog.__dict__[k] = [f for f in prog.fns.values() if not roots.is_test(f) and any(i.op == "load" and st.addr(f, i.a[0])[:3] == ("tag",) + tag for i in f.instrs())]
    return prog.__dict__[k]
def slot_targets(prog, slot):
    st = static(prog)
    return sorted({t for f in st.calls for i in st.calls[f] if (st.slot_of(f, i) or ())[:2] == slot for t in st.targets(f, i) if hasattr(t, "params") and not roots.is_test(t)}, key=lambda f: (f.file, f.name))
class Conn(Monitor):
    """mon: C = connection bases, edges = (parent, child), dead = ended structures, closed = closed connections, cls = class of
    the last operation, ev = what happened since, D = head of the write queue, n/size of the last output"""
    prog = None; pf = frozenset()
    def __init__(s, root):
        s.root = root; s.out = {}; s.bad = {}; s.good = {}; s.n = 0; s.mayc = may_close(s.prog)
    def result(s): return (s.out, s.bad, s.good)
    def key(s, st):
        m = st.mon
        return tuple(m.get(k) for k in ("cls", "var", "ev", "closed", "failed", "D", "cb"))
    def join(s, a, b, n, jv):
        r = {}
        for k in ("cls", "var", "ev", "closed", "failed", "D", "cb", "sslerr", "ssl", "had"):
            if a.mon.get(k) == b.mon.get(k) and k in a.mon: r[k] = a.mon[k]
        r["nb"] = a.mon.get("nb", frozenset()) & b.mon.get("nb", frozenset())
        for k in ("C", "edges", "dead", "Q"): r[k] = a.mon.get(k, frozenset()) | b.mon.get(k, frozenset())
        return r
    # ---- helpers
    def tag(s, f, v):
        a = s.eng.st.addr(f, v)
        return (a[1], a[2]) if a[0] == "tag" and len(a) == 3 else None
    def put(s, st, k, x): st.mon[k] = st.mon.get(k, frozenset()) | {x}
    def event(s, st, x): st.mon["ev"] = (st.mon.get("ev", ()) + (x,))[-12:]
    def base(s, v): return s.eng.split(v.l)[0]
    def owner(s, st, b):
        """connection a structure hangs from"""
        up = {c: p for p, c in st.mon.get("edges", ())}; n = 0
        while b in up and n < 8: b = up[b]; n += 1
        return b
    def alarm(s, i, k, msg):
        s.bad.setdefault("%s:%s" % (k, i.fn.name), (msg, i.where))
    def fine(s, i, rule): s.good[(rule, i.where)] = i.fn.name
    # ---- structure of the connection
    def on_entry(s, st, f, args):
        s.offs = offsets(s.prog, CN); s.clear = cleared(s.prog); s.ops = s.clear & called(s.prog)
        di = f.mod.fn_di_types(f)
        for n, a in enumerate(args):
            if di and n + 1 < len(di) and s.points(f.mod, di[n + 1]) == CN:
                b = s.base(a); s.put(st, "C", b)
                if s.status and b is not None: o, z = s.offs["status"]; st.mem[b] = {o: (V(Lin(s.status)), z)}
    status = OPEN
    def on_init(s, st, f, ins, y, base, off, tag, ty):
        """operations of a connection are there until it is closed"""
        if tag and tag[0] == CN and len(tag) == 2 and tag[1] in s.ops and y.lo < 1: y.lo = 4096
        if tag == (DT, "size") and y.hi > (1 << 31) - 1: y.lo = max(y.lo, 0); y.hi = (1 << 31) - 1
        return None
    def points(s, mod, d):
        x = mod.md_node(mod.di_strip(d)) if d and d != "null" else None
        if not x or x[1].get("tag") != "DW_TAG_pointer_type" or not x[1].get("baseType"): return None
        return mod.di_struct_name(x[1]["baseType"])
    def on_load(s, st, i, p, v, cx):
        if i.ty.k != "ptr": return None
        t = s.tag(i.fn, i.a[0])
        if t is None: return None
        if s.isc(i.fn.mod, t):
            b = s.base(v)
            if b is not None and b not in st.mon.get("C", ()):
                s.put(st, "C", b); o, z = s.offs["status"]
                if s.status and o not in st.mem.get(b, {}) and b.info and b.info[0] == "ptr": st.mem[b] = {**st.mem.get(b, {}), o: (V(Lin(s.status)), z)}
        if t in DOWN or t in UP:
            a, b = s.base(p), s.base(v)
            if a is None or b is None or a is b: return None
            if t in UP: a, b = b, a
            if (b, a) not in st.mon.get("edges", ()): s.put(st, "edges", (a, b))
        return None
    def on_access(s, st, i, p, size, write, cx):
        b = s.base(p)
        if b is None: return
        if b in st.mon.get("dead", ()): s.alarm(i, "dead", "%s uses %s after the connection it belongs to was closed" % (i.fn.name, s.what(i, b)))
    def isc(s, mod, t):
        from .slots import field_di
        k = ("isc", t); c = mod._mdc.get(k)
        if c is None: c = mod._mdc[k] = t == ("http_parser_t", "parameters") or s.points(mod, field_di(mod, t)) == CN
        return c
    def what(s, i, b):
        a = s.eng.st.addr(i.fn, i.a[1] if i.op == "store" else i.a[0]) if i.a else ("?",)
        return "%s.%s" % (a[1], a[2]) if a[0] == "tag" and len(a) == 3 else b.name
    def close(s, st, C, mk=True):
        """the connection is closed: effects of the closing function"""
        if C is None or C in st.mon.get("closed", ()): return
        s.put(st, "closed", C)
        offs = s.offs
        cells = dict(st.mem.get(C, ()))
        for fld in s.clear | {"status"}:
            if fld in offs:
                o, z = offs[fld]
                cells[o] = (V(Lin(CLOSED if fld == "status" else 0)), z)
        st.mem[C] = cells
        edges = st.mon.get("edges", ()); dead = set(); w = [C]
        while w:
            x = w.pop()
            for a, b in edges:
                if a is x and b not in dead and b is not C: dead.add(b); w.append(b)
        st.mon["dead"] = st.mon.get("dead", frozenset()) | dead
    def on_callptr(s, st, i, v, cx):
        l = st.norm(v.l)
        if l.const() and l.c == 0:
            so = s.eng.st.slot_of(i.fn, i)
            s.alarm(i, "null", "%s calls %s, which is empty after the connection was closed" % (i.fn.name, ".".join(so) if so else "a function pointer"))
    # ---- calls
    def on_call(s, st, i, fns, exts, slot, args, cx):
        e = s.eng
        if st.norm(e.val(st, i.fn, i.x).l) == Lin(0): return "stop"
        so = slot or ()
        name = fns[0].name if fns and len(fns) == 1 else exts[0] if len(exts) == 1 and not fns else None
        if name in INPUT or name in OUTPUT: return s.transfer(st, i, name, args, cx)
        if name in ACCEPT: return s.accept(st, i, name, args, cx)
        if name in SHAKE: return s.shake(st, i, name, args, cx)
        if name == "SSL_get_error": return s.sslerr(st, i, args, cx)
        if fns and any(g in s.pf for g in fns): return s.parse(st, i, fns, args, cx)
        if so and so[0] == CN and args:
            C = s.base(args[0])
            if C is not None: s.put(st, "C", C)
            if so[1] == "close_connection":
                if C in st.mon.get("closed", ()): s.event(st, "closed again")
                else: s.event(st, "close"); s.fine(i, "close")
                s.close(st, C); st.mon.pop("failed", None)
                return [(st, V0)]
            if so[1] == "open_connection": return s.opened(st, i, C, cx)
            if so[1] in s.opaque:
                if C in st.mon.get("closed", ()): s.event(st, so[1] + " after close")
                s.event(st, so[1]); return [(st, V0)]
        r = s.special(st, i, fns, exts, so, name, args, cx)
        if r is not None: return r
        if fns and args and (so == (IO, "on_data") or not any(s.inl(t) for t in fns) and any(t in s.mayc for t in fns)):
            return s.outcomes(st, i, so, name, args, cx)
        if not fns and so and so[0] not in (CN,) and args: return s.outcomes(st, i, so, name, args, cx)
        return None
    def opened(s, st, i, C, cx):
        """the connection is opened: its status is set, the upper layers are built"""
        s.event(st, "open"); s.havoc(st, i, cx)
        o, z = s.offs["status"]; st.mem[C] = {**st.mem.get(C, {}), o: (V(Lin(OPEN)), z)}
        return [(st, V0)]
    def on_alloc(s, st, i, y, size, cx):
        for k in ("C", "closed", "dead"):
            if y in st.mon.get(k, ()): st.mon[k] = st.mon[k] - {y}
        e = st.mon.get("edges")
        if e: st.mon["edges"] = frozenset(x for x in e if y not in x)
    def on_store(s, st, i, p, v, cx):
        if i.a[0].ty.k == "i" and s.tag(i.fn, i.a[1]) == (CN, "status"):
            C = s.base(p); l = st.norm(v.l); s.fine(i, "status")
            if C in st.mon.get("closed", ()) and not (l.const() and l.c == CLOSED): s.alarm(i, "reopen", "%s gives a connection that was closed another status" % i.fn.name)
    opaque = frozenset(("invalidate_read", "invalidate_write", "register_read", "unregister_read", "register_write", "unregister_write", "add_outstanding"))
    def special(s, st, i, fns, exts, so, name, args, cx): return None
    def outcomes(s, st, i, so, name, args, cx):
        """a call into upper layers: the connection is still open afterwards, or was closed by it"""
        s.event(st, ".".join(so) if so else name)
        Cs = []
        for a in args:
            b = s.base(a)
            if b is None: continue
            c = s.owner(st, b)
            if s.isconn(st, c) and c not in Cs: Cs.append(c)
        if len(args) and any(s.base(a) in st.mon.get("dead", ()) for a in args if s.base(a) is not None): s.alarm(i, "dead", "%s hands over a structure of a connection that was closed" % i.fn.name)
        s.havoc(st, i, cx)
        if not Cs or any(c in st.mon.get("closed", ()) for c in Cs): return [(st, None)]
        st2 = st.copy(); st2.mon = dict(st.mon)
        s.close(st2, Cs[0]); st2.mon["ev"] = st2.mon.get("ev", ()) + ("closed by it",); st2.mon.pop("failed", None)
        return [(st, None), (st2, None)]
    def havoc(s, st, i, cx):
        e = s.eng
        tags = set()
        for t in e.st.targets(i.fn, i):
            if hasattr(t, "params"): T, _ = e.st.mods(t); tags |= T
        e.havoc_tags(st, {t for t in tags if len(t) == 2 and t not in s.stable}, (cx, "h"))
    stable = frozenset({(CN, "status"), (CN, "lower"), (IO, "connection"), (IO, "lower"), (HC, "io_connection"), (HC, "http_parser"), (HC, "http_settings")} | {(CN, x) for x in ("close_connection", "unregister_write", "register_write", "invalidate_read", "invalidate_write", "add_outstanding", "register_read", "unregister_read")})
    def isconn(s, st, b):
        return b in st.mon.get("C", ())
    # ---- socket operations
    def begin(s, st, i, name):
        """the previous answer ends here: another operation follows"""
        s.record(st, i, "again")
        st.mon["ev"] = (); st.mon.pop("cls", None)
    def record(s, st, i, end):
        c = st.mon.get("cls")
        if c is not None and c[0] == "shake": st.mon["ev"] = st.mon.get("ev", ()) + ("status=%s" % s.status_of(st, st.mon.get("ssl")),)
        if c is not None: s.out.setdefault((s.root.name,) + c, set()).add((st.mon.get("ev", ()) + (end,), i.where if i is not None else s.root.file))
    def cell(s):
        """where the result and the length of the last operation are kept"""
        return s.eng.sym(("io",), "region", 4096, INF, "&io", ("global", {"name": "#io", "const": False, "init": None, "ty": I(32), "mod": s.root.mod, "internal": True}))
    def errno(s, st, n, cx):
        e = s.eng
        y = e.sym(("errno",), "region", 4096, INF, "&errno", ("global", {"name": "errno", "const": False, "init": None, "ty": I(32), "mod": s.root.mod, "internal": False}))
        st.mem[y] = {0: (V(Lin(n)), 4)}
    def transfer(s, st, i, name, args, cx):
        e = s.eng; kind = "in" if name in INPUT else "out"; ssl = name.startswith("SSL")
        for c in st.mon.get("closed", ()): s.alarm(i, "io", "%s keeps using the socket of a connection that was closed" % i.fn.name)
        s.begin(st, i, name)
        size = st.norm(args[2].l); r = []
        def fork(cls, v, err=None, lo=None, hi=None):
            t = st.copy(); t.mon = dict(st.mon); t.mon["cls"] = (kind, "ssl" if ssl else "plain", cls); t.mon["var"] = (str(v) if cls != "all" else "", str(err)); t.mon["ev"] = ()
            if v is None:
                y = e.sym(("io", cls, cx), "ext", -INF, INF, "%s of %s()@%d" % (cls, name, i.line)); e.forget(t, y); v = V(e.lin(y))
                try:
                    e.assume_ge(t, v.l.addc(-1)); e.assume_ge(t, size.add(v.l, -1).addc(0 if kind == "in" else -1))
                except Infeasible: return
            t.mem[s.cell()] = {0: (v, 8), 8: (V(size), 8)}
            if err is not None and not ssl: s.errno(t, err, cx)
            if ssl and err is not None: t.mon["sslerr"] = err
            r.append((t, v))
        if kind == "in":
            e.havoc_range(st, i.fn, args[1], None, cx, i)
            fork("data", None); fork("end", V0, 6)
        else:
            fork("all", V(size)); fork("part", None)
        if ssl: fork("would", V(Lin(-1)), (2, 3)); fork("fail", V(Lin(-1)), (1, 1)); fork("fail", V(Lin(-1)), (4, 8))
        else: fork("would", V(Lin(-1)), 11); fork("fail", V(Lin(-1)), 104); fork("fail", V(Lin(-1)), 32)
        if ssl and kind == "out":
            t = st; st = t.copy(); st.mon = dict(t.mon)
            try: e.assume_ge(st, size.addc(-1)); fork("fail", V0, (5, 6))
            except Infeasible: pass
        s.n += 1; s.fine(i, "transfer")
        return r
    def accept(s, st, i, name, args, cx):
        """a new connection starts, or there is none"""
        e = s.eng; s.begin(st, i, name)
        for k in ("closed", "dead", "had", "ssl"): st.mon.pop(k, None)
        t = st.copy(); t.mon = dict(st.mon); t.mon["cls"] = ("accept", "", "none"); t.mon["ev"] = ()
        st.mon["cls"] = ("accept", "", "new"); st.mon["ev"] = (); s.fine(i, "accept")
        y = e.sym(("accepted", cx, i.where), "ext", 0, (1 << 31) - 1, "accepted@%d" % i.line); e.forget(st, y)
        st.mon["nb"] = frozenset(x for x in st.mon.get("nb", ()) if x.__class__ is tuple or not any(z is y for z, _ in x.t))
        if name == "accept4" and st.lo(st.norm(args[3].l)) & 2048: s.put(st, "nb", e.lin(y))
        return [(st, V(e.lin(y))), (t, V(Lin(-1)))]
    def shake(s, st, i, name, args, cx):
        s.begin(st, i, name); r = []
        st.mem[s.cell()] = {16: (args[0], 8)}
        q, _ = s.offs["ssl_handle"]; h = st.norm(args[0].l)
        st.mon["ssl"] = True; st.mon["had"] = frozenset((C, "had") for C in st.mon.get("C", ()) if q in st.mem.get(C, {}) and st.norm(st.mem[C][q][0].l) == h)
        if not st.mon["had"]: s.alarm(i, "session", "%s runs the handshake on a session that is not the one of a connection" % i.fn.name)
        def fork(cls, v, err):
            t = st.copy(); t.mon = dict(st.mon); t.mon["cls"] = ("shake", "ssl", cls); t.mon["ev"] = (); t.mon["var"] = (v, err); t.mon["sslerr"] = err
            r.append((t, V(Lin(v))))
        fork("done", 1, (0, 0)); fork("would", -1, (2, 3)); fork("fail", 0, (5, 6)); fork("fail", -1, (1, 1)); fork("fail", -1, (4, 8))
        return r
    def status_of(s, st, h):
        """status of the connection with that session"""
        o, z = s.offs["status"]; q, _ = s.offs["ssl_handle"]; r = set()
        for C in st.mon.get("C", ()):
            c = st.mem.get(C, {})
            if C in st.mon.get("closed", ()) and (C, "had") in st.mon.get("had", ()): r.add(CLOSED)
            elif q in c and h is not None and st.norm(c[q][0].l) == st.norm(st.mem.get(s.cell(), {}).get(16, (V0,))[0].l):
                l = st.norm(c[o][0].l) if o in c else None
                r.add(l.c if l is not None and l.const() else "?")
        return r.pop() if len(r) == 1 else "?"
    def sslerr(s, st, i, args, cx):
        e = s.eng; err = st.mon.get("sslerr")
        if err is None: return None
        if isinstance(err, int): err = (err, err)
        if err[0] == err[1]: return [(st, V(Lin(err[0])))]
        y = e.sym(("sslerr", cx, err), "ext", err[0], err[1], "SSL_get_error@%d" % i.line); e.forget(st, y)
        return [(st, V(e.lin(y)))]
    # ---- parsing
    def parse(s, st, i, fns, args, cx):
        e = s.eng
        if st.mon.get("failed"): s.alarm(i, "parse", "%s hands more data to the parser after it failed" % i.fn.name)
        b = s.base(args[0]); C = s.owner(st, b)
        if C in st.mon.get("closed", ()): s.alarm(i, "parse", "%s parses data of a connection that was closed" % i.fn.name)
        s.havoc(st, i, cx)
        n = next((n for n in range(len(args) - 1) if fns[0].params[n][1].k == "ptr" and fns[0].params[n + 1][1].k == "i"), None)
        st.mon["ev"] = (); st.mon.pop("cls", None); r = []
        def fork(cls, v, closed):
            t = st.copy(); t.mon = dict(st.mon); t.mon["cls"] = ("parse", "", cls); t.mon["ev"] = ()
            if v is None:
                y = e.sym(("parsed", cx), "ext", 0, (1 << 31) - 1, "processed@%d" % i.line); e.forget(t, y); v = V(e.lin(y))
                try: e.assume_ge(t, st.norm(args[n + 1].l).add(v.l, -1))
                except Infeasible: return
            if closed: s.close(t, C)
            elif cls == "error": t.mon["failed"] = True
            r.append((t, v))
        fork("parsed", None, False); fork("error", V(Lin(-1)), False)
        if C is not None and s.isconn(st, C) and s.canclose: fork("parsed", None, True); fork("error", V(Lin(-1)), True)
        s.fine(i, "parse")
        return r
    canclose = True
    # ---- ends
    def on_return(s, st, i, v, cx, depth):
        if depth != 1: return
        s.record(st, i, "return")
        if st.mon.get("failed"): s.alarm(i, "unclosed", "%s returns without closing the connection although its data could not be parsed" % i.fn.name)
    def inline(s, st, i, t, slot, args): return s.inl(t)
    def inl(s, t): return t not in s.pf and (t.file == s.root.file or (not roots.has_loop(t) and roots.size(t) < 80 and t not in s.mayc) or roots.commons(t) and not roots.has_loop(t))

class Queue(Conn):
    """also follows the write queue: mon D = (element, head / out / freed)"""
    start = False
    def __init__(s, root): Conn.__init__(s, root); s.ops_seen = {}
    def result(s): return (s.out, s.bad, s.good, s.ops_seen)
    LIST = re.compile(r"^(peek|pop|append)_(?:value_)?linked_list$")
    def on_load(s, st, i, p, v, cx):
        if i.ty.k == "ptr" and s.tag(i.fn, i.a[0]) == (CN, "write_queue"):
            b = s.base(v)
            if b is not None: s.put(st, "Q", b)
        if i.ty.k == "i" and s.tag(i.fn, i.a[0]) == (DT, "size"):
            l = st.norm(v.l)
            try: s.eng.assume_ge(st, l); s.eng.assume_ge(st, l.scale(-1).addc((1 << 31) - 1))
            except Infeasible: pass
        return Conn.on_load(s, st, i, p, v, cx)
    def listop(s, st, i, name, args):
        """operation on the write queue of a connection"""
        if not name or not args or s.base(args[0]) not in st.mon.get("Q", ()): return None
        m = s.LIST.match(name)
        return m.group(1) if m else name
    def element(s, st, i, cx):
        e = s.eng; y = e.sym(("element",), "ext", 4096, INF, "element", ("ptr", None)); e.forget(st, y)
        e.havoc_range(st, i.fn, V(e.lin(y)), None, cx, i); st.mem[y] = {}
        st.mon["dead"] = st.mon.get("dead", frozenset()) - {y}; st.mon.pop("cb", None)
        return y
    def lost(s, st, i):
        D = st.mon.get("D")
        if D and D[1] == "out": s.alarm(i, "lost", "%s takes an element from the write queue without releasing it" % i.fn.name)
    def special(s, st, i, fns, exts, so, name, args, cx):
        e = s.eng; op = s.listop(st, i, name, args)
        if op in ("peek", "pop"):
            out = []; D = st.mon.get("D"); s.ops_seen[(op, i.where)] = i.fn.name
            s.lost(st, i)
            def give(t, v, nd):
                e.store(t, i.fn, i, args[1], v, PTR, cx)
                if nd is None: t.mon.pop("D", None)
                else: t.mon["D"] = nd
                out.append((t, V0))
            if D and D[1] == "head":
                if op == "pop": s.event(st, "pop")
                give(st, V(e.lin(D[0])), (D[0], "head" if op == "peek" else "out"))
                return out
            t = st.copy(); t.mon = dict(st.mon); s.event(t, "drained"); give(t, V0, None)
            y = s.element(st, i, cx); st.mon["n"] = None
            if op == "pop": s.event(st, "pop")
            give(st, V(e.lin(y)), (y, "head" if op == "peek" else "out"))
            return out
        if op:
            s.event(st, op + " queue"); s.ops_seen[(op, i.where)] = i.fn.name
            if op == "append": s.append(st, i, args); return [(st, V0)]
        if so == (DT, "callback"):
            D = st.mon.get("D")
            s.event(st, "data_t.callback"); st.mon["cb"] = True
            if D and D[1] != "out": s.alarm(i, "early", "%s runs the completion callback of an element that is still in the queue or was released" % i.fn.name)
            cp = D and st.mem.get(D[0], {}).get(s.doff["callback_parameters"][0])
            if D and len(args) == 3 and not (cp and st.norm(cp[0].l) == st.norm(args[2].l)): s.alarm(i, "params", "%s runs the completion callback with other parameters than the ones of the element" % i.fn.name)
            s.fine(i, "callback")
            ev = st.mon["ev"]; r = s.outcomes(st, i, so, name, args, cx)
            for t, _ in r: t.mon["ev"] = ev + tuple(x for x in t.mon["ev"][-1:] if x == "closed by it")
            return r
        return None
    FIELDS = ("data", "data_base", "size", "size_base", "release", "callback")
    def append(s, st, i, args):
        """an element enters the queue: everything the sender reads of it was set, the cursor at the start of the contents"""
        b = s.base(args[1]); c = st.mem.get(b, {}) if b is not None else {}
        def of(f): x = c.get(s.doff[f][0]); return None if x is None else st.norm(x[0].l)
        for f in s.FIELDS:
            v = of(f)
            if v is None or any(y.kind == "undef" for y, _ in v.t): s.alarm(i, "unset-" + f, "%s queues an element whose %s was not set" % (i.fn.name, f))
            else: s.fine(i, "element field %s set" % f)
        for f, g in (("data", "data_base"), ("size", "size_base")):
            if of(f) is not None and of(g) is not None and of(f) != of(g): s.alarm(i, "start-" + f, "%s queues an element whose %s is not its %s" % (i.fn.name, f, g))
    def on_free(s, st, i, p, cx):
        D = st.mon.get("D"); b = s.base(p)
        if D is None or b is None: return
        if b is D[0]:
            if D[1] != "out": s.alarm(i, "free", "%s releases an element that %s" % (i.fn.name, "is still in the queue" if D[1] == "head" else "was released before"))
            s.event(st, "free"); s.fine(i, "element released")
            rl = st.mem.get(b, {}).get(s.doff["release"][0])
            if "free base" not in st.mon.get("ev", ()) and not (rl and st.norm(rl[0].l) == Lin(0)): s.alarm(i, "leak", "%s releases an element without the contents it owns" % i.fn.name)
            cb = st.mem.get(b, {}).get(s.doff["callback"][0])
            if st.mon.get("cls", ("",))[0] == "out" and not st.mon.get("cb") and not (cb and st.norm(cb[0].l) == Lin(0)): s.alarm(i, "uncalled", "%s releases an element that was sent without its completion callback" % i.fn.name)
            st.mon["D"] = (D[0], "freed"); s.put(st, "dead", b)
        else:
            a = s.eng.st.defs[i.fn].get(i.a[0].v) if i.a[0].k == "loc" else None
            t = s.tag(i.fn, a.a[0]) if a is not None and a.op == "load" else None
            if t and t[0] == DT:
                if t[1] != "data_base": s.alarm(i, "base", "%s releases %s of an element, which moves with partial sends" % (i.fn.name, t[1]))
                s.event(st, "free base")
                c = st.mem.get(D[0], {}).get(s.doff["release"][0])
                if c is None or st.lo(st.norm(c[0].l)) <= 0 <= st.hi(st.norm(c[0].l)) and not st.ne0(st.norm(c[0].l)): s.alarm(i, "release", "%s releases the contents of an element whether or not it owns them" % i.fn.name)
                s.fine(i, "contents released")
    def on_store(s, st, i, p, v, cx):
        Conn.on_store(s, st, i, p, v, cx)
        D = st.mon.get("D"); t = s.tag(i.fn, i.a[1])
        if D is None or s.base(p) is not D[0] or t is None: return
        e = s.eng; io = st.mem.get(s.cell()); cls = st.mon.get("cls")
        if t[1] in ("data", "size") and cls and cls[0] == "out" and io:
            old = e.load(st, i.fn, i, p, i.a[0].ty); d = st.norm(v.l).add(st.norm(old.l), -1)
            want = st.norm(io[0][0].l).scale(1 if t[1] == "data" else -1)
            ok = st.eq0(d.add(want, -1)) if d != want else True
            s.event(st, "advance " + t[1] if ok else "set " + t[1])
        else: s.event(st, "set " + t[1])
    def on_entry(s, st, f, args):
        Conn.on_entry(s, st, f, args); s.doff = offsets(s.prog, DT)
        if s.start: st.mon["cls"] = ("start", "", "")
    def on_return(s, st, i, v, cx, depth):
        if depth == 1: s.lost(st, i)
        Conn.on_return(s, st, i, v, cx, depth)

def creators(prog):
    """functions that make a connection for a socket they are given -> number of the parameter"""
    st = static(prog); r = {}
    for f in prog.fns.values():
        if roots.is_test(f): continue
        ps = {n: k for k, (n, t) in enumerate(f.params)}
        for i in f.instrs():
            if i.op == "store" and i.a[0].k == "loc" and st.addr(f, i.a[1])[:3] == ("tag", CN, "socket_handle") and i.a[0].v in ps: r[f] = ps[i.a[0].v]
    return r
NONBLOCK, F_SETFL, FIONBIO, WAITALL = 2048, 4, 0x5421, 0x100
class Mode(Queue):
    """also follows the mode of sockets: nb = handles switched to non-blocking mode, blk = handles of connections that were not"""
    def __init__(s, root): Queue.__init__(s, root); s.cr = creators(s.prog)
    def join(s, a, b, n, jv):
        r = Queue.join(s, a, b, n, jv)
        r["blk"] = a.mon.get("blk", frozenset()) | b.mon.get("blk", frozenset())
        return r
    def key(s, st): return (Queue.key(s, st), frozenset(x for x in st.mon.get("nb", ()) if isinstance(x, tuple)))
    def bit(s, st, f, v, b, depth=0):
        l = st.norm(s.eng.val(st, f, v).l)
        if l.const(): return bool(l.c & b)
        d = s.eng.st.defs[f].get(v.v) if v.k == "loc" and depth < 8 else None
        if d is None: return False
        if d.op in ("or", "add"): return any(s.bit(st, f, x, b, depth + 1) for x in d.a)
        if d.op in ("phi", "select"): return all(s.bit(st, f, x, b, depth + 1) for x in (d.a if d.op == "phi" else d.a[1:]))
        if d.op in ("zext", "sext", "trunc"): return s.bit(st, f, d.a[0], b, depth + 1)
        return False
    def special(s, st, i, fns, exts, so, name, args, cx):
        e = s.eng
        if name == "fcntl" and len(args) >= 3:
            c = st.norm(args[1].l)
            if c.const() and c.c == F_SETFL:
                s.mode(st, i, st.norm(args[0].l), s.bit(st, i.fn, i.a[2], NONBLOCK), s.source(i.fn, i.a[0])); return [(st, V0)]
        if name == "ioctl" and len(args) >= 3:
            c = st.norm(args[1].l)
            if c.const() and c.c == FIONBIO:
                b, o = e.split(args[2].l); x = st.mem.get(b, {}).get(o.c if o.const() else o) if b is not None else None
                s.mode(st, i, st.norm(args[0].l), bool(x) and st.ne0(st.norm(x[0].l)), s.source(i.fn, i.a[0])); return [(st, V0)]
        for g in fns or ():
            if g in s.cr and s.cr[g] < len(args):
                h = st.norm(args[s.cr[g]].l); s.fine(i, "socket of a new connection")
                nb = st.mon.get("nb", ())
                if h not in nb and s.source(i.fn, i.a[s.cr[g]]) not in nb: s.put(st, "blk", h)
        return Queue.special(s, st, i, fns, exts, so, name, args, cx)
    def source(s, f, v, depth=0):
        """field a handle was read from"""
        d = s.eng.st.defs[f].get(v.v) if v.k == "loc" and depth < 6 else None
        if d is None: return "?"
        if d.op in ("zext", "sext", "trunc", "freeze"): return s.source(f, d.a[0], depth + 1)
        return ("field", s.tag(f, d.a[0])) if d.op == "load" and s.tag(f, d.a[0]) else "?"
    def on_store(s, st, i, p, v, cx):
        t = ("field", s.tag(i.fn, i.a[1]))
        if t in st.mon.get("nb", ()): st.mon["nb"] = st.mon["nb"] - {t}
        Queue.on_store(s, st, i, p, v, cx)
    def mode(s, st, i, h, on, src="?"):
        if on:
            if src != "?": s.put(st, "nb", src)
            s.put(st, "nb", h); st.mon["blk"] = st.mon.get("blk", frozenset()) - {h}; s.fine(i, "non-blocking mode")
        else:
            st.mon["nb"] = st.mon.get("nb", frozenset()) - {h}; s.alarm(i, "mode", "%s switches a socket to a mode that may block" % i.fn.name)
    def check(s, st, i, where):
        if st.mon.get("blk"): s.alarm(i, "blocking", "%s hands a connection over to the event loop whose socket was not switched to non-blocking mode" % i.fn.name)
    def opened(s, st, i, C, cx):
        s.check(st, i, "open"); return Queue.opened(s, st, i, C, cx)
    def transfer(s, st, i, name, args, cx):
        if name in ("recv", "send") and s.bit(st, i.fn, i.a[3], WAITALL): s.alarm(i, "waits", "%s waits in %s until all data is there" % (i.fn.name, name))
        return Queue.transfer(s, st, i, name, args, cx)
    def on_return(s, st, i, v, cx, depth):
        if depth == 1: s.check(st, i, "return")
        Queue.on_return(s, st, i, v, cx, depth)
    def inl(s, t): return t not in s.cr and Conn.inl(s, t)

class Closer(Conn):
    """the function that closes a connection, run from each status"""
    def __init__(s, root, status, secure): Conn.__init__(s, root); s.status = status; s.secure = secure; s.ends = set()
    def result(s): return (s.ends, s.bad, s.good)
    def key(s, st): return (st.mon.get("ev"), st.mon.get("ssl"))
    def on_entry(s, st, f, args):
        Conn.on_entry(s, st, f, args); s.C = s.base(args[0]); e = s.eng
        q, z = s.offs["ssl_handle"]; h = V0
        if s.secure: y = e.sym(("session",), "ext", 4096, INF, "session", ("ptr", None)); h = V(e.lin(y))
        st.mem[s.C] = {**st.mem.get(s.C, {}), q: (h, z)}; s.session = h.l
    def on_init(s, st, f, ins, y, base, off, tag, ty):
        if tag and len(tag) == 2 and tag[0] == CN and (tag[1] == "on_close" or tag[1] in s.ops) and y.lo < 1: y.lo = 4096
        return None
    def on_callptr(s, st, i, v, cx): pass
    def field(s, st, f):
        o, z = s.offs[f]; c = st.mem.get(s.C, {}).get(o)
        return None if c is None else st.norm(c[0].l)
    def on_store(s, st, i, p, v, cx):
        t = s.tag(i.fn, i.a[1])
        if s.base(p) is s.C and t and t[0] == CN: s.fine(i, "store"); st.mon["wrote"] = True
    def on_access(s, st, i, p, size, write, cx): pass
    def join(s, a, b, n, jv):
        r = Conn.join(s, a, b, n, jv); r["wrote"] = a.mon.get("wrote") or b.mon.get("wrote"); return r
    def on_call(s, st, i, fns, exts, slot, args, cx):
        e = s.eng; so = slot or (); name = fns[0].name if fns and len(fns) == 1 else exts[0] if len(exts) == 1 and not fns else None
        if st.norm(e.val(st, i.fn, i.x).l) == Lin(0): return "stop"
        def ev(x):
            l = s.field(st, "status")
            s.event(st, x + ("" if l is not None and l.const() and l.c == CLOSED else " while open")); s.fine(i, x)
            return [(st, None)]
        if so[:2] == (CN, "on_close"): r = ev("on_close"); s.havoc2(st, i, cx); return r
        if so[:2] == ("polling_t", "unregister_connection"):
            l = st.norm(args[2].l) if len(args) > 2 else None
            return ev("unregister") if l is None or l == Lin(1) else ev("unregister without deletion")
        if name and re.match(r"^remove_.*linked_list$", name) and len(args) > 1 and s.base(args[1]) is s.C: return ev("removed from the list")
        if name in ("close", "closesocket") and s.field(st, "socket_handle") is not None and st.norm(args[0].l) == s.field(st, "socket_handle"): return ev("socket closed")
        if name == "SSL_free":
            return ev("session released") if st.norm(args[0].l) == s.session else ev("other session released")
        if so and so[0] == CN: return ev(".".join(so[1:]))
        if fns and len(fns) == 1 and s.inl(fns[0]): return None
        return None
    def havoc2(s, st, i, cx):
        """the close notification releases what hangs from the connection, its own fields stay"""
        for b in list(st.mem):
            if b is not s.C and b.info and b.info[0] == "ptr": st.mem.pop(b, None)
    def on_return(s, st, i, v, cx, depth):
        if depth != 1: return
        nul = tuple(sorted(f for f in s.ops if f in s.offs and s.field(st, f) == Lin(0)))
        s.ends.add((st.mon.get("ev", ()), str(s.field(st, "status")), nul, bool(st.mon.get("wrote")), i.where))
    def inl(s, t): return t.file == s.root.file or not roots.has_loop(t) and roots.size(t) < 80

class Secure(Queue):
    """also follows which session or socket data goes through, the data read but not handed over yet, and connections accepted"""
    def key(s, st): return (Queue.key(s, st), st.mon.get("pend"), st.mon.get("sctx"))
    def join(s, a, b, n, jv):
        r = Queue.join(s, a, b, n, jv)
        for k in ("pend", "sctx", "new"):
            if a.mon.get(k) == b.mon.get(k) and k in a.mon: r[k] = a.mon[k]
        return r
    def on_init(s, st, f, ins, y, base, off, tag, ty):
        if tag == (IO, "on_data") and y.lo < 1: y.lo = 4096
        return Queue.on_init(s, st, f, ins, y, base, off, tag, ty)
    first = None
    def on_entry(s, st, f, args):
        if f in slot_targets(s.prog, (CN, "on_handshake")): s.status = HANDSHAKE
        Queue.on_entry(s, st, f, args)
        s.first = next(iter(st.mon.get("C", ())), None)
    def field(s, st, C, f):
        if f not in s.offs: return None
        c = st.mem.get(C, {}).get(s.offs[f][0])
        return None if c is None else st.norm(c[0].l)
    def transfer(s, st, i, name, args, cx):
        ssl = name.startswith("SSL"); h = st.norm(args[0].l); Cs = st.mon.get("C", ())
        own = [C for C in Cs if s.field(st, C, "ssl_handle" if ssl else "socket_handle") == h]
        if ssl and not own: s.alarm(i, "session", "%s uses a session that is not the one of a connection" % i.fn.name)
        for C in own:
            x = s.field(st, C, "ssl_handle")
            if not ssl and not (x is not None and st.eq0(x)): s.alarm(i, "clear", "%s exchanges data through the socket of a connection that may be encrypted" % i.fn.name)
            if ssl and x is not None and st.lo(x) <= 0: s.alarm(i, "empty", "%s uses the session of a connection that may have none" % i.fn.name)
            s.fine(i, "data goes through the session of the connection")
        old = st.mem.get(s.cell(), {}).get(24)
        if name in INPUT and own:
            b, o = s.eng.split(args[1].l); p = st.norm(old[0].l) if old and st.mon.get("pend") else Lin(0)
            d = st.norm(o.add(p, -1)) if b is not None and (old or not st.mon.get("pend")) else None
            if d is not None and d.const() and d.c != 0 and b.info and b.info[0] == "alloca": s.alarm(i, "over", "%s reads over data it has not handed over yet" % i.fn.name)
        r = Queue.transfer(s, st, i, name, args, cx)
        for t, v in r:
            if t.mon["cls"][0] != "in" or not own: continue
            if t.mon["cls"][2] == "data":
                n = st.norm(v.l) if not old or not st.mon.get("pend") else st.norm(old[0].l).add(v.l)
                t.mem[s.cell()] = {**t.mem[s.cell()], 24: (V(n), 8)}; t.mon["pend"] = True
            elif old: t.mem[s.cell()] = {**t.mem[s.cell()], 24: old}
        return r
    def outcomes(s, st, i, so, name, args, cx):
        if so == (IO, "on_data") and st.mon.get("pend"):
            old = st.mem.get(s.cell(), {}).get(24)
            if len(args) > 2 and old:
                d = st.norm(args[2].l).add(st.norm(old[0].l), -1)
                if st.ne0(d): s.alarm(i, "short", "%s hands over another amount of data than was read" % i.fn.name)
                s.fine(i, "data handed over")
            st.mon["pend"] = False
        return Queue.outcomes(s, st, i, so, name, args, cx)
    def accept(s, st, i, name, args, cx):
        for k in ("pend", "sctx"): st.mon.pop(k, None)
        return Queue.accept(s, st, i, name, args, cx)
    def record(s, st, i, end):
        if st.mon.get("cls", ("",))[:1] == ("accept",) and s.first is not None:
            x = s.field(st, s.first, "ssl_context")
            st.mon["ev"] = st.mon.get("ev", ()) + ("plain" if x is not None and st.eq0(x) else "encrypted" if x is not None and st.ne0(x) else "either",)
        Queue.record(s, st, i, end)
    def on_return(s, st, i, v, cx, depth):
        if depth == 1 and st.mon.get("pend") and not st.mon.get("closed"): s.alarm(i, "lost-data", "%s returns without handing over data it has read" % i.fn.name)
        Queue.on_return(s, st, i, v, cx, depth)

class Dispatch(Monitor):
    """the functions of a polling system that call the handlers of ready connections, run with every connection in one status"""
    ON = ("on_read", "on_write", "on_error", "on_handshake")
    def __init__(s, root, status): s.root = root; s.status = status; s.out = {}; s.bad = {}; s.good = {}
    def result(s): return (s.out, s.bad, s.good)
    def key(s, st): return (st.mon.get("el"), st.mon.get("ev"))
    def join(s, a, b, n, jv): return {k: a.mon[k] for k in a.mon if a.mon.get(k) == b.mon.get(k)}
    def on_entry(s, st, f, args): s.offs = offsets(s.prog, CN)
    def on_init(s, st, f, ins, y, base, off, tag, ty):
        if tag and len(tag) == 2 and tag[0] == CN and tag[1] in s.ON and y.lo < 1: y.lo = 4096
        return None
    def on_load(s, st, i, p, v, cx):
        """a connection is taken from a list"""
        if i.ty.k != "ptr": return None
        l = lst(s.prog, i)
        if l is None: return None
        s.end(st, i)
        b = s.eng.sym(("element", l), "ext", 4096, INF, "element of %s" % l[1], ("ptr", None)); s.eng.forget(st, b)
        o, z = s.offs["status"]
        st.mem[b] = {o: (V(Lin(s.status)), z)}
        st.mon["el"] = (b, l); st.mon["ev"] = ()
        return V(s.eng.lin(b))
    def end(s, st, i):
        el = st.mon.pop("el", None)
        if el: s.out.setdefault(el[1], set()).add((st.mon.get("ev", ()), i.where))
        st.mon.pop("ev", None)
    def event(s, st, x): st.mon["ev"] = (st.mon.get("ev", ()) + (x,))[-8:]
    def on_store(s, st, i, p, v, cx):
        el = st.mon.get("el"); a = s.eng.st.addr(i.fn, i.a[1])
        if i.a[0].ty.k == "ptr" and el and s.eng.split(v.l)[0] is el[0] and a[:2] != ("tag", CN): s.event(st, "kept")
        if a[0] == "tag" and a[1] == CN and len(a) == 3 and el and s.eng.split(p.l)[0] is el[0]:
            l = st.norm(v.l); s.event(st, "%s=%s" % (a[2], l.c if l.const() else "?"))
    def on_call(s, st, i, fns, exts, slot, args, cx):
        so = slot or ()
        if st.norm(s.eng.val(st, i.fn, i.x).l) == Lin(0): return "stop"
        if so and so[0] == CN and args:
            el = st.mon.get("el"); b = s.eng.split(args[0].l)[0]
            if so[1] in s.ON:
                if el is None or b is not el[0]:
                    s.bad.setdefault("other:%s:%s" % (i.fn.name, so[1]), ("%s calls %s of another connection than the one it took from the list" % (i.fn.name, so[1]), i.where)); return [(st, V0)]
                o, z = s.offs["status"]; c = st.mem.get(b, {}).get(o); now = st.norm(c[0].l).c if c and st.norm(c[0].l).const() else "?"
                s.event(st, "%s@%s" % (so[1], now)); s.good[(i.where, so[1])] = i.fn.name
                r = []
                for x in (1, 2, 3) if so[1] == "on_handshake" else (now, 2) if now != 2 else (2,):
                    t = st.copy(); t.mon = dict(st.mon); t.mem[b] = {**st.mem.get(b, {}), o: (V(Lin(x if isinstance(x, int) else 1)), z)}
                    if so[1] == "on_handshake": t.mon["ev"] = t.mon["ev"] + ("->%s" % x,)
                    r.append((t, V0))
                return r
            return [(st, V0)]
        if fns and len(fns) == 1 and any(n == CN for n in s.takes(fns[0])) and fns[0].file != s.root.file:
            s.event(st, fns[0].name); return [(st, V0)]
        if not fns and not exts: return [(st, V0)]
        return None
    def takes(s, f):
        di = f.mod.fn_di_types(f) or []
        return [Conn.points(s, f.mod, d) for d in di[1:2]]
    def on_return(s, st, i, v, cx, depth):
        if depth == 1: s.end(st, i)
    def inline(s, st, i, t, slot, args): return s.inl(t)
    def inl(s, t): return t.file == s.root.file or not roots.has_loop(t) and roots.size(t) < 80

def lst(prog, i):
    """(struct, field) of the list of connections an element is loaded from, or None"""
    c = prog.__dict__.setdefault("_lst", {})
    if i not in c:
        st = static(prog); d = st.defs[i.fn].get(i.a[0].v) if i.a[0].k == "loc" else None; r = None
        if d is not None and d.op == "gep" and d.x.k in ("ptr", "arr"): r = listof(prog, i.fn, d.a[0])
        c[i] = r
    return c[i]
def listof(prog, f, v, depth=0):
    """field holding the array a pointer points into: through loads, and parameters to the callers"""
    from .slots import field_di
    st = static(prog); a = st.addr(f, v)
    while a and a[0] == "deref": a = a[1:]
    if a[0] == "tag" and len(a) == 3:
        d = field_di(f.mod, (a[1], a[2])); n = 0
        while d and d != "null" and n < 6:
            x = f.mod.md_node(f.mod.di_strip(d))
            if not x: break
            if x[1].get("tag") == "DW_TAG_pointer_type" and n and f.mod.di_struct_name(x[1].get("baseType")) == CN: return (a[1], a[2])
            if x[1].get("tag") not in ("DW_TAG_array_type", "DW_TAG_pointer_type"): break
            d = x[1].get("baseType"); n += 1
        return None
    if a[0] == "param" and depth < 4:
        rs = {listof(prog, c, i.a[a[1]], depth + 1) for c in st.callers.get(f, ()) for i in st.calls[c] if f in st.targets(c, i) and a[1] < len(i.a)}
        return rs.pop() if len(rs) == 1 else None
    return None
def dispatchers(prog):
    """where the functions that call the handlers of ready connections start"""
    st = static(prog); r = set()
    for f in st.calls:
        if not roots.is_test(f) and any((st.slot_of(f, i) or ())[:1] == (CN,) and st.slot_of(f, i)[1] in Dispatch.ON for i in st.calls[f]): r |= tops(prog, f)
    return sorted(r, key=lambda f: (f.file, f.name))
def dispatch(ctx, p):
    """tables of all dispatchers -> {(function, list): {status: set of event tuples}}, alarms"""
    from . import run as R
    Dispatch.prog = p; tab = {}; bad = {}; ds = dispatchers(p)
    for status in (1, 2, 3):
        for f, (out, b, good), inc in R.sweep(ctx, p, ds, lambda f: Dispatch(f, status), inline=lambda r: Dispatch(r, 1).inl, depth=6):
            if inc: ctx.open("%s:cut" % f.name, "analysis of %s stopped early" % f.name)
            bad.update(b)
            for l, evs in out.items():
                for ev, w in evs: tab.setdefault((f, l), {}).setdefault(status, {}).setdefault(ev, w)
    return tab, bad

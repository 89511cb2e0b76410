"""Missing and undefined values: every function is interpreted on its own, steps that can fail being split into success and
failure and the callees that see storage of the function being analysed in place.  A missing (null) result that is dereferenced
and an undefined value that decides a branch, is dereferenced, released or handed on are findings."""
import re
from . import ai, roots
from .ai import Monitor, V, Lin
V0 = V(Lin(0))
# library steps that may yield nothing
NULLABLE = {"fopen": "a file", "fopen64": "a file", "fdopen": "a file", "tmpfile": "a file", "opendir": "a directory", "readdir": "a directory entry", "readdir64": "a directory entry", "strchr": "a character", "strrchr": "a character", "strstr": "a text", "memchr": "a byte", "strtok": "a part",
            "gethostbyname": "a host", "getenv": "an environment variable", "dlopen": "a library", "dlsym": "a symbol", "SSL_new": "a session", "SSL_CTX_new": "a session context", "pcre_compile": "a compiled expression", "dlerror": "a message", "popen": "a pipe", "fgets": "a line",
            "localtime": "a time", "gmtime": "a time", "getpwnam": "a user", "getgrnam": "a group", "lua_newuserdata": None}
USES = {"free": 0, "close": 0, "fclose": 0, "closedir": 0, "dlclose": 0, "strlen": 0, "atoi": 0, "atol": 0, "memcpy": 2, "memset": 2, "memmove": 2, "send": 2, "write": 2, "recv": 2, "read": 2, "malloc": 0, "fread": 2, "fwrite": 2, "strcmp": 0, "printf": None, "SSL_write": 2, "SSL_read": 2, "SSL_free": 0, "fgetc": 0, "fseek": 0, "ftell": 0, "readdir": 0, "strcpy": 1, "strcat": 1, "strncmp": 0, "pcre_exec": 0}
DEREF = {"strlen": (0,), "atoi": (0,), "atol": (0,), "strcmp": (0, 1), "strncmp": (0, 1), "strcpy": (0, 1), "strcat": (0, 1), "memcpy": (0, 1), "memmove": (0, 1), "llvm.memcpy": (0, 1), "llvm.memset": (0,), "fclose": (0,), "fread": (3,), "fwrite": (3,), "fgetc": (0,), "fseek": (0,), "ftell": (0,), "closedir": (0,), "readdir": (0,), "strchr": (0,), "strrchr": (0,), "strstr": (0, 1), "fputs": (0, 1), "fgets": (0, 2), "setvbuf": (0,), "pcre_exec": (0,), "SSL_set_fd": (0,), "SSL_accept": (0,), "SSL_write": (0,), "SSL_read": (0,), "dlsym": (), "SSL_CTX_use_certificate_file": (0,), "SSL_CTX_use_PrivateKey_file": (0,), "dlclose": (0,), "strtok": (), "memchr": (0,), "strdup": (0,)}

# library steps that fill a place only when they succeed: argument filled, kind of failure
FILLING = {"stat": 1, "stat64": 1, "lstat": 1, "fstat": 1, "getsockopt": 3, "getsockname": 1, "getpeername": 1, "pthread_create": 0, "getaddrinfo": 3, "gettimeofday": 0, "epoll_wait": 1, "poll": 0}
NEGATIVE = {"socket": "a socket", "open": "a file", "accept": "a connection", "epoll_create": "a poll", "epoll_create1": "a poll", "dup": "a descriptor"}
DESCRIPTOR = {"close": 0, "bind": 0, "listen": 0, "connect": 0, "send": 0, "recv": 0, "read": 0, "write": 0, "setsockopt": 0, "getsockopt": 0, "fcntl": 0, "ioctl": 0, "epoll_ctl": 0, "epoll_wait": 0, "SSL_set_fd": 1, "accept": 0, "shutdown": 0, "dup2": 0, "fstat": 0, "fdopen": 0}
LINKS = {("linked_list_t", "first"), ("linked_list_t", "last"), ("linked_list_node_t", "next"), ("linked_list_node_t", "previous")}

class Values(Monitor):
    def __init__(s, root): s.root = root; s.found = {}; s.good = {}
    def result(s): return s.found, s.good
    def key(s, st): return tuple(sorted(str(k) for k in st.mon))
    def join(s, a, b, n, jv): return {k: v for k, v in a.mon.items() if b.mon.get(k) == v}
    def inline(s, st, i, t, slot, args):
        if slot or LOOKUP.match(t.name): return False
        e = s.eng
        if i.ty.k == "ptr" and roots.size(t) < 80 and not roots.has_loop(t): return True
        if roots.size(t) > 220: return False
        for n, a in enumerate(args):
            if n < len(i.a) and i.a[n].ty.k == "ptr":
                b, o = e.split(a.l)
                if b is not None and b.info and b.info[0] in ("alloca", "heap"): return True
        return False
    # ---- what a value is
    def undef(s, st, l):
        for y, _ in l.t:
            if y.kind == "undef": return y
        for y, _ in st.norm(l).t:
            if y.kind == "undef": return y
        return None
    def null(s, st, l):
        n = st.norm(l)
        return n.const() and 0 <= n.c < 4096
    def what(s, y): return y.name.replace("uninit(", "").replace("undef:", "").rstrip(")")
    def step(s, st):
        f = [k[2] for k in st.mon if isinstance(k, tuple) and k[0] == "missing"]
        return ":" + f[0] if f else ""
    def put(s, kind, i, key, msg):
        k = (kind, "%s:%s" % (i.fn.name, key))
        if k not in s.found or " was not found" in msg and " was not found" not in s.found[k][0]: s.found[k] = (msg, i.where, s.root.name)
    def ok(s, kind, i): s.good.setdefault(kind, set()).add(i.where)
    def use(s, st, i, v, how):
        y = s.undef(st, v.l)
        s.ok("use", i)
        if y is not None: s.put("undef", i, "%s:%s" % (how.split(" ")[0], s.what(y)), "%s %s a value (%s) that was never given one%s" % (i.fn.name, how, s.what(y), s.after(st)))
        return y
    def after(s, st):
        f = [k[1] for k in st.mon if isinstance(k, tuple) and k[0] == "missing"]
        return " after %s was not found" % ", ".join(sorted(set(f))) if f else ""
    def deref(s, st, i, v, how):
        s.ok("dereference", i)
        if s.null(st, v.l):
            if s.link(i): return False
            o = s.after(st)
            s.put("null", i, "null:%s%s" % (how.split(" ")[0], s.step(st)), "%s %s through a pointer that is null%s" % (i.fn.name, how, o)); return True
    def link(s, i):
        """the place comes from the links of a list: that they agree with its size is C24's subject"""
        f = i.fn; a = i.a[0] if i.op == "load" else i.a[1] if i.op == "store" else None
        if a is None or a.k != "loc": return False
        d = s.defs(f).get(a.v); n = 0
        todo = [d]; seen = set(); hit = False
        while todo:
            d = todo.pop()
            if d is None or id(d) in seen: continue
            seen.add(id(d))
            if d.op == "gep": todo.append(s.defs(f).get(d.a[0].v) if d.a[0].k == "loc" else None)
            elif d.op == "phi":
                vs = [x[0] if isinstance(x, tuple) else x for x in d.a]
                if any(x.k == "null" for x in vs): return False
                todo += [s.defs(f).get(x.v) for x in vs if x.k == "loc"]
            elif d.op == "load":
                t = s.eng.st.addr(f, d.a[0])
                if t[0] == "tag" and t[1:3] in LINKS: hit = True
                else: return False
        return hit
    def defs(s, f):
        r = DEFS.get(f)
        if r is None: r = DEFS[f] = {i.res: i for i in f.instrs() if i.res}
        return r
    def miss(s, st, what, nm):
        for k in [k for k in st.mon if isinstance(k, tuple) and k[0] == "missing"]: del st.mon[k]
        st.mon[("missing", what, nm)] = 1
    # ---- events
    def on_store(s, st, i, p, v, cx):
        b, o = s.eng.split(p.l)
        if b is not None and b.info and b.info[0] == "alloca": return
        s.use(st, i, v, "stores")
    def on_compare(s, st, i, a, b, cx):
        s.use(st, i, a, "compares"); s.use(st, i, b, "compares")
    def on_branch(s, st, i, c, cx):
        if i.op == "switch": s.use(st, i, c, "switches on")
    def on_access(s, st, i, p, size, write, cx):
        if i.op not in ("load", "store"): return
        if s.use(st, i, p, "dereferences") is None: s.deref(st, i, p, "writes" if write else "reads")
    def on_callptr(s, st, i, v, cx):
        if s.use(st, i, v, "calls") is None: s.deref(st, i, v, "calls")
    def on_call(s, st, i, fns, exts, slot, args, cx):
        e = s.eng; nm = i.x.v if i.x.k == "g" else None
        if nm and not fns:
            base = ".".join(nm.split(".")[:2]) if nm.startswith("llvm.") else nm
            if base.startswith("llvm.") and base not in ("llvm.memcpy", "llvm.memset", "llvm.memmove"): return None
            for n, a in enumerate(args):
                if i.a[n].k != "undef": s.use(st, i, a, "hands to %s" % nm)
            if nm in DESCRIPTOR and DESCRIPTOR[nm] < len(args):
                v = st.norm(args[DESCRIPTOR[nm]].l); s.ok("descriptor", i)
                if v.const() and v.c in (-1, (1 << 32) - 1) and any(k[0] == "missing" for k in st.mon if isinstance(k, tuple)):
                    s.put("null", i, "failed:%s" % nm, "%s hands the failed result of %s to %s" % (i.fn.name, s.after(st)[7:].replace(" was not found", ""), nm))
            for n in DEREF.get(base, ()):
                if n < len(args):
                    if base.startswith("llvm.") or base in ("memcpy", "memmove"):
                        z = st.norm(args[2].l) if len(args) > 2 else None
                        if z is None or st.lo(z) <= 0: continue
                    s.deref(st, i, args[n], "lets %s read" % nm)
            if nm in FILLING and FILLING[nm] < len(args):
                t = st.copy(); s.miss(t, "a description", nm)
                e.havoc_range(st, i.fn, args[FILLING[nm]], None, cx, i)
                if nm in ("getsockopt",) and len(args) > 4: e.havoc_range(st, i.fn, args[4], None, cx, i)
                y = e.sym(("ok", cx, id(i)), "ret", 0 , 0 if nm not in ("epoll_wait", "poll") else (1 << 31) - 1, "%s@%d" % (nm, i.line)); e.forget(st, y)
                neg = 1 if nm in ("pthread_create",) else (1 << i.ty.n) - 1 if False else -1
                return [(st, V(e.lin(y)) if y.hi else V0), (t, V(Lin(neg)))]
            if nm in NEGATIVE:
                t = st.copy(); s.miss(t, NEGATIVE[nm], nm)
                for n in range(1, len(args)):
                    if i.a[n].ty.k == "ptr": e.havoc_range(st, i.fn, args[n], None, cx, i)
                y = e.sym(("ok", cx, id(i)), "ret", 0, (1 << 31) - 1, "%s@%d" % (nm, i.line)); e.forget(st, y)
                return [(st, V(e.lin(y))), (t, V(Lin(-1)))]
            if nm in NULLABLE and NULLABLE[nm]:
                t = st.copy(); s.miss(t, NULLABLE[nm], nm)
                y = e.sym(("nn", cx, id(i)), "ret", 4096, 1 << 47, "%s@%d" % (nm, i.line), ("ptr", None))
                for z in (st,): e.forget(z, y)
                if nm in ("pcre_compile",):
                    for n in range(1, len(args)):
                        if i.a[n].ty.k == "ptr":
                            for z in (st, t): e.havoc_range(z, i.fn, args[n], None, cx, i)
                if nm == "memchr":        # what is found lies in the text
                    b, o = e.split(args[0].l)
                return [(st, V(e.lin(y))), (t, V0)]
            return None
        if len(fns) == 1 and not exts and not s.will(st, i, fns[0], slot, args):
            t = fns[0]
            for n, a in enumerate(args):
                if n < len(i.a) and i.a[n].k != "undef": s.use(st, i, a, "hands to %s" % t.name)
            if LOOKUP.match(t.name) and args and i.a[-1].ty.k == "ptr":
                z = st.copy(); s.miss(z, "a key", t.name)
                y = e.sym(("value", cx, id(i)), "ret", 4096, 1 << 47, "%s@%d" % (t.name, i.line), ("ptr", None)); e.forget(st, y)
                for w, val in ((st, V(e.lin(y))), (z, V0)):
                    s.give(w, i, args[-1], val)
                return [(st, V0), (z, V0)]
            if t in s.failing():
                z = st.copy(); s.miss(z, t.name, t.name); any_ = False
                for n, a in enumerate(args):
                    if i.a[n].ty.k != "ptr": continue
                    b, o = e.split(a.l)
                    if b is None: continue
                    e.havoc_range(st, i.fn, a, None, cx, i)
                    if b.info and b.info[0] == "alloca" and not s.sets(t, n): any_ = True
                    else: e.havoc_range(z, i.fn, a, None, cx, i)
                if any_:
                    y = e.sym(("code", cx, id(i)), "ret", 1, 255, "%s@%d" % (t.name, i.line)); e.forget(z, y)
                    return [(st, V0), (z, V(e.lin(y)))]
        return None
    def after_call(s, st, i, fns, exts, slot, args, v, cx):
        if len(fns) == 1 and not exts and v is not None and fns[0] in s.failing() and st.lo(st.norm(v.l)) > 0 and not any(isinstance(k, tuple) and k[2] == fns[0].name for k in st.mon):
            s.miss(st, "what %s was asked for" % fns[0].name, fns[0].name)
    def give(s, st, i, p, v):
        from .ir import PTR
        s.eng.store(st, i.fn, i, p, v, PTR, 0)
    def failing(s):
        P = s.eng.prog
        r = getattr(P, "failing_steps", None)
        if r is None:
            from . import ignored
            r = P.failing_steps = ignored.failing(P, s.eng.st)
        return r
    def sets(s, t, n):
        P = s.eng.prog
        I = getattr(P, "initial_sets", None)
        if I is None:
            from . import initial
            I = P.initial_sets = initial.Initial(P)
        return 0 in I.summary(t, n)
    def will(s, st, i, t, slot, args):
        e = s.eng
        return s.inline(st, i, t, slot, args) and e.inline_pred(t) and e.depth() < e.maxdepth and not e.recursive(t)

DEFS = {}
LOOKUP = re.compile(r"get_value_(string_)?(hash_map|sort_map)$")
def make(f): return Values(f)
def sweep(ctx, p, ents=None):
    from .run import sweep as sw
    ents = ents or [f for f in p.fns.values() if not roots.is_test(f)]
    ents = sorted(ents, key=lambda f: -roots.size(f))
    found = {}; good = {}; n = 0
    for f, (fo, go), inc in sw(ctx, p, ents, make, inline=lambda root: (lambda t: not roots.is_test(t)), depth=5):
        n += 1
        if inc: ctx.open("%s:incomplete" % f.name, "analysis of %s: %s" % (f.name, inc))
        for k, v in fo.items():
            if k not in found or " was not found" in v[0] and " was not found" not in found[k][0]: found[k] = v
        for k, v in go.items(): good.setdefault(k, set()).update(v)
    return found, good, n

"""Calls whose reported failure nobody looks at."""
from . import slots, roots
# library steps that report a failure by their result
STEPS = {"socket", "bind", "listen", "accept", "connect", "open", "fopen", "fopen64", "opendir", "readdir", "epoll_create", "epoll_ctl", "epoll_wait", "poll", "pthread_create", "dlopen", "dlsym", "stat", "stat64", "fread", "recv", "send", "fork", "SSL_accept", "SSL_connect", "SSL_new", "SSL_CTX_new",
         "SSL_CTX_use_certificate_file", "SSL_CTX_use_PrivateKey_file", "SSL_read", "SSL_write", "pcre_exec", "pcre_compile", "gethostbyname", "strchr", "strrchr", "strstr", "memchr"}
def users(f):
    u = {}
    for i in f.instrs():
        for a in i.a:
            v = a[0] if isinstance(a, tuple) else a
            if getattr(v, "k", None) == "loc": u.setdefault(v.v, []).append(i)
    return u
def looked_at(u, i):
    """does the result reach a comparison, a switch, a return, a call or the memory"""
    todo = [i]; seen = set()
    while todo:
        x = todo.pop()
        if not x.res: continue
        for j in u.get(x.res, ()):
            if id(j) in seen: continue
            seen.add(id(j))
            if j.op in ("icmp", "switch", "ret", "store", "call", "br", "load", "gep", "fcmp"): return True
            todo.append(j)
    return False
def returned(f):
    d = {i.res: i for i in f.instrs() if i.res}; out = set(); seen = set()
    def go(v):
        if v.k != "loc": out.add((v.k, v.v)); return
        if v.v in seen: return
        seen.add(v.v); i = d.get(v.v)
        if i is None: return
        if i.op == "phi":
            for a in i.a: go(a[0] if isinstance(a, tuple) else a)
        elif i.op == "select": go(i.a[1]); go(i.a[2])
        elif i.op == "call": out.add(("call", i))
    for i in f.instrs():
        if i.op == "ret" and i.a: go(i.a[0])
    return out
def failing(p, sl):
    """functions that report a failure: they record an error and return a code other than zero, or hand on such a result"""
    R = {f: returned(f) for f in p.fns.values() if f.ret is not None and f.ret.k == "i" and f.ret.n == 32}
    rec = {f for f in R if any(i.op == "call" and i.x.k == "g" and str(i.x.v).startswith("set_last_error") for i in f.instrs())}
    out = {f for f in rec if any(k == "int" and v != 0 for k, v in R[f])}; ch = True
    while ch:
        ch = False
        for f, r in R.items():
            if f not in out and any(k == "call" and any(t in out for t in sl.targets(f, v)) for k, v in r): out.add(f); ch = True
    return out
def calls(p):
    """(function, call, name of the step, looked at)"""
    sl = slots.static(p); fl = failing(p, sl)
    for f in p.fns.values():
        if roots.is_test(f): continue
        u = users(f)
        for i in f.instrs():
            if i.op != "call": continue
            ts = sl.targets(f, i)
            if any(t in fl for t in ts if not isinstance(t, str)):
                so = sl.slot_of(f, i)
                yield f, i, (ts[0].name if len(ts) == 1 and not so else ".".join(so or ("?",))), looked_at(u, i)
            elif i.x.k == "g" and i.x.v in STEPS: yield f, i, i.x.v, looked_at(u, i)

"""Models of library functions."""
from .ai import *

TABLE = {}
def model(*names):
    def d(fn):
        for n in names: TABLE[n] = fn
        return fn
    return d

def alloc(e, st, f, i, size, cx, zero=False, maybe_null=False):
    di = None
    # the type the result is used as: from the debug type of the variable it is assigned to
    r = i.res
    d = f.dbgvars.get(r)
    m = f.mod
    if d:
        x = m.md_node(d); c = m.di_class(x[1].get("type")) if x else None
        if c and c[0] == "ptr": di = (m, c[1])
    y = e.sym(("heap", cx), "region", 4096, INF, "heap@%s" % i.line, ("heap", di, size, i))
    e.forget(st, y)
    st.mem[y] = {}
    if y in st.basever: st.basever = {k: v for k, v in st.basever.items() if k is not y}
    st.dflt = {k: v for k, v in st.dflt.items() if k is not y}
    if zero: st.dflt[y] = 0
    st.cver = {k: v for k, v in st.cver.items() if k is not y}
    e.mon.on_alloc(st, i, y, size, cx)
    return V(e.lin(y), Ext(ZERO, size, ("heap", i.fn.name), None, m))

@model("malloc")
def m_malloc(e, st, f, i, a, cx): return alloc(e, st, f, i, st.norm(a[0].l), cx)
@model("calloc")
def m_calloc(e, st, f, i, a, cx):
    x, y = st.norm(a[0].l), st.norm(a[1].l)
    sz = y.scale(x.c) if x.const() else x.scale(y.c) if y.const() else None
    return alloc(e, st, f, i, sz, cx, zero=True)
@model("strdup")
def m_strdup(e, st, f, i, a, cx):
    v = alloc(e, st, f, i, strlen_of(e, st, f, a[0]).addc(1), cx)
    b, _ = e.split(v.l); st.mem[b] = {"?": (V0, 0)}
    return v
@model("realloc")
def m_realloc(e, st, f, i, a, cx):
    e.mon.on_realloc(st, i, a[0], cx) if hasattr(e.mon, "on_realloc") else None
    v = alloc(e, st, f, i, st.norm(a[1].l), cx)
    b, _ = e.split(v.l)
    ob, oo = e.split(a[0].l)
    cells = {"?": (V0, 0)}
    if ob is not None:
        for k, c in st.mem.get(ob, {}).items():
            cells[k] = c
    st.mem[b] = cells
    return v
@model("free")
def m_free(e, st, f, i, a, cx):
    e.mon.on_free(st, i, a[0], cx)
    return V0

def strlen_of(e, st, f, p):
    """symbolic length of the string at p, bounded by the object it lies in (strings are terminated inside their object)"""
    b, off = e.split(p.l)
    if b is None:
        return e.lin(e.sym(("strlen", p.l), "ext", 0, (1 << 62), "strlen(%s)" % p.l, None, None, e.taint(p)))
    if b.info and b.info[0] == "global":
        g = b.info[1]
        if g["init"] is not None and off.const() and e.st.constant(g):
            v = g["init"]
            if v.k == "str":
                z = v.v.find(b"\0", off.c)
                if z >= 0: return Lin(z - off.c)
            if v.k == "zero": return ZERO
    if b.info and b.info[0] == "ptr" and len(b.info) > 2 and b.info[2][0] == "strtab" and off.const() and off.c == 0:
        return e.term(("strlen", b), b.info[2][1], b.info[2][2], "strlen(%s)" % b.name)
    if b.key and b.key[0] == "ipv4text" and off.const() and off.c == 0: return e.term(("strlen", b), 7, 15, "strlen(%s)" % b.name)
    ver = st.cver.get(b); ver2 = st.basever.get(b)
    tg = e.tag_of(p, b, st.norm(off)) if p.ext is not None else None
    tv = st.tagver.get(tg) if tg else None
    if p.ext is not None and tg is not None and tv is None and b.info and b.info[0] == "ptr": ver = ver if ver is not None else None
    y = e.sym(("strlen", b, off, ver, ver2, tv), "ext", 0, (1 << 62), "strlen(%s%s)" % (b.name, ("." + tg[1]) if tg else ("+%s" % off if not (off.const() and off.c == 0) else "")), None, None, b.taint | e.mon.taint_init(st, f, b, off, tg, ver2, tv))
    l = e.lin(y)
    c = st.mem.get(b, {}).get(st.norm(off).c) if st.norm(off).const() else st.mem.get(b, {}).get(st.norm(off))
    if c is not None and c[1] == 1:
        # the first byte was looked at on this path
        try:
            if st.ne0(c[0].l): e.assume_ge(st, l.addc(-1))
            elif st.eq0(c[0].l): return ZERO
        except Infeasible: pass
    if p.ext is not None and p.ext.size is not None:
        # off - lo + len <= size - 1
        try: e.assume_ge(st, p.ext.size.addc(-1).add(off, -1).add(p.ext.lo).add(l, -1))
        except Infeasible: pass
    elif b.info and b.info[0] in ("heap", "alloca") and b.info[2] is not None:
        try: e.assume_ge(st, b.info[2].addc(-1).add(off, -1).add(l, -1))
        except Infeasible: pass
    return l
@model("strlen")
def m_strlen(e, st, f, i, a, cx):
    e.mon.on_access(st, i, a[0], 1, False, cx)
    return V(strlen_of(e, st, f, a[0]))

def copy(e, st, f, i, dst, src, n, cx, what):
    e.mon.on_copy(st, i, dst, src, n, cx, what)
    keep = None
    db, do = e.split(dst.l); 
    if src is not None and n is not None and st.norm(n).const():
        sb, so = e.split(src.l)
        if sb is not None and db is not None:
            so = st.norm(so); do = st.norm(do); k = st.norm(n).c
            if so.const() and do.const() and k <= 4096:
                keep = {}
                for o, c in st.mem.get(sb, {}).items():
                    if isinstance(o, int) and so.c <= o and o + c[1] <= so.c + k: keep[o - so.c + do.c] = c
                if sb.info and sb.info[0] == "global" and sb.info[1]["const"] and k <= 64:
                    g = sb.info[1]
                    for o in range(k):
                        r = e.const_load(g, Lin(so.c + o), I(8), 1, st) if g["init"] is not None and g["init"].k == "str" else None
                        if r is not None: keep[do.c + o] = (V(r), 1)
    e.havoc_range(st, f, dst, n, cx, i)
    if keep:
        cells = dict(st.mem.get(db, ())); cells.update(keep); st.mem[db] = cells
@model("memcpy", "llvm.memcpy", "memmove", "llvm.memmove")
def m_memcpy(e, st, f, i, a, cx):
    copy(e, st, f, i, a[0], a[1], st.norm(a[2].l), cx, "memcpy")
    return a[0]
@model("memset", "llvm.memset")
def m_memset(e, st, f, i, a, cx):
    n = st.norm(a[2].l)
    e.mon.on_copy(st, i, a[0], None, n, cx, "memset")
    b, off = e.split(a[0].l)
    e.havoc_range(st, f, a[0], n, cx, i)
    if b is not None and b.info and b.info[0] in ("heap", "alloca") and off.const() and off.c == 0 and a[1].l.const() and a[1].l.c == 0 and b.info[2] is not None and st.eq0(b.info[2].add(n, -1)):
        st.mem[b] = {}
        st.dflt = dict(st.dflt); st.dflt[b] = 0
        st.basever = {k: v for k, v in st.basever.items() if k is not b}
    return a[0]
@model("strcpy")
def m_strcpy(e, st, f, i, a, cx):
    copy(e, st, f, i, a[0], a[1], strlen_of(e, st, f, a[1]).addc(1), cx, "strcpy"); return a[0]
@model("strncpy")
def m_strncpy(e, st, f, i, a, cx):
    copy(e, st, f, i, a[0], a[1], st.norm(a[2].l), cx, "strncpy"); return a[0]
@model("strcat")
def m_strcat(e, st, f, i, a, cx):
    d = strlen_of(e, st, f, a[0]); n = strlen_of(e, st, f, a[1])
    copy(e, st, f, i, V(a[0].l.add(d), a[0].ext), a[1], n.addc(1), cx, "strcat"); return a[0]

INTW = {"d": 12, "i": 12, "u": 11, "c": 1, "x": 9, "X": 9, "ld": 21, "lu": 21, "lld": 21, "llu": 21, "zu": 21, "hd": 7, "hu": 6, "p": 19}
def const_string(e, st, p):
    b, off = e.split(p.l)
    if b is not None and b.info and b.info[0] == "global":
        g = b.info[1]
        if g["init"] is not None and g["init"].k == "str" and off.const():
            z = g["init"].v.find(b"\0", off.c)
            return g["init"].v[off.c:z].decode("latin1")
        if g["init"] is not None and g["init"].k == "zero": return ""
    return None
FMT = re.compile(r"%([-+ #0]*)(\d+|\*)?(?:\.(\d+|\*))?(hh|h|ll|l|z|j|t)?([diuoxXcspfgeG%])")
def fmt_len(e, st, f, i, fmt, args):
    """(value of the formatted length as Lin, or None) and literal pieces"""
    lo = Lin(0); hi = Lin(0); n = 0; pos = 0; exact = True
    for m in FMT.finditer(fmt):
        k = m.start() - pos; lo = lo.addc(k); hi = hi.addc(k) if hi is not None else None; pos = m.end()
        c = m.group(5)
        if c == "%": lo = lo.addc(1); hi = hi.addc(1) if hi is not None else None; continue
        if m.group(2) == "*" or m.group(3) == "*": n += 1
        if n >= len(args): hi = None; break
        a = args[n]; n += 1
        if c == "s":
            L = strlen_of(e, st, f, a)
            if m.group(3) and m.group(3) != "*":
                hi = hi.addc(int(m.group(3))) if hi is not None else None; exact = False
            else:
                lo = lo.add(L); hi = hi.add(L) if hi is not None else None
        else:
            w = INTW.get((m.group(4) or "") + c, 25)
            if m.group(2) and m.group(2) != "*": w = max(w, int(m.group(2)))
            exact = False
            hi = hi.addc(w) if hi is not None else None
            lo = lo.addc(1)
    k = len(fmt) - pos; lo = lo.addc(k); hi = hi.addc(k) if hi is not None else None
    return lo, hi
def formatted(e, st, f, i, fmtv, rest, cx):
    s = const_string(e, st, fmtv)
    y = e.sym(("fmt", cx), "ext", 0, (1 << 31) - 1, "formatted@%d" % i.line, None, None, frozenset().union(*[e.taint(x) for x in rest]) if rest else frozenset())
    e.forget(st, y)
    l = e.lin(y)
    if s is not None:
        lo, hi = fmt_len(e, st, f, i, s, rest)
        try:
            e.assume_ge(st, l.add(lo, -1))
            if hi is not None: e.assume_ge(st, hi.add(l, -1))
        except Infeasible: pass
    return l
@model("sprintf")
def m_sprintf(e, st, f, i, a, cx):
    l = formatted(e, st, f, i, a[1], a[2:], cx)
    copy(e, st, f, i, a[0], None, l.addc(1), cx, "sprintf")
    return V(l)
@model("snprintf")
def m_snprintf(e, st, f, i, a, cx):
    l = formatted(e, st, f, i, a[2], a[3:], cx)
    copy(e, st, f, i, a[0], None, st.norm(a[1].l), cx, "snprintf")
    return V(l)
@model("vsnprintf")
def m_vsnprintf(e, st, f, i, a, cx):
    l = None
    for (g, _), args in zip(reversed(e.stack), reversed(e.argstack)):
        if len(args) > len(g.params):       # the variadic function the arguments were given to
            l = formatted(e, st, f, i, a[2], args[len(g.params):], cx); break
    if l is None:
        y = e.sym(("fmt", cx), "ext", 0, (1 << 31) - 1, "formatted@%d" % i.line); e.forget(st, y); l = e.lin(y)
    copy(e, st, f, i, a[0], None, st.norm(a[1].l), cx, "vsnprintf")
    return V(l)
@model("vsprintf")
def m_vsprintf(e, st, f, i, a, cx):
    y = e.sym(("fmt", cx), "ext", 0, (1 << 31) - 1, "formatted@%d" % i.line); e.forget(st, y)
    copy(e, st, f, i, a[0], None, e.lin(y).addc(1), cx, "vsprintf")
    return V(e.lin(y))
@model("fread")
def m_fread(e, st, f, i, a, cx):
    x, y = st.norm(a[1].l), st.norm(a[2].l)
    n = y.scale(x.c) if x.const() else x.scale(y.c) if y.const() else e.term(("mul", x, y), 0, INF)
    copy(e, st, f, i, a[0], None, n, cx, "fread")
    r = e.sym(("fread", cx), "ext", 0, INF, "fread@%d" % i.line); e.forget(st, r)
    l = e.lin(r)
    try: e.assume_ge(st, y.add(l, -1))
    except Infeasible: pass
    return V(l)
@model("recv", "read", "SSL_read")
def m_recv(e, st, f, i, a, cx):
    n = st.norm(a[2].l)
    copy(e, st, f, i, a[1], None, n, cx, i.x.v)
    r = e.sym(("recv", cx), "ext", -1, INF, "%s@%d" % (i.x.v, i.line), None, None, frozenset()); e.forget(st, r)
    l = e.lin(r)
    try: e.assume_ge(st, n.add(l, -1))
    except Infeasible: pass
    return V(l)
@model("send", "write", "SSL_write")
def m_send(e, st, f, i, a, cx):
    e.mon.on_copy(st, i, a[1], None, st.norm(a[2].l), cx, "send")
    r = e.sym(("send", cx), "ext", -1, INF, "%s@%d" % (i.x.v, i.line)); e.forget(st, r)
    l = e.lin(r)
    try: e.assume_ge(st, st.norm(a[2].l).add(l, -1))
    except Infeasible: pass
    return V(l)
def nullable(e, st, f, i, cx, info=("ptr", None)):
    r = e.sym(("ptr", cx), "ext", 0, (1 << 63), "%s@%d" % (i.x.v, i.line), info); e.forget(st, r)
    return V(e.lin(r))
@model("fopen", "fopen64", "opendir", "fdopen", "SSL_new", "SSL_CTX_new", "dlopen", "dlsym", "gethostbyname", "localtime", "gmtime", "pcre_compile", "readdir", "readdir64", "getenv", "strerror", "luaL_newstate", "popen", "dlerror")
def m_nullable(e, st, f, i, a, cx):
    r = nullable(e, st, f, i, cx)
    if i.x.v == "pcre_compile":
        for p in a[2:4]: e.havoc_range(st, f, p, None, cx, i)
    return r
@model("strchr", "strrchr", "strstr", "memchr")
def m_strchr(e, st, f, i, a, cx):
    """0 or a position inside the string"""
    out = []
    st2 = st.copy(); out.append((st2, V0))
    b, off = e.split(a[0].l)
    y = e.sym(("pos", cx), "ext", 0, INF, "%s@%d" % (i.x.v, i.line), None, None, e.taint(a[0])); e.forget(st, y)
    n = strlen_of(e, st, f, a[0]) if i.x.v != "memchr" else st.norm(a[2].l).addc(-1)
    try:
        e.assume_ge(st, n.add(e.lin(y), -1))
        out.append((st, V(a[0].l.add(e.lin(y)), a[0].ext)))
    except Infeasible: pass
    return out
@model("strcmp", "strncmp", "memcmp", "strcasecmp", "strncasecmp")
def m_cmp(e, st, f, i, a, cx):
    for p in a[:2]: e.mon.on_access(st, i, p, 1, False, cx)
    ks = []
    for p in a[:2]:
        b, off = e.split(p.l)
        tg = e.tag_of(p, b, st.norm(off)) if b is not None and p.ext is not None else None
        ks.append((p.l, st.cver.get(b), st.basever.get(b), st.tagver.get(tg) if tg else None))
    return V(e.term(("cmp", i.x.v, ks[0], ks[1], a[2].l if len(a) > 2 else 0), -(1 << 31), (1 << 31) - 1, name="%s(%s,%s)@%d" % (i.x.v, a[0].l, a[1].l, i.line)))
@model("__errno_location")
def m_errno(e, st, f, i, a, cx):
    y = e.sym(("errno",), "region", 4096, INF, "&errno", ("global", {"name": "errno", "const": False, "init": None, "ty": I(32), "mod": f.mod, "internal": False}))
    return V(e.lin(y))
@model("pcre_exec")
def m_pcre(e, st, f, i, a, cx):
    """offsets of the match lie inside the subject"""
    e.havoc_range(st, f, a[6], None, cx, i)
    b, off = e.split(a[6].l)
    if b is not None and st.norm(off).const():
        off = st.norm(off).c
        cells = dict(st.mem.get(b, ()))
        y0 = e.sym(("pcre0", cx), "ext", 0, INF, "match start@%d" % i.line); y1 = e.sym(("pcre1", cx), "ext", 0, INF, "match end@%d" % i.line)
        e.forget(st, y0); e.forget(st, y1)
        try:
            e.assume_ge(st, e.lin(y1).add(e.lin(y0), -1)); e.assume_ge(st, st.norm(a[3].l).add(e.lin(y1), -1))
        except Infeasible: pass
        cells[off] = (V(e.lin(y0)), 4); cells[off + 4] = (V(e.lin(y1)), 4)
        st.mem[b] = cells
    return None
@model("llvm.va_start", "llvm.va_copy", "stat", "stat64", "lstat", "fstat", "__xstat", "time", "gettimeofday", "accept", "getsockopt", "getpeername", "getsockname", "poll", "select", "epoll_wait", "pthread_create", "sigaction", "fgets", "inet_ntop", "scanf", "sscanf", "getaddrinfo", "fscanf", "localtime_r", "gmtime_r", "frexp", "getnameinfo")
def m_out(e, st, f, i, a, cx):
    for n, p in enumerate(a):
        if i.a[n].ty.k == "ptr" and not (i.x.v in ("stat", "stat64", "lstat") and n == 0):
            b, o = e.split(p.l)
            if b is not None: e.havoc_range(st, f, p, None, cx, i)
    return None
def nothing(e, st, f, i, a, cx): return None
@model("SSL_get_error")
def m_sslerr(e, st, f, i, a, cx):
    y = e.sym(("sslerr", cx), "ext", 0, 8, "SSL_get_error@%d" % i.line); e.forget(st, y)
    return V(e.lin(y))
@model("inet_ntoa")
def m_ntoa(e, st, f, i, a, cx):
    return V(e.lin(e.sym(("ipv4text", cx), "ret", 4096, (1 << 47), "inet_ntoa()", ("ptr", None))))
@model("ftell", "ftello")
def m_ftell(e, st, f, i, a, cx):
    # the position in a file that was opened and moved successfully is not negative
    y = e.sym(("ftell", cx), "ret", 0, (1 << 63) - 1, "%s()" % i.x.v); e.forget(st, y)
    return V(e.lin(y))
for n in ("printf", "fprintf", "puts", "putchar", "fputs", "fclose", "closedir", "fseek", "ftell", "fflush", "close", "socket", "bind", "listen", "connect", "setsockopt", "fcntl", "ioctl", "htons", "ntohs", "htonl", "unlink", "remove", "usleep", "sleep", "atoi", "atol", "strtol", "toupper", "tolower", "isdigit", "isspace",
          "fwrite", "SSL_accept", "SSL_connect", "SSL_set_fd", "SSL_free", "SSL_CTX_free", "SSL_get_error", "SSL_shutdown", "ERR_print_errors_fp", "epoll_ctl", "epoll_create", "pcre_exec", "pcre_free", "dlclose", "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_cond_wait", "pthread_cond_signal", "pthread_mutex_init", "pthread_cond_init", "signal", "rand", "srand", "getpid", "fork", "kill", "umask", "setsid", "chdir", "mkdir", "vprintf", "vfprintf", "llvm.va_end", "llvm.stacksave", "llvm.stackrestore", "perror", "lua_close", "luaL_openlibs", "lua_settop", "getcwd", "feof", "fgetc", "fputc", "strcoll", "clock", "difftime", "mktime", "memmem", "llvm.lifetime", "inet_addr"):
    TABLE.setdefault(n, nothing)

@model("__ctype_b_loc", "__ctype_tolower_loc", "__ctype_toupper_loc")
def m_ctype(e, st, f, i, a, cx):
    y = e.sym(("ctype", i.x.v), "ext", 4096, INF, i.x.v, ("ptr", None))
    return V(e.lin(y))

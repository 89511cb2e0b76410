"""Table agreement, read from the initialisers in the IR: parallel name tables against the enumerations that index them
(and every place that indexes one, for the base of the index), the codec tables against each other and the published
alphabets, character-class tables against RFC 2616, status messages against the registry both in the table and at every
call that passes a literal code and message, method recognition transitions of the request parser against the names."""
import re
from vsa import cfg, pieces, slots
from vsa.ir import AnalysisBroken

PHRASES = {100: ["Continue"], 101: ["Switching Protocols"], 102: ["Processing"], 103: ["Early Hints"], 200: ["OK"], 201: ["Created"], 202: ["Accepted"], 203: ["Non-Authoritative Information"], 204: ["No Content"], 205: ["Reset Content"], 206: ["Partial Content"], 207: ["Multi-Status"], 208: ["Already Reported"], 226: ["IM Used"],
 300: ["Multiple Choices"], 301: ["Moved Permanently"], 302: ["Found", "Moved Temporarily"], 303: ["See Other"], 304: ["Not Modified"], 305: ["Use Proxy"], 306: ["Switch Proxy", "Unused", "Reserved"], 307: ["Temporary Redirect"], 308: ["Permanent Redirect"],
 400: ["Bad Request"], 401: ["Unauthorized"], 402: ["Payment Required"], 403: ["Forbidden"], 404: ["Not Found"], 405: ["Method Not Allowed"], 406: ["Not Acceptable"], 407: ["Proxy Authentication Required"], 408: ["Request Timeout", "Request Time-out"], 409: ["Conflict"], 410: ["Gone"], 411: ["Length Required"], 412: ["Precondition Failed"], 413: ["Request Entity Too Large", "Payload Too Large", "Content Too Large"], 414: ["Request-URI Too Long", "URI Too Long", "Request-URI Too Large"], 415: ["Unsupported Media Type"], 416: ["Requested Range Not Satisfiable", "Range Not Satisfiable"], 417: ["Expectation Failed"], 418: ["I'm a teapot"], 421: ["Misdirected Request"], 422: ["Unprocessable Entity"], 423: ["Locked"], 424: ["Failed Dependency"], 425: ["Too Early"], 426: ["Upgrade Required"], 428: ["Precondition Required"], 429: ["Too Many Requests"], 431: ["Request Header Fields Too Large"],
 500: ["Internal Server Error"], 501: ["Not Implemented"], 502: ["Bad Gateway"], 503: ["Service Unavailable"], 504: ["Gateway Timeout", "Gateway Time-out"], 505: ["HTTP Version Not Supported", "HTTP Version not supported"], 506: ["Variant Also Negotiates"], 507: ["Insufficient Storage"], 508: ["Loop Detected"], 509: ["Bandwidth Limit Exceeded"], 510: ["Not Extended"], 511: ["Network Authentication Required"]}
def norm(s): return re.sub(r"[^a-z0-9]+", "", re.sub(r"\(.*?\)", "", s).lower())
def phrase_ok(code, text): return code in PHRASES and norm(text) in [norm(x) for x in PHRASES[code]]

def tables(p, name):
    """every definition of the table in the program: (module, initialiser)"""
    out = []
    for m in p.mods:
        g = m.globals.get(name)
        if g and g["init"] is not None: out.append((m, g["init"]))
    return out
def cstr(p, m, v):
    if v.k in ("null", "zero"): return None
    if v.k == "ce" and v.v[0] == "gep": v = v.v[2]
    if v.k == "g":
        g = p.resolve_global(m, v.v)
        if g and g["init"] is not None:
            if g["init"].k == "str": return bytes(g["init"].v).split(b"\0")[0].decode("latin1")
            if g["init"].k == "zero": return ""
    return None
def strings(p, m, v):
    if v.k == "zero": return [None] * pieces.count(v.ty)
    out = []
    for e in v.v:
        if e.k == "agg" or (e.k == "zero" and e.ty.k in ("arr", "lit")): out += strings(p, m, e)
        else: out.append(cstr(p, m, e))
    return out
def rows(p, m, v):
    out = []
    for e in v.v:
        out.append(strings(p, m, e))
    return out
def enum_of(p, name):
    for m in p.mods:
        for n in m.md:
            t = m.md[n]
            if "DW_TAG_enumeration_type" in t and 'name: "%s"' % name in t:
                return m.enum_values(n)
    raise AnalysisBroken("enumeration %s not found" % name)

NAMES = [  # table, enumeration, name of the constant -> text expected
 ("http_method_strings", "http_method_e", lambda c: c.replace("HTTP_", "")),
 ("http_version_codes", "http_version_e", lambda c: c.replace("HTTP", "HTTP")),
 ("http_version_strings", "http_version_e", lambda c: c),
 ("connection_family_strings", "connection_family_e", lambda c: c.replace("_FAMILY", "")),
 ("connection_protocol_strings", "connection_protocol_e", lambda c: c.replace("_PROTOCOL", "")),
 ("status_strings", "connection_status_e", lambda c: c.replace("STATUS_", "").replace("_STATUS", "")),
 ("keep_alive_codes", "http_keep_alive_e", None), ("cache_codes", "http_cache_e", None), ("close_codes", None, None),
]
FIXED = {"keep_alive_codes": {"KEEP_CLOSE": "close", "KEEP_KEEP_ALIVE": "keepalive"}}
def run(ctx):
    p = ctx.prog()
    st = slots.static(p)
    # ---- name tables and enumerations
    base = {}
    for tab, en, text in NAMES:
        ts = tables(p, tab)
        if not ts:
            if tab == "http_method_strings": raise AnalysisBroken("table %s not found" % tab)
            ctx.open("table:" + tab, "not used by any translation unit"); continue
        if en is None: base[tab] = 0; continue
        try: ev = enum_of(p, en)
        except AnalysisBroken:
            if tab != "status_strings": raise
            ev = enum_of(p, "status_e")
        ev = {k: v for v, k in ev.items()} if ev and not isinstance(next(iter(ev)), str) else ev
        lo = min(ev.values()); base[tab] = lo
        for m, init in ts:
            L = strings(p, m, init)
            ctx.expect(len(L) == len(ev), "table size", "size:%s" % tab, "%s has an entry per constant of %s" % (tab, en), "%s has %d entries for %d constants of %s" % (tab, len(L), len(ev), en), m.relpath)
            for c, v in ev.items():
                if not 0 <= v - lo < len(L): continue
                s = L[v - lo]
                if s is None: ctx.bad("name:%s:%s" % (tab, c), "no text for %s in %s" % (c, tab), m.relpath); continue
                if text:
                    a, b = norm(s), norm(text(c))
                    ctx.expect(a == b or a.startswith(b) and tab == "http_version_codes" or digits(s) == digits(c) and digits(c), "name at index of its code", "name:%s:%s" % (tab, c), "%s[%s] = %s" % (tab, c, s), "%s holds \"%s\" at the index of %s" % (tab, s, c), m.relpath)
                elif tab in FIXED:
                    key = [k for k in FIXED[tab] if k == c]
                    want = FIXED[tab].get(c)
                    if want is None: want = "keepalive" if "ALIVE" in c and "CLOSE" not in c else "close"
                    ctx.expect(norm(s) == want, "name at index of its code", "name:%s:%s" % (tab, c), "%s[%s] = %s" % (tab, c, s), "%s holds \"%s\" at the index of %s" % (tab, s, c), m.relpath)
                elif tab == "cache_codes":
                    want = "no-cache" if "NO" in c else "max-age"
                    ctx.expect(want in s, "name at index of its code", "name:%s:%s" % (tab, c), "%s[%s] = %s" % (tab, c, s), "%s holds \"%s\" at the index of %s" % (tab, s, c), m.relpath)
    for m, init in tables(p, "close_codes"):
        L = strings(p, m, init)
        ctx.expect(L == ["", "\r\n"], "name at index of its code", "close_codes", "close_codes: nothing / empty line", "close_codes holds %r" % (L,), m.relpath)
    for m, init in tables(p, "ssl_error_codes"):
        L = strings(p, m, init)
        want = ["NONE", "SSL", "WANT_READ", "WANT_WRITE", "WANT_X509_LOOKUP", "SYSCALL", "ZERO_RETURN", "WANT_CONNECT", "WANT_ACCEPT"]
        for n, w in enumerate(want):
            ctx.expect(n < len(L) and norm(L[n] or "") == norm("SSL_ERROR_" + w), "name at index of its code", "ssl:%s" % w, "ssl_error_codes[%d] = SSL_ERROR_%s" % (n, w), "ssl_error_codes[%d] is %s, the code is SSL_ERROR_%s" % (n, L[n] if n < len(L) else None, w), m.relpath)
    # ---- base of the index wherever a name table is read
    nidx = 0
    for f in p.fns.values():
        if "/test/" in f.file: continue
        for i in f.instrs():
            if i.op != "gep" or i.a[0].k != "g" or i.a[0].v not in base: continue
            tab = i.a[0].v; ix = i.a[-1]
            nidx += 1
            v = cfg.origin(p, f, ix); off = 0
            d = cfg.defs(p, f)
            while v.k == "loc" and v.v in d and d[v.v].op in ("sub", "add") and d[v.v].a[1].k == "int":
                off += d[v.v].a[1].v * (1 if d[v.v].op == "add" else -1); v = cfg.origin(p, f, d[v.v].a[0])
            if v.k == "int":
                ctx.ok("index base"); continue
            if off == 0 and v.k == "loc" and is_plain_index(f, v): ctx.ok("index base", "%s in %s by position" % (tab, f.name)); continue
            ctx.expect(off == -base[tab], "index base", "index:%s:%s" % (tab, f.name), "%s[code - %d] in %s" % (tab, base[tab], f.name), "%s is read at code %+d, its first constant is %d" % (tab, off, base[tab]), i.where)
    ctx.rule("reads of name tables", nidx, 8)
    # ---- hexadecimal
    for m, init in tables(p, "unhex"):
        T = pieces.flat(init); T = [pieces.sx(x, 8) for x in T]
        for b in range(256):
            want = int(chr(b), 16) if chr(b) in "0123456789abcdefABCDEF" else -1
            ctx.expect(b < len(T) and T[b] == want, "hexadecimal digit", "unhex:%d" % b, "unhex[%d] = %d" % (b, want), "unhex[%d] is %s, the digit is %d" % (b, T[b] if b < len(T) else None, want), m.relpath)
    piece(ctx, p, "to_hex", range(16), lambda x: ord("0123456789abcdef"[x]), "digit of %d", 0, 15)
    piece(ctx, p, "from_hex", [ord(c) for c in "0123456789abcdefABCDEF"], lambda x: int(chr(x), 16), "value of hexadecimal digit %d", 0, 127)
    # ---- base 64
    T = None
    for m, init in tables(p, "base64_characters"):
        T = pieces.flat(init)
        ref = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
        for n in range(64): ctx.expect(T[n] == ref[n], "base 64 alphabet", "base64:%d" % n, "symbol of %d" % n, "the symbol of %d is %s" % (n, chr(T[n])), m.relpath)
    for fn in ("_lookup_fast_base64",):
        piece(ctx, p, fn, [x for x in T[:64]], lambda x: T[:64].index(x), "value of base 64 symbol %d", 0, 255)
    # ---- character classes
    tchar = set(b"!#$%&'*+-.^_`|~0123456789") | set(range(65, 91)) | set(range(97, 123))
    for m, init in tables(p, "tokens"):
        T = pieces.flat(init)
        for b in range(256):
            want = b + 32 if 65 <= b <= 90 else b
            if b in tchar: ctx.expect(T[b] == want, "token character", "tokens:%d" % b, "tokens[%d] = %d" % (b, want), "tokens[%d] is %d, the lower case of the character is %d" % (b, T[b], want), m.relpath)
            elif b < 32 or b >= 127 or chr(b) in "()<>@,;:\\[]?={": ctx.expect(T[b] == 0, "token character", "tokens:%d" % b, "tokens[%d] = 0" % b, "separator or control %d is accepted as token character %d" % (b, T[b]), m.relpath)
    for m, init in tables(p, "normal_url_char"):
        T = pieces.flat(init)
        for b in range(256):
            want = 0 if b <= 32 or b >= 127 or b in (35, 63) else 1
            ctx.expect(bool(T[b]) == bool(want), "url character", "urlchar:%d" % b, "normal_url_char[%d] = %d" % (b, want), "normal_url_char[%d] is %d" % (b, T[b]), m.relpath)
    # ---- other numeric tables
    for m, init in tables(p, "masks"):
        T = pieces.flat(init)
        ctx.expect(T == [(1 << n) - 1 for n in range(9)], "mask table", "masks", "masks[n] = 2^n - 1", "masks is %r" % T, m.relpath)
    for m, init in tables(p, "crc32_table"):
        T = pieces.flat(init)
        for n in range(256):
            c = n
            for _ in range(8): c = c >> 1 ^ (0xEDB88320 if c & 1 else 0)
            ctx.expect(n < len(T) and T[n] & 0xffffffff == c, "crc table", "crc32:%d" % n, "crc32_table[%d]" % n, "crc32_table[%d] is %x, the polynomial gives %x" % (n, T[n] if n < len(T) else -1, c), m.relpath)
    for m, init in tables(p, "atob_strings"):
        L = strings(p, m, init)
        ctx.expect(L and L[-1] is None and all(L[:-1]), "terminated list", "atob", "atob_strings ends with NULL", "atob_strings is not terminated: %r" % L, m.relpath)
    # ---- status messages
    for m, init in tables(p, "http_status_codes"):
        R = rows(p, m, init)
        ctx.expect(len(R) == 5, "status table", "status-rows", "five rows", "%d rows" % len(R), m.relpath)
        for r, row in enumerate(R):
            for c, s in enumerate(row):
                code = (r + 1) * 100 + c
                if s is not None: ctx.expect(phrase_ok(code, s), "status message", "status:%d" % code, "%d %s" % (code, s), "the message of %d is \"%s\"" % (code, s), m.relpath)
            for code in PHRASES:
                if code // 100 == r + 1 and code <= 418 or code // 100 == 5 == r + 1:
                    c = code % 100
                    if code in (103,): continue
                    ctx.expect(c < len(row) and row[c] is not None, "status message present", "status-missing:%d" % code, "%d has a message" % code, "no message stored for %d" % code, m.relpath)
    ncall = 0
    for f in p.fns.values():
        for i in f.instrs():
            if i.op != "call" or i.x.k == "meta": continue
            for t in st.targets(f, i):
                if not hasattr(t, "params"): continue
                names = [t.mod.var_name(t, pn) if pn in t.dbgvars else pn.lstrip("%") for pn, _ in t.params]
                c = [n for n, x in enumerate(names) if x in ("status_code", "error_code")]; s = [n for n, x in enumerate(names) if x in ("status_message", "error_message")]
                if not c or not s or max(c + s) >= len(i.a): continue
                cv = i.a[c[0]]; sv = cstr(p, f.mod, i.a[s[0]])
                if cv.k == "int" and sv is not None:
                    ncall += 1
                    ctx.expect(phrase_ok(cv.v, sv), "status message at call", "call:%s:%d" % (f.name, cv.v), "%s sends %d %s" % (f.name, cv.v, sv), "%s sends status %d with the message \"%s\"" % (f.name, cv.v, sv), i.where)
                break
    ctx.rule("calls with literal status", ncall, 8)
    methods(ctx, p, st)

def digits(s): return "".join(re.findall(r"\d", s))
def is_plain_index(f, v):
    """parameter named index / unsigned position: the helper takes the position itself"""
    return any(pn == v.v and "index" in pn for pn, _ in f.params)

def piece(ctx, p, name, dom, want, label, lo, hi):
    fs = [f for f in p.fns.values() if f.name == name]
    if not fs: raise AnalysisBroken("function %s not found" % name)
    f = fs[0]
    try: P = pieces.pieces(p, f, lo, hi)
    except pieces.Unknown as e:
        ctx.open("pieces:" + name, "not piecewise linear: %s" % e); return
    ctx.count("pieces:" + name, len(P))
    for x in dom:
        for l, h, v in P:
            if l <= x <= h:
                got = v[0] * x + v[1]
                ctx.expect(got & 0xff == want(x) & 0xff, "codec function", "%s:%d" % (name, x), label % x, "%s gives %d for %d, the table side has %d" % (name, got, x, want(x)), f.file)

def methods(ctx, p, st):
    names = None
    for m, init in tables(p, "http_method_strings"): names = strings(p, m, init)
    ev = enum_of(p, "http_method_e"); ev = {k: v for v, k in ev.items()} if not isinstance(next(iter(ev)), str) else ev
    lo = min(ev.values())
    stores = []
    for f in p.fns.values():
        if "/test/" in f.file: continue
        for i in f.instrs():
            if i.op == "store" and st.addr(f, i.a[1]) == ("tag", "http_parser_t", "method"): stores.append((f, i))
    ctx.rule("stores to the method of the parser", len(stores), 10)
    start = {}; trans = {}
    for f, i in stores:
        v = i.a[0]
        if v.k != "int":
            ctx.open("method-store:%s" % i.where, "value not constant"); continue
        if v.v == 0: continue
        if not (lo <= v.v < lo + len(names)):
            ctx.bad("method:%d" % v.v, "method constant %d has no name" % v.v, i.where); continue
        to = names[v.v - lo]
        chars = None; idx = None; frm = None
        for x, op, c in cfg.atoms(p, f, i.blk):
            if op not in ("eq", "in"): continue
            cs = tuple(c) if op == "in" else (c,)
            if not all(isinstance(q, int) for q in cs): continue
            tg = cfg.load_tag(p, f, x)
            if tg == ("http_parser_t", "method"): frm = frm or (cs if cs[0] else None)
            elif chars is None and all(33 <= q < 127 for q in cs): chars = cs
            elif all(0 <= q < 20 for q in cs) and idx is None and not is_state(p, f, x): idx = cs
        if chars is None:
            if to: ctx.open("method-store:%s" % to, "no byte condition")
            continue
        if frm is None:
            at = position(p, f, i, st)
            start.setdefault(chars, to)
            ctx.expect(all(to[0] == chr(q) for q in chars) or at is not None and all(to[at:at + 1] == chr(q) for q in chars), "method recognition", "method-start:%s" % to, "%s after '%s'" % (to, chr(chars[0])), "%s is assumed after the first byte '%s'" % (to, chr(chars[0])), i.where)
            trans.setdefault(None, []).append(to)
        else:
            for fm in frm:
                src = names[fm - lo]
                for k in (idx or [None]):
                    if k is None: ctx.open("method-transition:%s" % to, "no index condition"); continue
                    ok = all(k < len(to) and to[k] == chr(q) for q in chars) and to[:k] == src[:k] and (k >= len(src) or src[k] != to[k])
                    ctx.expect(ok, "method recognition", "method-transition:%s:%s" % (src, to), "%s -> %s at byte %d '%s'" % (src, to, k, chr(chars[0])), "%s turns into %s at byte %d '%s', which is not how %s is spelled" % (src, to, k, chr(chars[0]), to), i.where)
                    trans.setdefault(src, []).append(to)
    seen = set(); w = list(trans.get(None, []))
    while w:
        x = w.pop()
        if x in seen: continue
        seen.add(x); w += trans.get(x, [])
    if not ctx.undecided.get("method-store"):
        missing = [n for n in names if n not in seen]
        for n in names:
            ctx.expect(n in seen, "method reachable", "method-unreachable:%s" % n, "%s can be recognised" % n, "no byte sequence is recognised as %s" % n, "src/viriatum/http/http_parser.c")
def position(p, f, i, st):
    """where an ambiguous start is resolved: the constant the position is continued with, less one"""
    b = i.blk
    for s in b.succ:
        for j in f.blocks[s].ins:
            if j.op != "phi": break
            for q, v in j.x:
                if q == b.name and v.k == "int" and v.v in (1, 2) and not is_state(p, f, type(v)("loc", j.res, j.ty)): return v.v - 1
    return None
def is_state(p, f, x):
    """the value switched over many cases is the parser state, not the position"""
    d = cfg.defs(p, f)
    v = cfg.origin(p, f, x)
    for i in f.instrs():
        if i.op == "switch" and len(i.x[1]) > 20:
            y = cfg.origin(p, f, i.a[0])
            if y.k == v.k and y.v == v.v: return True
    return False

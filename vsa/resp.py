"""Monitor of the request handlers: what each completed request sends, and what follows the last write.

Roots are the functions installed as on_message_complete by the request handlers and the callbacks given to the writes
they make.  Text written to buffers is followed symbolically (literal text and formatted values), writes, closes,
acquire/release and handler removal are events.  The keep alive flag of the request is fixed per run (four runs per
root: flag alone, nothing, everything, everything but the flag), so that every decision taken on it is resolved."""
import re
from .ai import *
from .slots import static
from . import roots, models

FLAG = 0x02          # overwritten from the enum of the parser
LIT, HOLE = 0, 1

def kind(y):
    n = y.name.rsplit(".", 1)[-1]
    return re.sub(r"[\[\]'\d]+$", "", n)

class Text:
    """text of a buffer: pieces, offset of its end"""
    __slots__ = ("p", "end", "off")
    def __init__(s, p, end): s.p = p; s.end = end
    def __eq__(s, o): return o.__class__ is Text and s.p == o.p and s.end == o.end
    def __ne__(s, o): return not s == o
    def __hash__(s): return hash((s.p, s.end))
    def __repr__(s): return "Text(%s)" % (s.p,)
    def flat(s):
        out = ""
        for q in s.p: out += q[1] if q[0] == "lit" else "\0"
        return out
    def holes(s): return [q for q in s.p if q[0] != "lit"]

def add(p, q):
    if q[0] == "lit" and p and p[-1][0] == "lit": return p[:-1] + (("lit", p[-1][1] + q[1]),)
    return p + (q,)

class Head:
    """what a text that starts with a status line says"""
    def __init__(s, t, st, e):
        f = t.flat(); s.text = f; s.t = t
        s.ishead = False; s.status = s.conn = s.length = None; s.ended = False; s.body = ()
        m = re.match(r"(HTTP/1\.[01]|\0) (\d{3}|\0) ", f)
        if not m: return
        s.ishead = True
        def hole(at):
            """the hole at this offset of the flat text"""
            n = f[:at].count("\0"); return t.holes()[n]
        if m.group(2) == "\0":
            h = hole(m.start(2)); l = st.norm(h[2]); s.status = l.c if l.const() else None
        else: s.status = int(m.group(2))
        z = f.find("\r\n\r\n"); s.ended = z >= 0
        head = f[:z] if z >= 0 else f
        s.second = head.find("HTTP/1.", 8) >= 0
        m = re.search(r"\r\nConnection: ([^\r]*)", head, re.I)
        s.conn = m.group(1).lower() if m else None
        m = re.search(r"\r\nContent-Length: (\d+|\0)(?=\r|$)", head, re.I)
        if m: s.length = hole(m.start(1))[2] if m.group(1) == "\0" else Lin(int(m.group(1)))
        s.lengths = len(re.findall(r"\r\nContent-Length:", head, re.I))
        s.range = None
        m = re.search(r"\r\nContent-Range: bytes (\0)-(\0)/(\0)(?=\r|$)", head, re.I)
        if m: s.range = tuple(hole(m.start(k))[2] for k in (1, 2, 3))
        if z >= 0:
            body = (); pos = 0
            for q in t.p:
                k = len(q[1]) if q[0] == "lit" else 1
                if pos >= z + 4: body = add(body, q)
                elif q[0] == "lit" and pos + k > z + 4: body = add(body, ("lit", q[1][z + 4 - pos:]))
                pos += k
            s.body = body

class Resp(Monitor):
    def __init__(s, root, flags, role, facts):
        s.root = root; s.flags = flags; s.keep = bool(flags & FLAG); s.role = role; s.facts = facts
        s.out = []; s.cbs = {}; s.seen = {}; s.tags = {}; s.inits = {}
    def result(s): return s.out, s.cbs, s.seen
    def say(s, good, prop, rule, key, what, msg, where):
        s.out.append((good, prop, rule, key, what, msg, where))
    # ---------------------------------------------------------------- state
    def key(s, st):
        m = st.mon
        k = [(a, str(b)) for a, b in m.items() if not a.startswith("_")] + [(a, b.flat()) for a, b in m.items() if a.startswith("_t:")]
        g = m.get("_auth")
        if g is not None: k.append(("authnull", "0" if st.eq0(g) else "1" if st.ne0(g) else "?"))
        return tuple(sorted(k))
    def join(s, a, b, n, jv):
        out = {}
        for k in set(a.mon) & set(b.mon):
            x, y = a.mon[k], b.mon[k]
            if x == y: out[k] = x
            elif k.startswith("_fread:"): out[k] = None
            elif k.startswith("_t:") and len(x.p) == len(y.p) and x.flat() == y.flat():
                j = lambda u, w, at: None if u is None or w is None else jv(("mon", k + ":" + at), V(u), V(w)).l
                pc = []
                for n_, (u, w) in enumerate(zip(x.p, y.p)):
                    if u == w: pc.append(u); continue
                    if u[0] != w[0]: pc.append(("hole", "?", None)); continue
                    pc.append(tuple(q if not isinstance(q, Lin) and q == r else j(q, r, "%d.%d" % (n_, m_)) for m_, (q, r) in enumerate(zip(u, w))))
                out[k] = Text(tuple(pc), j(x.end, y.end, "end"))
        return out
    def on_init(s, st, f, ins, y, base, off, tag, ty):
        s.track(y, base, off, tag)
        if "_pos" in st.mon: s.induct(st)
        if tag is not None and tag[1] == "flags" and (tag[0] == "http_parser_t" or s.role == "callback" and tag[0].endswith("_context_t")):
            return V(Lin(s.flags))
        if tag is not None and tag[1] == "auth_basic" and "_auth" not in st.mon: st.mon["_auth"] = st.norm(Lin(0, ((y, 1),)))
        return None
    def track(s, y, base, off, tag):
        if tag:
            s.tags[y] = tag; s.inits[(base, st_c(off))] = y
    # ---------------------------------------------------------------- text
    def text(s, st, l):
        b, o = s.eng.split(l)
        return (b, st.mon.get("_t:" + b.name)) if b is not None else (None, None)
    def put(s, st, dst, pieces):
        """pieces written at dst; returns True when they start or continue a known text"""
        e = s.eng; b, o = e.split(dst); o = st.norm(strip(st, o))
        if b is None: return
        k = "_t:" + b.name; t = st.mon.get(k)
        if o.const() and o.c == 0: st.mon[k] = Text(tuple(pieces), None); st.mon["_last"] = (b.name, o)
        elif t is not None and t.end is not None and st.eq0(t.end.add(o, -1)):
            p = t.p
            for q in pieces: p = add(p, q)
            st.mon[k] = Text(p, None); st.mon["_last"] = (b.name, o)
        elif t is not None and strlen_off(o, b):
            p = t.p
            for q in pieces: p = add(p, q)
            st.mon[k] = Text(p, None); st.mon["_last"] = (b.name, o)
        elif t is not None:
            st.mon[k] = Text(t.p + (("gap", "", None),), None); st.mon["_last"] = (b.name, o)
    def finish(s, st, v):
        x = st.mon.pop("_last", None)
        if x is None or v is None: return
        t = st.mon.get("_t:" + x[0])
        if t is not None: st.mon["_t:" + x[0]] = Text(t.p, st.norm(x[1].add(strip(st, v.l))))
    def format(s, st, i, fmtv, rest):
        e = s.eng; fmt = models.const_string(e, st, fmtv)
        if fmt is None: return [("hole", "?", None)]
        out = (); n = pos = 0
        for m in models.FMT.finditer(fmt):
            if m.start() > pos: out = add(out, ("lit", fmt[pos:m.start()]))
            pos = m.end(); c = m.group(5)
            if c == "%": out = add(out, ("lit", "%")); continue
            prec = None
            if m.group(2) == "*": n += 1
            if m.group(3) == "*":
                prec = rest[n].l if n < len(rest) else None; n += 1
            if n >= len(rest): break
            a = rest[n]; n += 1
            if c == "s":
                x = models.const_string(e, st, a)
                if x is not None and m.group(3) is None: out = add(out, ("lit", x))
                else: out = add(out, ("s", "", st.norm(a.l), (st.norm(prec) if prec is not None else None), models.strlen_of(e, st, i.fn, a)))
            else:
                l = st.norm(strip(st, a.l))
                if l.const() and c in "diu": out = add(out, ("lit", str(l.c)))
                else: out = add(out, ("n", "", l))
        if pos < len(fmt): out = add(out, ("lit", fmt[pos:]))
        return list(out)
    def on_copy(s, st, i, dst, src, n, cx, what):
        if what in ("memcpy", "strcpy", "strcat") or what.startswith("llvm.mem"):
            b, t = s.text(st, dst.l)
            if t is None and what != "strcpy": return
            if src is None: return
            x = models.const_string(s.eng, st, src)
            L = models.strlen_of(s.eng, st, i.fn, src) if what != "memcpy" else n
            if x is not None and what == "memcpy" and n is not None and n.const() and n.c <= len(x): q = ("lit", x[:n.c]); L = Lin(n.c)
            elif x is not None and what != "memcpy": q = ("lit", x); L = Lin(len(x))
            else: q = ("m", "", src.l, st.norm(L) if L is not None else None)
            e = s.eng; o = st.norm(e.split(dst.l)[1])
            if what == "strcat" and t is not None: st.mon["_t:" + b.name] = Text(add(t.p, q), None if t.end is None else st.norm(t.end.add(L))); return
            s.put(st, dst.l, [q])
            x = st.mon.pop("_last", None)
            if x is not None and L is not None:
                t = st.mon.get("_t:" + x[0]); st.mon["_t:" + x[0]] = Text(t.p, st.norm(x[1].add(L)))
        elif what == "fread":
            b = s.eng.split(dst.l)[0]
            if b is not None: st.mon["_fread:" + b.name] = (st.norm(n) if n is not None else None)
    # ---------------------------------------------------------------- calls
    def rest(s, st):
        """bytes of the range not yet sent, from the position of the file (None when not expressed that way)"""
        snd = s.facts.get("senders", {}).get(s.root)
        if not snd or snd[0] != "range" or "_pos" not in st.mon: return None
        e = s.eng
        for y, t in s.tags.items():
            if t == snd[2]: return st.norm(Lin(1, ((y, 1),)).add(st.mon["_pos"], -1))
        return None
    def induct(s, st):
        """the position starts inside the range and never passes its end (each read is shown to stay inside it)"""
        r = s.rest(st)
        if r is not None:
            try: s.eng.assume_ge(st, r); s.eng.assume_ge(st, st.norm(st.mon["_pos"]))
            except Infeasible: pass
    def on_seek(s, st, i, args):
        """a sender of a range only ever moves its file to the first byte of that range"""
        snd = s.facts.get("senders", {}).get(s.root); m = st.mon
        if s.role != "callback" or not snd or snd[0] != "range" or snd[1] is None: return
        l = st.norm(strip(st, args[1].l))
        if not st.eq0(args[2].l): m["seek"] = "moved"; return
        good = any(t == snd[1] and st.eq0(l.add(Lin(0, ((y, 1),)), -1)) for y, t in s.tags.items())
        m["seek"] = "start" if good else "elsewhere"
    def on_fread(s, st, i, args):
        if s.role != "callback" or s.facts.get("senders", {}).get(s.root, ("",))[0] != "range": return
        x, y = st.norm(strip(st, args[1].l)), st.norm(strip(st, args[2].l)); who = s.root.name
        s.say(st.mon.get("seek", "start") == "start", "C12", "reads from the first byte", "%s:from" % who, "%s moves a file it opened to the first byte of the range before it reads" % who, "%s can read a file at a position that is not the first byte of the range" % who, i.where)
        n = y.scale(x.c) if x.const() else x.scale(y.c) if y.const() else None
        r = s.rest(st)
        if n is None or r is None: s.say(None, "C10", "reads the rest of the range", "%s:rest" % who, "", "what %s reads is not compared with the rest of the range" % who, i.where); return
        good = st.eq0(n.add(r, -1)) or st.ge(r.add(n, -1)) and st.ge(n.addc(-1))
        s.say(good, "C10", "reads the rest of the range", "%s:rest" % who, "%s reads the rest of the range or a full block of it" % who, "%s reads %s bytes when %s bytes of the announced range are left" % (who, n, r), i.where)
    def progressed(s, st):
        """a field of the context that was compared on this path now has another value"""
        e = s.eng
        for (b, off), y in s.inits.items():
            if not s.tags[y][0].endswith("_context_t"): continue
            c = st.mem.get(b, {}).get(off)
            if c is not None and (st.ne0(c[0].l.add(Lin(0, ((y, 1),)), -1)) or st.eq0(Lin(0, ((y, 1),))) and st.ne0(c[0].l) or st.ne0(Lin(0, ((y, 1),))) and st.eq0(c[0].l)): return True
        return False
    def named(s, fns, *names): return any(f.name in names for f in fns)
    def inline(s, st, i, t, slot, args):
        return not t.name in STOP
    def on_call(s, st, i, fns, exts, slot, args, cx):
        e = s.eng; m = st.mon
        if exts and exts[0] in ("snprintf", "vsnprintf", "sprintf", "__snprintf_chk", "__sprintf_chk"):
            nm = exts[0]
            if nm == "vsnprintf":
                rest = None
                for (g, _), ar in zip(reversed(e.stack), reversed(e.argstack)):
                    if len(ar) > len(g.params): rest = ar[len(g.params):]; break
                s.put(st, args[0].l, s.format(st, i, args[2], rest or []))
            elif nm == "snprintf": s.put(st, args[0].l, s.format(st, i, args[2], args[3:]))
            elif nm == "sprintf": s.put(st, args[0].l, s.format(st, i, args[1], args[2:]))
            return None
        if slot == ("http_settings_t", "on_message_complete"): return None
        if exts and exts[0] == "fread": m["fread"] = 1; s.on_fread(st, i, args)
        for t in fns:
            if t.name in ("write_connection", "write_connection_c"):
                s.write(st, i, args, cx); return None if False else [(st, V0)]
            if t.name == "close_connection":
                s.hit("close"); m["close"] = m.get("close", 0) + 1
                m["seq"] = m.get("seq", ()) + ("close",)
                return [(st, V0)]
        if slot is not None and slot[0] == "http_connection_t" and slot[1] in ("acquire", "release") or len(fns) == 1 and fns[0].name in ("acquire_http_connection", "release_http_connection"):
            w = "release" if (slot and slot[1] == "release") or any(t.name.startswith("release") for t in fns) else "acquire"
            s.hit(w); m["seq"] = m.get("seq", ()) + (w,)
            return [(st, V0)]
        if slot == ("http_handler_t", "unset"):
            s.hit("unset"); m["seq"] = m.get("seq", ()) + ("unset",)
            return [(st, V0)]
        if exts and exts[0] in ("lua_pcall", "lua_pcallk") and fns == []: m["_script"] = True
        # text joined by the string buffers of the library
        if fns and fns[0].name.startswith("append_string_buffer") and len(args) > 1:
            b = e.split(args[0].l)[0]
            if b is not None:
                k = "_sb:" + b.name; p = m.get(k, ())
                tb, t = s.text(st, args[1].l); o = e.split(args[1].l)[1]
                if t is not None and o.const() and o.c == 0 and t.flat().startswith(("HTTP/", "\0 ")): q = t.p
                else:
                    x = models.const_string(e, st, args[1])
                    q = (("lit", x),) if x is not None else (("s", "", st.norm(args[1].l), None, models.strlen_of(e, st, i.fn, args[1])),)
                for z in q: p = add(p, z)
                m[k] = p
                return [(st, V0)]
        if fns and fns[0].name.startswith("join_string_buffer") and len(args) > 1:
            b = e.split(args[0].l)[0]
            if b is not None and "_sb:" + b.name in m:
                y = e.sym(("joined", cx), "ret", 4096, INF, "joined@%s" % i.line, ("ptr", None)); e.forget(st, y)
                e.store(st, i.fn, i, args[1], V(e.lin(y)), Ty_ptr, cx)
                z = e.sym(("joinlen", cx), "ext", 0, 1 << 40, "length(joined@%s)" % i.line); e.forget(st, z)
                m["_t:" + y.name] = Text(m["_sb:" + b.name], e.lin(z))
                m["_sblen:" + b.name] = e.lin(z)
                return [(st, V0)]
        return None
    def on_load(s, st, i, p, v, cx):
        e = s.eng
        b, o = e.split(p.l)
        if b is not None and "_sblen:" + b.name in st.mon:
            t = e.tag_of(p, b, st.norm(o))
            if t is not None and t[1] == "string_length": return V(st.mon["_sblen:" + b.name])
        return None
    def after_call(s, st, i, fns, exts, slot, args, v, cx):
        m = st.mon
        if exts and exts[0] in ("fopen", "fopen64", "fdopen"): m["seek"] = "opened"
        if exts and exts[0] in ("fseek", "fseeko") and len(args) > 2: m["_end"] = args[2].l; s.on_seek(st, i, args)
        if exts and exts[0] in ("ftell", "ftello") and v is not None and m.get("_end") is not None and m["_end"].const() and m["_end"].c == 2: m["_size"] = v.l
        if exts and exts[0] in ("ftell", "ftello") and v is not None: m["_pos"] = v.l; s.induct(st)
        if "_last" in m and (exts and exts[0] in ("snprintf", "sprintf") or fns and fns[0].__dict__.get("varargs", len(args) > len(fns[0].params))): s.finish(st, v)
        if exts and exts[0] in ("lua_pcall", "lua_pcallk") and v is not None: m["_script"] = v.l
        if slot == ("http_settings_t", "on_message_complete"): m["seq"] = m.get("seq", ()) + ("delegate",)
    def on_store(s, st, i, p, v, cx):
        e = s.eng; b, o = e.split(p.l)
        if b is None: return
        t = e.tag_of(p, b, st.norm(o))
        if t == ("http_connection_t", "http_handler") and st.eq0(v.l): st.mon["seq"] = st.mon.get("seq", ()) + ("nohandler",)
        if "_t:" + b.name in st.mon and i.a[0].ty.k == "i" and i.a[0].ty.n == 8:
            tx = st.mon["_t:" + b.name]
            if not (tx.end is not None and st.eq0(st.norm(o).add(tx.end, -1))): st.mon.pop("_t:" + b.name)
    def hit(s, k): s.seen[k] = s.seen.get(k, 0) + 1
    # ---------------------------------------------------------------- writes
    def write(s, st, i, args, cx):
        e = s.eng; m = st.mon
        conn = e.split(args[0].l)[0]
        seq = m.get("seq", ())
        cb = e.split(args[3].l)[0]; cbf = cb.info[1] if cb is not None and cb.info and cb.info[0] == "fn" else None
        fwd = conn is not None and kind(conn) == "connection_c"
        if conn is not None and s.tags.get(conn, ("",))[0] != "http_parser_t": m["other"] = 1
        size = st.norm(strip(st, args[2].l))
        tb, t = s.text(st, args[1].l)
        off = st.norm(e.split(args[1].l)[1])
        h = Head(t, st, e) if t is not None and off.const() and off.c == 0 else None
        where = i.where; who = s.root.name
        if fwd:
            s.hit("forward"); m["seq"] = seq + ("forward",); return
        if h is not None and h.ishead:
            s.hit("head"); m["seq"] = seq + ("head:%s" % h.status,)
            s.head(st, i, h, size, args, cbf, tb)
        else:
            s.hit("data"); m["seq"] = seq + ("data",)
            if cbf is s.root: m["again"] = 1
            s.data(st, i, size, args, cbf)
        if cbf is not None and not st.eq0(args[3].l): s.param(st, i, args, cbf, h)
        elif h is not None and h.ishead and s.role == "request":
            s.say(False, "C05", "response has a completion", "%s:nocallback:%s" % (who, h.status), "", "the response with status %s of %s is written without a completion callback: the connection is neither closed nor released" % (h.status, who), where)
    def param(s, st, i, args, cbf, h):
        e = s.eng; l = st.norm(strip(st, args[4].l)); who = s.root.name
        if l.const():
            k = "flags"
            if s.role == "request":
                s.say(l.c == s.flags, "C05", "callback knows the flags", "%s:cbflags:%s" % (who, cbf.name), "%s gets the flags of the request from %s" % (cbf.name, who), "%s gets %s instead of the flags of the request (%s), so the connection is not closed or kept as negotiated" % (cbf.name, l.c, s.flags), i.where)
        else:
            b = e.split(l)[0]; k = "none"
            fl = s.ctx_flags(st, l)
            if fl is None and cbf in s.facts.get("needs", ()): fl = Lin(-1)
            if fl is not None:
                k = "ctx"
                if s.role == "request":
                    good = fl.const() and fl.c == s.flags
                    s.say(good, "C05", "callback knows the flags", "%s:cbflags:%s" % (who, cbf.name), "%s gets the flags of the request through its context from %s" % (cbf.name, who), "the context given to %s does not hold the flags of the request (%s instead of %s)" % (cbf.name, fl, s.flags), i.where)
        s.cbs.setdefault(cbf, set()).add(k)
    def ctx_flags(s, st, l):
        """value of the flags field of the object at l"""
        e = s.eng; b, o = e.split(l)
        if b is None: return None
        hit = None
        for off, c in st.mem.get(b, {}).items():
            if off == "?": continue
            t = e.cell_tags.get((b, off if isinstance(off, int) else off)) if e.cell_tags else None
            if t is not None and t[1] == "flags": hit = st.norm(c[0].l)
        if hit is not None: return hit
        di = b.info[1] if b.info and len(b.info) > 1 else None
        return Lin(s.flags) if s.role == "callback" and s.has_flags(b) else (Lin(-1) if s.has_flags(b) else None)
    def has_flags(s, b):
        di = b.info[1] if b.info and len(b.info) > 1 and b.info[1] else None
        if di is None: return False
        from .slots import field_name
        try:
            mod, d = di
            n = mod.md_node(d)
            while n is not None and n[0] == "DIDerivedType": n = mod.md_node(n[1].get("baseType"))
            els = mod.md_node(n[1].get("elements")) if n else None
            return any((mod.md_node(x) or (0, {}))[1].get("name") == "flags" for x in (els[1] if els else []))
        except Exception: return False
    def head(s, st, i, h, size, args, cbf, tb):
        e = s.eng; m = st.mon; who = s.root.name; where = i.where; nm = "%s:%s" % (who, h.status)
        # --- C05 the advertised header agrees
        if h.conn is None or "\0" in h.conn: s.say(h.conn is not None and None, "C05", "connection header", nm + ":conn", "", "the connection header of the response with status %s of %s is not determined by the request" % (h.status, who), where)
        else:
            good = ("keep-alive" in h.conn) == s.keep
            s.say(good, "C05", "connection header agrees", nm + ":conn", "status %s of %s advertises '%s' for flags %#x" % (h.status, who, h.conn, s.flags), "%s answers status %s with 'Connection: %s' although the request %s to keep the connection" % (who, h.status, h.conn, "asked" if s.keep else "did not ask"), where)
        # --- C10 the head ends, the length is announced once and equals the body
        gap = any(q[0] == "gap" for q in h.t.p)
        s.say(not gap, "C10", "head has no gap", nm + ":gap", "the parts of the head of %s follow each other" % nm, "a part of the head of the response %s is written away from the end of the previous part" % nm, where)
        s.say(h.ended, "C10", "head ends with an empty line", nm + ":end", "head of %s ends with one empty line" % nm, "the head of the response with status %s of %s does not end with an empty line" % (h.status, who), where)
        if not h.ended: return
        body, exact = s.body_len(st, h)
        s.say(h.lengths == 1, "C10", "length announced once", nm + ":lengths", "one Content-Length in %s" % nm, "the response with status %s of %s announces its length %d times" % (h.status, who, h.lengths), where)
        if h.length is not None:
            A = st.norm(h.length)
            if h.body and body is not None:
                good = s.same(st, A, body)
                s.say(good, "C10", "announced length", nm + ":len", "%s announces %s, body %s" % (nm, A, body), "the response with status %s of %s announces %s bytes but its body has %s" % (h.status, who, A, body), where)
            elif not h.body:
                s.later(st, i, h, A, args, cbf, nm)
            else: s.say(None, "C10", "announced length", nm + ":len", "", "length of the body of %s not determined" % nm, where)
        snd = s.facts.get("senders", {}).get(cbf)
        if snd is not None and snd[0] == "range":
            a = s.cell(st, i, args[4].l, snd[1]); b = s.cell(st, i, args[4].l, snd[2]); F = m.get("_size")
            if snd[1] is None: s.say(False, "C12", "starts at the first byte", nm + ":start", "", "%s reads the file without moving to the first byte of the range" % cbf.name, where)
            elif (a is None or b is None) and e.split(args[4].l)[0] is not None: s.say(False, "C12", "range set", nm + ":set", "", "%s sends the range of its context without setting the %s byte of it" % (who, "first" if a is None else "last"), where)
            elif a is None or b is None or F is None: s.say(None, "C12", "range inside the file", nm + ":range", "", "range or size of the file not determined at %s" % nm, where)
            elif h.status == 206 or h.range is not None:
                F = st.norm(F)
                s.say(st.ge(a) and st.ge(b.add(a, -1)) and st.ge(F.addc(-1).add(b, -1)), "C12", "range inside the file", nm + ":range", "%s: 0 <= %s <= %s < %s" % (nm, a, b, F), "the range %s to %s sent with status %s by %s is not shown to lie inside a file of %s bytes" % (a, b, h.status, who, F), where)
                s.say(h.range is not None, "C12", "range announced", nm + ":announced", "%s announces its range" % nm, "the partial response of %s does not announce its range" % who, where)
                if h.range is not None:
                    good = s.same(st, h.range[0], a) and s.same(st, h.range[1], b) and s.same(st, h.range[2], F)
                    s.say(good, "C12", "range announced", nm + ":content-range", "%s announces the range that is sent" % nm, "%s announces the range %s-%s/%s but sends %s to %s of %s" % ((who,) + tuple(h.range) + (a, b, F)), where)
            else:
                F = st.norm(F)
                s.say(st.eq0(a) and st.eq0(b.add(F, -1).addc(1)), "C12", "whole file sent", nm + ":whole", "%s sends the whole file" % nm, "the response with status %s of %s sends the bytes %s to %s of a file of %s bytes" % (h.status, who, a, b, F), where)
        # --- C10 the size given to the socket layer
        ok = False
        b, o = e.split(args[1].l)
        L = models.strlen_of(e, st, i.fn, V(args[1].l, args[1].ext))
        if h.t.end is not None and s.same(st, size, h.t.end): ok = True
        if st.eq0(size.add(L, -1)): ok = True
        tot = s.total(st, h.t)
        if tot is not None and s.same(st, size, tot): ok = True
        if not any(q[0] in ("gap",) for q in h.t.p):
            s.say(ok, "C10", "size written", nm + ":size", "%s writes the length of its text" % nm, "the size given to the write of the response with status %s of %s (%s) is not the length of its text" % (h.status, who, size), where)
        for hook in s.facts.get("hooks", ()): hook(s, st, i, h, args, cbf, nm)
    def total(s, st, t):
        n = Lin(0)
        for q in t.p:
            if q[0] == "lit": n = n.addc(len(q[1]))
            elif q[0] == "s" and q[3] is None: n = n.add(q[4])
            elif q[0] == "m" and q[3] is not None: n = n.add(q[3])
            else: return None
        return n
    def same(s, st, a, b):
        return st.eq0(st.norm(strip(st, a)).add(st.norm(strip(st, b)), -1))
    def body_len(s, st, h):
        n = Lin(0)
        for q in h.body:
            if q[0] == "lit": n = n.addc(len(q[1]))
            elif q[0] == "s":
                L = q[4]
                if q[3] is None: n = n.add(L)
                else:
                    P = strip(st, q[3])
                    if st.ge(L.add(P, -1)): n = n.add(P)
                    elif st.ge(P.add(L, -1)): n = n.add(L)
                    else: return None, False
            elif q[0] == "m" and q[3] is not None: n = n.add(q[3])
            else: return None, False
        return st.norm(n), True
    def later(s, st, i, h, A, args, cbf, nm):
        """no body in the text: nothing is announced, or the completion callback sends what was announced"""
        e = s.eng; who = s.root.name
        snd = s.facts.get("senders", {}).get(cbf)
        if h.status in (304, 204) or st.eq0(A):
            s.say(st.eq0(A) and snd is None, "C10", "announced length", nm + ":len", "%s announces nothing and nothing follows" % nm, "the response with status %s of %s announces %s bytes and %s" % (h.status, who, A, "a body is sent by %s" % cbf.name if snd is not None else "none follow"), i.where); return
        if snd is None:
            s.say(False, "C10", "announced length", nm + ":len", "", "the response with status %s of %s announces %s bytes but no body follows" % (h.status, who, A), i.where); return
        ctx = args[4].l
        if snd[0] == "range":
            a = s.cell(st, i, ctx, snd[1]); b = s.cell(st, i, ctx, snd[2])
            if a is None or b is None: s.say(None, "C10", "announced length", nm + ":len", "", "range of %s not determined" % nm, i.where); return
            good = s.same(st, A, b.add(a, -1).addc(1))
            s.say(good, "C10", "announced length", nm + ":len", "%s announces %s, the range is %s to %s" % (nm, A, a, b), "the response with status %s of %s announces %s bytes but the bytes %s to %s are sent" % (h.status, who, A, a, b), i.where)
        elif snd[0] == "string":
            good = False
            for bb, cells in list(st.mem.items()):
                for off, c in list(cells.items()):
                    if off == "?" or e.cell_tags.get((bb, off), ("", ""))[1] != snd[1]: continue
                    if s.same(st, A, models.strlen_of(e, st, i.fn, c[0])): good = True
            s.say(good, "C10", "announced length", nm + ":len", "%s announces the length of %s, which %s sends" % (nm, snd[1], cbf.name), "the response with status %s of %s announces %s bytes but %s sends the string %s" % (h.status, who, A, cbf.name, snd[1]), i.where)
    def cell(s, st, i, ctx, field):
        """current value of a field of the object at ctx"""
        e = s.eng; b, o = e.split(ctx)
        if b is None: return None
        for off, c in st.mem.get(b, {}).items():
            if off == "?": continue
            if e.cell_tags.get((b, off)) == field: return st.norm(c[0].l)
        return None
    # ---------------------------------------------------------------- callbacks that send data
    def data(s, st, i, size, args, cbf):
        e = s.eng; m = st.mon
        b, o = e.split(args[1].l)
        if s.role != "callback" or b is None: return
        n = m.get("_fread:" + b.name)
        if "_fread:" + b.name in m:
            good = len(size.t) == 1 and size.c == 0 and size.t[0][0].name.startswith("fread@")
            s.say(good, "C10", "sends what was read", "%s:fread" % s.root.name, "%s writes as many bytes as were read" % s.root.name, "%s writes %s bytes of a buffer in which a different number was read" % (s.root.name, size), i.where)
            s.hit("sender:file")
        else:
            L = models.strlen_of(e, st, i.fn, V(args[1].l, args[1].ext)) if not st.eq0(size) else None
            if L is not None and kind(b) not in ("buffer", "out_buffer"):
                good = st.eq0(size.add(L, -1))
                s.say(good, "C10", "sends the whole string", "%s:string" % s.root.name, "%s writes the length of the string" % s.root.name, "%s writes %s bytes of a string of %s" % (s.root.name, size, L), i.where)
                s.seen["sends"] = kind(b)
    # ---------------------------------------------------------------- exits
    def on_return(s, st, i, v, cx, depth):
        if depth != 1: return
        m = st.mon; seq = m.get("seq", ()); who = s.root.name; s.hit("exit")
        writes = [q for q in seq if q.startswith("head:") or q == "data"]
        last = i.where
        if s.role == "request":
            n = len(writes) + seq.count("forward") + seq.count("delegate")
            sc = m.get("_script"); script = sc is not None and sc is not True and st.eq0(sc)
            if n == 0 and script: n = 1
            what = "+".join(q for q in seq if q not in ("acquire",)) or "nothing"
            if seq.count("close") and n == 0: n = 1
            s.say(n == 1, "C04", "one response per request", "%s:exit:%s" % (who, "none" if n == 0 else "several"), "%s ends after %s" % (who, "the script answered" if script and not writes else what), "%s can end %s (%s)" % (who, "without answering the request" if n == 0 else "after %d answers to one request" % n, what), s.last(st) or last)
            if (writes or "forward" in seq or script) and "other" not in m: s.say("acquire" in seq and ("acquire" == next(q for q in seq + ("forward",) if q == "acquire" or q == "data" or q.startswith("head:") or q == "forward")), "C04", "connection acquired while answering", "%s:acquire" % who, "%s acquires the connection before it answers" % who, "%s answers without acquiring the connection first: the next request on it is interpreted while this response is in flight" % who, last)
            s.say("release" not in seq, "C04", "connection acquired while answering", "%s:released" % who, "%s keeps the connection acquired" % who, "%s releases the connection before the response was sent" % who, last)
        elif s.role == "callback" and s.facts.get("kind", {}).get(s.root, {"none"}) & {"flags", "ctx"}:
            end = [q for q in seq if q in ("close", "release")]
            if writes:
                if m.get("again") and "fread" not in m: s.say(s.progressed(st), "C05", "queues itself again only with progress", "%s:again" % who, "%s changes what it tests before it queues itself again" % who, "%s queues itself again with the context it found: the response never ends" % who, last)
                s.say(len(writes) == 1 and not end and "unset" not in seq, "C05", "more data follows", "%s:more" % who, "%s writes once and keeps the connection" % who, "%s writes %d times and also ends the response (%s)" % (who, len(writes), "+".join(seq)), last); s.hit("more"); return
            if not end: s.say(False, "C05", "end of the response", "%s:noend:%s" % (who, "keep" if s.keep else "close"), "", "%s can end without closing or releasing the connection (flags %#x)" % (who, s.flags), last); return
            s.say(len(end) == 1, "C05", "end of the response", "%s:twice" % who, "%s ends the response once" % who, "%s closes or releases the connection %d times" % (who, len(end)), last)
            if not s.keep: s.say(end[0] == "close", "C05", "closes as negotiated", "%s:close" % who, "%s closes the connection when it is not kept alive" % who, "%s does not close the connection although the request did not ask to keep it" % who, last)
            elif end[0] == "release":
                s.hit("kept")
                if "fread" in m:
                    r = s.rest(st)
                    s.say(None if r is None else st.le(r) if hasattr(st, "le") else st.ge(r.scale(-1)), "C10", "kept only when all was sent", "%s:short" % who, "%s keeps the connection only when the announced range was sent" % who, "%s keeps the connection although a part of the announced range was not sent" % who, last)
                ok = "unset" in seq and "nohandler" in seq and seq.index("unset") < seq.index("release") and seq.index("nohandler") < seq.index("release")
                nul = any(z.name.endswith(".http_handler") and st.eq0(e) for z, e in ()) or m.get("_nohandler")
                s.say(ok or "nohandler" not in seq and s.handler_absent(st), "C05", "request state reset", "%s:reset" % who, "%s removes the handler before it releases the connection" % who, "%s releases the connection without removing the handler of the finished request first" % who, last)
            else:
                s.hit("closed-keep")
                fl = s.cur_flags(st)
                forced = fl is not None and not fl & FLAG or "unset" not in seq
                s.say(forced, "C05", "kept as negotiated", "%s:kept" % who, "%s closes a kept connection only after a failure" % who, "%s closes the connection although it was to be kept alive" % who, last)
    def handler_absent(s, st):
        for b, cells in st.mem.items():
            for off, c in cells.items():
                if off != "?" and s.eng.cell_tags.get((b, off)) == ("http_connection_t", "http_handler") and st.eq0(c[0].l): return True
        return False
    def cur_flags(s, st):
        for b, cells in st.mem.items():
            for off, c in cells.items():
                t = s.eng.cell_tags.get((b, off)) if off != "?" else None
                if t is not None and t[1] == "flags" and t[0] != "http_parser_t":
                    l = st.norm(c[0].l)
                    if l.const(): return l.c & 0xff
        return None
    def last(s, st): return None

Ty_ptr = PTR
def st_c(off): return off.c if isinstance(off, Lin) and off.const() else off
STOP = set()
def strlen_off(o, b): return len(o.t) == 1 and o.c == 0 and o.t[0][1] == 1 and o.t[0][0].name == "strlen(%s)" % b.name or len(o.t) == 1 and o.t[0][0].name.startswith("strlen(%s" % b.name)
def strip(st, l):
    """value behind width conversions (the sizes concerned are far below 4 GiB, see DESIGN.md)"""
    for _ in range(6):
        if len(l.t) == 1 and l.c == 0 and l.t[0][1] == 1:
            y = l.t[0][0]
            if y.kind == "term" and y.key[1] in ("trunc", "zext", "sext") and isinstance(y.key[-1], Lin): l = y.key[-1]; continue
        break
    return st.norm(l)

def keepflag(p):
    from checks import C29
    for en in ("http_flags_e", "flags_e"):
        try: ev = C29.enum_of(p, en)
        except AnalysisBroken: continue
        for a, b in ev.items():
            if a == "FLAG_KEEP_ALIVE": return b
            if b == "FLAG_KEEP_ALIVE": return a
    raise AnalysisBroken("keep alive flag not found")

def requests(p):
    """functions installed as on_message_complete by the request handlers"""
    st = static(p); out = []
    sets = [t for t in st.slots.get(("http_handler_t", "set"), ()) if hasattr(t, "params")]
    reach = st.reach(sets)
    for f in p.fns.values():
        if f not in reach: continue
        for i in f.instrs():
            if i.op == "store" and i.a[0].k == "g":
                t = p.resolve(f.mod, i.a[0].v)
                if t is not None and st.addr(f, i.a[1])[:3] == ("tag", "http_settings_t", "on_message_complete") and t not in out: out.append(t)
    return out

class Scout(Resp):
    """what a completion callback sends: ("range", start field, end field), ("string", field) or nothing"""
    def __init__(s, root):
        Resp.__init__(s, root, 0, "callback", {}); s.start = None; s.snd = None; s.needs = False
    def result(s): return s.snd, s.needs
    def on_init(s, st, f, ins, y, base, off, tag, ty):
        s.track(y, base, off, tag)
        if tag and tag[1] == "flags" and tag[0].endswith("_context_t") and base.name == s.root.params[2][0].lstrip("%"): s.needs = True
        return None
    def on_call(s, st, i, fns, exts, slot, args, cx):
        if exts and exts[0] in ("fseek", "fseeko", "lseek") and st.eq0(args[2].l):
            l = st.norm(strip(st, args[1].l))
            if len(l.t) == 1 and l.c == 0 and l.t[0][0] in s.tags: s.start = s.tags[l.t[0][0]]
        return Resp.on_call(s, st, i, fns, exts, slot, args, cx)
    def write(s, st, i, args, cx):
        e = s.eng; b, o = e.split(args[1].l)
        if b is None: return
        if "_fread:" + b.name in st.mon:
            ends = {t for y, t in s.tags.items() if t[0].endswith("_context_t") and t != s.start and "byte" in t[1] or False}
            n = st.mon["_fread:" + b.name]
            ends = s.reads_of(i.fn)
            s.snd = ("range", s.start, ends)
        elif b in s.tags: s.snd = ("string", s.tags[b][1])
    def reads_of(s, f):
        """the size field the count of the read depends on"""
        sl = static(s.eng.prog); d = sl.index(f)
        for g in [f] + [t for j in sl.calls.get(f, ()) for t in sl.targets(f, j) if hasattr(t, "params") and t.file == f.file]:
            d = sl.index(g)
            for j in g.instrs():
                if j.op == "call" and j.x.k == "g" and j.x.v == "fread":
                    seen = set(); w = [j.a[2], j.a[1]]; hit = set()
                    while w:
                        v = w.pop()
                        if v.k != "loc" or v.v in seen or v.v not in d: continue
                        seen.add(v.v); q = d[v.v]
                        if q.op == "load":
                            a = sl.addr(g, q.a[0])
                            if a[0] == "tag" and a[1].endswith("_context_t"): hit.add(a[1:3])
                            continue
                        if q.op == "call": continue
                        if q.op == "phi": w += [x for _, x in q.x]
                        w += q.a
                    hit.discard(s.start)
                    if len(hit) == 1: return hit.pop()
        return None

_one = None
def _job(n):
    jobs, p, make, hooks = _one
    f, flags, role, facts = jobs[n]
    mon = make(f, flags, role, facts)
    e = ai.Engine(p, mon, depth=9, budget=400000, inline=roots.inline_for(f))
    e.fine = 64
    def setup(e, st, f, args):
        if role == "callback" and len(args) > 2 and facts.get("kind", {}).get(f) == {"flags"}: args[2] = V(Lin(flags))
    err = None
    try: e.run(f, setup=setup)
    except AnalysisBroken as x: err = str(x)
    return n, mon.result(), e.incomplete or err, [g.name for g in e.visited], e.budget0 - e.budget

from . import ai
def runs(ctx, p, jobs, make):
    global _one
    from multiprocessing import Pool
    static(p); _one = (jobs, p, make, None)
    out = [None] * len(jobs)
    with Pool(min(8, max(1, len(jobs)))) as P:
        for n, r, inc, vis, steps in P.imap_unordered(_job, range(len(jobs))):
            ctx.count("abstract_steps", steps); ctx.fns |= set(vis)
            if inc: ctx.count("entries_cut_short"); ctx.notes.append("%s: analysis stopped early (%s)" % (jobs[n][0].name, inc))
            out[n] = r
    return out

def analyse(ctx, p, prop, make=Resp, hooks=(), extra=()):
    """the whole analysis; reports the obligations of one property.  Functions cross process borders by key."""
    global FLAG
    FLAG = keepflag(p); sl = static(p)
    reqs = requests(p) + [f for f in extra]
    ctx.rule("request handlers", len(reqs), 3)
    cands = [t for t in sl.slots.get(("data_t", "callback"), ()) if hasattr(t, "params") and not roots.is_test(t)]
    sc = runs(ctx, p, [(f, 0, "callback", {}) for f in cands], lambda f, fl, ro, fa: KeyScout(f))
    sc = [r or (None, False) for r in sc]
    senders = {f: r[0] for f, r in zip(cands, sc) if r[0] is not None}
    facts = {"senders": senders, "hooks": hooks, "needs": {f for f, r in zip(cands, sc) if r[1]}}
    allv = 0xff
    jobs = [(f, fl, "request", facts) for f in reqs for fl in (FLAG, 0, allv, allv & ~FLAG)]
    res = runs(ctx, p, jobs, lambda *a: KeyResp(make)(*a))
    kinds = {}; seen = {}
    for (f, fl, ro, fa), (out, cbs, sn) in zip(jobs, res):
        for k, v in cbs.items(): kinds.setdefault(p.fns[k] if k in p.fns else k, set()).update(v)
        for k, v in sn.items():
            if not isinstance(v, str): seen.setdefault(f, {}).setdefault(k, 0); seen[f][k] += v
    facts2 = dict(facts); facts2["kind"] = kinds
    cbf = [f for f in kinds if kinds[f] & {"flags", "ctx"}]
    jobs2 = [(f, fl, "callback", facts2) for f in cbf for fl in (FLAG, 0, allv, allv & ~FLAG)]
    res2 = runs(ctx, p, jobs2, lambda *a: KeyResp(make)(*a)) if jobs2 else []
    for (f, fl, ro, fa), (out, cbs, sn) in zip(jobs2, res2):
        for k, v in sn.items():
            if not isinstance(v, str): seen.setdefault(f, {}).setdefault(k, 0); seen[f][k] += v
    for (f, fl, ro, fa), (out, cbs, sn) in list(zip(jobs, res)) + list(zip(jobs2, res2)):
        done = set()
        for good, pr, rule, key, what, msg, where in out:
            if pr != prop: continue
            if good is None: ctx.open(key, msg or what)
            elif good:
                if (rule, key, what) not in done: done.add((rule, key, what)); ctx.ok(rule, what)
            else: ctx.bad(key, msg, where)
    return reqs, cbf, seen, senders

class KeyScout(Scout): pass
def KeyResp(make):
    def mk(f, fl, ro, fa):
        m = make(f, fl, ro, fa)
        r0 = m.result
        def result():
            out, cbs, seen = r0()
            return out, {k.key: v for k, v in cbs.items()}, seen
        m.result = result
        return m
    return mk

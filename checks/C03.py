"""Dataflow and typestate of the authentication by abstract interpretation of every path of the handlers: a success
response may only be written where the location asks for no authentication, or where a comparison is known to have
succeeded between the credentials received with this request and either the value looked up for that user in the map
made of the configured password file, or the built-in credentials.  The settings of the location reach the request on
every path, a new request starts without credentials, and the location is matched on the path that is served."""
import re
from vsa import resp, slots, roots, ai
from vsa.ai import *
from vsa.resp import Resp, kind, strip, st_c
from vsa.ir import AnalysisBroken

AUTH = ("auth_basic", "auth_file")
class Auth(Resp):
    """provenance of texts: mon["_lab:"+base] = frozenset of labels; _cmps: comparisons (kind, value)"""
    def key(s, st):
        k = Resp.key(s, st)
        c = st.mon.get("_cmps")
        if c: k += (("cmps", tuple((a, "0" if st.eq0(l) else "1" if st.ne0(l) else "?") for a, l in c)),)
        return k
    def join(s, a, b, n, jv):
        out = Resp.join(s, a, b, n, jv)
        for k in set(a.mon) | set(b.mon):
            if k.startswith("_lab:") and k not in out: out[k] = a.mon.get(k, frozenset()) | b.mon.get(k, frozenset())
            elif k.startswith("_pw:") and k not in out and (k not in a.mon or k not in b.mon): out[k] = a.mon.get(k, b.mon.get(k))
        return out
    def lab(s, st, v):
        if v is None: return frozenset()
        e = s.eng; b, o = e.split(v.l)
        if b is None: return frozenset()
        t = e.tag_of(v, b, st.norm(o)); out = st.mon.get("_lab:" + b.name, frozenset())
        y = s.tags.get(b)
        for q in (t, y):
            if q is not None and q[0].endswith("_context_t"):
                if q[1] == "authorization": out = out | {"auth"}
                if q[1] == "auth_file": out = out | {"auth_file"}
        return out
    def mark(s, st, l, lab):
        b, o = s.eng.split(l)
        if b is not None and lab: st.mon["_lab:" + b.name] = st.mon.get("_lab:" + b.name, frozenset()) | lab
    def on_copy(s, st, i, dst, src, n, cx, what):
        Resp.on_copy(s, st, i, dst, src, n, cx, what)
        if src is not None: s.mark(st, dst.l, s.lab(st, src) & {"auth", "user"})
    def value(s, st, v, i=None, cx=0):
        b, o = s.eng.split(v.l)
        o = st.norm(o) if b is not None else None
        c = st.mem.get(b, {}).get(o.c) if b is not None and o.const() else None
        if c is None and i is not None and b is not None and o.const(): return s.eng.load(st, i.fn, i, v, resp.Ty_ptr, None, cx)
        return c[0] if c is not None else None
    def after_call(s, st, i, fns, exts, slot, args, v, cx):
        Resp.after_call(s, st, i, fns, exts, slot, args, v, cx)
        m = st.mon; nm = fns[0].name if fns else exts[0] if exts else ""
        if nm.startswith("decode_base64") and len(args) > 2:
            r = s.value(st, args[2], i, cx)
            if r is not None: s.mark(st, r.l, s.lab(st, args[0]))
        elif nm in ("process_passwd_file",) and len(args) > 1:
            r = s.value(st, args[1], i, cx)
            if r is not None:
                b = s.eng.split(r.l)[0]
                if b is not None and "auth_file" in s.lab(st, args[0]): s.mark(st, r.l, frozenset({"passwd"})); m["_pw:" + b.name] = v.l if v is not None else None
            s.hit("passwd")
        elif re.match(r"get_value\w*_(hash|sort)_map$", nm) and len(args) > 2:
            b = s.eng.split(args[0].l)[0]
            if b is not None and "passwd" in s.lab(st, args[0]) and "auth" in s.lab(st, args[1]):
                r = s.value(st, args[-1], i, cx); pv = m.get("_pw:" + b.name)
                s.say(pv is not None and st.eq0(pv), "C03", "password file processed", "passwd:unchecked", "users are looked up after the password file was processed", "users are looked up in the password map without testing that the file was processed", i.where)
                if r is not None: s.mark(st, r.l, frozenset({"stored"})); m["_null"] = r.l
        elif nm in ("strcmp", "strncmp", "memcmp", "strcasecmp", "strncasecmp", "bcmp") and v is not None and not (fns and False):
            a, b = s.lab(st, args[0]), s.lab(st, args[1])
            k = None
            ca = [models_const(s.eng, st, x) for x in args[:2]]
            if "auth" in a and "stored" in b or "auth" in b and "stored" in a: k = "password" if nm == "strcmp" else "partial"
            elif ("auth" in a or "auth" in b) and any(ca): k = "builtin" if nm == "strcmp" else "partial"
            elif ("auth_file" in a or "auth_file" in b) and any(ca): k = "default"
            if k is not None:
                c = m.get("_cmps", ())
                if len(c) < 12: m["_cmps"] = c + ((k, v.l),)
                s.hit("cmp:" + k)
                if k in ("password", "builtin", "partial"): s.say(s.received(st), "C03", "credentials of this request", "received:%s" % i.fn.name, "credentials are compared after they were received", "the credentials are compared without testing that this request carried them", i.where)
    def received(s, st):
        got = False
        for (b, off), y in s.inits.items():
            t = s.tags[y]
            if t[0].endswith("_context_t") and t[1].startswith("authorization") and t[1] != "authorization":
                l = st.norm(Lin(0, ((y, 1),)))
                if l.const() and l.c != 0: got = True
        return got
    def head(s, st, i, h, size, args, cbf, tb):
        m = st.mon; g = m.get("_auth"); who = s.root.name
        if h.status is None or h.status < 400:
            s.hit("success")
            if s.protects():
                if g is None: s.say(False, "C03", "success only after the credentials matched", "%s:%s:unasked" % (who, h.status), "", "%s answers status %s without looking at the authentication of the location" % (who, h.status), i.where)
                elif st.eq0(g): s.say(True, "C03", "success only after the credentials matched", "%s:%s:open" % (who, h.status), "%s answers status %s for an unprotected location" % (who, h.status), "", i.where)
                else:
                    ok = [k for k, l in m.get("_cmps", ()) if st.eq0(l)]
                    good = "password" in ok or "builtin" in ok and "default" in ok
                    s.say(good, "C03", "success only after the credentials matched", "%s:%s" % (who, h.status), "%s answers status %s after the %s comparison succeeded" % (who, h.status, "+".join(sorted(set(ok)))), "%s can answer status %s for a protected location without a successful comparison of the credentials%s" % (who, h.status, " (only part of the password is compared)" if "partial" in ok else ""), i.where)
        Resp.head(s, st, i, h, size, args, cbf, tb)
    def protects(s):
        return s.root in s.facts.get("protected", ())

def models_const(e, st, v):
    from vsa import models
    x = models.const_string(e, st, v)
    return x is not None

class Fields(Monitor):
    """what the context of a request holds when a slot function returns"""
    def __init__(s, root, what): s.root = root; s.what = what; s.tags = {}; s.out = []
    def result(s): return s.out
    def key(s, st): return ()
    def on_init(s, st, f, ins, y, base, off, tag, ty):
        if tag: s.tags[y] = tag
        return None
    def on_return(s, st, i, v, cx, depth):
        if depth != 1: return
        e = s.eng; have = {}
        for b, cells in st.mem.items():
            for off, c in cells.items():
                if off == "?": continue
                t = e.cell_tags.get((b, off))
                if t is not None and t[0].endswith("_context_t"):
                    l = st.norm(c[0].l); y = e.split(l)[0]
                    have[t[1]] = (l.c if l.const() else None, s.tags.get(y) if y is not None else s.tags.get(l.t[0][0]) if len(l.t) == 1 and l.c == 0 else None)
        s.out.append((i.where, have))
    def say(s, *a): pass

def run_fields(p, f):
    m = Fields(f, None); e = ai.Engine(p, m, depth=6, budget=200000, inline=roots.inline_for(f)); e.fine = 64
    e.run(f)
    return m.out

def run(ctx):
    p = ctx.prog(); st = slots.static(p)
    # request handlers whose context has authentication settings
    prot = set()
    def uses(f):
        d = st.index(f)
        return any(i.op == "load" and st.addr(f, i.a[0])[:1] == ("tag",) and st.addr(f, i.a[0])[2] == "auth_basic" and st.addr(f, i.a[0])[1].endswith("_context_t") for i in f.instrs())
    loc = [t for t in st.slots.get(("http_settings_t", "on_location"), ()) if hasattr(t, "params")]
    holders = []
    for f in loc:
        out = run_fields(p, f); ctx.fns.add(f.name)
        names = {q for _, h in out for q in h}
        if not any(i.op == "store" and st.addr(f, i.a[1])[:1] == ("tag",) and st.addr(f, i.a[1])[2] in AUTH for g in [f] + [t for j in st.calls.get(f, ()) for t in st.targets(f, j) if hasattr(t, "params")] for i in g.instrs() for f in [g]): continue
        holders.append(f)
        for where, h in out:
            for q in AUTH:
                src = h.get(q, (None, None))[1]
                ctx.expect(src is not None and src[1] == q and src[0].endswith("location_t"), "settings of the location reach the request", "%s:%s" % (f.name, q), "%s stores the %s of the location" % (f.name, q), "%s can return without taking over the %s of the location: its requests are not authenticated" % (f.name, q), where)
    ctx.expect(bool(holders), "settings of the location reach the request", "noholder", "on_location takes over the authentication", "no handler takes over the authentication settings of its location")
    files = {f.file for f in holders}
    reqs = [f for f in resp.requests(p) if f.file in files]
    # a new request starts without credentials
    n = 0
    for f in [t for t in st.slots.get(("http_handler_t", "set"), ()) if hasattr(t, "params") and t.file in files]:
        for where, h in run_fields(p, f):
            for q in [q for q in h if q.startswith("authorization") and q != "authorization"] or ["authorization_status"]:
                n += 1
                ctx.expect(h.get(q, (None,))[0] == 0, "new request has no credentials", "%s:%s" % (f.name, q), "%s starts with %s 0" % (f.name, q), "%s does not clear %s: a request may be authenticated by the credentials of an earlier one" % (f.name, q), where)
            for q in AUTH:
                n += 1
                ctx.expect(h.get(q, (None,))[0] == 0, "new request has no credentials", "%s:%s" % (f.name, q), "%s starts with %s NULL" % (f.name, q), "%s does not reset %s" % (f.name, q), where)
    ctx.expect(n > 0, "new request has no credentials", "noset", "set functions analysed", "no function sets up the context of a request")
    # the responses
    protected = set(reqs)
    def make(f, fl, ro, fa):
        fa = dict(fa); fa["protected"] = protected
        return Auth(f, fl, ro, fa)
    r, cbs, seen, snd = resp.analyse(ctx, p, "C03", make=make)
    ctx.expect(any(seen.get(f, {}).get("success") for f in reqs), "success responses found", "nosuccess", "success responses of %d functions" % len(reqs), "no success response found")
    ctx.expect(any(seen.get(f, {}).get("cmp:password") for f in reqs), "password comparison found", "nocompare", "comparison with the stored password found", "the password received is never compared with the one stored for the user")
    # locations are matched on the text that is served
    n = 0
    for f in sl_reach(st, st.slots.get(("http_settings_t", "on_url"), ())):
        for i in st.calls.get(f, ()):
            if i.x.k != "g" or i.x.v != "pcre_exec": continue
            n += 1; d = st.index(f)
            def root(v):
                for _ in range(8):
                    if v.k == "loc" and v.v in d and d[v.v].op in ("gep", "bitcast"): v = d[v.v].a[0]
                    else: break
                return v.v if v.k == "loc" else None
            s0 = root(i.a[2])
            dec = any(j.x.k == "g" and "decode" in j.x.v and any(root(a) == s0 for a in j.a) for j in st.calls.get(f, ()))
            ctx.expect(dec, "locations matched on the decoded path", "location:undecoded", "%s matches the decoded path" % f.name, "%s matches the locations on the path as it was received, not on the one that is served: an escaped or dotted form of a protected path is served from the unprotected contents directory" % f.name, i.where)
    ctx.count("location_matches", n)

def sl_reach(st, roots_):
    return [g for g in st.reach([t for t in roots_ if hasattr(t, "params")]) if hasattr(g, "params") and g.file.startswith(("src/viriatum/handlers/", "modules/"))]

"""Provenance and guards of the paths given to the file system while a request is handled.  The functions that reach a
file system call with one of their parameters are computed from the IR; every such call of the request handlers, of
the functions they run and of their completion callbacks is an obligation: its path is a constant, a configured value,
or text of the request below a fixed base for which a scan for parent directory segments is known to have passed on
that very text.  The scanner is decided as a dataflow problem in product with the automaton of '..' segments; the
formatted paths must join base and request with a separator; the decoded path is always made of the current path."""
import re
from vsa import resp, slots, roots, ai, models, scan
from vsa.ai import *
from vsa.resp import strip, kind
from vsa.ir import AnalysisBroken

EXT = {"fopen": (0,), "fopen64": (0,), "open": (0,), "open64": (0,), "opendir": (0,), "stat": (0,), "stat64": (0,), "lstat": (0,), "access": (0,), "freopen": (0,), "creat": (0,), "remove": (0,), "unlink": (0,), "rename": (0, 1), "mkdir": (0,), "rmdir": (0,), "readlink": (0,), "__xstat": (1,), "chmod": (0,), "scandir": (0,), "openat": (1,), "fstatat": (1,), "truncate": (0,)}
SLOTS = ("on_message_begin", "on_url", "on_header_field", "on_header_value", "on_headers_complete", "on_body", "on_message_complete", "on_path", "on_location", "on_virtual_url")

def sinks(p, sl):
    """(function, parameter) pairs whose value is used as a path of the file system"""
    out = {}; ch = True
    while ch:
        ch = False
        for f in p.fns.values():
            if roots.is_test(f): continue
            names = [x[0] for x in f.params]
            for i in sl.calls.get(f, ()):
                for t in sl.targets(f, i):
                    ks = EXT.get(t) if isinstance(t, str) else out.get(t)
                    if isinstance(t, str) and ks is None: continue
                    for k in ks or ():
                        if k < len(i.a) and i.a[k].k == "loc":
                            for nm in sources(sl, f, i.a[k]):
                                if nm in names and names.index(nm) not in out.get(f, ()):
                                    out.setdefault(f, set()).add(names.index(nm)); ch = True
    return out
def sources(sl, f, v):
    d = sl.index(f); seen = set(); w = [v]; out = set()
    while w:
        v = w.pop()
        if v.k != "loc" or v.v in seen: continue
        seen.add(v.v); q = d.get(v.v)
        if q is None: out.add(v.v)
        elif q.op == "phi": w += [x for _, x in q.x]
        elif q.op in ("select",): w += q.a[1:]
        elif q.op in ("bitcast", "freeze"): w.append(q.a[0])
    return out

class Paths(Monitor):
    def __init__(s, root, facts):
        s.root = root; s.facts = facts; s.out = []; s.tags = {}; s.seen = {}; s.cbs = []; s.fields = set()
    def result(s): return s.out, s.seen, s.cbs, s.fields
    def say(s, good, rule, key, what, msg, where): s.out.append((good, rule, key, what, msg, where))
    def key(s, st):
        m = st.mon
        return (tuple((k, repr(a), r(st, l)) for k, a, l, *_ in m.get("_g", ())), tuple(sorted((k, v) for k, v in m.items() if k.startswith("w:"))))
    def join(s, a, b, n, jv):
        out = {k: v for k, v in a.mon.items() if k in b.mon and b.mon[k] == v}
        g = tuple(x for x in a.mon.get("_g", ()) if x in b.mon.get("_g", ()))
        if g: out["_g"] = g
        for k in set(a.mon) | set(b.mon):
            if k.startswith("_p:") and k not in out:
                x, y = a.mon.get(k), b.mon.get(k)
                out[k] = (("mix", None),) if x is not None and y is not None else x or y
            if k.startswith("w:") and k not in out: out[k] = a.mon.get(k, b.mon.get(k))
        return out
    def on_init(s, st, f, ins, y, base, off, tag, ty):
        if tag: s.tags[y] = tag
        return None
    # ---- identity and provenance of a text
    def ident(s, st, v):
        e = s.eng; b, o = e.split(v.l)
        if b is None: return None
        o = st.norm(o)
        t = e.tag_of(v, b, o)
        if t is not None and t[0].endswith("_context_t"): return ("f",) + tuple(t)
        return ("b", b.name, repr(o))
    def request(s, st, v):
        """True: text of the request; False: constant or configured; None: unknown"""
        e = s.eng; b, o = e.split(v.l)
        if b is None: return False if st.norm(v.l).const() else None
        if models.const_string(e, st, v) is not None: return False
        t = e.tag_of(v, b, st.norm(o))
        if t is not None and t[0].endswith("_context_t"): return True
        y = s.tags.get(b)
        if y is not None:
            if y[0].endswith("_context_t"): return y[1] not in s.facts["config"]
            return None if y[0] in ("http_parser_t", "data_t", "connection_t", "io_connection_t") else False
        if b.name.lstrip("%") in [x[0].lstrip("%") for x in s.root.params] or kind(b) == "data": return True
        p = st.mon.get("_p:" + b.name)
        if p is not None: return any(k == "req" for k, _ in p) or None
        if b.info and b.info[0] in ("global", "glob", "const"): return False
        return None
    def put(s, st, dst, pieces, where):
        """pieces written at dst"""
        e = s.eng; b, o = e.split(dst.l)
        if b is None: return
        o = st.norm(o); t = e.tag_of(dst, b, o)
        idn = s.ident(st, dst)
        st.mon["_g"] = tuple(g for g in st.mon.get("_g", ()) if idn not in g[1])
        if t is not None and t[0].endswith("_context_t"):
            if any(k == "req" for k, _ in pieces): s.fields.add(tuple(t))
            st.mon["w:" + t[1]] = "written"
            k = "_p:" + t[0] + "." + t[1]
        elif o.const() and o.c == 0: k = "_p:" + b.name
        else: k = None
        if k: st.mon[k] = tuple(pieces)
        elif "_p:" + b.name in st.mon: st.mon["_p:" + b.name] = st.mon["_p:" + b.name] + tuple(pieces)
    def piece(s, st, v):
        e = s.eng
        x = models.const_string(e, st, v)
        if x is not None: return ("lit", x)
        r = s.request(st, v)
        b = e.split(v.l)[0]
        return ("req", s.ident(st, v)) if r else ("cfg", None) if r is False else ("unk", None)
    def format(s, st, fmtv, rest):
        fmt = models.const_string(s.eng, st, fmtv)
        if fmt is None: return [("unk", None)]
        out = []; pos = n = 0
        def lit(x):
            if out and out[-1][0] == "lit": out[-1] = ("lit", out[-1][1] + x)
            else: out.append(("lit", x))
        for m in models.FMT.finditer(fmt):
            if m.start() > pos: lit(fmt[pos:m.start()])
            pos = m.end(); c = m.group(5)
            if c == "%": lit("%"); continue
            n += (m.group(2) == "*") + (m.group(3) == "*")
            if n >= len(rest): break
            a = rest[n]; n += 1
            if c == "s":
                for q in [s.piece(st, a)] if models.const_string(s.eng, st, a) is not None else s.pieces_of(st, a): lit(q[1]) if q[0] == "lit" else out.append(q)
            else: out.append(("num", None))
        if pos < len(fmt): lit(fmt[pos:])
        return out
    def on_copy(s, st, i, dst, src, n, cx, what):
        if what not in ("memcpy", "strcpy", "strcat") and not what.startswith("llvm.mem") or src is None: return
        e = s.eng; b, o = e.split(dst.l)
        if b is None: return
        pc = s.pieces_of(st, src)
        if what == "strcat":
            k = s.pkey(st, dst); st.mon[k] = st.mon.get(k, ()) + tuple(pc); return
        s.put(st, dst, pc, i.where)
    def pkey(s, st, v):
        e = s.eng; b, o = e.split(v.l); t = e.tag_of(v, b, st.norm(o))
        return "_p:" + (t[0] + "." + t[1] if t is not None and t[0].endswith("_context_t") else b.name)
    def pieces_of(s, st, v):
        b = s.eng.split(v.l)[0]
        if b is None: return [("unk", None)]
        p = st.mon.get(s.pkey(st, v))
        if p is not None and s.ident(st, v)[0] == "b" and not (len(p) == 1 and p[0][0] == "req"): return list(p)
        return [s.piece(st, v)]
    # ---- calls
    def inline(s, st, i, t, slot, args): return not t in s.facts["scanners"]
    def on_call(s, st, i, fns, exts, slot, args, cx):
        e = s.eng; m = st.mon
        if exts and exts[0] in ("snprintf", "vsnprintf", "sprintf"):
            if exts[0] == "vsnprintf":
                rest = None
                for (g, _), ar in zip(reversed(e.stack), reversed(e.argstack)):
                    if len(ar) > len(g.params): rest = ar[len(g.params):]; break
                s.put(st, args[0], s.format(st, args[2], rest or []), i.where)
                s.join_rule(st, args[0], i)
            else:
                n = 2 if exts[0] == "snprintf" else 1
                s.put(st, args[0], s.format(st, args[n], args[n + 1:]), i.where); s.join_rule(st, args[0], i)
        for t in list(fns) + list(exts):
            ks = () if isinstance(t, str) and roots.commons(i.fn) else EXT.get(t, ()) if isinstance(t, str) else s.facts["sinks"].get(t, ())
            if not isinstance(t, str) and not roots.commons(t): continue
            for k in ks:
                if k < len(args): s.sink(st, i, t if isinstance(t, str) else t.name, args[k], None, k)
            if ks: break
        for t in fns:
            if t.name in ("write_connection", "write_connection_c") and len(args) > 4:
                b = e.split(args[3].l)[0]; cbf = b.info[1] if b is not None and b.info and b.info[0] == "fn" else None
                if cbf is not None:
                    for fld in s.facts["cbsinks"].get(cbf, ()): s.sink(st, i, cbf.name, None, ("f",) + fld)
                return [(st, V0)]
        return None
    def after_call(s, st, i, fns, exts, slot, args, v, cx):
        m = st.mon
        if v is not None:
            for t in fns:
                if t in s.facts["scanners"]:
                    tg = s.ident(st, args[0])
                    r = s.request(st, args[0])
                    src = s.ssa(st, i, 0) if r is None else None
                    m["_g"] = m.get("_g", ()) + (("scan", (tg,), v.l, t, r if r is not None else src),)
            if exts and exts[0] in ("strstr",):
                x = models.const_string(s.eng, st, args[1])
                if x in ("..", "/.."): m["_g"] = m.get("_g", ()) + (("str", (s.ident(st, args[0]),), v.l, x, None),)
        # a call that takes one text of the context and writes another: the decoder
        if fns and len(args) >= 3:
            ids = [s.ident(st, a) for a in args]
            ids = [x for x in ids if x and x[0] == "f"]
            if len(ids) >= 2 and ids[0] != ids[-1] and ids[0][1] == ids[-1][1]:
                src, dst = ids[0], ids[-1]
                s.fields.add(dst[1:])
                m["w:" + dst[2]] = "from:" + src[2]
                m["_g"] = tuple(g for g in m.get("_g", ()) if dst not in g[1])
                m["_p:" + dst[1] + "." + dst[2]] = (("dec", src),)
                s.out.append(("derive", src[1:], dst[1:]))
                if m.get("w:" + src[2]) == "written": m["w:" + src[2]] = "decoded"
    def ssa(s, st, i, k):
        """provenance of an argument by its definitions: False when every source is a constant or a configured value"""
        sl = slots.static(s.eng.prog); d = sl.index(i.fn); seen = set(); w = [i.a[k]]
        while w:
            v = w.pop()
            if v.k in ("g", "ce", "null"): continue
            if v.k != "loc" or v.v in seen: continue
            seen.add(v.v); q = d.get(v.v)
            if q is None: return None
            if q.op == "phi": w += [x for _, x in q.x]
            elif q.op == "select": w += q.a[1:]
            elif q.op == "load":
                a = sl.addr(i.fn, q.a[0])
                if a[:1] != ("tag",): return None
                if a[1].endswith("_context_t") and a[2] not in s.facts["config"]: return True
            else: return None
        return False
    # ---- rules
    def join_rule(s, st, dst, i):
        """a path of the context made of a base and the request has a separator between them"""
        idn = s.ident(st, dst)
        if idn is None or idn[0] != "f" or idn[1:] not in s.facts["paths"]: return
        p = st.mon.get(s.pkey(st, dst), ()); who = s.root.name
        good = None; why = ""
        for n, (k, x) in enumerate(p):
            if k == "req":
                if n == 0: good = False; why = "starts with text of the request"
                elif p[n - 1][0] == "lit" and p[n - 1][1].endswith("/"): good = good if good is False else True
                elif n > 0 and p[n - 1][0] == "req": pass
                else: good = False; why = "has no separator between its base and the request"
        if any(k == "req" for k, _ in p):
            s.say(good, "request stays below its base", "%s:%s:join" % (who, idn[2]), "%s joins base and request with a separator in %s" % (who, idn[2]), "the path %s made by %s %s" % (idn[2], who, why), i.where)
    def passed(s, st, idn):
        """a scan of this text is known to have passed"""
        best = False
        for g in st.mon.get("_g", ()):
            if idn not in g[1]: continue
            if g[0] == "str":
                if st.eq0(g[2]): return True
                continue
            sm = s.facts["summaries"].get(g[3])
            if sm is None: best = None; continue
            if any(isinstance(v, tuple) for _, v in sm):
                if min(v[1] if isinstance(v, tuple) else -9 for _, v in sm) < 0: continue
                if st.eq0(g[2]): return True
                for h in st.mon.get("_g", ()):
                    if h is not g and h[0] == "scan" and h[3] is g[3] and h[4] is False and st.ge(h[2].add(g[2], -1)): return True
            else:
                bad = {v for fnd, v in sm if fnd}
                if all(st.ne0(g[2].addc(-v)) for v in bad): return True
        return best
    def sink(s, st, i, name, v, idn=None, k=0):
        who = s.root.name; e = s.eng
        if idn is None:
            idn = s.ident(st, v)
            if models.const_string(e, st, v) is not None: return s.say(True, "paths of the file system", "", "%s gives a constant path to %s" % (who, name), "", i.where)
            r = s.request(st, v)
            if r is None and s.ssa(st, i, k) is False: r = False
            if r is False: return s.say(True, "paths of the file system", "", "%s gives a configured path to %s" % (who, name), "", i.where)
            b = e.split(v.l)[0]
            p = st.mon.get("_p:" + b.name) if b is not None else None
            if idn and idn[0] == "b" and p is not None:
                if not any(k in ("req", "unk", "mix") for k, _ in p): return s.say(True, "paths of the file system", "", "%s gives a fixed path to %s" % (who, name), "", i.where)
                if not any(k in ("unk", "mix") for k, _ in p):
                    ok = s.passed(st, idn); sep = True
                    if not ok:
                        ok = True
                        for n, (k, x) in enumerate(p):
                            if k == "req":
                                q = s.passed(st, x); ok = ok and q if q is not None else None if ok else ok
                    for n, (k, x) in enumerate(p):
                        if k == "req" and (n == 0 or p[n - 1][0] not in ("lit", "req") or p[n - 1][0] == "lit" and not p[n - 1][1].endswith("/")): sep = False
                    s.seen["request"] = 1
                    s.say(ok if ok in (None, False) else True, "requests checked for parent segments", "%s:%s:parents" % (who, name), "%s checks the request before %s" % (who, name), "%s gives text of the request to %s without a check for parent directory segments that passed" % (who, name), i.where)
                    return s.say(sep, "request stays below its base", "%s:%s:sep" % (who, name), "%s joins base and request with a separator for %s" % (who, name), "the path %s gives to %s has no separator between its base and the request" % (who, name), i.where)
            if r is None: return s.say(None, "paths of the file system", "%s:%s:path" % (who, name), "", "origin of the path given to %s by %s not determined" % (name, who), i.where)
        s.seen["request"] = 1
        dec = idn[1:] in s.facts["decoded"]
        s.say(dec, "the decoded path is used", "%s:%s:decoded" % (who, name), "%s gives the decoded path to %s" % (who, name), "%s gives the undecoded request path to %s" % (who, name), i.where)
        ok = s.passed(st, idn)
        s.say(ok, "requests checked for parent segments", "%s:%s:parents" % (who, name), "the path of %s was checked before %s" % (who, name), "%s can reach %s with a path of the request that was not checked for parent directory segments" % (who, name), i.where)
    def on_return(s, st, i, v, cx, depth):
        if depth != 1: return
        for src, dst in s.facts["pairs"]:
            w = st.mon.get("w:" + src[1])
            if w is not None:
                good = w == "decoded"
                s.say(good, "decoded path follows the path", "%s:%s" % (s.root.name, dst[1]), "%s decodes %s after it was made" % (s.root.name, src[1]), "%s can return with a new %s that was not decoded into %s" % (s.root.name, src[1], dst[1]), i.where)
            elif st.mon.get("w:" + dst[1], "").startswith(("from:", "written")) and st.mon["w:" + dst[1]] not in ("from:" + src[1],):
                s.say(False, "decoded path follows the path", "%s:%s" % (s.root.name, dst[1]), "", "%s fills %s from something other than %s" % (s.root.name, dst[1], src[1]), i.where)

def r(st, l): return "0" if st.eq0(l) else "1" if st.ne0(l) else "?"

_job = None
def _do(n):
    p, fs, facts = _job
    f = fs[n]; m = Paths(f, facts)
    e = ai.Engine(p, m, depth=9, budget=400000, inline=roots.inline_for(f)); e.fine = 64
    err = None
    try: e.run(f)
    except AnalysisBroken as x: err = str(x)
    o, sn, cb, fl = m.result()
    return n, o, sn, fl, e.incomplete or err, [g.name for g in e.visited], e.budget0 - e.budget
def runs(ctx, p, fs, facts):
    global _job
    from multiprocessing import Pool
    slots.static(p); _job = (p, fs, facts); out = [None] * len(fs)
    with Pool(min(8, max(1, len(fs)))) as P:
        for n, o, sn, fl, inc, vis, steps in P.imap_unordered(_do, range(len(fs))):
            ctx.count("abstract_steps", steps); ctx.fns |= set(vis)
            if inc: ctx.notes.append("%s: analysis stopped early (%s)" % (fs[n].name, inc))
            out[n] = (o, sn, fl)
    return out

def run(ctx):
    p = ctx.prog(); sl = slots.static(p)
    sk = sinks(p, sl); ctx.rule("functions that use a parameter as path", len(sk), 1)
    here = ("src/viriatum/handlers/", "modules/")
    fs = []
    for q in SLOTS:
        for t in sl.slots.get(("http_settings_t", q), ()):
            if hasattr(t, "params") and t.file.startswith(here) and t not in fs: fs.append(t)
    cbs = [t for t in sl.slots.get(("data_t", "callback"), ()) if hasattr(t, "params") and t.file.startswith(here) and not roots.is_test(t)]
    ctx.rule("request functions", len(fs), 8)
    # fields of the request contexts that hold configured values: loaded from a location or set to a constant only
    config = {"base_path", "auth_basic", "auth_file", "location", "template_path"}
    config = set()
    for f in p.fns.values():
        for i in f.instrs():
            if i.op != "store" or i.a[0].ty.k != "p" and i.a[0].k != "null": continue
            a = sl.addr(f, i.a[1])
            if a[:1] != ("tag",) or not a[1].endswith("_context_t"): continue
            config.add((a[2], origin(sl, f, i.a[0])))
    config = {q for q, _ in config if not any(x != "cfg" for y, x in config if y == q)}
    scanners = {f for f in p.fns.values() if scan.is_scanner(f) and not roots.is_test(f)}
    sums = {}
    for f in scanners:
        try: sums[f] = scan.summary(p, f)
        except scan.Unknown as x: sums[f] = None; ctx.notes.append("%s: scanner not decided (%s)" % (f.name, x))
    facts = {"sinks": sk, "scanners": {f for f in scanners if sums[f] is None or any(fnd for fnd, _ in sums[f])}, "summaries": sums, "config": config, "paths": set(), "cbsinks": {}, "decoded": set(), "pairs": ()}
    # first round: which fields hold text of the request, and which are decoded from which
    r1 = runs(ctx, p, [f for f in fs if f not in sl.slots.get(("http_settings_t", "on_message_complete"), ())], facts)
    req = set(); pairs = set()
    for o, sn, fl in r1:
        req |= fl
        pairs |= {(x[1], x[2]) for x in o if x[0] == "derive"}
    # callbacks that use such a field as path
    for c in cbs:
        mine = [c]
        for g in mine:
            mine += [t for i in sl.calls.get(g, ()) for t in sl.targets(g, i) if hasattr(t, "params") and t.file == c.file and t not in mine]
        for g in mine:
            for i in sl.calls.get(g, ()):
                for t in sl.targets(g, i):
                    for k in (EXT.get(t) if isinstance(t, str) else sk.get(t)) or ():
                        if k < len(i.a):
                            a = sl.addr(g, i.a[k])
                            if a[:1] == ("tag",) and tuple(a[1:3]) in req | {d for _, d in pairs}: facts["cbsinks"].setdefault(c, set()).add(tuple(a[1:3]))
    used = set()
    for f in p.fns.values():
        if not f.file.startswith(here): continue
        for i in sl.calls.get(f, ()):
            for t in sl.targets(f, i):
                for k in (EXT.get(t) if isinstance(t, str) else sk.get(t)) or ():
                    if k < len(i.a):
                        a = sl.addr(f, i.a[k])
                        if a[:1] == ("tag",): used.add(tuple(a[1:3]))
    facts["pairs"] = tuple(sorted((s, d) for s, d in pairs if d in used))
    facts["decoded"] = {d for _, d in pairs}
    facts["paths"] = {s for s, d in facts["pairs"]}
    ctx.expect(bool(facts["pairs"]), "decoded path found", "nodecoded", "decoded paths: %s" % (facts["pairs"],), "no path given to the file system is decoded from the request path")
    res = runs(ctx, p, fs, facts)
    done = set(); n = 0
    for (o, sn, fl), f in zip(res, fs):
        n += sn.get("request", 0)
        for x in o:
            if x[0] == "derive": continue
            good, rule, key, what, msg, where = x
            if good is None: ctx.open(key, msg)
            elif good:
                if (rule, what) not in done: done.add((rule, what)); ctx.ok(rule, what)
            else: ctx.bad(key, msg, where)
    ctx.expect(n > 0, "file system calls with request paths found", "nosink", "%d request functions use paths of the request" % n, "no request function gives a path of the request to the file system")
    ctx.notes.append("callbacks that open the path of the request: %s; configured fields: %s" % (sorted(c.name for c in facts["cbsinks"]), sorted(config)))

def origin(sl, f, v, seen=None):
    seen = seen or set()
    if v.k in ("null", "int", "g", "ce"): return "cfg"
    if v.k != "loc" or v.v in seen: return "cfg" if v.k == "loc" else "?"
    seen.add(v.v); q = sl.index(f).get(v.v)
    if q is None: return "?"
    if q.op == "load":
        a = sl.addr(f, q.a[0])
        return "cfg" if a[:1] == ("tag",) and a[1].endswith(("location_t", "handler_t")) else "?"
    if q.op == "phi":
        return "cfg" if all(origin(sl, f, x, seen) == "cfg" for _, x in q.x) else "?"
    if q.op == "select":
        return "cfg" if all(origin(sl, f, x, seen) == "cfg" for x in q.a[1:]) else "?"
    return "?"

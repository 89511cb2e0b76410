"""The start of the service (from the creation of its options to the last computed one) is interpreted with every lookup of an option on
the command line and in the configuration file decided by the case at hand: for each option, given in neither source, in one and in both,
with the other options absent, and again with every other option given or not.  The value left in each field of the options is followed
symbolically to the lookup (or the constant) it comes from.  Obligations: a command line value wins over the file, the file over the
default, whether or not the file can be read; an option changes the same field from both sources and no other; the text of a number is
read whole from the argument; what is computed from an option is computed from its final value; no field is left without a value; and
every option of the help text and of the shipped configuration is looked up."""
import re, os
from vsa import ai, models, roots, slots
from vsa.ai import Monitor, V, Lin
from vsa.ir import AnalysisBroken
LOOKUP = re.compile(r"^get_value_string_\w+$"); V0 = V(Lin(0))
OPT = "service_options_t"

class Start(Monitor):
    """one case: {(source, key): True/False}, and what happens to the others (True, False or None = both)"""
    def __init__(s, root, case, rest, wide, readable=None):
        s.root = root; s.case = case; s.rest = rest; s.wide = wide; s.readable = readable; s.seen = {}; s.out = []; s.objs = {}; s.texts = {}; s.hit = set(); s.passed = set(); s.maps = {}
    def result(s): return s.out, s.seen, (s.hit, s.passed), s.texts
    def key(s, st): return ()
    def join(s, a, b, n, jv): return {k: v for k, v in a.mon.items() if b.mon.get(k) == v}
    def on_entry(s, st, f, args):
        s.args = None
        for n, (pn, pt) in enumerate(f.params):
            if pt.k == "ptr": s.maps.setdefault(args[n].l.t[0][0] if args[n].l.t else None, n)
    def src(s, b):
        """which source is looked up"""
        if b in s.objs: return s.objs[b]
        if b in s.maps: return "command line"
        return None
    def ptr(s, key, name):
        return s.eng.sym(key, "ext", 1, (1 << 47), name, ("ptr", None))
    def put(s, st, p, v, z=8):
        e = s.eng; b, o = e.split(p.l); o = st.norm(o)
        if b is None or not o.const(): return
        e.havoc_range(st, s.fn, p, Lin(z), 0, None)
        st.mem[b] = {**st.mem.get(b, {}), o.c: (v, z)}
    def inline(s, st, i, t, slot, args): return True
    def on_call(s, st, i, fns, exts, slot, args, cx):
        e = s.eng; s.fn = i.fn
        nm = fns[0].name if len(fns) == 1 else exts[0] if len(exts) == 1 and isinstance(exts[0], str) else i.x.v if i.x.k == "g" else None
        if nm is None: return None
        if LOOKUP.match(nm) and len(args) == 3:
            k = models.const_string(e, st, args[1]); b = e.split(args[0].l)[0]; src = s.src(b)
            if src is None or k is None: return None
            if src == "file" and k == "general" or (src, k) == ("file", s.sect):
                y = s.ptr(("sect",), "section"); s.objs[y] = "section"; t = st.copy()
                s.put(st, args[2], V(e.lin(y))); s.put(t, args[2], V0)
                if s.readable is False: return [(t, V0)]
                return [(st, V0)] + ([(t, V0)] if not any(v and c[0] == "file" for c, v in s.case.items()) else [])
            src = "file" if src == "section" else src
            q = (src, k); s.seen.setdefault(q, i.where)
            y = s.ptr(("opt",) + q, "%s:%s" % q); r = []
            c = s.case.get(q, s.rest)
            if c is not True:
                t = st.copy(); s.put(t, args[2], V0); r.append((t, V0))
            if c is not False: s.put(st, args[2], V(e.lin(y))); r.append((st, V0))
            return r
        if s.ini is not None and fns and fns[0] is s.ini:
            y = s.ptr(("conf",), "configuration"); s.objs[y] = "file"
            s.put(st, args[1], V(e.lin(y))); t = st.copy()
            if s.readable is False: return [(t, V(Lin(1)))]
            return [(st, V0)] + ([(t, V(Lin(1)))] if not any(v and c[0] == "file" for c, v in s.case.items()) else [])
        src = None
        for a in args:
            b, o = e.split(a.l)
            if b is not None and isinstance(b.key, tuple) and b.key and b.key[0] == "opt": src = (b.key[1:], nm, o.c if o.const() else "?")
        for n, a in enumerate(args):
            b, o = e.split(a.l)
            if b is not None and b is st.mon.get("O"):
                o = st.norm(o); s.hit.add(o.c if o.const() else None)
                if o.const(): s.passed.add(o.c)
                if nm in ("snprintf", "sprintf", "__snprintf_chk", "__sprintf_chk") and n == 0:
                    s.texts.setdefault(o.c if o.const() else None, set()).update(Val(st.norm(x.l)) for x in args[1:] if x.l.const() or origin(Val(x.l)))
        if src is not None and nm not in ("printf", "fprintf"):
            y = e.sym(("der",) + src, "ext", 0, s.wide, "%s(%s:%s)" % ((nm,) + src[0]), None)
            for a in args:
                b, o = e.split(a.l)
                if b is not None and b is st.mon.get("O"): e.havoc_range(st, i.fn, a, None, cx, i)
            return [(st, V(e.lin(y)))]
        return None
    def on_alloc(s, st, i, y, size, cx): pass
    def on_store(s, st, i, p, v, cx):
        e = s.eng; b, o = e.split(p.l)
        if b is None: return
        o = st.norm(o); t = e.tag_of(p, b, o)
        if t is not None and t[0] == OPT and st.mon.get("O") is None: st.mon["O"] = b
        if b is st.mon.get("O"): s.hit.add(o.c if o.const() else None)
    def on_copy(s, st, i, dst, src, n, cx, what):
        b, o = s.eng.split(dst.l)
        if b is not None and b is st.mon.get("O"):
            o = st.norm(o); s.hit.add(o.c if o.const() else None)
    def on_return(s, st, i, v, cx, depth):
        if depth != 1: return
        b = st.mon.get("O"); vals = {}
        for k, c in (st.mem.get(b, {}) if b is not None else {}).items():
            if isinstance(k, int): vals[k] = (Val(st.norm(c[0].l)), c[1])
        r = st.norm(v.l) if v is not None and v.l is not None else Lin(0)
        s.out.append((vals, r.c if r.const() else None, i.where))
    sect = None; ini = None

class Val:
    """a symbolic value, comparable between runs"""
    def __init__(s, l):
        s.c = l.c; t = []
        for y, n in l.t:
            k = y.key if isinstance(y.key, tuple) and y.key and y.key[0] in ("opt", "der") else None
            if k is None and y.info and y.info[0] == "global":
                g = y.info[1]; k = ("global", g["init"].v if g["init"] is not None and g["init"].k == "str" else g["name"])
            t.append((k or (y.kind, y.name.rstrip("'")), n))
        s.t = tuple(sorted(t, key=str))
    def const(s): return not s.t
    def __hash__(s): return hash((s.c, s.t))
    def __eq__(s, o): return isinstance(o, Val) and (s.c, s.t) == (o.c, o.t)
def word(l):
    if l is None: return "nothing"
    if l.const(): return "constant %d" % l.c
    return " + ".join(" ".join(map(str, k)) for k, n in l.t) + (" + %d" % l.c if l.c else "")
def origin(l):
    """(source, key) a value comes from, and where in the argument it was read"""
    for k, _ in l.t:
        if k[0] == "opt": return k[1:], l.c
        if k[0] == "der": return k[1], k[3]
    return None
def undef(l): return any(k[0] == "undef" for k, _ in l.t)
def run(ctx):
    p = ctx.prog(); sl = slots.static(p)
    load = p.need("load_options_service")
    tops = sorted({c for c in sl.callers.get(load, ()) if not roots.is_test(c)}, key=lambda f: f.name)
    if not tops: raise AnalysisBroken("nothing loads the options")
    Start.ini = p.need("process_ini_file")
    home = {load.file} | {t.file for t in tops}
    offs = {}
    m = load.mod; d = m.struct_fields(OPT)
    from vsa import conn
    offs = conn.offsets(p, OPT); aoff = conn.offsets(p, "argument_t")
    name = {o: n for n, (o, z) in offs.items()}
    vo = max(aoff.values())[0]
    def go(top, case, rest, wide, readable=None):
        mon = Start(top, case, rest, wide, readable)
        e = ai.Engine(p, mon, depth=6, inline=lambda t: t.file in home, budget=400000, cap=None if rest is not None else 2)
        e.run(top)
        ctx.fns |= {f.name for f in e.visited}
        if e.incomplete: raise AnalysisBroken("%s: %s" % (top.name, e.incomplete))
        outs, seen, hit, texts = mon.result()
        if not outs: raise AnalysisBroken("no path through %s" % top.name)
        return outs, seen, hit, texts
    allkeys = {}
    for top in tops:
        outs, seen, hit, texts = go(top, {}, None, 255)
        keys = sorted({k for s, k in seen})
        ctx.rule("options looked up on the command line", len({k for s, k in seen if s == "command line"}), 1)
        ctx.rule("options looked up in the file", len({k for s, k in seen if s == "file"}), 1)
        allkeys.update(seen)
        def fields(o): return {k: v for k, v in o[0].items()}
        def one(case, rest, wide, readable=None):
            """the values of the fields at the exits: {offset: set of values}"""
            outs, _, hit, texts = go(top, case, rest, wide, readable); r = {}
            for vals, rc, w in outs:
                for o, (l, z) in vals.items(): r.setdefault(o, set()).add(l)
            for vals, rc, w in outs:
                for o in r:
                    if o not in vals: r[o].add(None)
                ctx.expect(rc == 0, "loading goes on", "%s:stops" % top.name, "%s returns no error" % top.name, "%s gives up (%s) although a missing option or file only means that the other sources count" % (top.name, rc), w)
            return r, hit, texts, outs[0][2]
        none, (hit, passed), texts, where = one({}, False, 255)
        # every field has a value
        for n, (o, z) in sorted(offs.items(), key=lambda x: x[1]):
            v = none.get(o)
            good = v is not None and not any(l is None or undef(l) for l in v) or v is None and any(h is not None and o <= h < o + z for h in hit) and (z > 8 or o in passed)
            ctx.expect(good, "every option has a value", "%s:undefined:%s" % (top.name, n), "%s = %s" % (n, ", ".join(word(x) for x in v) if v else "filled"), "the option %s has no value when it is given neither on the command line nor in the configuration file" % n, where)
        for x, lab in ((False, "unreadable"),):
            r, _, _, _ = one({}, False, 255, False)
            for o in none:
                if o in name: ctx.expect(r.get(o) == none[o], "an unreadable file counts as empty", "%s:%s:%s" % (top.name, lab, name[o]), name[o], "the option %s depends on whether an otherwise empty file can be read" % name[o], where)
        W = {}; final = {}
        for k in keys:
            C, F = ("command line", k), ("file", k)
            hc, hf = C in seen, F in seen; base = {C: False, F: False}
            ab, _, _, _ = one(base, False, 255)
            def changed(r): return {o for o in set(r) | set(ab) if r.get(o) != ab.get(o)}
            cases = {}
            for c in ((0, 1) if hc else (0,)):
                for f in ((0, 1) if hf else (0,)):
                    for wide in (255, 65535):
                        for rest in (False, None):
                            cases[c, f, wide, rest] = one({C: bool(c), F: bool(f)}, rest, wide)
                    if c and not f: cases["unread"] = one({C: True, F: False}, False, 255, False)
            wf = changed(cases[0, 1, 255, False][0]) if hf else set()
            wc = changed(cases[1, 0, 255, False][0]) if hc else set()
            def nm(x): return ", ".join(sorted(name.get(o, "+%d" % o) for o in x)) or "nothing"
            if hf: ctx.expect(wf, "an option has an effect", "%s:file:%s:ignored" % (top.name, k), "file %s -> %s" % (k, nm(wf)), "the option %s of the configuration file is looked up but changes nothing" % k, seen[F])
            if hc: ctx.expect(wc, "an option has an effect", "%s:line:%s:ignored" % (top.name, k), "command line %s -> %s" % (k, nm(wc)), "the option %s of the command line is looked up but changes nothing" % k, seen[C])
            if hc and hf and wc and wf: ctx.expect(wc == wf, "both sources set the same option", "%s:%s:fields" % (top.name, k), "%s -> %s" % (k, nm(wf)), "the option %s sets %s from the configuration file but %s from the command line" % (k, nm(wf), nm(wc)), seen[C])
            w = wc | wf; W[k] = w
            if hf:
                for o in sorted(wf):
                    for wide in (255, 65535):
                        if wide == 65535 and offs.get(name.get(o), (0, 1))[1] < 2: continue
                        for rest in (False, None):
                            for l in cases[0, 1, wide, rest][0].get(o, {None}):
                                og = origin(l) if l is not None else None
                                ctx.expect(og is not None and og[0] == F and og[1] in (0, "?"), "the file counts when the command line is silent", "%s:file:%s:%s" % (top.name, k, name.get(o)), "%s = %s" % (name.get(o), word(l)),
                                           "%s is %s although the configuration file gives %s and the command line does not" % (name.get(o), word(l), k), seen[F])
            if hc:
                for o in sorted(wc):
                    for f in ((0, 1) if hf else (0,)):
                        for wide in (255, 65535):
                            if wide == 65535 and offs.get(name.get(o), (0, 1))[1] < 2: continue
                            for rest in (False, None):
                                r = cases[1, f, wide, rest][0].get(o, {None}); first = cases[1, 0, wide, False][0].get(o)
                                good = r == first and all(l is not None and (l.const() or origin(l) is not None and origin(l)[0] == C and origin(l)[1] == vo) for l in r)
                                ctx.expect(good, "the command line counts", "%s:line:%s:%s" % (top.name, k, name.get(o)), "%s = %s" % (name.get(o), ", ".join(map(word, r))),
                                           "%s is %s although the command line gives %s%s" % (name.get(o), ", ".join(map(word, r)), k, " (as does the configuration file)" if f else ""), seen[C])
                    r = cases["unread"][0].get(o)
                    ctx.expect(r == cases[1, 0, 255, False][0].get(o), "the command line counts without a file", "%s:line:%s:%s:unread" % (top.name, k, name.get(o)), name.get(o), "%s does not come from the command line when the configuration file cannot be read" % name.get(o), seen[C])
            for rest in (None,):
                for o in sorted(w):
                    for l in cases[0, 0, 255, rest][0].get(o, {None}):
                        ctx.expect(l is not None and l in ab.get(o, ()) and not undef(l), "the default counts when nobody gives the option", "%s:default:%s:%s" % (top.name, k, name.get(o)), "%s = %s" % (name.get(o), word(l)),
                                   "%s is %s although nobody gives %s" % (name.get(o), word(l), k), where)
            # what is computed from the option uses the final value
            for key, (r, _, tx, wh) in cases.items():
                if not isinstance(key, tuple) or key[3] is not False: continue
                for to, ls in tx.items():
                    ders = {l for l in ls if not l.const()}
                    for o in w:
                        cur = r.get(o, set())
                        mine = {l for l in none.get(o, ())} & {x for x in texts.get(to, ()) if x.const()}
                        if not mine: continue
                        ctx.expect(cur <= ls, "computed from the final value", "%s:text:%s" % (top.name, name.get(to, to)), "%s from %s" % (name.get(to, to), name.get(o)), "%s is computed from another value (%s) than the one %s ends up with (%s)" % (name.get(to, to), ", ".join(map(word, ls)), name.get(o), ", ".join(map(word, cur))), wh)
                if tx: ctx.count("computed options", 1)
            ctx.count("cases", len(cases))
        for a in keys:
            for b in keys:
                if a < b: ctx.expect(not W[a] & W[b], "options are independent", "%s:%s:%s" % (top.name, a, b), "%s, %s" % (a, b), "the options %s and %s set the same field" % (a, b), where)
    # ---- the sources themselves
    from vsa.run import sweep
    for f, (out, n), inc in sweep(ctx, p, [Start.ini], Ini):
        if inc: raise AnalysisBroken("%s: %s" % (f.name, inc))
        ctx.rule("keys and values of the configuration file recorded", n, 2)
        for pend, mp, good, w in out:
            ctx.expect(mp, "the configuration is handed over", "%s:map" % f.name, w, "%s returns without a configuration" % f.name, w)
            ctx.expect(not pend or not good, "every value of the file counts", "%s:last" % f.name, w, "%s ends with a value that was given but not recorded (end of the file without a new line)" % f.name, w)
    par = [f for f in p.fns.values() if not roots.is_test(f) and any(i.op == "store" and sl.addr(f, i.a[1])[:2] == ("tag", "argument_t") for i in f.instrs())]
    for f, out, inc in sweep(ctx, p, par, Argument):
        if inc: raise AnalysisBroken("%s: %s" % (f.name, inc))
        for have, w in out:
            for k in sorted(aoff): ctx.expect(k in have, "an argument is defined", "%s:%s" % (f.name, k), "%s of an argument" % k, "%s can leave the %s of an argument without contents" % (f.name, k), w)
    # ---- nobody else changes an option after it was loaded
    reach = set()
    todo = list(tops)
    while todo:
        f = todo.pop()
        if f in reach: continue
        reach.add(f)
        for c in f.instrs():
            if c.op == "call": todo += [t for t in sl.targets(f, c) if hasattr(t, "params") and t.file in home]
    n = 0
    for f in p.fns.values():
        if roots.is_test(f): continue
        for i in f.instrs():
            if i.op == "store":
                t = sl.addr(f, i.a[1])
                if t[:2] == ("tag", OPT): n += 1; ctx.expect(f in reach, "options change while they are loaded only", "%s:writes:%s" % (f.name, t[2]), "%s in %s" % (t[2], f.name), "%s changes the option %s outside the loading of the options" % (f.name, t[2]), i.where)
    ctx.rule("stores to options", n, 5)
    # ---- documentation
    keys = set(); docs = set()
    for f in p.fns.values():
        for i in f.instrs():
            if i.op == "call" and i.x.k == "g" and LOOKUP.match(i.x.v) and len(i.a) == 3:
                s = literal(f.mod, i.a[1])
                if s: keys.add(s)
    keys |= {k for s, k in allkeys}
    for mod in p.mods:
        for g in mod.globals.values():
            if g["init"] is not None and g["init"].k == "str" and g["init"].v.lstrip().startswith(b"usage:"):
                docs |= set(re.findall(r"^\s+--(\w+)\s", g["init"].v.decode("latin1"), re.M))
    ctx.rule("options of the help text", len(docs), 1)
    for k in sorted(docs): ctx.expect(k in keys, "a documented option is looked up", "help:%s" % k, "--" + k, "the option --%s of the help text is never looked up" % k, "help text")
    for root, dirs, fs in os.walk(os.path.join(os.environ.get("VSA_REPO", "/repo"), "src")):
        for x in fs:
            if x == "viriatum.ini":
                sec = None
                for l in open(os.path.join(root, x), encoding="latin1"):
                    l = l.strip()
                    if l.startswith("["): sec = l
                    elif sec == "[general]" and "=" in l and not l.startswith(";"):
                        k = l.split("=")[0].strip(); ctx.expect(("file", k) in allkeys, "an option of the shipped configuration is looked up", "ini:%s" % k, k, "the option %s of the shipped configuration file is never looked up" % k, x)
class Ini(Monitor):
    """a value of the file whose key was recorded is recorded before the end; the map is handed over on every exit"""
    def __init__(s, root): s.root = root; s.out = []; s.n = 0
    def result(s): return s.out, s.n
    def key(s, st): return (st.mon.get("pend"), st.mon.get("map"))
    def join(s, a, b, n, jv): return {k: v for k, v in a.mon.items() if b.mon.get(k) == v}
    def on_entry(s, st, f, args):
        s.outs = {a.l.t[0][0] for a, (pn, pt) in zip(args, f.params) if a.l.t and pt.k == "ptr"}
    def inline(s, st, i, t, slot, args): return False
    def on_store(s, st, i, p, v, cx):
        b, o = s.eng.split(p.l)
        if b in s.outs: st.mon["map"] = True
    def on_call(s, st, i, fns, exts, slot, args, cx):
        if len(fns) == 1 and fns[0].name == "read_file" and len(args) == 3:
            e = s.eng; t = st.copy(); b, o = e.split(args[1].l); e.havoc_range(st, i.fn, args[2], Lin(8), cx, i)
            if b is None or not o.const(): return None
            y = e.sym(("contents",), "ext", 4096, 1 << 47, "contents", ("ptr", None))
            st.mem[b] = {**st.mem.get(b, {}), o.c: (V(e.lin(y)), 8)}
            return [(st, V0), (t, V(Lin(1)))]
        if slot is None or len(slot) != 2 or slot[0] != "ini_settings_t": return None
        if slot[1] == "on_key_end": st.mon["pend"] = True; s.n += 1
        elif slot[1] == "on_value_end": st.mon["pend"] = False; s.n += 1
        return [(st, V0)]
    def on_return(s, st, i, v, cx, depth):
        if depth == 1: s.out.append((st.mon.get("pend", False), st.mon.get("map", False), bool(v is not None and st.eq0(v.l)), i.where))
class Argument(Monitor):
    """an argument has a key and a value, both with an end, when it was looked at"""
    def __init__(s, root): s.root = root; s.out = set()
    def result(s): return s.out
    def key(s, st): return tuple(sorted(k for k in st.mon))
    def join(s, a, b, n, jv): return {k: v for k, v in a.mon.items() if b.mon.get(k) == v}
    def inline(s, st, i, t, slot, args): return True
    def on_store(s, st, i, p, v, cx):
        e = s.eng; b, o = e.split(p.l)
        if b is None: return
        o = st.norm(o)
        t = e.tag_of(p, b, o)
        if t is None and p.ext is not None: t = p.ext.tag
        if t is not None and t[0] == "argument_t" and (st.eq0(v.l) or t[1] == "type"): st.mon[t[1]] = True
    def on_copy(s, st, i, dst, src, n, cx, what):
        e = s.eng; b, o = e.split(dst.l)
        t = e.tag_of(dst, b, st.norm(o)) if b is not None else None
        if t is not None and t[0] == "argument_t" and what != "memcpy": st.mon[t[1]] = True
    def on_return(s, st, i, v, cx, depth):
        if depth == 1: s.out.add((tuple(sorted(st.mon)), i.where))
def literal(mod, v):
    if v.k == "g":
        g = mod.globals.get(v.v)
        if g and g["init"] is not None and g["init"].k == "str": return g["init"].v.split(b"\0")[0].decode("latin1")
    return None

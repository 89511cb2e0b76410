"""Monitor: every access and copy stays inside the object (or the array field) it addresses."""
from .ai import *
from .slots import static

FREE = {"param", "init", "ret", "ext"}

# assumed value ranges of fields at entry (justified in DESIGN.md)
FIELD_RANGE = {("http_parser_t", "method"): (1, 24)}
# field b of an object is 0 whenever its field a is 0 (re-checked at the exits of every entry point)
ZERO_TOGETHER = {("http_connection_t", "buffer_offset"): ("http_connection_t", "buffer")}

def over_always(st, over): return st.hi(over) < 0
def string_scan(i):
    """is the byte that is read compared with the string terminator (scan of a terminated string)"""
    f = i.fn
    names = {i.res}
    for _ in range(3):
        for j in f.instrs():
            if j.op in ("sext", "zext", "phi") and any(v.k == "loc" and v.v in names for v in j.a): names.add(j.res)
    for j in f.instrs():
        if j.op == "icmp" and j.x in ("eq", "ne") and any(v.k == "loc" and v.v in names for v in j.a) and any(v.k == "int" and v.v == 0 for v in j.a): return True
        if j.op == "switch" and j.a[0].k == "loc" and j.a[0].v in names and any(c == 0 for c, _ in j.x[1]): return True
    return False
def same_read(i):
    """a byte is written where the scan of a terminated string has just read one that is not the terminator"""
    return any(j.op == "load" and i.op == "store" and j.a[0].k == "loc" and j.a[0].v == i.a[1].v and string_scan(j) for j in i.fn.instrs())
def sentinel(i, base):
    """reads of a constant table of pointers that ends with NULL, by a loop that starts at its first element, goes on by one and stops at NULL"""
    g = base.info[1] if base.info and base.info[0] == "global" else None
    ini = g["init"] if g else None
    if ini is None or not g["const"] and not g["internal"] or ini.k not in ("agg", "arr", "array") and not isinstance(ini.v, (list, tuple)): return False
    last = ini.v[-1]
    last = last[1] if isinstance(last, tuple) else last
    if getattr(last, "k", None) not in ("null", "zero") and not (getattr(last, "k", None) == "int" and last.v == 0): return False
    f = i.fn; d = {j.res: j for j in f.instrs() if j.res}
    p = d.get(i.a[0].v) if i.op == "load" and i.a[0].k == "loc" else None
    if p is None or p.op != "gep" or p.a[-1].k != "loc": return False
    x = d.get(p.a[-1].v)
    if x is None or x.op != "phi": return False
    for v in x.a:
        if v.k == "int" and v.v == 0: continue
        q = d.get(v.v) if v.k == "loc" else None
        if q is None or q.op != "add" or not any(a.k == "loc" and a.v == x.res for a in q.a) or not any(a.k == "int" and a.v == 1 for a in q.a): return False
    for j in f.instrs():
        if j.op == "icmp" and j.x in ("eq", "ne") and any(a.k == "loc" and a.v == i.res for a in j.a) and any(a.k in ("null", "zero") or a.k == "int" and a.v == 0 for a in j.a): return True
    return False
def scanned(i):
    """byte reads at a scanning pointer, or at a small constant distance from one"""
    if string_scan(i): return True
    f = i.fn; d = {j.res: j for j in f.instrs() if j.res}
    def root(v):
        n = 0
        while v.k == "loc" and v.v in d and d[v.v].op == "gep" and all(x.k == "int" and 0 <= x.v <= 4 for x in d[v.v].a[1:]) and n < 9: v = d[v.v].a[0]; n += 1
        return v.v if v.k == "loc" else None
    r = root(i.a[0])
    return r is not None and any(j.op == "load" and j is not i and root(j.a[0]) == r and string_scan(j) for j in f.instrs())
def bv_of(st, base): return st.basever.get(base)

class Bounds(Monitor):
    def __init__(s, root, sel=None, contracts=None, reads=True):
        s.root = root; s.sel = sel; s.res = {}; s.reads = reads; s.pairs = contracts; s.psize = {}
    def on_entry(s, st, f, args):
        """with contracts: a byte pointer followed by its length is an object of that many bytes"""
        if not s.pairs: return
        for n in range(len(args) - 1):
            if f.params[n][1].k == "ptr" and f.params[n + 1][1].k == "i" and any(w in f.params[n + 1][0] for w in ("length", "size")):
                b = s.eng.split(args[n].l)[0]
                if b is not None and s.pairs(f, n):
                    y = args[n + 1].l.t[0][0]
                    if y.hi > 1 << 31: y.hi = 1 << 31
                    s.psize[b] = (args[n + 1].l, f.params[n][0].lstrip("%"))
    def result(s): return s.res
    def inst(s, i, kind, tag):
        return "%s:%s:%s" % (i.fn.name, kind, tag)
    def extent(s, st, p):
        """-> (relative offset, size, description) or None when the size of the object is unknown"""
        e = s.eng
        base, off = e.split(p.l)
        if p.ext is not None and p.ext.size is not None:
            o = off if base is not None else p.l
            t = p.ext.tag
            return o.add(p.ext.lo, -1), p.ext.size, "%s" % (".".join(map(str, t)) if t else "?"), base
        if base is not None and base in s.psize: return (off,) + s.psize[base] + (base,)
        if base is not None and base.info and base.info[0] in ("heap", "alloca") and base.info[2] is not None:
            return off, base.info[2], base.info[0], base
        return None
    def free(s, st, l, up=True):
        """can the linear expression really grow past the bound: made of values that the context does not limit"""
        imp = False; loop = False
        for y, k in l.t:
            r = s.symfree(st, y, k, set())
            if r == "bounded": continue
            if r == "loop": loop = True
            elif r != "free": imp = True
        if imp: return None
        return "loop" if loop else "free"
    def symfree(s, st, y, k, seen):
        if y in seen: return "free"
        seen.add(y)
        a, b = st.b(y)
        if a == b: return "bounded"
        if y.kind in FREE: return "free"
        if y.kind == "term":
            op = y.key[1]
            if op in ("trunc", "zext", "sext", "and", "tab", "or", "shl", "lshr", "urem", "udiv", "mul", "sdiv", "ashr"):
                r = "free"
                for x in y.key[2:]:
                    if isinstance(x, Lin):
                        for z, kk in x.t:
                            q = s.symfree(st, z, kk, seen)
                            if q not in ("free", "bounded"): r = q
                return r
            return "imprecise"
        if y in s.eng.undefjoin: return "imprecise"
        if y.kind == "join":
            h = b if k > 0 else a
            if h in (INF, -INF) or abs(h) >= 1 << 31: return "loop"
            return "imprecise"
        return "imprecise"
    def check(s, st, i, p, n, kind, cx):
        if s.sel is not None and not s.sel(i): return
        x = s.extent(st, p)
        if x is None: return
        off, size, desc, base = x
        if base is not None and base.kind == "term": return
        e = s.eng
        key = s.inst(i, kind, desc)
        rec = s.res.setdefault((key, i.where), [0, None, None])
        rec[0] += 1
        if n is None: rec[2] = rec[2] or "length unknown"; return
        n = st.norm(n); off = st.norm(off); size = st.norm(size)
        # n == 0 is harmless; the start must not lie before the object, the end not after it
        over = size.add(off, -1).add(n, -1)
        okhi = st.ge(over); oklo = st.ge(off)
        if okhi and oklo: return
        if st.hi(n) <= 0: return
        if not okhi:
            fr = s.free(st, over.scale(-1))
            if st.hi(over) < 0: fr = fr or "always"
            if fr is None and size.const() and st.ge(over.add(Lin(8))): fr = "limit"      # the limit the code applies lets it pass the end
            msg = "%s of %s bytes at offset %s of %s (size %s) is not kept inside" % (kind, n, off, desc, size)
        else:
            fr = s.free(st, off)
            if st.hi(off) < 0: fr = "always"
            msg = "%s at offset %s before the start of %s" % (kind, off, desc)
        if fr == "loop" and kind == "read" and base is not None and off.const() is False and sentinel(i, base): return
        if fr == "loop" and kind == "write" and n.const() and n.c == 1 and not over_always(st, over) and same_read(i): fr = None
        if fr == "loop" and kind == "read" and n.const() and n.c == 1 and not over_always(st, over) and scanned(i): fr = None
        if fr is None: rec[2] = rec[2] or msg
        elif rec[1] is None: rec[1] = (msg, fr, s.chain(), i.where)
    def on_init(s, st, f, ins, y, base, off, tag, ty):
        r = FIELD_RANGE.get(tag)
        if r and y.lo < r[0]: y.lo, y.hi = r
        z = ZERO_TOGETHER.get(tag)
        if z:
            for (b, k), tg in s.eng.cell_tags.items():
                if b is base and tg == z:
                    q = s.eng.syms.get(("init", base, Lin(k), 8, bv_of(st, base), None))
                    if q is not None and st.b(q) == (0, 0): return V0
        return None
    def on_access(s, st, i, p, size, write, cx):
        if i.op not in ("load", "store"): return
        if not write and not s.reads: return
        s.check(st, i, p, Lin(size), "write" if write else "read", cx)
    def on_copy(s, st, i, dst, src, n, cx, what):
        if what == "send": s.check(st, i, dst, n, "send-read", cx); return
        s.check(st, i, dst, n, what, cx)
        if src is not None and s.reads: s.check(st, i, src, n, what + "-source", cx)

def collect(ctx, results, attr=None, undec=None):
    """merge the records of all entries into obligations: attr(file) selects the property's files"""
    tot = {}
    for f, res, inc in results:
        for (key, where), (n, bad, und) in res.items():
            if attr and not attr(where): continue
            t = tot.setdefault((key, where), [0, None, None, f.name])
            t[0] += n
            if bad and not t[1]: t[1] = bad; t[3] = f.name
            if und and not t[2]: t[2] = und
    for (key, where), (n, bad, und, root) in sorted(tot.items()):
        ctx.count("access_evaluations", n)
        if bad and undec and undec(key, bad[0]): ctx.open(key + "@" + where, bad[0])
        elif bad: ctx.bad(key, "%s (%s)" % (bad[0], bad[1]), where, "entry point %s\ncall chain: %s" % (root, bad[2]))
        elif und: ctx.open(key + "@" + where, und)
        else: ctx.ok("in bounds", key if n else None)

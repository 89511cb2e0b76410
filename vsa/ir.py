"""Front end: compiles every source of the build with clang to -O0 SSA (mem2reg) LLVM IR
and reads the textual IR (types, functions, instructions, constants, debug types) into Python objects.

Nothing of the program is run: the compiler is only used as parser and type checker."""
import os, re, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VSA_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
CLANG = "/usr/bin/clang-18" if os.path.exists("/usr/bin/clang-18") else "clang"
OPT = "/usr/bin/opt-18" if os.path.exists("/usr/bin/opt-18") else "opt"

class AnalysisBroken(Exception):
    """the analysis cannot answer (missing anchor, source does not compile, ...): an error exit"""

# ---------------------------------------------------------------- sources of the build
GROUPS = [
    ("src/viriatum_commons", "config", "libviriatum_a_SOURCES"),
    ("src/viriatum", "config", "viriatum_SOURCES"),
    ("modules/mod_diag/src/viriatum_mod_diag", "config_mod", None),
    ("modules/mod_gif/src/viriatum_mod_gif", "config_mod", None),
    ("modules/mod_lua/src/viriatum_mod_lua", "config_mod", None),
]

def sources():
    out = []
    for d, cfg, var in GROUPS:
        am = os.path.join(REPO, d, "Makefile.am")
        if not os.path.exists(am):
            raise AnalysisBroken("no " + am)
        text = open(am).read().replace("\\\n", " ")
        names = []
        for m in re.finditer(r"^(\w+_SOURCES)\s*=\s*(.*)$", text, re.M):
            for w in m.group(2).split():
                if w.endswith(".c") and w not in names:
                    names.append(w)
        for w in names:
            p = os.path.join(REPO, d, w)
            if os.path.exists(p):
                out.append((p, os.path.join(REPO, d), os.path.join(HERE, cfg), d))
    return out

def compile_one(item, tmp, defines=()):
    path, inc, cfg, grp = item
    base = os.path.join(tmp, os.path.relpath(path, REPO).replace("/", "__"))
    cmd = [CLANG, "-O0", "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names", "-g", "-w",
           "-DHAVE_CONFIG_H", "-D__NO_CTYPE", "-I" + cfg, "-I" + inc] + ["-D" + d for d in defines] + ["-S", "-emit-llvm", path, "-o", base + ".ll"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        return path, None, r.stdout
    r = subprocess.run([OPT, "-passes=mem2reg", "-S", base + ".ll", "-o", base + ".m.ll"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        return path, None, r.stdout
    return path, open(base + ".m.ll").read(), None

# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "n", "el", "name", "elems", "packed")
    def __init__(s, k, n=0, el=None, name=None, elems=None, packed=False):
        s.k = k; s.n = n; s.el = el; s.name = name; s.elems = elems; s.packed = packed
    def __repr__(s):
        if s.k == "i": return "i%d" % s.n
        if s.k == "arr": return "[%d x %r]" % (s.n, s.el)
        if s.k == "named": return s.name
        return s.k
VOID = Ty("void"); PTR = Ty("ptr"); LABEL = Ty("label"); META = Ty("metadata")
INTS = {}
def I(n):
    if n not in INTS: INTS[n] = Ty("i", n)
    return INTS[n]

class Val:
    """operand: kinds 'loc' (ssa/arg name), 'g' (global), 'int', 'null', 'undef', 'fp', 'ce' (constant expression), 'agg', 'str', 'zero', 'meta'"""
    __slots__ = ("k", "v", "ty")
    def __init__(s, k, v, ty): s.k = k; s.v = v; s.ty = ty
    def __repr__(s): return "%s:%r" % (s.k, s.v)

class Instr:
    __slots__ = ("op", "res", "ty", "a", "x", "dbg", "fn", "blk", "i")
    def __init__(s, op, res, ty, a, x, dbg):
        s.op = op; s.res = res; s.ty = ty; s.a = a; s.x = x; s.dbg = dbg
    def __repr__(s): return "<%s %s %s %s>" % (s.res, s.op, s.a, s.x if s.op != "phi" else "")
    @property
    def line(s): return s.fn.mod.loc(s.dbg)[0] if s.dbg else 0
    @property
    def where(s):
        l, f = s.fn.mod.loc(s.dbg) if s.dbg else (0, None)
        return "%s:%d" % (f or s.fn.file, l)

class Block:
    __slots__ = ("name", "ins", "succ", "pred", "idx")
    def __init__(s, name): s.name = name; s.ins = []; s.succ = []; s.pred = []; s.idx = 0

class Fn:
    def __init__(s):
        s.name = None; s.params = []; s.ret = None; s.blocks = {}; s.order = []; s.mod = None; s.decl = False; s.internal = False; s.dbg = None; s.vararg = False
    def __repr__(s): return "<fn %s>" % s.name
    @property
    def file(s): return s.mod.relpath
    @property
    def key(s): return (s.mod.relpath, s.name) if s.internal else s.name
    def instrs(s):
        for b in s.order:
            for i in b.ins: yield i

class Scan:
    __slots__ = ("s", "p", "m")
    def __init__(s, text, mod): s.s = text; s.p = 0; s.m = mod
    WS = re.compile(r"\s*")
    def ws(s):
        while s.p < len(s.s) and s.s[s.p] in " \t": s.p += 1
    def peek(s, t):
        s.ws(); return s.s.startswith(t, s.p)
    def eat(s, t):
        s.ws()
        if s.s.startswith(t, s.p): s.p += len(t); return True
        return False
    def need(s, t):
        if not s.eat(t): raise AnalysisBroken("IR parse: expected %r in %r" % (t, s.s[max(0, s.p-40):s.p+60]))
    WORD = re.compile(r"[A-Za-z_][\w.]*")
    def word(s):
        s.ws(); m = s.WORD.match(s.s, s.p)
        if not m: return None
        s.p = m.end(); return m.group()
    def peekword(s):
        s.ws(); m = s.WORD.match(s.s, s.p)
        return m.group() if m else None
    NAME = re.compile(r'[%@]("(?:[^"\\]|\\.)*"|[-\w.$]+)')
    def name(s):
        s.ws(); m = s.NAME.match(s.s, s.p)
        if not m: raise AnalysisBroken("IR parse: name in %r" % s.s[s.p:s.p+60])
        s.p = m.end(); return m.group()[0] + m.group(1).strip('"')
    NUM = re.compile(r"-?\d+")
    FP = re.compile(r"-?\d+\.\d+(?:e[+-]?\d+)?|0x[KHL]?[0-9A-Fa-f]+")
    def type(s):
        s.ws(); t = s.s; p = s.p; c = t[p]
        if c == "i" and t[p+1].isdigit():
            m = s.NUM.match(t, p+1); s.p = m.end(); ty = I(int(m.group()))
        elif t.startswith("ptr", p): s.p += 3; ty = PTR
        elif t.startswith("void", p): s.p += 4; ty = VOID
        elif c == "[" :
            s.p += 1; s.ws(); m = s.NUM.match(t, s.p); s.p = m.end(); s.need("x"); el = s.type(); s.need("]"); ty = Ty("arr", int(m.group()), el)
        elif t.startswith("<{", p) or c == "{":
            packed = c == "<"; s.p += 2 if packed else 1; els = []
            while not s.eat("}"):
                els.append(s.type()); s.eat(",")
            if packed: s.need(">")
            ty = Ty("lit", elems=els, packed=packed)
        elif c == "<":
            s.p += 1; s.ws(); m = s.NUM.match(t, s.p); s.p = m.end(); s.need("x"); el = s.type(); s.need(">"); ty = Ty("vec", int(m.group()), el)
        elif c == "%": ty = Ty("named", name=s.name()[1:])
        else:
            w = s.word()
            if w in ("double", "float", "x86_fp80", "half", "fp128"): ty = Ty("f", n={"double": 64, "float": 32, "x86_fp80": 128, "half": 16, "fp128": 128}[w])
            elif w == "label": ty = LABEL
            elif w == "metadata": ty = META
            elif w == "opaque": ty = Ty("opaque")
            else: raise AnalysisBroken("IR parse: type %r in %r" % (w, t[p:p+80]))
        # function type (only in call result position)
        s.ws()
        if s.p < len(t) and t[s.p] == "(" and ty.k != "fn" and s.m.allow_fn:
            depth = 0; q = s.p
            while True:
                if t[q] == "(": depth += 1
                elif t[q] == ")":
                    depth -= 1
                    if depth == 0: break
                q += 1
            args = t[s.p+1:q]; s.p = q + 1
            ty = Ty("fn", el=ty, name=args)
        return ty
    def value(s, ty):
        s.ws(); t = s.s; p = s.p; c = t[p]
        if c == "%": return Val("loc", s.name(), ty)
        if c == "@": return Val("g", s.name()[1:], ty)
        if c == "!" or ty.k == "metadata":
            # metadata operand: skip balanced to , or )
            depth = 0; q = p
            while q < len(t):
                if t[q] in "([{": depth += 1
                elif t[q] in ")]}":
                    if depth == 0: break
                    depth -= 1
                elif t[q] == "," and depth == 0: break
                q += 1
            s.p = q; return Val("meta", t[p:q], ty)
        if c == "c" and t[p+1] == '"':
            q = t.index('"', p+2); raw = t[p+2:q]; s.p = q + 1
            b = bytearray(); i = 0
            while i < len(raw):
                if raw[i] == "\\": b.append(int(raw[i+1:i+3], 16)); i += 3
                else: b.append(ord(raw[i]) & 255); i += 1
            return Val("str", bytes(b), ty)
        if c in "[{<":
            close = {"[": "]", "{": "}", "<": "}"}[c]
            s.p += 2 if c == "<" else 1
            els = []
            while not s.eat(close):
                et = s.type(); els.append(s.value(et)); s.eat(",")
            if c == "<": s.need(">")
            return Val("agg", els, ty)
        if ty.k == "f":
            m = s.FP.match(t, p)
            if m: s.p = m.end(); return Val("fp", m.group(), ty)
        m = s.NUM.match(t, p)
        if m: s.p = m.end(); return Val("int", int(m.group()), ty)
        w = s.word()
        if w in ("null",): return Val("null", 0, ty)
        if w in ("true", "false"): return Val("int", 1 if w == "true" else 0, ty)
        if w in ("undef", "poison"): return Val("undef", 0, ty)
        if w == "zeroinitializer": return Val("zero", 0, ty)
        if w in ("getelementptr",):
            s.eat("inbounds"); s.need("("); sty = s.type(); s.need(","); bt = s.type(); base = s.value(bt); idx = []
            while s.eat(","):
                it = s.type(); idx.append(s.value(it))
            s.need(")"); return Val("ce", ("gep", sty, base, idx), ty)
        if w in ("ptrtoint", "inttoptr", "bitcast", "trunc", "zext", "sext", "addrspacecast"):
            s.need("("); ft = s.type(); v = s.value(ft); s.need("to"); tt = s.type(); s.need(")")
            return Val("ce", ("cast", w, v, tt), ty)
        if w in ("add", "sub", "mul", "icmp", "select", "and", "or", "xor", "shl", "lshr"):
            depth = 0
            while True:
                ch = t[s.p]; s.p += 1
                if ch == "(": depth += 1
                elif ch == ")":
                    depth -= 1
                    if depth == 0: break
            return Val("ce", ("other", w), ty)
        if w == "asm": raise AnalysisBroken("asm")
        raise AnalysisBroken("IR parse: value %r in %r" % (w, t[p:p+80]))

PARAM_ATTRS = re.compile(r"\s*(?:noundef|nonnull|signext|zeroext|nocapture|readonly|writeonly|readnone|returned|noalias|immarg|inreg|dead_on_unwind|writable|align \d+|dereferenceable\(\d+\)|dereferenceable_or_null\(\d+\)|byval\([^)]*\)|sret\([^)]*\)|allocalign|allocptr|nofree|captures\([^)]*\)|range\([^)]*\)|elementtype\([^)]*\)|%?#\d+)(?=[\s,)(]|$)")

class Module:
    def __init__(s, path, text, grp):
        s.path = path; s.relpath = os.path.relpath(path, REPO); s.grp = grp
        s.types = {}; s.globals = {}; s.fns = {}; s.md = {}; s.allow_fn = False
        s._loc = {}; s._mdc = {}
        s.parse(text)
    # -- metadata
    def md_node(s, n):
        """-> (kind, dict of attributes) of !n"""
        if n in s._mdc: return s._mdc[n]
        t = s.md.get(n)
        r = None
        if t is not None:
            m = re.match(r"(?:distinct )?!(\w*)(\(|\{)", t)
            if m and m.group(2) == "{":
                inner = t[t.index("{")+1:t.rindex("}")]
                r = ("tuple", [x.strip() for x in inner.split(",")] if inner.strip() else [])
            elif m:
                d = {}
                inner = t[m.end():t.rindex(")")]
                for k, v in re.findall(r'(\w+): ("(?:[^"\\]|\\.)*"|![\w]*(?:\([^)]*\))?|[^,]+)', inner):
                    d[k] = v.strip('"') if v.startswith('"') else v
                r = (m.group(1), d)
        s._mdc[n] = r
        return r
    def loc(s, n):
        if n in s._loc: return s._loc[n]
        x = s.md_node(n); line = 0; f = None
        if x and x[0] == "DILocation":
            line = int(x[1].get("line", 0)); sc = x[1].get("scope")
            f = s.scope_file(sc)
        s._loc[n] = (line, f)
        return s._loc[n]
    def scope_file(s, sc):
        while sc:
            x = s.md_node(sc)
            if not x: return None
            if "file" in x[1]:
                fx = s.md_node(x[1]["file"])
                if fx:
                    p = fx[1].get("filename", "")
                    if not os.path.isabs(p): p = os.path.join(fx[1].get("directory", ""), p)
                    p = os.path.normpath(p)
                    return os.path.relpath(p, REPO) if p.startswith(REPO) else p
            sc = x[1].get("scope")
        return None
    def parse(s, text):
        fn = None; blk = None; lines = text.split("\n"); i = 0; N = len(lines)
        while i < N:
            ln = lines[i]; i += 1
            if fn is not None:
                if ln == "}":
                    fn = None; continue
                if not ln: continue
                c = ln[0]
                if c != " ":
                    m = re.match(r'("(?:[^"\\]|\\.)*"|[-\w.$]+):', ln)
                    if m:
                        blk = Block(m.group(1).strip('"')); fn.blocks[blk.name] = blk; blk.idx = len(fn.order); fn.order.append(blk)
                    continue
                if "llvm.dbg." in ln:
                    s.dbg_line(ln, fn); continue
                st = ln.strip()
                if st.startswith(";"): continue
                if st.startswith("switch ") and not st.endswith("]") and "]" not in st:
                    while i < N:
                        st += " " + lines[i].strip(); i += 1
                        if lines[i-1].strip().startswith("]"): break
                if blk is None:
                    blk = Block("entry"); fn.blocks["entry"] = blk; fn.order.append(blk)
                ins = s.instr(st)
                if ins is not None:
                    ins.fn = fn; ins.blk = blk; ins.i = len(blk.ins); blk.ins.append(ins)
                continue
            if not ln: continue
            c = ln[0]
            if c == "!":
                m = re.match(r"!(\d+) = (.*)$", ln)
                if m: s.md["!" + m.group(1)] = m.group(2)
            elif c == "%":
                m = re.match(r'%("[^"]*"|[\w.]+) = type (.*)$', ln)
                sc = Scan(m.group(2), s); s.types[m.group(1).strip('"')] = sc.type()
            elif c == "@":
                s.global_line(ln)
            elif ln.startswith("define") or ln.startswith("declare"):
                f = s.fn_line(ln)
                s.fns[f.name] = f
                if ln.startswith("define"): fn = f; blk = None
        for f in s.fns.values():
            for b in f.order:
                if not b.ins: continue
                t = b.ins[-1]
                su = []
                if t.op == "br": su = [x for x in t.x if x]
                elif t.op == "switch": su = [t.x[0]] + [l for _, l in t.x[1]]
                seen = []
                for x in su:
                    if x not in seen: seen.append(x)
                b.succ = seen
                for x in seen: f.blocks[x].pred.append(b.name)
    def dbg_line(s, ln, fn):
        m = re.search(r"llvm\.dbg\.(declare|value)\(metadata (.*?), metadata (!\d+), metadata", ln)
        if m:
            v = m.group(2)
            mm = re.search(r"(%[-\w.$]+)$", v)
            if mm: fn.dbgvars.setdefault(mm.group(1), m.group(3))
    def global_line(s, ln):
        m = re.match(r'@("(?:[^"\\]|\\.)*"|[-\w.$]+) = (.*)$', ln)
        name = m.group(1).strip('"'); rest = m.group(2)
        mm = re.match(r"((?:(?:private|internal|external|common|weak|linkonce_odr|dso_local|local_unnamed_addr|unnamed_addr|hidden|thread_local(?:\(\w+\))?|extern_weak) ?)*)(global|constant) ", rest)
        if not mm: return
        sc = Scan(rest[mm.end():], s); ty = sc.type(); init = None
        if "external" not in mm.group(1):
            init = sc.value(ty)
        dm = re.search(r"!dbg (!\d+)", rest)
        s.globals[name] = {"name": name, "ty": ty, "init": init, "const": mm.group(2) == "constant", "internal": "internal" in mm.group(1) or "private" in mm.group(1), "mod": s, "dbg": dm.group(1) if dm else None}
    def fn_line(s, ln):
        f = Fn(); f.mod = s; f.dbgvars = {}
        f.decl = ln.startswith("declare"); f.internal = " internal " in ln.split("@")[0]
        m = re.search(r'@("[^"]*"|[-\w.$]+)\(', ln); f.name = m.group(1).strip('"')
        pre = ln[:m.start()].split()
        sc = Scan(ln[:m.start()].rstrip().split(" ")[-1] if not ln[:m.start()].rstrip().endswith("}") else "i64", s)
        try: f.ret = sc.type()
        except AnalysisBroken: f.ret = I(64)
        # params
        p = m.end(); depth = 1; q = p
        while depth:
            if ln[q] in "([{<": depth += 1
            elif ln[q] in ")]}>": depth -= 1
            q += 1
        sc = Scan(ln[p:q-1], s)
        n = 0
        while True:
            sc.ws()
            if sc.p >= len(sc.s): break
            if sc.eat("..."): f.vararg = True; break
            ty = sc.type()
            s.skip_attrs(sc)
            sc.ws()
            if sc.p < len(sc.s) and sc.s[sc.p] == "%": nm = sc.name()
            else: nm = "%" + str(n)
            f.params.append((nm, ty)); n += 1
            if not sc.eat(","): break
        dm = re.search(r"!dbg (!\d+)", ln); f.dbg = dm.group(1) if dm else None
        return f
    def skip_attrs(s, sc):
        while True:
            m = PARAM_ATTRS.match(sc.s, sc.p)
            if not m: return
            sc.p = m.end()
    DBG = re.compile(r", !dbg (!\d+)")
    TAIL = re.compile(r"(?:, !(?!dbg)[\w.]+ !\d+|, align \d+|, !dbg !\d+|, !heapallocsite !\d+)+\s*$")
    def instr(s, st):
        dm = s.DBG.search(st); dbg = dm.group(1) if dm else None
        st = s.TAIL.sub("", st)
        res = None
        m = re.match(r'(%(?:"[^"]*"|[-\w.$]+)) = ', st)
        if m: res = m.group(1).replace('"', ''); st = st[m.end():]
        sc = Scan(st, s)
        op = sc.word()
        while op in ("tail", "musttail", "notail"): op = sc.word()
        if op == "alloca":
            ty = sc.type(); n = None
            if sc.eat(","):
                if not sc.peek("align"):
                    nt = sc.type(); n = sc.value(nt)
            return Instr("alloca", res, PTR, [] if n is None else [n], ty, dbg)
        if op == "load":
            sc.eat("volatile"); ty = sc.type(); sc.need(","); pt = sc.type(); p = sc.value(pt)
            return Instr("load", res, ty, [p], None, dbg)
        if op == "store":
            sc.eat("volatile"); ty = sc.type(); v = sc.value(ty); sc.need(","); pt = sc.type(); p = sc.value(pt)
            return Instr("store", None, VOID, [v, p], None, dbg)
        if op == "getelementptr":
            sc.eat("inbounds"); sty = sc.type(); sc.need(","); bt = sc.type(); b = sc.value(bt); idx = []
            while sc.eat(","):
                it = sc.type(); idx.append(sc.value(it))
            return Instr("gep", res, PTR, [b] + idx, sty, dbg)
        if op in ("icmp", "fcmp"):
            w = sc.word()
            while op == "fcmp" and w in ("fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"): w = sc.word()
            ty = sc.type(); a = sc.value(ty); sc.need(","); b = sc.value(ty)
            return Instr(op, res, I(1), [a, b], w, dbg)
        if op in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "and", "or", "xor", "shl", "lshr", "ashr", "fadd", "fsub", "fmul", "fdiv", "frem"):
            fl = set()
            while sc.peekword() in ("nuw", "nsw", "exact", "disjoint", "fast"): fl.add(sc.word())
            ty = sc.type(); a = sc.value(ty); sc.need(","); b = sc.value(ty)
            return Instr(op, res, ty, [a, b], fl, dbg)
        if op in ("zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc", "addrspacecast"):
            sc.eat("nneg")
            ft = sc.type(); v = sc.value(ft); sc.need("to"); tt = sc.type()
            return Instr(op, res, tt, [v], ft, dbg)
        if op == "br":
            ty = sc.type()
            if ty.k == "label":
                return Instr("br", None, VOID, [], [sc.name()[1:]], dbg)
            c = sc.value(ty); sc.need(","); sc.type(); t = sc.name()[1:]; sc.need(","); sc.type(); e = sc.name()[1:]
            return Instr("br", None, VOID, [c], [t, e], dbg)
        if op == "switch":
            ty = sc.type(); v = sc.value(ty); sc.need(","); sc.type(); d = sc.name()[1:]; sc.need("["); cases = []
            while not sc.eat("]"):
                ct = sc.type(); cv = sc.value(ct); sc.need(","); sc.type(); cases.append((cv.v, sc.name()[1:]))
            return Instr("switch", None, VOID, [v], (d, cases), dbg)
        if op == "phi":
            ty = sc.type(); inc = []
            while True:
                sc.need("["); v = sc.value(ty); sc.need(","); b = sc.name()[1:]; sc.need("]"); inc.append((b, v))
                if not sc.eat(","): break
            return Instr("phi", res, ty, [v for _, v in inc], inc, dbg)
        if op == "select":
            t1 = sc.type(); c = sc.value(t1); sc.need(","); t2 = sc.type(); a = sc.value(t2); sc.need(","); t3 = sc.type(); b = sc.value(t3)
            return Instr("select", res, t2, [c, a, b], None, dbg)
        if op == "ret":
            ty = sc.type()
            if ty.k == "void": return Instr("ret", None, VOID, [], None, dbg)
            return Instr("ret", None, ty, [sc.value(ty)], None, dbg)
        if op == "unreachable": return Instr("unreachable", None, VOID, [], None, dbg)
        if op == "call":
            s.skip_attrs(sc)
            while sc.peekword() in ("fast", "nnan", "ninf", "ccc"): sc.word()
            s.allow_fn = True
            ty = sc.type(); s.allow_fn = False
            vararg = False
            if ty.k == "fn": vararg = "..." in (ty.name or ""); ty = ty.el
            if sc.peekword() == "asm":
                return Instr("call", res, ty, [], Val("meta", "asm", PTR), dbg)
            callee = sc.value(PTR)
            sc.need("("); args = []
            while not sc.eat(")"):
                at = sc.type()
                if at.k != "metadata": s.skip_attrs(sc)
                args.append(sc.value(at)); sc.eat(",")
            return Instr("call", res, ty, args, callee, dbg)
        if op == "extractvalue":
            ty = sc.type(); v = sc.value(ty); sc.need(","); m = sc.NUM.match(sc.s, sc.p + 1 if sc.s[sc.p] == " " else sc.p)
            return Instr("extractvalue", res, I(64), [v], None, dbg)
        if op == "insertvalue":
            return Instr("insertvalue", res, Ty("lit", elems=[]), [], None, dbg)
        if op == "va_arg":
            t = sc.type(); v = sc.value(t); sc.need(","); rt = sc.type()
            return Instr("va_arg", res, rt, [v], None, dbg)
        if op in ("fneg", "freeze"):
            ty = sc.type(); v = sc.value(ty)
            return Instr(op, res, ty, [v], None, dbg)
        raise AnalysisBroken("IR parse: unknown instruction %r" % st)

    # -- layout
    def sizeof(s, t):
        return s.layout(t)[0]
    def layout(s, t):
        """(size, align)"""
        if t.k == "i":
            b = (t.n + 7) // 8
            p = 1
            while p < b: p *= 2
            return p, min(p, 16)
        if t.k == "ptr": return 8, 8
        if t.k == "f": return (t.n // 8, t.n // 8)
        if t.k in ("arr", "vec"):
            sz, al = s.layout(t.el); return sz * t.n, al
        if t.k == "named":
            d = s.types.get(t.name)
            if d is None or d.k == "opaque": return 1, 1
            return s.layout(d)
        if t.k == "lit":
            off = 0; mal = 1
            for e in t.elems:
                sz, al = s.layout(e)
                if not t.packed:
                    off = (off + al - 1) // al * al; mal = max(mal, al)
                off += sz
            if not t.packed: off = (off + mal - 1) // mal * mal
            return off, mal
        return 1, 1
    def struct_def(s, t):
        if t.k == "named": return s.types.get(t.name)
        return t
    def field_offset(s, t, i):
        d = s.struct_def(t); off = 0
        for j, e in enumerate(d.elems):
            sz, al = s.layout(e)
            if not d.packed: off = (off + al - 1) // al * al
            if j == i: return off, e
            off += sz
        raise AnalysisBroken("field %d of %r" % (i, t))

    # -- debug types
    def di_strip(s, n):
        """strip typedefs and qualifiers of a debug type reference"""
        seen = 0
        while n and seen < 50:
            x = s.md_node(n); seen += 1
            if x and x[0] == "DIDerivedType" and x[1].get("tag") in ("DW_TAG_typedef", "DW_TAG_const_type", "DW_TAG_volatile_type", "DW_TAG_restrict_type"):
                n = x[1].get("baseType")
            else: return n
        return n
    def di_struct_name(s, n):
        """name of the struct the type reference resolves to (typedef name for anonymous ones)"""
        td = None; seen = 0
        while n and seen < 50:
            x = s.md_node(n); seen += 1
            if not x: return None
            if x[0] == "DIDerivedType" and x[1].get("tag") in ("DW_TAG_typedef", "DW_TAG_const_type", "DW_TAG_volatile_type"):
                if x[1].get("tag") == "DW_TAG_typedef": td = x[1].get("name")
                n = x[1].get("baseType")
            elif x[0] == "DICompositeType":
                return x[1].get("name") or td
            else: return None
        return None

    def di_class(s, n):
        """class of a debug type: ('int', bits, signed) / ('ptr', pointee ref) / ('struct', name) / ('array', ref) / ('fnptr',) / None"""
        n0 = n
        n = s.di_strip(n)
        if not n: return None
        x = s.md_node(n)
        if not x: return None
        k, d = x
        if k == "DIBasicType":
            enc = d.get("encoding", "")
            bits = int(d.get("size", "0"))
            if "float" in enc: return ("float", bits)
            return ("int", bits, "unsigned" not in enc and "boolean" not in enc)
        if k == "DIDerivedType" and d.get("tag") == "DW_TAG_pointer_type":
            b = d.get("baseType")
            bb = s.di_strip(b) if b else None
            xx = s.md_node(bb) if bb else None
            if xx and xx[0] == "DISubroutineType": return ("fnptr", bb)
            return ("ptr", b)
        if k == "DICompositeType":
            tag = d.get("tag")
            if tag == "DW_TAG_enumeration_type":
                bt = s.di_class(d.get("baseType")) if d.get("baseType") else None
                bt = bt or ("int", 32, False)
                r = s.enum_values(n)
                return bt + ((min(r.values()), max(r.values())),) if r else bt
            if tag == "DW_TAG_array_type": return ("array", d.get("baseType"))
            return ("struct", s.di_struct_name(n0))
        return None

    def enum_values(s, n):
        c = s._mdc.get(("enum", n))
        if c is not None: return c
        out = {}
        x = s.md_node(n)
        el = x[1].get("elements") if x else None
        t = s.md_node(el) if el else None
        for r in (t[1] if t else []):
            m = s.md_node(r)
            if m and m[0] == "DIEnumerator": out[m[1].get("name", "")] = int(m[1].get("value", "0"))
        s._mdc[("enum", n)] = out
        return out
    def struct_fields(s, name):
        """[(offset bytes, size bytes, field name, di type ref)] of the named struct, from debug information"""
        idx = s.di_index()
        n = idx.get(name)
        if not n: return None
        return s._fields(n)
    def _fields(s, n):
        c = s._mdc.get(("fields", n))
        if c is not None: return c
        x = s.md_node(n); out = []
        el = x[1].get("elements")
        if el:
            t = s.md_node(el)
            for r in (t[1] if t else []):
                m = s.md_node(r)
                if m and m[0] == "DIDerivedType" and m[1].get("tag") == "DW_TAG_member":
                    out.append((int(m[1].get("offset", "0")) // 8, int(m[1].get("size", "0")) // 8, m[1].get("name", ""), m[1].get("baseType")))
        s._mdc[("fields", n)] = out
        return out
    def di_index(s):
        if "idx" in s._mdc: return s._mdc["idx"]
        idx = {}
        for n, t in s.md.items():
            if "DICompositeType(tag: DW_TAG_structure_type" in t or "DICompositeType(tag: DW_TAG_union_type" in t:
                x = s.md_node(n)
                nm = x[1].get("name")
                if nm and "elements" in x[1]: idx.setdefault(nm, n)
        for n, t in s.md.items():
            if "DW_TAG_typedef" in t:
                x = s.md_node(n); b = x[1].get("baseType")
                y = s.md_node(b) if b else None
                if y and y[0] == "DICompositeType" and "elements" in y[1]: idx.setdefault(x[1].get("name"), b)
        s._mdc["idx"] = idx
        return idx
    def fn_di_types(s, f):
        """[return ref, param refs...] of a function"""
        if not f.dbg: return None
        x = s.md_node(f.dbg)
        t = x and s.md_node(x[1].get("type", ""))
        if not t: return None
        tt = s.md_node(t[1].get("types", ""))
        return tt[1] if tt else None
    def var_di(s, f, name):
        n = f.dbgvars.get(name)
        x = s.md_node(n) if n else None
        return x[1].get("type") if x else None
    def var_name(s, f, name):
        n = f.dbgvars.get(name)
        x = s.md_node(n) if n else None
        return x[1].get("name") if x else name.lstrip("%")

def strip_struct(name):
    for p in ("struct.", "union."):
        if name.startswith(p): return re.sub(r"\.\d+$", "", name[len(p):]) if not name[len(p):].startswith("anon") else name[len(p):]
    return name

class Program:
    def __init__(s, mods):
        s.mods = mods
        s.fns = {}        # key -> Fn (defined); key is name for external, (file, name) for internal
        s.byname = {}
        s.globals = {}
        for m in mods:
            for f in m.fns.values():
                if not f.decl:
                    k = (m.grp, f.name) if not f.internal and m.grp.startswith("modules") and f.name in s.fns else f.key
                    s.fns.setdefault(k, f)
                    s.byname.setdefault(f.name, []).append(f)
            for g in m.globals.values():
                if g["init"] is not None and not g["internal"]: s.globals.setdefault(g["name"], g)
    def resolve(s, mod, name):
        """definition of the function called `name` in module `mod`, or None when external"""
        f = mod.fns.get(name)
        if f is not None and not f.decl: return f
        c = s.fns.get(name)
        return c
    def resolve_global(s, mod, name):
        g = mod.globals.get(name)
        if g is not None and g["init"] is not None: return g
        return s.globals.get(name) or g
    def fn(s, name, file=None):
        c = [f for f in s.byname.get(name, []) if file is None or f.file.endswith(file)]
        return c[0] if c else None
    def need(s, name, file=None):
        f = s.fn(name, file)
        if f is None: raise AnalysisBroken("anchor function %s not found" % name)
        return f

_cache = {}
def load(groups=None, defines=()):
    """compile and read the program (groups: prefixes of source directories to keep)"""
    key = (tuple(groups or ()), tuple(defines))
    if key in _cache: return _cache[key]
    srcs = [x for x in sources() if groups is None or any(x[3].startswith(g) for g in groups)]
    tmp = tempfile.mkdtemp(prefix="vsa_")
    try:
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(lambda it: compile_one(it, tmp, defines), srcs))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    mods = []
    for (p, inc, cfg, grp), (path, text, err) in zip(srcs, res):
        if text is None:
            raise AnalysisBroken("cannot compile %s:\n%s" % (path, err))
        mods.append(Module(path, text, grp))
    prog = Program(mods)
    _cache[key] = prog
    return prog

if __name__ == "__main__":
    import time
    t = time.time(); p = load(); print(len(p.mods), "modules", len(p.fns), "functions", sum(len(list(f.instrs())) for f in p.fns.values()), "instructions", time.time() - t)

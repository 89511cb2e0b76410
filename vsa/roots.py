"""Entry points of the analysis and what is analysed in place from them."""
from .slots import static

def has_loop(f):
    r = f.__dict__.get("_loop")
    if r is None:
        idx = {b.name: n for n, b in enumerate(f.order)}
        r = f._loop = any(idx[x] <= idx[b.name] for b in f.order for x in b.succ)
    return r
def size(f):
    r = f.__dict__.get("_size")
    if r is None: r = f._size = sum(len(b.ins) for b in f.order)
    return r
def commons(f): return f.file.startswith("src/viriatum_commons")
def is_test(f): return "/test/" in f.file

BIG = ("src/viriatum/system/", "src/viriatum/viriatum.c")
def big(f):
    """start-up code: analysed function by function instead of as one unfolded main"""
    return f.file.startswith(BIG) and size(f) >= 150

def inline_for(root, extra=()):
    """application code is analysed in place; shared library code only when short and loop free (or of the entry's own file)"""
    def inl(t):
        if big(t) and t is not root: return False
        if t.file == root.file or t in extra: return True
        if not commons(t): return True
        return not has_loop(t) and size(t) < 60
    return inl

def entries(prog, files=None, every=False):
    """functions analysed as entry points: callbacks (address taken), functions nobody calls, and library functions
    called from other files; helpers used only inside their own file are analysed from their callers"""
    st = static(prog)
    out = []
    for f in prog.fns.values():
        if is_test(f): continue
        if files is not None and not any(f.file.startswith(x) for x in files): continue
        cs = [c for c in st.callers.get(f, ()) if c is not f]
        if f in st.taken or not cs: out.append(f)
        elif commons(f) and any(c.file != f.file for c in cs): out.append(f)
        elif every or big(f): out.append(f)
    return sorted(out, key=lambda f: (f.file, f.name))

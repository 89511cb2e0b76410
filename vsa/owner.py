"""A part taken out of a function belongs to it: a function used by one other only is judged with its user."""
from . import slots
def users_of(p):
    c = getattr(p, "_user_fns", None)
    if c is None:
        c = {}; sl = slots.static(p)
        for f in p.fns.values():
            for i in f.instrs():
                if i.op == "call" and i.x.k == "g":
                    for t in sl.targets(f, i):
                        if not isinstance(t, str) and t is not f: c.setdefault(t.name, set()).add(f.name)
        p._user_fns = c
    return c
def owners(p, name, depth=3):
    """the name itself, and the functions it was taken out of"""
    c = users_of(p); out = [name]; lvl = [name]
    for _ in range(depth):
        lvl = [u for n in lvl if len(c.get(n, ())) <= 3 for u in sorted(c.get(n, ())) if u not in out]
        out += lvl
    return out

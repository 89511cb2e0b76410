"""Interval/linear-inequality abstract interpretation of every request-side entry point; each access and copy into a
sized object or array field is an obligation (offset >= 0 and offset + length <= size)."""
from vsa import roots, run as R, bounds
FILES = ("src/viriatum/handlers/", "src/viriatum/http/", "src/viriatum/stream/", "modules/mod_lua", "modules/mod_gif", "modules/mod_diag")
def run(ctx):
    p = ctx.prog()
    ents = roots.entries(p, FILES)
    ctx.rule("entry points", len(ents), 20)
    r = R.sweep(ctx, p, ents, bounds.Bounds)
    bounds.collect(ctx, r, lambda w: w.startswith(FILES))

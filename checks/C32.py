"""Two rules.  (1) Every function is interpreted on its own, over all its paths, storage starting without a value, steps that fail
leaving what they would have filled as it was, and called functions that work on storage of the analysed function being analysed in
place: a value that was never given does not decide a branch, is not dereferenced, called, or handed on to a function.  (2) For every
place that allocates a structure, the fields stored on every path from the allocation to each way out of the function are computed
(called functions included); every field the program reads somewhere is among them.  Fields given a value later by contract are
listed with the reason."""
from vsa import values, initial, slots, roots, conn, ir
LATER = {
    ("rc4_t", "box"): "filled by a loop over all its elements",
    ("type_t", "value"): "set with the type by the functions creating each kind of value",
    ("template_parameter_t", "raw_value"): "set with the type of the parameter, which is tested before",
    ("handler_file_context_t", "url"): "set by the url callback, which precedes every use",
    ("handler_file_context_t", "flushed"): "set when the listing is rendered, which precedes the callback reading it",
    ("http_handler_t", "lower"): "set when the handler is registered",
    ("service_t", "start_time"): "set when the service starts",
    **{("service_t", n): "set by load_specifications before the service is configured and started" for n in ("compilation_date", "compilation_flags", "compilation_time", "compiler", "compiler_version", "flags", "platform", "version")},
}
def run(ctx):
    p = ctx.prog(); sl = slots.static(p)
    found, good, n = values.sweep(ctx, p)
    ctx.rule("functions analysed", n, 300)
    ctx.rule("uses of values", len(good.get("use", ())), 500)
    ctx.ok("a used value was given", None, len(good.get("use", ())))
    for (kind, key), (m, w, r) in sorted(found.items()):
        if kind == "undef": ctx.bad(key, m, w, "analysed from the entry of %s" % r)
    read = {}
    for f in p.fns.values():
        if roots.is_test(f): continue
        for i in f.instrs():
            if i.op == "load":
                t = sl.addr(f, i.a[0])
                if t[0] == "tag": read.setdefault(t[1:3], f.name)
    I = initial.Initial(p); sites = 0
    for f, i, t, al, r in I.sites():
        sites += 1
        if r is None or r is initial.ALL: continue
        nm = ir.strip_struct(t.name)
        for fld, (o, z) in conn.offsets(p, nm).items():
            if (nm, fld) not in read: continue
            if o in r: ctx.ok("field set when allocated", "%s.%s in %s" % (nm, fld, f.name))
            elif (nm, fld) in LATER: ctx.ok("field set later", "%s.%s: %s" % (nm, fld, LATER[(nm, fld)]))
            else: ctx.bad("%s:unset:%s.%s" % (f.name, nm, fld), "%s leaves the field %s of the %s it allocates without a value, and %s reads it" % (f.name, fld, nm, read[(nm, fld)]), i.where)
    ctx.rule("allocations of structures", sites, 30)

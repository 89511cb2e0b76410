"""Interval/linear-inequality abstract interpretation of every request-side entry point; each access and copy into a
sized object or array field is an obligation (offset >= 0 and offset + length <= size)."""
from vsa import roots, run as R, bounds
FILES = ("src/viriatum_commons/ini/", "src/viriatum_commons/formats/", "src/viriatum_commons/template/", "src/viriatum_commons/util/", "src/viriatum_commons/io/", "src/viriatum_commons/debug/", "src/viriatum/system/", "src/viriatum/viriatum.c", "src/viriatum/module/")
# places the interpreter cannot decide: a relation between two variables of a loop that its linear facts do not carry
UNDECIDED = {
    "_tag_end_callback:read:heap": "the distance between the mark of a tag and the current position",
    "_getc_template_engine:write:heap.process_template_engine": "the position in the buffer plus the remaining size is the size of the buffer",
    "create_modules_label:memcpy:service_t.modules": "the position in the label plus the available size is the size of the label",
    "create_modules_label:write:service_t.modules": "the position in the label plus the available size is the size of the label",
    "module_name:memcpy:%load_module._module_name": "the position of a scan never passes the end of the string",
    "module_name:write:%load_module._module_name": "the position of a scan never passes the end of the string",
    "trailing_size:read:heap": "the distance between the mark of a key and the current position",
}
def run(ctx):
    p = ctx.prog()
    ents = roots.entries(p, FILES)
    ctx.rule("entry points", len(ents), 20)
    r = R.sweep(ctx, p, ents, bounds.Bounds)
    bounds.collect(ctx, r, lambda w: w.startswith(FILES), lambda k, m: k in UNDECIDED)

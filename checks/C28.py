"""Interval/linear-inequality abstract interpretation of the encoders, decoders, digests and byte streams (entry: any
buffer, any length): each access and copy into a sized object is an obligation (offset >= 0 and offset + length <= size).
The encoded and decoded lengths of base 64 are compared with the definition on every residue class of the input length
(linear-congruence evaluation), which covers the products and divisions the inequalities cannot express."""
from vsa import roots, run as R, bounds, residue
FILES = ("src/viriatum_commons/encoding/", "src/viriatum_commons/crypto/", "src/viriatum_commons/checksum/", "src/viriatum_commons/sorting/")
def byte_pair(f, n):
    """is the pointer parameter a buffer of bytes (then the next parameter is its length)"""
    di = f.mod.fn_di_types(f)
    d = di[n + 1] if di and n + 1 < len(di) else None
    return d is not None and pointee(f.mod, d) in ("char", "unsigned char")
def pointee(mod, d):
    for _ in range(9):
        x = mod.md_node(d)
        if x is None: return None
        n = x[1]
        tag = n.get("tag")
        if tag == "DW_TAG_pointer_type": d = n.get("baseType"); continue
        if tag in ("DW_TAG_const_type", "DW_TAG_typedef"): d = n.get("baseType"); continue
        return n.get("name", "").strip('"')
    return None
def run(ctx):
    p = ctx.prog()
    ents = roots.entries(p, FILES)
    ctx.rule("entry points", len(ents), 10)
    r = R.sweep(ctx, p, ents, lambda f: bounds.Bounds(f, contracts=byte_pair), budget=3000000)
    def nonlinear(key, msg): return "_encode_base64:write" in key and "size term" in msg
    bounds.collect(ctx, r, lambda w: w.startswith(FILES), nonlinear)
    f = p.need("calculate_encoded_buffer_length_base64")
    for k in range(3):
        want = (4, 4 if k else 0)
        got = residue.evaluate(f, 0, 3, k)
        what = "length of base 64 text for 3q+%d bytes" % k
        if got is None: ctx.open("base 64 encoded length %d" % k, "not a linear congruence")
        else: ctx.expect(got == want or (got[0] == 4 and got[1] >= want[1] and False), "length formula", "base64-encoded-length:%d" % k, what, "%s computed as %d*q+%d, the encoding writes %d*q+%d" % ((what,) + got + want), f.file)
    f = p.need("calculate_decoded_buffer_length_base64")
    for k in range(3):
        want = (3, 3 - k); got = residue.evaluate(f, 0, 4, 4, {1: (0, k)})
        what = "length of the data of q+1 groups with %d padding characters" % k
        if got is None: ctx.open("base 64 decoded length %d" % k, "not a linear congruence")
        else: ctx.expect(got == want, "length formula", "base64-decoded-length:%d" % k, what, "%s computed as %d*q+%d, the decoding yields %d*q+%d" % ((what,) + got + want), f.file)

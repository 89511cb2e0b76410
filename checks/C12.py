"""Abstract interpretation of every request handler over symbolic byte positions: on every path that answers with a file
the first and last byte lie inside the file that was measured (0 <= first <= last < size), a partial answer announces
exactly the interval that is sent, and the sender moves the file it opened to the first byte before it reads."""
from vsa import resp, slots
from vsa.ir import AnalysisBroken
def run(ctx):
    p = ctx.prog()
    reqs, cbs, seen, snd = resp.analyse(ctx, p, "C12")
    ctx.expect(any(v.get("head") for v in seen.values()), "requests answered", "nohead", "response heads found", "no request handler writes a response head")

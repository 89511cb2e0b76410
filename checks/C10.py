"""Abstract interpretation of every request handler over symbolic texts: the head of each response is rebuilt from the
format strings and copies that write it; it has no gap, ends with one empty line, announces its length once, and the
announced length equals the body: the number of bytes of the same block, the length of the string its sender writes, or
the size of the range its sender reads; the size given to the socket layer is the length of the text; a sender keeps the
connection only when everything announced was sent."""
from vsa import resp, slots
from vsa.ir import AnalysisBroken
def run(ctx):
    p = ctx.prog()
    reqs, cbs, seen, snd = resp.analyse(ctx, p, "C10")
    ctx.expect(any(v.get("head") for v in seen.values()), "requests answered", "nohead", "response heads found", "no request handler writes a response head")

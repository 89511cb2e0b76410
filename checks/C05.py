"""Typestate of every request handler by abstract interpretation: on each exit of the function that completes a request
exactly one answer was queued (one response, one forward to the backend, one delegation to the script, or the closing of
the connection), with the connection acquired before, so that no other request is interpreted while it is in flight."""
from vsa import resp, slots
from vsa.ir import AnalysisBroken
def run(ctx):
    p = ctx.prog()
    reqs, cbs, seen, snd = resp.analyse(ctx, p, "C05")
    ctx.expect(any(v.get("head") for v in seen.values()), "requests answered", "nohead", "response heads found", "no request handler writes a response head")

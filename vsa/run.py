"""Common runner of the checks: collects obligations and findings, compares with the committed list of known
findings, writes the evidence file and the replay files, prints the verdict."""
import sys, os, json, time, importlib, traceback, hashlib
from multiprocessing import Pool
from . import ir, slots, ai
from .ir import AnalysisBroken

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

class Finding:
    def __init__(s, key, msg, where="", trace=""): s.key = key; s.msg = msg; s.where = where; s.trace = trace

class Ctx:
    def __init__(s, prop, tier):
        s.prop = prop; s.tier = tier; s.thorough = tier == "thorough"
        s.findings = {}; s.counts = {}; s.samples = []; s.notes = []; s.undecided = {}; s.fns = set(); s.instances = {}
        s.assumptions = []; s.explain = []
    def prog(s, defines=()):
        p = ir.load(defines=defines)
        if not s.counts.get("modules_parsed"):
            s.counts["modules_parsed"] = len(p.mods); s.counts["functions_parsed"] = len(p.fns)
        return p
    def count(s, k, n=1): s.counts[k] = s.counts.get(k, 0) + n
    def rule(s, name, n, need=1):
        """instances of a rule matched on this run"""
        s.instances[name] = s.instances.get(name, 0) + n
        if n < need: raise AnalysisBroken("rule %s matched %d instances, at least %d expected" % (name, n, need))
    def ok(s, rule, what=None, n=1):
        s.count("obligations", n); s.count("discharged", n); s.count("rule:" + rule, n)
        if what and len(s.samples) < 40: s.samples.append("%s: %s" % (rule, what))
    def bad(s, key, msg, where="", trace=""):
        s.count("obligations")
        if key not in s.findings: s.findings[key] = Finding(key, msg, where, trace)
    def open(s, key, msg):
        s.count("obligations"); s.undecided.setdefault(key, msg)
    def expect(s, cond, rule, key, what, msg, where=""):
        if cond: s.ok(rule, what)
        else: s.bad(key, msg, where)
        return cond

def known(prop):
    out = {}
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip("\n")
            if l.startswith("finding: "):
                a, _, what = l[9:].partition(" :: ")
                pr, _, key = a.partition(" ")
                if pr == "property=" + prop: out[key.strip()] = what
    return out

def main(argv):
    prop = argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv: tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    ctx = Ctx(prop, tier)
    try:
        m = importlib.import_module("checks." + prop)
        m.run(ctx)
        if not ctx.counts.get("obligations"): raise AnalysisBroken("no obligation was generated")
    except AnalysisBroken as e:
        if all(k in known(prop) for k in ctx.findings): print("ANALYSIS BROKEN property=%s: %s" % (prop, e)); return 3
        ctx.notes.append("stopped early: %s" % e)
    kn = known(prop)
    ev = os.path.join(HERE, "evidence"); os.makedirs(ev, exist_ok=True)
    viol = 0
    for k in sorted(ctx.findings):
        f = ctx.findings[k]
        if k in kn:
            print("KNOWN-FINDING: property=%s %s (%s)" % (prop, f.msg, k)); continue
        viol += 1
        rp = os.path.join(ev, "replay"); os.makedirs(rp, exist_ok=True)
        path = os.path.join(rp, "%s-%s.txt" % (prop, hashlib.sha1(k.encode()).hexdigest()[:10]))
        with open(path, "w") as o:
            o.write("property: %s\ninstance: %s\nwhere: %s\nfinding: %s\n%s\nre-run: cd /verif && python3 check.py %s\n" % (prop, k, f.where, f.msg, f.trace, prop))
        print("%s: %s [%s]" % (f.where, f.msg, k))
        if f.trace: print("    " + f.trace.replace("\n", "\n    "))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    wall = time.time() - t0
    cov = {"explanation": " ".join(ctx.explain) or (m.__doc__ or "").strip()}
    cov.update(ctx.counts)
    cov["rule_instances"] = ctx.instances
    cov["samples"] = ctx.samples[:40]
    cov["undecided"] = len(ctx.undecided)
    cov["undecided_sites"] = ["%s: %s" % x for x in sorted(ctx.undecided.items())][:60]
    if ctx.fns: cov["functions_analysed"] = len(ctx.fns)
    if ctx.notes: cov["notes"] = ctx.notes[:50]
    cov["known_findings"] = [k for k in ctx.findings if k in kn]
    out = {"property": prop, "tier": tier, "seed": seed, "level": "other", "coverage": cov, "wall_s": round(wall, 2), "violations": viol}
    if ctx.assumptions: out["assumptions"] = ctx.assumptions
    json.dump(out, open(os.path.join(ev, prop + ".json"), "w"), indent=1, default=str)
    print("%s: %d obligations, %d discharged, %d undecided, %d functions analysed, %d violations, %.1fs" % (prop, ctx.counts.get("obligations", 0), ctx.counts.get("discharged", 0), len(ctx.undecided), len(ctx.fns), viol, wall))
    return 1 if viol else 0

# ------------------------------------------------------------------ running the interpreter over many entry points
_job = None
def _do(n):
    ents, make, opts = _job
    f = ents[n]
    from . import roots
    t = time.time()
    mon = make(f)
    e = ai.Engine(opts["prog"], mon, depth=opts.get("depth", 8), inline=(opts.get("inline") or roots.inline_for)(f), budget=opts.get("budget", 400000), cap=opts.get("cap"))
    err = None
    try: e.run(f, setup=opts.get("setup"))
    except AnalysisBroken as x: err = "broken: %s" % x
    r = mon.result()
    return n, r, e.incomplete or err, [g.name for g in e.visited], e.budget0 - e.budget, time.time() - t
def sweep(ctx, prog, ents, make, **opts):
    """run the interpreter with monitor make(f) over each entry; yields (entry, monitor result)"""
    global _job
    opts["prog"] = prog; slots.static(prog)
    ent = list(ents)
    if not ent: raise AnalysisBroken("no entry points")
    _job = (ent, make, opts)
    out = []
    with Pool(min(8, len(ent))) as P:
        for n, r, inc, vis, steps, dt in P.imap_unordered(_do, range(len(ent))):
            ctx.count("entry_points"); ctx.count("abstract_steps", steps)
            ctx.fns |= set(vis)
            if inc:
                ctx.count("entries_cut_short"); ctx.notes.append("%s: analysis stopped early (%s)" % (ent[n].name, inc))
            out.append((ent[n], r, inc))
    return sorted(out, key=lambda x: x[0].name)

"""Topics (C19)."""
import json, os, random
from vlib import CheckError, log

MC = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Pubs = {p1, p2}
 NPub = %d
 Batch = %d
 Plain = {%s}
 Chans = {%s}
INVARIANTS OnceInOrder Complete NotBefore MapHoldsOpen
PROPERTIES ClosesEnd PublishersEnd Delivered
"""
SEQ = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Steps = %d
 Emit = %s
 Sizes = {%s}
INVARIANTS Consecutive PrintIt
"""


def check(ctx):
    ctx.model("PubSub", MC % (1, 2, "a", "c"), "2 publishers, plain and channel subscription")
    if ctx.thorough:
        ctx.model("PubSub", MC % (1, 1, "a, b", "c"), "2 publishers, 3 subscriptions")
        ctx.model("PubSub", MC % (2, 1, "a", "c"), "2 publishers twice, plain and channel subscription", timeout=1500)
    scripts = []
    for seed, (steps, sizes, num) in enumerate([(30, "0, 1, 2, 3", 12), (14, "1, 2, 1500", 5)]):
        num = num * ctx.n(1, 12)
        r = ctx.tlc("PubSubSeq", SEQ % (steps, "TRUE", sizes), ["-simulate", "num=%d" % num, "-depth", str(steps + 1),
                                                              "-seed", str(ctx.seed * 31 + seed)])
        if r.rc != 0:
            raise CheckError(r.text[-2000:])
        seen = {}
        for d in r.records("SCRIPT"):
            seen.setdefault(json.dumps(d["s"][:-1]), d["s"])
        ks = sorted(seen)
        for i, k in enumerate(ks[:num * 8]):
            scripts.append(dict(kind="seq", name="seq-%d-%d" % (seed, i), ops=seen[k]))
        ctx.parts.append("simulation of PubSubSeq: %d scripts" % len(ks))
    rng = random.Random(ctx.seed)
    for i in range(ctx.n(40, 600)):
        scripts.append(dict(kind="conc", name="conc-%d" % i, seed=rng.randrange(1 << 30), NPub=rng.choice([1, 2, 4, 8]),
                            NSub=rng.choice([2, 4, 8]), Per=rng.choice([5, 12, 20]), MaxBatch=rng.choice([1, 2, 5]),
                            NClose=rng.choice([0, 1, 2, 4])))
    run(ctx, scripts)


def run(ctx, scripts):
    fi, fo = ctx.path("ps.in"), ctx.path("ps.out")
    byname = {s["name"]: s for s in scripts}
    with open(fi, "w") as f:
        for s in scripts:
            f.write(json.dumps(s) + "\n")
    crash = ctx.harness(["pubsub", fi, fo], 240)
    if crash:
        ctx.violation("the process %ses: %s" % crash, dict(kind="pubsub", scripts=scripts[:200]))
        return
    runs = [json.loads(l) for l in open(fo)]
    nseq = nop = 0
    for r in runs:
        if r.get("hang"):
            ctx.violation("%s: %s" % (r["name"], r["hang"]), dict(kind="pubsub", scripts=[byname[r["name"]]]))
        if r["kind"] == "seq":
            nseq += 1
            for i, op in enumerate(r["ops"]):
                nop += 1
                if op["got"] != (op["ans"] or []) or op.get("why"):
                    ctx.violation("%s op %d %s of %d: %s instead of %s %s" %
                                  (r["name"], i, op["op"], op["s"], op["got"][:20], (op["ans"] or [])[:20], op.get("why", "")),
                                  dict(kind="pubsub", scripts=[byname[r["name"]]]))
                    break
    conc = [r for r in runs if r["kind"] == "conc" and r.get("subs")]
    if conc:
        f = ctx.path("ps.trace")
        with open(f, "w") as o:
            for r in conc:
                o.write(json.dumps(r) + "\n")
                for s in r["subs"]:
                    if s.get("hang"):
                        ctx.violation("%s: %s" % (r["name"], s["hang"]), dict(kind="pubsub", scripts=[byname[r["name"]]]))
        t = ctx.tlc("PubSubTrace", "PubSubTrace.cfg", env={"TRACE": f})
        if t.rc != 0:
            raise CheckError("trace validation failed:\n" + t.text[-3000:])
        n = m = 0
        for d in t.records("SUB"):
            n += 1
            m += d["n"]
            if d["bad"]:
                ctx.violation("%s subscriber %d: %s" % (d["run"], d["j"], d["bad"]),
                              dict(kind="pubsub", scripts=[byname[d["run"]]], run=next(r for r in conc if r["name"] == d["run"])))
        if n != sum(len(r["subs"]) for r in conc):
            raise CheckError("not every subscriber validated")
        ctx.parts.append("%d concurrent runs, %d subscribers, %d messages validated" % (len(conc), n, m))
        ctx.sample(dict(run=conc[0]["name"], pubs=conc[0]["pubs"][:4], sub=conc[0]["subs"][0]["got"][:8]))
    ctx.parts.append("%d sequential behaviours replayed, %d calls compared" % (nseq, nop))
    ctx.traces += len(runs)
    for p in ctx.parts[-2:]:
        log(p)

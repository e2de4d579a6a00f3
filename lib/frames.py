"""Messages on a connection (C14): Wire.tla, and recorded messages between two
real connections."""
import json, os, random
from vlib import CheckError, log

MC = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Base = %d
 HLen = 2
 Limit = %d
 Lens = {%s}
 Fixed = {%s}
 NItems = %d
 MaxPolls = %d
 KeepPartial = %s
INVARIANTS Faithful Complete
PROPERTIES Arrive
"""
EDGE = [0, 1, 2, 255, 256, 257, 32767, 32768, 65534, 65535]
OVER = [65536, 65537, 65538, 65536 + 255, 65536 + 256, 70000, 131072, 131073]


def model(ctx):
    ctx.model("Wire", MC % (2, 3, "0,1,2,3,4", "1,2", 3, 3, "TRUE"), "3 values of lengths 0-4, limit 3")
    if ctx.thorough:
        ctx.model("Wire", MC % (2, 3, "0,3,4", "2", 5, 4, "TRUE"), "5 values", timeout=1500)
        for what, args in (("a limit beyond the header", (2, 4, "0,1,2,3,4", "1,2", 3, 3, "TRUE")),
                           ("forgetting an abandoned read", (2, 3, "0,1,2,3,4", "1,2", 3, 3, "FALSE"))):
            r = ctx.tlc("Wire", MC % args)
            if "Faithful is violated" not in r.text and "violated" not in r.text:
                raise CheckError("Wire cannot see " + what)
            ctx.parts.append("Wire with %s: refuted as it should be" % what)


def scripts(ctx, n):
    out = []
    for i in range(n):
        r = random.Random("frames/%s/%s" % (ctx.seed, i))
        def items():
            l = []
            for _ in range(r.choice([1, 4, 10, 25])):
                k = r.choice(["s", "s", "s", "s", "h", "u", "b", "blk", "mk", "tx"])
                it = dict(k=k)
                if k == "s":
                    it["len"] = r.choice([r.choice(EDGE), r.randrange(40), r.randrange(40), r.randrange(600), r.choice(OVER),
                                          r.randrange(65536)])
                    if r.random() < .5:
                        it["ms"] = r.choice([1, 5, 30, 100])
                    if r.random() < .3:
                        it["gap"] = r.choice([1, 10, 60, 120])
                elif k == "tx":
                    it["ls"] = [r.choice([0, 1, 91, 70, 72, r.choice(EDGE)]) for _ in range(2 * r.choice([0, 1, 2, 3]))]
                    it["out"] = r.choice([0, 1, 2, 5])
                l.append(it)
            return l
        out.append(dict(name="frames-%d" % i, seed=r.randrange(1 << 30), seg=["", "byte", "rand", "slow"][i % 4],
                        a=items(), b=items()))
    return out


def run(ctx, scs):
    fi, fo = ctx.path("fr.in"), ctx.path("fr.out")
    by = {s["name"]: s for s in scs}
    with open(fi, "w") as f:
        for s in scs:
            f.write(json.dumps(s) + "\n")
    crash = ctx.harness(["frames", fi, fo, 32], 300)
    if crash:
        ctx.violation("the process %ses: %s" % crash, dict(kind="frames", scripts=scs[:50]))
        return
    runs = [json.loads(l) for l in open(fo)]
    if len(runs) != len(scs):
        raise CheckError("only %d of %d runs" % (len(runs), len(scs)))
    t = ctx.tlc("WireTrace", "WireTrace.cfg", env={"TRACE": fo})
    if t.rc != 0:
        raise CheckError("trace validation failed:\n" + t.text[-3000:])
    seen = 0
    nev = 0
    for d in t.records("FRAMES"):
        seen += 1
        nev += d["n"]
        if d["bad"]:
            x = next(r for r in runs if r["name"] == d["run"])
            ctx.violation("%s (%s): %s; last events %s" % (d["run"], x["seg"], d["bad"], json.dumps(x["evs"][-4:])),
                          dict(kind="frames", scripts=[by[d["run"]]], events=x["evs"][-50:]))
    if seen != len(runs):
        raise CheckError("only %d of %d runs validated" % (seen, len(runs)))
    ctx.traces += len(runs)
    ctx.parts.append("%d recorded message streams, %d events validated" % (len(runs), nev))
    log(ctx.parts[-1])
    ctx.sample(dict(run=runs[0]["name"], events=runs[0]["evs"][:5]))


def check(ctx, n):
    model(ctx)
    run(ctx, scripts(ctx, n))

"""The keys of the wallet program (C24): Keyring.tla, KeyringTrace.tla."""
import json, os, random
from vlib import CheckError, log

CFG = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Atomic = %s
 TellLast = %s
 Overlap = %s
 Keys = {1, 2, 3}
 Steps = %d
 Emit = %s
INVARIANTS %s
"""
ALL = "NoneLost NoneVain Readable"
TRACE = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
"""


def run(ctx, scripts):
    d = ctx.path("homes")
    os.makedirs(d, exist_ok=True)
    for p in (ctx.dir, d):
        os.chmod(p, 0o711)
    a, b = ctx.path("cli.in"), ctx.path("cli.out")
    json.dump(scripts, open(a, "w"))
    crash = ctx.harness(["cli", ctx.build_cmd("cmd/bcwallet"), d, a, b], 600)
    if crash:
        ctx.violation("it %ses: %s" % crash, dict(kind="keyring", scripts=scripts[:20]))
        return
    recs = [json.loads(l) for l in open(b)]
    r = ctx.tlc("KeyringTrace", TRACE, env={"LOG": b}, timeout=600)
    if r.rc != 0 or r.distinct != sum(len(x["steps"]) + 1 for x in recs):
        raise CheckError(r.text[-3000:])
    ctx.traces += len(recs)
    bad = sorted(r.records("BAD"), key=lambda x: (x["run"], x["i"]))
    seen = set()
    for x in bad:
        if x["run"] in seen:
            continue
        seen.add(x["run"])
        s = recs[x["run"] - 1]
        st = s["steps"][x["i"] - 1]
        ctx.violation("run %s, command %d: %s" % (s["name"], x["i"], json.dumps(st)[:1500]),
                      dict(kind="keyring", scripts=[y for y in scripts if y["name"] == s["name"]]))
    steps = [st for x in recs for st in x["steps"]]
    ctx.parts.append("%d runs of bcwallet, %d commands (%d with success, %d with a fault), %d states it could have been killed in" %
                     (len(recs), len(steps), sum(s["ok"] for s in steps), sum(s["fault"] != "" for s in steps), sum(len(s["alts"]) for s in steps)))
    log(ctx.parts[-1])


def check(ctx):
    n = ctx.n(3, 4)
    ctx.model("Keyring", CFG % ("TRUE", "TRUE", "FALSE", n, "FALSE", ALL), "%d commands, killed or failing at any step" % n, timeout=1500)
    ctx.refuted("Keyring", CFG % ("FALSE", "TRUE", "FALSE", 3, "FALSE", "NoneLost"), "saving in place")
    ctx.refuted("Keyring", CFG % ("TRUE", "FALSE", "FALSE", 3, "FALSE", "NoneVain"), "reporting first")
    num, steps = ctx.n(60, 800), 9
    r = ctx.tlc("Keyring", CFG % ("TRUE", "TRUE", "FALSE", steps, "TRUE", "PrintIt"),
                ["-simulate", "num=%d" % num, "-depth", str(steps + 1), "-seed", str(ctx.seed * 7 + 1)], timeout=300)
    if r.rc != 0:
        raise CheckError(r.text[-2000:])
    scripts = []
    rng = random.Random("keyring/%d" % ctx.seed)
    seen = set()
    for d in r.records("SCRIPT"):
        if len(scripts) >= num:
            break
        if json.dumps(d["s"]) in seen:
            continue
        seen.add(json.dumps(d["s"]))
        i = len(scripts)
        for s in d["s"]:
            # some are killed for real
            if s["cmd"] in ("generate", "import", "connect") and s["fault"] == "" and rng.random() < .2:
                s["fault"] = "kill"
        scripts.append(dict(name="r%d" % i, seed=rng.randrange(1 << 30), steps=d["s"]))
    run(ctx, scripts)

"""Transactions the wallet builds (C20): Wallet.tla."""
import json, os, random
from vlib import CheckError, log

CFG = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT ModelOK
CONSTANTS
 Mode = "%s"
 Pick = %d
 Part = "%s"
 Big = %s
"""


def build(ctx, cases):
    a, b = ctx.path("wallet.in"), ctx.path("wallet.out")
    open(a, "w").write("".join(json.dumps(c) + "\n" for c in cases))
    crash = ctx.harness(["wallet", a, b], 600)
    if crash:
        ctx.violation("building a transaction %ses: %s" % crash, dict(kind="wallet", cases=[]))
        return
    r = ctx.tlc("Wallet", CFG % ("check", 0, "all", "FALSE"), env={"LOG": b}, timeout=900)
    log_ = [json.loads(l) for l in open(b)]
    if r.rc != 0 or r.distinct != 2 * len(log_):
        raise CheckError(r.text[-2000:])
    got = sorted(r.records("JUDGED"), key=lambda d: d["i"])
    bad = [d for d in got if not d["right"]]
    ctx.traces += len(cases)
    if bad:
        x = log_[bad[0]["i"] - 1]
        t = x["r"]
        what = ("it crashes: " + t["what"] if t["panic"] else
                "it reports an error (%s) though it can be done" % t["what"] if t["err"] else
                "what it builds is not valid" if not bad[0]["valid"] else "what it builds moves other amounts")
        ctx.violation("%d of %d cases go wrong, the first: %s: %s" % (len(bad), len(log_), what, json.dumps(x)[:1200]),
                      dict(kind="wallet", cases=[log_[d["i"] - 1]["c"] for d in bad[:40]]))
    built = sum(1 for x in log_ if not x["r"]["err"] and not x["r"]["panic"])
    ctx.parts.append("Wallet: %d cases: %d built, %d refused, %d must be built" %
                     (len(log_), built, len(log_) - built, sum(1 for d in got if d["can"])))
    log(ctx.parts[-1])


def runs(ctx, cases):
    """the wallet program itself"""
    d = ctx.path("homes")
    os.makedirs(d, exist_ok=True)
    for p in (ctx.dir, d):
        os.chmod(p, 0o711)
    a, b = ctx.path("runs.in"), ctx.path("runs.out")
    open(a, "w").write("".join(json.dumps(c) + "\n" for c in cases))
    crash = ctx.harness(["cliwallet", ctx.build_cmd("cmd/bcwallet"), d, a, b], 800)
    if crash:
        raise CheckError("%s: %s" % crash)
    log_ = [json.loads(l) for l in open(b)]
    r = ctx.tlc("Wallet", CFG % ("runs", 0, "cli", "FALSE"), env={"LOG": b}, timeout=900)
    if r.rc != 0 or r.distinct != 2 * len(log_):
        raise CheckError(r.text[-2000:])
    ctx.traces += len(cases)
    bad = sorted(x["i"] for x in r.records("BADRUN"))
    if bad:
        ctx.violation("%d of %d runs of bcwallet go wrong, the first: %s" % (len(bad), len(log_), json.dumps(log_[bad[0] - 1])[:1800]),
                      dict(kind="walletrun", cases=[cases[i - 1] for i in bad[:40]]))
    ctx.parts.append("bcwallet: %d payments and consolidations: %d sent, %d not confirmed" %
                     (len(log_), sum(x["posts"] for x in log_), sum(1 for x in log_ if x["asked"] and not x["posts"])))
    log(ctx.parts[-1])


def check(ctx):
    big = "TRUE" if ctx.thorough else "FALSE"
    ctx.model("Wallet", CFG % ("model", 0, "all", big), "richest first against every choice of outputs", timeout=900)
    a = ctx.path("wallet.cases")
    r = ctx.tlc("Wallet", CFG % ("write", ctx.n(2500, 10 ** 9), "all", big), ["-seed", str(ctx.seed)], env={"LOG": a}, timeout=900)
    if r.rc != 0:
        raise CheckError(r.text[-2000:])
    build(ctx, [json.loads(l) for l in open(a)])
    b = ctx.path("cli.cases")
    r = ctx.tlc("Wallet", CFG % ("write", ctx.n(60, 500), "cli", big), ["-seed", str(ctx.seed)], env={"LOG": b}, timeout=900)
    if r.rc != 0:
        raise CheckError(r.text[-2000:])
    rng = random.Random("wallet/%d" % ctx.seed)
    runs(ctx, [dict(c=json.loads(l), say=rng.choice(["y"] * 8 + ["Y", "n", "N", "", "yes", " y"]),
                    node=rng.choice([""] * 6 + ["refuse", "wrongid"]), dev=rng.random() < .3) for l in open(b)])

"""The administrative interface (C22): Admin.tla."""
import json, os
from vlib import CheckError, log

CFG = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Safe
CONSTANTS
 Mode = "%s"
 Gate = "%s"
 Big = %s
"""
GATES = ["prefix", "fold", "sticky", "only-post"]


def judge(ctx, out, big, what, kind, plans):
    r = ctx.tlc("Admin", CFG % ("check", "exact", big), env={"LOG": out}, timeout=900)
    got = list(r.records("JUDGED"))
    if r.rc != 0 or not got:
        raise CheckError(r.text[-2000:])
    g = got[0]
    ctx.traces += len(plans)
    if g["bad"]:
        e = g["first"][0]
        ctx.violation("%s: %d of %d answers are wrong, the first: %s" % (what, g["bad"], g["of"], json.dumps(e)[:1200]),
                      dict(kind="admin", where=kind, plans=[p for p in plans if p["cfg"] == e["cfg"]]))
    else:
        ctx.parts.append("%s: %d configurations, %d requests judged (%d had an effect, %d refused), %d batches of requests together" %
                         (what, len(plans), g["of"], g["effects"], g["unauthorised"], g["together"]))
        log(ctx.parts[-1])
    return g


def here(ctx, plans, big):
    a, b = ctx.path("admin.in"), ctx.path("admin.out")
    open(a, "w").write("".join(json.dumps(p) + "\n" for p in plans))
    crash = ctx.harness(["admin", a, b, ctx.seed], 400)
    if crash:
        ctx.violation("the server %ses: %s" % crash, dict(kind="admin", where="here", plans=plans[:50]))
        return
    judge(ctx, b, big, "servers in one process", "here", plans)


def programs(ctx, plans, big):
    d = ctx.path("run")
    os.makedirs(d, exist_ok=True)
    a, b = ctx.path("adminp.in"), ctx.path("adminp.out")
    open(a, "w").write("".join(json.dumps(p) + "\n" for p in plans))
    crash = ctx.harness(["adminproc", ctx.build_cmd("cmd/bcnode"), d, a, b, ctx.seed], 400)
    if crash:
        ctx.violation("%ses: %s" % crash, dict(kind="admin", where="programs", plans=plans[:50]))
        return
    judge(ctx, b, big, "runs of bcnode", "programs", plans)


def check(ctx, replay=None):
    big = "TRUE" if ctx.thorough else "FALSE"
    if replay:
        (here if replay["where"] == "here" else programs)(ctx, replay["plans"], big)
        return
    ctx.model("Admin", CFG % ("model", "exact", "FALSE"), "two requests in a row, passwords of up to 2 characters")
    for g in GATES:
        ctx.refuted("Admin", CFG % ("model", g, "FALSE"), "gate " + g)
    a = ctx.path("admin.plans")
    r = ctx.tlc("Admin", CFG % ("write", "exact", big), env={"LOG": a}, timeout=300)
    if r.rc != 0:
        raise CheckError(r.text[-2000:])
    plans = [json.loads(l) for l in open(a)]
    here(ctx, plans, big)
    some = lambda p: "".join(p["cfg"]["pw"]) in ("", "a", "sesame") or ctx.thorough or len(p["cfg"]["pw"]) == 3
    programs(ctx, [p for p in plans if some(p)] + [dict(cfg=dict(admin=False, wallet=False, pw=list("a")), reqs=[])], big)

"""Names of entities (C23): Ident.tla."""
import json
from vlib import CheckError, log

CFG = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Mode = "%s"
 Big = %s
"""


def check(ctx):
    big = "TRUE" if ctx.thorough else "FALSE"
    a, b = ctx.path("ident.in"), ctx.path("ident.out")
    r = ctx.tlc("Ident", CFG % ("write", big), env={"NAMED": a}, timeout=900)
    if r.rc != 0:
        raise CheckError(r.text[-2000:])
    crash = ctx.harness(["ident", a, b], 300)
    if crash:
        ctx.violation("naming an entity %ses: %s" % crash, dict(kind="ident"))
        return
    r = ctx.tlc("Ident", CFG % ("check", big), env={"NAMED": b}, timeout=900)
    got = list(r.records("EXACT"))
    if r.rc != 0 or not got:
        raise CheckError(r.text[-2000:])
    g = got[0]
    if not g["ok"]:
        ctx.violation("%d different entities have %d ids: %s" % (g["contents"], g["names"], json.dumps(g["clash"])[:1500]),
                      dict(kind="ident", clash=g["clash"]))
    ctx.parts.append("Ident: all %d entities of a small domain named by the real code: %d contents, %d ids" %
                     (g["of"], g["contents"], g["names"]))
    log(ctx.parts[-1])

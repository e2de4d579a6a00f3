"""What each check does."""
import ledger as L

P = {}


def prop(f):
    P[f.__name__] = f
    return f


def run(ctx, replay=None):
    if replay:
        r = replay["replay"]
        if r.get("kind") == "ledger":
            L.run_scripts(ctx, [r["scenario"]] if r.get("scenario") else r["scenarios"], "replay")
            return "model_checking", []
        if r.get("kind") == "miner":
            L.run_miners(ctx, r.get("scenarios") or [r["scenario"]])
            return "model_checking", []
        if r.get("kind") == "pubsub":
            import pubsub
            pubsub.run(ctx, r["scripts"])
            return "model_checking", []
        if r.get("kind") == "frames":
            import frames
            frames.run(ctx, r["scripts"])
            return "model_checking", []
        if r.get("kind") == "net":
            import net
            net.run(ctx, r["scenarios"])
            return "model_checking", []
        if r.get("kind") == "admin":
            import admin
            admin.check(ctx, r)
            return "model_checking", []
        if r.get("kind") == "wallet":
            import wallet
            wallet.build(ctx, r["cases"])
            return "model_checking", []
        if r.get("kind") == "walletrun":
            import wallet
            wallet.runs(ctx, r["cases"])
            return "model_checking", []
        if r.get("kind") == "keyring":
            import keyring
            keyring.run(ctx, r["scripts"])
            return "model_checking", []
        if r.get("kind") == "ident":
            import ident
            ident.check(ctx)
            return "model_checking", []
        if r.get("kind") == "peers":
            import peers
            peers.run(ctx, r["scripts"])
            return "model_checking", []
    return "model_checking", P[ctx.prop](ctx) or []


MONEY = ["val", "dup", "over", "nofee", "cbval", "cb2"]


@prop
def C01(ctx):
    """coins only from block rewards"""
    L.model(ctx, 1, 2, 2, 1, MONEY)
    if ctx.thorough:
        L.model(ctx, 2, 2, 3, 2, MONEY, timeout=1500)
    L.behaviours(ctx, ctx.n(60, 1000), defects=MONEY + ["full"], bad=2)
    L.histories(ctx, "adv", ctx.n(150, 1500))
    L.histories(ctx, "blk", ctx.n(100, 800))
    L.histories(ctx, "fork", ctx.n(50, 500))
    L.histories(ctx, "rich", ctx.n(30, 300))


@prop
def C02(ctx):
    L.model(ctx, 2, 2, 2)
    if ctx.thorough:
        L.model(ctx, 2, 3, 3, timeout=1500)
    L.behaviours(ctx, ctx.n(60, 1000), defects=["dup", "full", "drop"], bad=1)
    L.histories(ctx, "adv", ctx.n(70, 800))
    L.histories(ctx, "blk", ctx.n(100, 800))
    L.histories(ctx, "fork", ctx.n(100, 1000))
    L.histories(ctx, "restart", ctx.n(30, 300))
    L.histories(ctx, "deep", ctx.n(2, 30))


@prop
def C03(ctx):
    L.model(ctx, 1, 2, 3, 1, ["sig", "owner", "val"])
    L.behaviours(ctx, ctx.n(60, 800), defects=["sig", "owner", "val", "full"], bad=3)
    L.histories(ctx, "adv", ctx.n(240, 2000))
    L.histories(ctx, "blk", ctx.n(70, 500))


@prop
def C04(ctx):
    L.model(ctx, 1, 3, 2)
    if ctx.thorough:
        L.model(ctx, 1, 3, 3, 1, ["drop", "full", "time", "cbheight"], timeout=1500)
    L.behaviours(ctx, ctx.n(60, 1000))
    L.histories(ctx, "work", ctx.n(80, 800))
    L.histories(ctx, "fork", ctx.n(80, 800))
    L.histories(ctx, "blk", ctx.n(80, 800))
    L.histories(ctx, "restart", ctx.n(30, 300))
    L.histories(ctx, "deep", ctx.n(2, 30))


@prop
def C05(ctx):
    L.model(ctx, 1, 3, 3)
    if ctx.thorough:
        L.model(ctx, 2, 3, 3, timeout=1500)
    L.behaviours(ctx, ctx.n(60, 1000), defects=["full", "drop"], bad=1)
    L.histories(ctx, "fork", ctx.n(150, 1500))
    L.histories(ctx, "pool", ctx.n(30, 300))
    L.histories(ctx, "work", ctx.n(30, 300))
    L.histories(ctx, "restart", ctx.n(30, 300))
    L.histories(ctx, "deep", ctx.n(2, 30))
    L.histories(ctx, "rich", ctx.n(30, 300))


@prop
def C06(ctx):
    L.model(ctx, 1, 2, 3, 1, ["drop", "sig", "cbval", "nocb", "time", "full"])
    L.behaviours(ctx, ctx.n(80, 1200), bad=4)
    L.histories(ctx, "blk", ctx.n(140, 1000))
    L.histories(ctx, "adv", ctx.n(80, 800))
    L.histories(ctx, "fork", ctx.n(80, 800))


@prop
def C07(ctx):
    L.model(ctx, 2, 2, 3)
    if ctx.thorough:
        L.model(ctx, 2, 3, 3, timeout=1500)
    L.behaviours(ctx, ctx.n(60, 1000), defects=["full", "drop"], bad=1, miners=True)
    L.histories(ctx, "pool", ctx.n(100, 1000))
    L.histories(ctx, "fork", ctx.n(120, 1000))
    L.histories(ctx, "restart", ctx.n(40, 300))


@prop
def C08(ctx):
    L.histories(ctx, "pool", ctx.n(140, 2000))
    L.histories(ctx, "fork", ctx.n(40, 300), tweak=lambda s: s["opts"].update(miners=True))
    L.behaviours(ctx, ctx.n(60, 800), defects=["full", "minb", "drop"], bad=1, miners=True)
    L.histories(ctx, "rich", ctx.n(30, 300), tweak=lambda s: s["opts"].update(miners=True))
    L.templates(ctx, ctx.n(60, 1000), ctx.thorough)


@prop
def C09(ctx):
    L.miners(ctx, ctx.n(8, 60), ctx.n(4, 8))
    L.behaviours(ctx, ctx.n(30, 300), defects=["full"], bad=1, miners=True)


@prop
def C10(ctx):
    L.model(ctx, 1, 2, 2, 1, ["cbval", "cbheight", "cb2", "nocb", "pow", "minb", "drop"])
    L.behaviours(ctx, ctx.n(60, 1000), defects=["cbval", "cbheight", "cb2", "nocb", "pow", "minb", "drop", "full"], bad=2)
    L.histories(ctx, "blk", ctx.n(200, 2000))
    L.histories(ctx, "adv", ctx.n(80, 800))


@prop
def C11(ctx):
    L.histories(ctx, "time", ctx.n(180, 2500))
    L.histories(ctx, "work", ctx.n(30, 300))
    L.difficulty(ctx, ctx.n(40, 600), ctx.thorough)


@prop
def C12(ctx):
    L.histories(ctx, "time", ctx.n(110, 2000), tweak=lambda s: s["opts"].update(miners=True))
    L.histories(ctx, "pool", ctx.n(40, 600))
    L.difficulty(ctx, ctx.n(40, 600), ctx.thorough)


PEER = """SPECIFICATION Spec
INVARIANTS Sound Rests Quiets Bounded
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxEvs = %d
 MaxLen = 1000
 Variant = "%s"
 Heads = {%s}
 Extra = {%s}
"""
ALLHEADS = ["0", "a1", "a2", "b1", "b2"]


def two_peers(ctx, evs, heads, extra, refuted=()):
    """two machines of PeerWire with channels between them"""
    def cfg(n, v):
        return PEER % (n, v, ",".join('"%s"' % x for x in heads), ",".join('"%s"' % x for x in extra))
    ctx.model("PeerMC", cfg(evs, ""), "two sides in conversation, chains %s, %d events%s" %
              (" ".join(heads), evs, ", also " + " ".join(extra) if extra else ""), timeout=1500)
    for v, n in refuted:
        ctx.refuted("PeerMC", cfg(n, v), "variant " + v)


@prop
def C13(ctx):
    two_peers(ctx, ctx.n(1, 2), ALLHEADS, [], [("unread", 1), ("newest", 1), ("livehead", 2), ("knownhead", 1)])
    L.histories(ctx, "sync", ctx.n(160, 2500))
    L.histories(ctx, "long", ctx.n(6, 60))
    if ctx.thorough:
        L.histories(ctx, "vast", 2)


@prop
def C14(ctx):
    import frames
    frames.check(ctx, ctx.n(120, 1500))
    two_peers(ctx, ctx.n(1, 2), ["0", "a2", "b1"] if not ctx.thorough else ["0", "b1"],
              ["ping", "announce-addr", "addrs-request", "peer-addrs"], [("noroles", 1)])
    L.histories(ctx, "conv", ctx.n(160, 2500))


@prop
def C15(ctx):
    import net
    net.check(ctx)


@prop
def C16(ctx):
    L.histories(ctx, "attack", ctx.n(200, 2500))
    L.histories(ctx, "silent", ctx.n(24, 160))
    L.swap(ctx)
    L.histories(ctx, "alloc", ctx.n(30, 200), par=1)


@prop
def C17(ctx):
    L.model(ctx, 1, 2, 4, restart=True)
    L.behaviours(ctx, ctx.n(40, 600), defects=["full", "drop"], bad=1, restart=True, steps=9)
    L.histories(ctx, "restart", ctx.n(60, 1000))
    L.histories(ctx, "crash", ctx.n(40, 600), par=24)
    L.histories(ctx, "deep", ctx.n(3, 40))


@prop
def C18(ctx):
    import peers
    peers.check(ctx, ctx.n(120, 1500), ctx.n(16, 200))


@prop
def C19(ctx):
    import pubsub
    pubsub.check(ctx)


@prop
def C20(ctx):
    import wallet
    wallet.check(ctx)


@prop
def C21(ctx):
    L.behaviours(ctx, ctx.n(40, 600), bad=2, rest=True)
    L.histories(ctx, "pool", ctx.n(50, 800), rest=True)
    L.histories(ctx, "fork", ctx.n(60, 800), rest=True)
    L.histories(ctx, "adv", ctx.n(50, 800), rest=True)
    L.histories(ctx, "restart", ctx.n(20, 300), rest=True)
    L.histories(ctx, "rich", ctx.n(20, 300), rest=True)


@prop
def C22(ctx):
    import admin
    admin.check(ctx)


@prop
def C23(ctx):
    import ident
    ident.check(ctx)
    L.histories(ctx, "restart", ctx.n(40, 600), rest=True)
    L.histories(ctx, "fork", ctx.n(40, 600), rest=True)
    L.histories(ctx, "blk", ctx.n(50, 800))
    L.histories(ctx, "sync", ctx.n(40, 600))
    L.histories(ctx, "crash", ctx.n(16, 300), par=24)


@prop
def C24(ctx):
    import keyring
    keyring.check(ctx)

@prop
def C25(ctx):
    """people with the wallet program at a node"""
    L.histories(ctx, "wallet", ctx.n(110, 1500), par=24)


TECH = "TLA+ specification (TLC: exhaustive model + behaviours replayed on the real code + recorded runs validated)"
BIND = ("Model checked exhaustively within small bounds; the real node is bound to it by replaying sampled behaviours "
        "and validating every recorded step, so the code is decided on the explored histories only.")
NOTES = {p: (TECH, BIND) for p in P}

"""Networks of nodes (C15): Net.tla, NetTrace.tla."""
import json, random
import gen
from vlib import CheckError, log

CFG = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 N = %d
 MaxBlks = %d
 MaxTxs = %d
 MaxCuts = %d
 Topo = "%s"
 Variant = "%s"
 Emit = %s
 MaxActs = %d
%s
"""
PROPS = "INVARIANTS Converged HeadKnown\nPROPERTIES OnlyHeavier"
VARIANTS = ["no-first-sync", "old-head", "no-relay", "no-tx-relay", "head-first"]
TRACE = """SPECIFICATION NSpec
CHECK_DEADLOCK FALSE
"""


def scripts(ctx, num, n, topo, blks, txs, cuts, acts):
    """outside events of behaviours of Net"""
    r = ctx.tlc("Net", CFG % (n, blks, txs, cuts, topo, "ok", "TRUE", acts, "INVARIANTS PrintIt"),
                ["-simulate", "num=%d" % (num * 4 // 8 + 1), "-depth", "400", "-seed", str(ctx.seed * 31 + n)], timeout=300)
    if r.rc != 0:
        raise CheckError(r.text[-2000:])
    out, seen = [], set()
    for d in r.records("SCRIPT"):
        key = json.dumps(d["s"])
        if key not in seen and len(out) < num:
            seen.add(key)
            out.append((n, topo, d["s"]))
    return out


def scenario(name, seed, n, topo, script):
    """a world for a script: its blocks and transactions, and which events come together"""
    rng = random.Random("net/%s/%d" % (name, seed))
    g = gen.Gen(rng, name, "net", dp=rng.choice([4, 5, 8]))
    block = {0: "0"}
    waiting, fresh, steps, step, pairs, used = [], [], [], [], set(), set()
    mine = lambda prev: g.valid_block(prev, ids=[t for t in waiting if
                                                 all((i["tx"], i["ind"]) in g.st[prev]["utxo"] for i in g.txs[t]["ins"])
                                                 and t not in g.st[prev]["inc"] and rng.random() < .6][:3] or None)
    for e in script:
        pair = frozenset((e["n"], e["m"])) if e["m"] else None
        if step and (e["quiet"] or pair in pairs or rng.random() < (.5 if e["a"] == "tx" else .2)):
            steps.append(step)
            step, pairs = [], set()
            # (what is given to one node may not be in a block found elsewhere at the same time:
            # a node that has it from that block does not announce it)
            waiting, fresh = waiting + fresh, []
        late = rng.choice([0, 0, rng.randrange(30), rng.randrange(300)]) if step else 0
        a = dict(a=e["a"], n=e["n"], m=e["m"], late=late, t="", ret="", knows=False)
        if e["a"] == "mine":
            # (several blocks at once: a longer stretch was found alone)
            b = block[e["b"]]
            for _ in range(rng.choice([1, 1, 1, 1, 3])):
                b = mine(b)
            block[len(block)] = b
            a["o"] = g.offer_of(b, "full")
        elif e["a"] == "tx":
            av = [o for o in g.spendable(block[e["b"]]) if o not in used]
            if not av:
                continue
            two = rng.random() < .15
            t = g.spend(av, how="ok")
            if t is None:
                continue
            if not two:
                used |= {(i["tx"], i["ind"], i["val"], i["key"]) for i in g.txs[t]["ins"]}
            fresh.append(t)
            a["t"] = t
        if pair:
            pairs.add(pair)
        step.append(a)
    if step:
        steps.append(step)
    d = g.done()
    return dict(name=name, P=d["P"], keys=d["keys"], txs=d["txs"], mks=d["mks"], blks=d["blks"], n=n, seg=rng.random() < .7,
                seed=rng.randrange(1 << 30), opts=dict(rest=False), steps=[dict(acts=s) for s in steps])


def run(ctx, scs, par=12):
    a, b = ctx.path("net.in"), ctx.path("net.out")
    with open(a, "w") as f:
        for s in scs:
            f.write(json.dumps(s) + "\n")
    crash = ctx.harness(["net", a, b, par], 500)
    if crash:
        ctx.violation("a node %ses: %s" % crash, dict(kind="net", scenarios=scs[:20]))
        return
    recs = [json.loads(l) for l in open(b)]
    r = ctx.tlc("NetTrace", TRACE, env={"TRACE": b}, timeout=600)
    got = list(r.records("NET"))
    if r.rc != 0 or len(got) != sum(len(x["steps"]) for x in recs):
        raise CheckError(r.text[-3000:])
    ctx.traces += len(recs)
    byname = {x["name"]: x for x in recs}
    src = {x["name"]: x for x in scs}
    seen = set()
    for d in sorted(got, key=lambda d: (d["sc"], d["l"])):
        if d["bad"] and d["sc"] not in seen:
            seen.add(d["sc"])
            st = byname[d["sc"]]["steps"][d["l"] - 1]
            why = [dict(node=i + 1, head=o.get("head"), dead=o["dead"], why=o.get("why", "")[:600]) for i, o in enumerate(st["obs"])]
            acts = [{k: v for k, v in x.items() if k != "o"} for x in st["acts"]]
            ctx.violation("network %s, step %d: %s; acts %s; links %s, lost %s, not made %s; nodes %s" %
                          (d["sc"], d["l"], ", ".join(d["bad"]), json.dumps(acts), st["links"], st["dropped"], st["failed"], json.dumps(why)),
                          dict(kind="net", scenarios=[src[d["sc"]]]))
    acts = {}
    for x in recs:
        for s in x["steps"]:
            for e in s["acts"]:
                acts[e["a"]] = acts.get(e["a"], 0) + 1
    ctx.parts.append("%d networks of real nodes, %d times at rest, largest %d connected nodes; %s; %d transactions had to travel to %d nodes" %
                     (len(recs), len(got), max([d["comp"] for d in got] or [0]), ", ".join("%s %d" % kv for kv in sorted(acts.items())),
                      sum(d["sub"] > 0 for d in got), sum(d["sub"] for d in got)))
    log(ctx.parts[-1])


def check(ctx):
    ctx.model("Net", CFG % (3, 2, 1, 1, "line", "ok", "FALSE", 5, PROPS + " Rests"), "3 nodes in a line, 2 blocks, 1 transaction, a lost connection", timeout=600)
    if ctx.thorough:
        for t in ("line", "ring", "star"):
            ctx.model("Net", CFG % (3, 2, 1, 1, t, "ok", "FALSE", 7, PROPS), "3 nodes, %s, 7 events" % t, timeout=2000)
    for v in VARIANTS:
        ctx.refuted("Net", CFG % (3, 2, 1, 1, "line", v, "FALSE", 5, "INVARIANTS Converged HeadKnown"), v)
    todo = []
    k = ctx.n(10, 80)
    for n, topo in ((2, "all"), (3, "line"), (3, "bent"), (4, "line"), (4, "ring"), (4, "star"), (5, "bent"), (5, "all")):
        todo += scripts(ctx, k, n, topo, 5, 9, 2, 16)
    run(ctx, [scenario("net%d" % i, ctx.seed, *x) for i, x in enumerate(todo)])

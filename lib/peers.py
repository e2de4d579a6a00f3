"""The set of peers (C18): PeerSet.tla / PeerSetMC.tla, and recorded runs of
real nodes among scripted peers."""
import json, os, random
from vlib import CheckError, log

MC = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Conns = {%s}
 Ids = {"A", "B"}
 Self = "N"
 MaxPeers = %d
 Addrs = {%s}
 PerConn = 1
 Guarded = %s
INVARIANTS Inv FreesSlots
PROPERTIES HandsOutPeers Decided
"""
IDS = ["A", "B", "C", "D", "E", "F", "G"]


def scenario(seed, i, seek=False):
    r = random.Random("peers/%s/%s/%s" % (seed, i, seek))
    mx = r.choice([1, 2, 3, 4])
    hosts = {}
    for k in range(r.choice([0, 2, 3, 4]) if not seek else 4):
        mode = r.choice(["ok", "ok", "ok", "none", "own"])
        hid = r.choice(IDS + ["N"]) if mode == "ok" else ""
        hosts["h%d" % k] = dict(id=hid, mode=mode, book=[])
    sc = dict(name="%s-%d" % ("seek" if seek else "peers", i), max=mx, self="N", seeds=[], hosts=hosts, steps=[],
              seed=r.randrange(1 << 30), seek=0, bad="")
    if seek:
        # the node finds everybody it has room for
        mx = sc["max"] = r.choice([2, 3, 4, 5])
        ids = r.sample(IDS, 4)
        for k in range(4):
            hosts["h%d" % k] = dict(id=ids[k], mode="ok", book=[])
        for k in range(3):
            # everybody knows the next one, and some others
            hosts["h%d" % k]["book"].append([ids[k + 1], "h%d" % (k + 1)])
            for j in range(4):
                if r.random() < .3 and j != k:
                    hosts["h%d" % k]["book"].append([ids[j], "h%d" % j])
        hosts["h3"]["book"] += [["N", "hx"], ["Z", "hz"]]
        hosts["hx"] = dict(id="", mode="own", book=[])
        hosts["hz"] = dict(id="", mode="none", book=[])
        sc["seeds"] = ["h0"] + (["hz"] if r.random() < .3 else [])
        sc["seek"] = r.choice([40, 80])
        sc["steps"] = [dict(acts=[], seek=min(mx, 4))]
        names = ["h%d#1" % k for k in range(4)]
        sc["steps"].append(dict(acts=[dict(a="connect", p="p1", id="N")]))
        return sc
    if hosts and r.random() < .25:
        ok = [h for h in hosts if hosts[h]["mode"] == "ok" and hosts[h]["id"] != "N"]
        if ok:
            sc["seeds"] = [r.choice(ok)]
    ids = r.sample(IDS, min(7, mx + 2)) + (["N"] if r.random() < .5 else [])
    addrs = ["x1", "x2", "x3"] + list(hosts)
    n = [0]
    left = []
    on = {}     # peers that may be connected: name -> id

    def one(busy):
        free = [p for p in on if p not in busy]
        k = r.random()
        if left and k > .9:
            return dict(a="straggle", p=r.choice(left), s=r.choice(addrs))
        if k < .45 or not free:
            n[0] += 1
            p = "p%d" % n[0]
            x = r.choice(ids)
            return dict(a="connect", p=p, id=x)
        p = r.choice(free)
        busy.add(p)
        k = r.random()
        if k < .35:
            return dict(a="leave", p=p, how=r.choice(["close", "fin", "reset", "half", "lost", "announce", "announce"]), s=r.choice(addrs))
        if k < .6:
            return dict(a="announce", p=p, s=r.choice(addrs + ["own"]))
        if k < .85 or not hosts:
            return dict(a="ask", p=p)
        return dict(a="tell", p=p, m=[[r.choice([hosts[h]["id"] or r.choice(IDS), r.choice(IDS + ["N", "Y", "Z"])]), h]
                                      for h in r.sample(sorted(hosts), r.choice([1, min(2, len(hosts))]))])

    for _ in range(r.choice([8, 12, 16])):
        busy = set()
        tells = 0
        acts = []
        for _ in range(r.choice([1, 1, 1, 2, 3, 4])):
            a = one(busy)
            if a["a"] == "tell":
                tells += 1
                if tells > 1:
                    continue
            if r.random() < .3:
                a["late"] = r.choice([0, 1, 2, 5])
            acts.append(a)
        sc["steps"].append(dict(acts=acts))
        for a in acts:
            if a["a"] == "connect" and len(on) < 12:
                on[a["p"]] = a["id"]
            elif a["a"] == "leave":
                on.pop(a["p"], None)
                left.append(a["p"])
    # how much room is left, and what is handed out
    for _ in range(mx + 1):
        n[0] += 1
        sc["steps"].append(dict(acts=[dict(a="connect", p="q%d" % n[0], id="Q%d" % n[0])]))
    sc["steps"].append(dict(acts=[dict(a="ask", p=p) for p in list(on)[:3]]))
    return sc


def run(ctx, scs, par=32):
    fi, fo = ctx.path("ps.in"), ctx.path("ps.out")
    by = {s["name"]: s for s in scs}
    with open(fi, "w") as f:
        for s in scs:
            f.write(json.dumps(s) + "\n")
    crash = ctx.harness(["peers", fi, fo, par], 500)
    if crash:
        ctx.violation("the process %ses: %s" % crash, dict(kind="peers", scripts=scs[:50]))
        return
    runs = [json.loads(l) for l in open(fo)]
    t = ctx.tlc("PeerSetTrace", "PeerSetTrace.cfg", env={"TRACE": fo}, timeout=600)
    if t.rc != 0:
        raise CheckError("trace validation failed:\n" + t.text[-3000:])
    n, ops, done = 0, {}, set()
    for d in t.records("STEP"):
        n += 1
        for o in d["op"] + ["dial:" + x for x in d["dials"]]:
            ops[o] = ops.get(o, 0) + 1
        if d["bad"]:
            done.add(d["sc"])
            x = next(r for r in runs if r["name"] == d["sc"])
            ctx.violation("%s step %d: %s; %s" % (d["sc"], d["l"], ", ".join(d["bad"]), json.dumps(x["steps"][d["l"] - 1])[:1500]),
                          dict(kind="peers", scripts=[by[d["sc"]]], step=d["l"], run=x))
    if n < sum(len(r["steps"]) for r in runs) and not done:
        raise CheckError("only %d steps validated" % n)
    ctx.traces += len(runs)
    ctx.parts.append("%d recorded nodes among scripted peers, %d steps validated; %s" %
                     (len(runs), n, ", ".join("%s %d" % kv for kv in sorted(ops.items()))))
    log(ctx.parts[-1])
    ctx.sample(dict(run=runs[0]["name"], steps=runs[0]["steps"][:2]))


def check(ctx, n, m):
    ctx.model("PeerSetMC", MC % ("c1, c2, c3", 2, '"x", "y"', "TRUE"), "3 connections, 2 slots")
    ctx.refuted("PeerSetMC", MC % ("c1, c2", 1, '"x"', "FALSE"), "addresses kept without asking whose they are")
    if ctx.thorough:
        ctx.model("PeerSetMC", MC % ("c1, c2, c3, c4", 2, '"x"', "TRUE"), "4 connections, 2 slots")
        ctx.model("PeerSetMC", MC % ("c1, c2, c3", 1, '"x", "y"', "TRUE"), "3 connections, 1 slot")
    run(ctx, [scenario(ctx.seed, i) for i in range(n)] + [scenario(ctx.seed, i, True) for i in range(m)])

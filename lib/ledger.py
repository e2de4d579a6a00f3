"""Ledger checks: exhaustive model, behaviours of the model replayed on the
real node, generated histories executed on the real node; every recorded run
is validated by TLC against Ledger.tla."""
import json, os, random
import gen
from vlib import CheckError, log

CAPU = 10000000

# which disagreements decide which property (prefix match on the kind)
ACC = ("tx-accepted:", "stored:", "head-adopted:")


def acc(*rules):
    return [p + r for p in ACC for r in rules]


OBS = ["height", "balance", "utxo", "confirms", "incblock", "rich"]
STRUCT = ["pow", "parent", "root", "mkchild", "overlap", "blksize", "cbfirst", "cbonly", "cbins", "cbouts",
          "cbheight", "totals", "minblock", "txsize", "cbreward", "work"]
TIMES = ["median", "future", "lastinperiod", "target", "targetlow", "targethigh"]
TM = ["tm-head", "tm-target", "tm-notpending", "tm-notincludable", "tm-conflict", "tm-size", "tm-order", "tm-greedy",
      "tm-none"]
ALLACC = list(ACC) + ["stored"]

KINDS = {
    "C01": acc("surplus", "overflow", "value", "dupin", "totals", "cbreward", "cbins", "cbouts", "unspent", "included",
               "overlap", "cbonly", "origin") + ["supply", "balance"],
    "C02": acc("unspent", "included", "dupin", "overlap", "origin") + ["utxo", "tm-conflict", "supply"],
    "C03": acc("sig", "owner", "value", "origin") + ["utxo"],
    "C04": ["head-adopted:", "head-refused", "ev-head", "re-head", "restart:re-head", "dead:good", "height"],
    "C05": OBS + ["supply", "dead:good"] + ["restart:" + x for x in OBS],
    "C06": ["dead:", "ev-head", "ev-tx", "restart:crash-dead", "after-bad:head-refused", "after-bad:tx-refused"] + ["quiet:" + x for x in OBS + ["free"] + TM],
    "C07": ["free", "ev-tx", "tx-refused", "tm-notpending", "tm-none", "confirms"],
    "C08": TM + ["via-template:head-refused", "via-template:dead:"],
    "C09": ["mn-invalid:", "mn-template", "mn-unknown", "mn-silent", "mined:"],
    "C10": acc(*STRUCT) + ["cb-extra"],
    "C11": acc(*TIMES) + ["head-refused", "dead:good"],
    "C12": ["tm-target", "tm-none", "dead:good"],
    "C13": ["pw:", "pw-stuck", "pw-closed", "pw-refused", "pw-other", "pw-unfinished", "pw-head", "notstored"],
    "C14": ["pw:", "pw-stuck", "pw-closed", "pw-refused", "pw-other", "pw-unfinished", "pw-delivered", "pw-head", "free"],
    "C16": ["at-notclosed", "at-slot", "at-others", "at-memory", "at-head", "at-moved", "at:", "aw:", "dead:", "pw:", "pw-stuck",
            "pw-closed", "pw-refused", "pw-other", "pw-unfinished", "pw-head"],
    "C17": ["restart:", "crash:", "after-restart:"],
    "C21": OBS + ["free", "tx-refused", "tx-accepted:", "dead:", "stored", "notstored", "read", "supply", "head-adopted:", "http:"],
    "C25": ["cli:"],
    "C23": ["stored", "notstored", "read", "restart:notstored", "restart:stored", "crash:stored", "crash:notstored",
            "restart:read", "crash:read"],
}


# a node that ends is not one whose answers anybody can rely on
for _p in ("C01", "C02", "C03", "C04", "C05", "C07", "C08", "C10", "C13", "C14", "C17", "C23"):
    KINDS[_p] = KINDS[_p] + ["dead:"]


def kinds_of(d, restarted, spoiled=False):
    """the kinds of one step, with context"""
    out = []
    for b in d["bad"]:
        out.append(b)
        if spoiled:
            out.append("after-bad:" + b)
        if d["note"] in ("refused", "kept"):
            out.append("quiet:" + b)
        if d["op"] == "mined" and not b.startswith(("mn-", "tm-")):
            out.append("mined:" + b)
        if d["via"] == "tmpl":
            out.append("via-template:" + b)
        if restarted and not b.startswith(("restart:", "crash:")):
            out.append("after-restart:" + b)
    return out


def match(kinds, pats):
    return sorted({k for k in kinds for p in pats if k == p or (p.endswith(":") and k.startswith(p))})


def execute(ctx, scs, par=48, timeout=240):
    """run the scenarios on real nodes; returns the recorded runs and crashes"""
    runs, crashes = [], []
    for i in range(0, len(scs), 120):
        part = scs[i:i + 120]
        fi, fo = ctx.path("sc.in"), ctx.path("sc.out")
        with open(fi, "w") as f:
            for s in part:
                f.write(json.dumps(s) + "\n")
        argv = ["ledger", fi, fo, ctx.path("nodes"), par]
        if any(s["profile"] == "wallet" for s in part):
            argv.append(ctx.build_cmd("cmd/bcwallet"))
            os.makedirs(ctx.path("nodes"), exist_ok=True)
            for d in (ctx.dir, ctx.path("nodes")):
                os.chmod(d, 0o711)
        crash = ctx.harness(argv, timeout)
        got = [json.loads(l) for l in open(fo)] if os.path.exists(fo) else []
        if crash:
            names = {g["name"] for g in got}
            crashes.append((crash, [s for s in part if s["name"] not in names]))
        runs += got
    return runs, crashes


def validate(ctx, runs, what, decide, scripts):
    """validate recorded runs with TLC; report the disagreements that decide
    this property"""
    if not runs:
        return
    f = ctx.path("trace.ndjson")
    with open(f, "w") as o:
        for r in runs:
            r["steps"] = [s for s in r["steps"] if "obs" in s or "alts" in s]
            o.write(json.dumps(r) + "\n")
    r = ctx.tlc("LedgerTrace", "LedgerTrace.cfg", env={"TRACE": f}, timeout=600)
    if r.rc != 0:
        raise CheckError("trace validation failed:\n" + r.text[-3000:])
    by, restarted, spoiled = {}, {}, set()
    steps = sorted(r.records("STEP"), key=lambda d: (d["sc"], d["l"]))
    n = sum(len(x["steps"]) for x in runs)
    done = {d["sc"] for d in steps if d["bad"]}
    notes = {}
    other = {}
    for d in steps:
        if d["op"] in ("restart",):
            restarted[d["sc"]] = True
        notes[d["note"]] = notes.get(d["note"], 0) + 1
        for b in d["broken"]:
            notes["refused by " + b] = notes.get("refused by " + b, 0) + 1
        if not d["bad"]:
            if set(d["broken"]) - {"work"}:
                spoiled.add(d["sc"])
            continue
        ks = kinds_of(d, restarted.get(d["sc"]), d["sc"] in spoiled)
        hit = match(ks, decide)
        run = next(x for x in runs if x["name"] == d["sc"])
        if hit and d["sc"] not in by:
            by[d["sc"]] = 1
            st = run["steps"][d["l"] - 1]
            why = (st.get("obs") or {}).get("why", "")
            ctx.violation("%s step %d (%s): %s%s" % (d["sc"], d["l"], d["op"], ", ".join(hit),
                                                     "\n" + why[:1200] if why else ""),
                          dict(kind="ledger", scenario=scripts.get(d["sc"]), step=d["l"], kinds=ks, run=run))
        elif not hit:
            for b in d["bad"]:
                other[b] = other.get(b, 0) + 1
    if other:
        log("not deciding %s: %s" % (ctx.prop, other))
        ctx.cov.setdefault("disagreements_of_other_properties", {}).update(other)
    if len(steps) < n and not done:
        raise CheckError("only %d of %d steps validated" % (len(steps), n))
    ctx.traces += len(runs)
    ctx.parts.append("%s: %d recorded runs, %d steps validated; %s" %
                     (what, len(runs), len(steps), ", ".join("%s %d" % kv for kv in sorted(notes.items()))))
    log(ctx.parts[-1])
    for x in runs[:1]:
        ctx.sample(dict(run=x["name"], txs=len(x["txs"]), blocks=len(x["blks"]),
                        steps=[dict(op=s["op"], o=s.get("o") or s.get("t"), heads=(s.get("obs") or {}).get("heads"),
                                    ret=(s.get("obs") or {}).get("ret")) for s in x["steps"]][:6]))


def histories(ctx, profile, n, par=48, rest=False, decide=None, batch=None, tweak=None):
    """generated histories of a profile"""
    scs = gen.scenarios(profile, n, ctx.seed)
    for s in scs:
        if rest:
            s["opts"]["rest"] = True
        if tweak:
            tweak(s)
    run_scripts(ctx, scs, "histories %s" % profile, par, decide)


SWAP = """SPECIFICATION Spec
INVARIANT Agree
CHECK_DEADLOCK FALSE
CONSTANTS
 Covered = %s
 N = 3
 T = 3
"""


def swap(ctx):
    """a block given another time on its way: what it costs follows from the model, and is a known finding"""
    ctx.model("TimeSwap", SWAP % "TRUE", "relayed blocks whose ids cover their times")
    ctx.refuted("TimeSwap", SWAP % "FALSE", "relayed blocks whose ids do not cover their times")
    histories(ctx, "swap", 2)


def run_scripts(ctx, scs, what, par=48, decide=None):
    decide = decide or KINDS[ctx.prop]
    scripts = {s["name"]: s for s in scs}
    runs, crashes = execute(ctx, scs, par)
    for (how, text), lost in crashes:
        ctx.violation("the node process %ses: %s" % (how, text), dict(kind="ledger", scenarios=lost[:20]))
    for i in range(0, len(runs), 400):
        validate(ctx, runs[i:i + 400], what, decide, scripts)


# ------------------------------------------------------------------ the model
MC = """SPECIFICATION Spec
%s
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxTxs = %d
 MaxBlks = %d
 MaxSteps = %d
 MaxBad = %d
 Defects = {%s}
 WithRestart = %s
 Fill = %s
 Emit = %s
%s
"""
PROPS = """INVARIANTS Conservation NoDoubleSpend Signed StateIsFold PendingPartition InventoryClosed HeadValid KnownPending
PROPERTIES OnlyHeavier AdoptsExactly RefusalIsQuiet PendingKept Inventory"""
ALLDEF = ["sig", "owner", "val", "dup", "over", "nofee", "minb", "cbval", "cbheight", "cb2", "nocb", "pow", "time",
          "target", "drop", "full"]


def model(ctx, txs, blks, steps, bad=0, defects=(), restart=False, timeout=600):
    cfg = MC % ("VIEW View", txs, blks, steps, bad, ",".join('"%s"' % d for d in defects),
                "TRUE" if restart else "FALSE", "FALSE", "FALSE", PROPS)
    ctx.model("LedgerMC", cfg, "%d txs, %d blocks, %d steps%s%s" %
              (txs, blks, steps, ", %d of the defects %s" % (bad, " ".join(defects)) if bad else "",
               ", restarts" if restart else ""), timeout=timeout)


def behaviours(ctx, n, txs=4, blks=6, steps=7, bad=2, defects=ALLDEF, restart=False, seed=0, miners=False, save=False,
               rest=False, par=48, decide=None):
    """behaviours drawn from the model, replayed on the real node"""
    cfg = MC % ("", txs, blks, steps, bad, ",".join('"%s"' % d for d in defects), "TRUE" if restart else "FALSE",
                "TRUE", "TRUE", "INVARIANTS PrintIt")
    r = ctx.tlc("LedgerMC", cfg, ["-simulate", "num=%d" % (n // 8 + 1), "-depth", "80", "-seed", str(ctx.seed * 7919 + seed)],
                timeout=400)
    if r.rc != 0:
        raise CheckError("simulation of LedgerMC fails:\n" + r.text[-2000:])
    rng = random.Random("%s/%s" % (ctx.seed, seed))
    by = {}
    for d in r.records("SCRIPT"):
        by.setdefault(json.dumps([d["s"]["txs"], d["s"]["blks"]], sort_keys=True), []).append(d["s"])
    scs = []
    for i, k in enumerate(sorted(by)):
        if len(scs) >= n:
            break
        s = rng.choice(sorted(by[k], key=lambda x: json.dumps(x, sort_keys=True)))
        scs.append(convert(s, "tlc-%d-%d" % (seed, i), rng, miners, save or restart, rest))
    ctx.parts.append("simulation of LedgerMC: %d behaviours, %d states" % (len(by), r.generated))
    run_scripts(ctx, scs, "behaviours of the model", par, decide)


def convert(s, name, rng, miners, save, rest):
    def fn(x):
        return x if isinstance(x, dict) else {}
    blks = {}
    for b, x in fn(s["blks"]).items():
        q = x["tg"]["q"]
        blks[b] = dict(prev=x["prev"], root=x["root"], time=x["time"], t=q[0] * 16 + q[1] // 4096, bad=not x["pow"])
    return dict(name=name, profile="tlc", P=dict(reward=8, dp=4, btt=10, maxBlk=100000, maxTx=100000, maxTu=(1 << 18) - 1,
                                                origTu=1 << 17),
                keys=["k1", "k2"], txs=fn(s["txs"]), mks=fn(s["mks"]), blks=blks,
                opts=dict(miners=miners, save=save, rest=rest), steps=s["steps"], seed=rng.randrange(1 << 30))


# ------------------------------------------------------------------ templates
TPL = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 NTx = %d
 Fees = {%s}
 Room = {%s}
 Variant = "%s"
 Emit = %s
 Draw = %d
INVARIANTS %s
"""
TPLBAD = ["stop", "first", "eager", "cheap", "fee", "parent", "early", "full", "half"]


def templates(ctx, n, deep=False):
    """every small pool in the model, and pools drawn from it on the real node"""
    ctx.model("TemplateMC", TPL % (3, "1, 2, 4", "650, 1200", "", "FALSE", 0, "Good Adoptable"),
              "pools of 3 transactions, 2 block sizes", timeout=400)
    if deep:
        ctx.model("TemplateMC", TPL % (4, "1, 2", "400, 650, 800, 1200", "", "FALSE", 0, "Good Adoptable"),
                  "pools of 4 transactions, 4 block sizes", timeout=2000)
    rng = random.Random("templates/%s" % ctx.seed)
    for v in TPLBAD if deep else [TPLBAD[ctx.seed % len(TPLBAD)]]:
        ctx.refuted("TemplateMC", TPL % (3, "1, 2", "650, 1200", v, "FALSE", 0, "Good"), "variant " + v)
    r = ctx.tlc("TemplateMC", TPL % (5, "1, 2, 4", "400, 650, 800, 1200", "", "TRUE", n, "PrintIt"),
                ["-seed", str(ctx.seed * 104729 + 1)], timeout=400)
    if r.rc != 0:
        raise CheckError("drawing of pools fails:\n" + r.text[-2000:])
    scs = []
    recs = sorted(r.records("SCRIPT"), key=lambda x: json.dumps(x, sort_keys=True))
    rng.shuffle(recs)
    for i, d in enumerate(recs[:n]):
        s = d["s"]
        txs, blks = s["txs"], s["blks"]
        for j, b in enumerate(sorted(blks)):
            blks[b].update(time=100 + 10 * j, t=1 << 17, bad=False)
        pool = list(s["pool"])
        rng.shuffle(pool)
        if any(q["tx"] == "t1" for t in pool for q in txs[t]["ins"]):
            pool.remove("t1")
            pool.insert(0, "t1")
        steps = [dict(op="offer", via="bus", o=dict(head="b2", txs=["c1", "c2"], mks=["m1", "m2"], blks=["b1", "b2"]))]
        steps += [dict(op="tx", via="bus", t=t) for t in pool]
        steps.append(dict(op="mine", via="bus", key="k3", ids=["z1", "z2"], dt=1))
        p = dict(reward=100, dp=8, btt=10, maxBlk=100000, maxTx=100000, maxTu=(1 << 18) - 1, origTu=1 << 17)
        ref = s["out"] or [pool[0]]
        if len(ref) > 1 and rng.random() < .3:
            ref = ref[:-1]
        more = [t for t in pool if t not in ref]
        if more and rng.random() < .3:
            ref = ref + [rng.choice(more)]
        p["maxBlkTx"], p["maxBlkD"] = ref, rng.choice([-1, 0, 0, 1, 100])
        scs.append(dict(name="tmpl-%d" % i, profile="tmpl", P=p, keys=["k1", "k2", "k3"], txs=txs, mks=s["mks"], blks=blks,
                        opts=dict(miners=True, save=False, rest=False), steps=steps, seed=rng.randrange(1 << 30)))
    ctx.parts.append("%d pools drawn from TemplateMC" % len(scs))
    run_scripts(ctx, scs, "pools of the model")


# ------------------------------------------------------------------ times and targets
DIFF = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 DP = %d
 MaxTime = %d
 MaxLen = %d
 MaxTarget = %d
 Orig = %d
 Btt = %d
 Variant = "%s"
 Emit = %s
INVARIANTS %s
"""
DIFFINV = "Exists Formula Continues NoSooner Steps"


def difficulty(ctx, n, deep=False):
    """every chain of small times and targets in the model; chains drawn from it on the real node"""
    a, b, c = (4, 5, 8, 9, 5, 3), (5, 5, 10, 6, 5, 2), (4, 12, 5, 40, 2, 1)
    for x in (a, b, c) + (((4, 6, 12, 9, 5, 3), (6, 5, 12, 7, 5, 2)) if deep else ()):
        ctx.model("DifficultyMC", DIFF % (x + ("", "FALSE", DIFFINV)),
                  "period %d, times to %d, %d blocks, targets to %d" % x[:4], timeout=3000)
    for v in ("nolast", "lastfirst", "nomin", "nomax", "up", "median"):
        ctx.refuted("DifficultyMC", DIFF % (((4, 4, 8, 9, 5, 1) if v == "nomax" else a) + (v, "FALSE", DIFFINV)), "variant " + v)
    rng = random.Random("difficulty/%s" % ctx.seed)
    scs = []
    for x in (a, b):
        r = ctx.tlc("DifficultyMC", DIFF % (x + ("", "TRUE", "PrintIt")),
                    ["-simulate", "num=%d" % (n * 2), "-depth", "%d" % (x[2] + 2), "-seed", str(ctx.seed * 7919 + x[0])], timeout=400)
        if r.rc != 0:
            raise CheckError("simulation of DifficultyMC fails:\n" + r.text[-2000:])
        recs = sorted({json.dumps(d["s"], sort_keys=True) for d in r.records("SCRIPT")})
        rng.shuffle(recs)
        for i, d in enumerate(recs[:n // 2]):
            scs.append(chain_script(json.loads(d), "diff-%d-%d" % (x[0], i), x, rng))
    ctx.parts.append("%d chains drawn from DifficultyMC" % len(scs))
    run_scripts(ctx, scs, "chains of the model")


def chain_script(s, name, x, rng):
    unit, base = 8192, 100000
    txs, mks, blks, steps = {}, {}, {}, []

    def add(b, prev, j, time, t):
        blks[b] = dict(prev=prev, root="m%d" % j, time=time, t=max(t, 64), bad=False)

    todo = []
    u = old = 0
    for j, k in enumerate(s["c"], 1):
        # a quarter, rounded down, is less in the model's units
        old, u = u, u if j > 1 and j % x[0] else max(k["t"] * unit, u // 4)
        txs["c%d" % j] = dict(cb=True, minb=j, ins=[], outs=[dict(val=100, key="k1")])
        mks["m%d" % j] = dict(l="c%d" % j, r="c%d" % j)
        prev = "b%d" % (j - 1) if j > 1 else "0"
        add("b%d" % j, prev, j, base + k["time"], u)
        more = dict(txs=["c%d" % j], mks=["m%d" % j])
        wrong = []
        if j > 1 and rng.random() < .5:
            wrong.append((base + s["first"][j - 1] - 1, u))
        if j > 1 and j % x[0] == 0 and rng.random() < .7:
            wrong.append((base + k["time"], rng.choice([old // 4 - 1, min(4 * old, x[3] * unit) + 1])))
        if wrong and todo:
            steps.append(dict(op="offer", via="bus", o=merge(todo)))
            todo = []
        for n, (time, t) in enumerate(wrong):
            w = "w%d.%d" % (j, n)
            add(w, prev, j, time, t)
            steps.append(dict(op="offer", via="bus", o=dict(head=w, blks=[w], **more)))
        todo.append(("b%d" % j, more))
        if rng.random() < .6 or j == len(s["c"]) or (j + 1) % x[0] == 0:
            steps.append(dict(op="offer", via="bus", o=merge(todo)))
            todo = []
    steps.append(dict(op="mine", via="bus", key="k2", ids=["z1", "z2"], dt=rng.choice([0, 1, 5])))
    return dict(name=name, profile="diff", keys=["k1", "k2"], txs=txs, mks=mks, blks=blks, steps=steps,
                P=dict(reward=100, dp=x[0], btt=x[5], maxBlk=100000, maxTx=100000, maxTu=x[3] * unit, origTu=x[4] * unit),
                opts=dict(miners=True, save=False, rest=False), seed=rng.randrange(1 << 30))


def merge(todo):
    return dict(head=todo[-1][0], blks=[b for b, _ in todo], txs=[t for _, m in todo for t in m["txs"]],
                mks=[t for _, m in todo for t in m["mks"]])


# ------------------------------------------------------------------ miners
def miners(ctx, n, rounds=4):
    rng = random.Random("miners/%s" % ctx.seed)
    scs = []
    for i in range(n):
        nm = [2, 1, 4, 3][i % 4]
        # blocks before the miners start: far in the past, or close to the limit ahead of the clock
        ahead = [0, 3200, 2000, 0, -60][i % 5]
        dp = rng.choice([4, 5, 7])
        lead = rng.choice([1, 2, 3, 6]) if ahead == 0 else rng.choice([3, 4, 5, 6])
        # some with amounts near 2^62: few enough blocks for all of them to fit in 64 bits
        rich = i % 5 in (0, 4) and rng.random() < .7
        lead = 1 if rich else lead
        scs.append(dict(name="mine-%d" % i, profile="mine", seed=rng.randrange(1 << 30),
                        P=dict(reward=CAPU - rng.choice([0, 1, 3]) if rich else rng.choice([50, 1000, 100000]), dp=dp, btt=rng.choice([1, 5]), maxBlk=rng.choice([1500, 100000]),
                               maxTx=100000, maxTu=2047, origTu=rng.choice([64, 255, 512])),
                        keys=["k%d" % j for j in range(1, rng.choice([2, 3, 5]) + 1)], txs={}, mks={}, blks={},
                        opts=dict(miners=True, save=False, rest=False), steps=[],
                        nminers=nm, samekey=rng.random() < .3, rounds=min(rounds, 2) if rich else rounds, lead=lead, ahead=ahead))
    run_miners(ctx, scs)


def run_miners(ctx, scs):
    fi, fo = ctx.path("mn.in"), ctx.path("mn.out")
    with open(fi, "w") as f:
        for s in scs:
            f.write(json.dumps(s) + "\n")
    crash = ctx.harness(["miner", fi, fo, 3], 600)
    if crash:
        ctx.violation("the process %ses: %s" % crash, dict(kind="miner", scenarios=scs))
    runs = [json.loads(l) for l in open(fo)] if os.path.exists(fo) else []
    validate(ctx, runs, "miners", KINDS[ctx.prop], {s["name"]: s for s in scs})

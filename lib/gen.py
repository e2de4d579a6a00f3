"""Scenario generator for the ledger harness.

Builds abstract universes (transactions, trees, blocks) and scripts of offers,
submissions, restarts.  It steers only: what must happen is decided by the
TLA+ specification when the recorded run is validated."""
import random

CAPU = 10000000
UNIT_MAX = (1 << 18) - 1
SIG_MODES = ["garbage", "empty", "other", "outs", "lastout", "dest", "order", "drop", "minb", "minb0",
             "junkpk", "emptypk"]


def median(q):
    o = sorted(q)
    n = len(o)
    return (o[n // 2 - 1] + o[n // 2]) // 2 if n % 2 == 0 else o[(n - 1) // 2]


class Gen:
    def __init__(self, rng, name, profile, dp=None, keys=4, miners=False, save=False, rest=False,
                 max_blk=1500, max_tx=1000, reward=1000, orig=1 << 17, max_t=UNIT_MAX, btt=10):
        self.r = rng
        self.name, self.profile = name, profile
        self.P = dict(reward=reward, dp=dp or rng.choice([4, 5, 8]), btt=btt, maxBlk=max_blk,
                      maxTx=max_tx, maxTu=max_t, origTu=orig)
        self.keys = ["k%d" % (i + 1) for i in range(keys)]
        # who may be paid; nobody has the key of "z"
        self.payees = self.keys + (["z"] if rng.random() < .3 else [])
        self.txs, self.mks, self.blks = {}, {}, {}
        self.txc, self.mkc = {}, {}
        self.steps = []
        self.opts = dict(miners=miners, save=save, rest=rest)
        self.n = 0
        self.kn = set()
        # state after each block: utxo {(tx,ind):(val,key)}, inc set; None when the block is invalid
        self.st = {"0": dict(utxo={}, inc=frozenset(), h=0, time=None, ok=True, work=0.0)}
        self.head = "0"      # what we believe the node's head is
        self.pool = []       # transactions believed pending

    def nid(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    # ---- entities ----
    def tx(self, ins, outs, minb=0, cb=False):
        """ins: [(tx, ind, val, key, how)], outs: [(val, key)]"""
        # amounts are real amounts modulo 2^64
        ins = [(i[0], i[1], i[2] % (4 * CAPU), i[3], i[4]) for i in ins]
        outs = [(o[0] % (4 * CAPU), o[1]) for o in outs]
        c = (cb, minb, tuple(ins), tuple(outs))
        det = all(i[4] in ("empty",) for i in ins)
        if det and c in self.txc:
            return self.txc[c]
        t = self.nid("t")
        self.txs[t] = dict(cb=cb, minb=minb,
                           ins=[dict(tx=a, ind=b, val=v, key=k, how=h) for a, b, v, k, h in ins],
                           outs=[dict(val=v, key=k) for v, k in outs])
        if det:
            self.txc[c] = t
        return t

    def coinbase(self, h, val, key):
        return self.tx([], [(val, key)], h, True)

    def fee(self, t):
        x = self.txs[t]
        return sum(i["val"] for i in x["ins"]) - sum(o["val"] for o in x["outs"])

    def vsize(self, t):
        x = self.txs[t]
        return 72 + sum(48 + 91 + 71 for _ in x["ins"]) + 40 * len(x["outs"])

    def mk(self, l, r):
        if (l, r) in self.mkc:
            return self.mkc[(l, r)]
        m = self.nid("m")
        self.mks[m] = dict(l=l, r=r)
        self.mkc[(l, r)] = m
        return m

    def tree(self, ids, shape="bal"):
        """a tree whose level order starts with ids[0]; returns its root"""
        ids = list(ids)
        if len(ids) == 1:
            m = self.mk(ids[0], ids[0])
            if self.r.random() < 0.1:
                m = self.mk(m, m)
            return m
        if shape == "bal":
            layer = ids
            while len(layer) > 1 or layer is ids:
                nxt = []
                for i in range(0, len(layer), 2):
                    l = layer[i]
                    nxt.append(self.mk(l, layer[i + 1] if i + 1 < len(layer) else l))
                layer = nxt
            return layer[0]
        if shape == "right":    # (a,(b,(c,d)))  level order = a b c d
            cur = self.mk(ids[-2], ids[-1])
            for t in reversed(ids[:-2]):
                cur = self.mk(t, cur)
            return cur
        if shape == "left":     # ((( .. )): later leaves come first in level order
            order = ids[1:]
            if len(order) == 1:
                return self.mk(ids[0], order[0])
            # level order of (x,y) with y leaf: y comes before the content of x
            # so build with ids[0] as the topmost leaf
            cur = self.mk(order[-2], order[-1]) if len(order) > 1 else order[0]
            for t in reversed(order[:-2]):
                cur = self.mk(cur, t)
            return self.mk(cur, ids[0])
        # random split, first id kept as a shallow leaf
        def rnd(q):
            if len(q) == 1:
                return self.mk(q[0], q[0]) if self.r.random() < 0.3 else q[0]
            k = self.r.randint(1, len(q) - 1)
            l, rr = rnd(q[:k]), rnd(q[k:])
            return self.mk(l, rr) if self.r.random() < 0.5 else self.mk(rr, l)
        rest = rnd(ids[1:])
        return self.mk(ids[0], rest)

    def leaves(self, root):
        q, out = [root], []
        while q:
            x = q.pop(0)
            if x in self.txs:
                out.append(x)
            elif x in self.mks:
                m = self.mks[x]
                q.append(m["l"])
                if m["r"] != m["l"]:
                    q.append(m["r"])
        return out

    def chain(self, b):
        out = []
        while b in self.blks:
            out.append(b)
            b = self.blks[b]["prev"]
        return out[::-1]

    def height(self, b):
        return len(self.chain(b))

    def last5(self, b):
        return [self.blks[x]["time"] for x in self.chain(b)[-5:]]

    # ---- valid choices ----
    def min_time(self, prev):
        """smallest valid time of a child of prev"""
        l = self.last5(prev)
        lo = median(l) + 1 if l else 0
        h = self.height(prev) + 1
        dp = self.P["dp"]
        if (h + 1) % dp == 0 and h > 1:
            c = self.chain(prev)
            first = c[0] if h + 1 == dp else c[h - (dp - 1) - 1]
            lo = max(lo, self.blks[first]["time"] + 1)
        return lo

    def pick_time(self, prev):
        lo = self.min_time(prev)
        r = self.r.random()
        if r < 0.3:
            return lo
        if r < 0.6:
            l = self.last5(prev)
            return max([lo] + l) + self.r.randint(1, 20)
        if r < 0.9:
            return lo + self.r.randint(0, 40)
        return min(lo + self.r.randint(0, 4000), 199000)

    def t_range(self, prev):
        """(lo, hi) allowed targets, in units, of a child of prev"""
        if prev == "0":
            return self.P["origTu"], self.P["origTu"]
        t = self.blks[prev]["t"]
        h = self.height(prev) + 1
        if h % self.P["dp"] != 0:
            return t, t
        return -(-t // 4), min(4 * t, self.P["maxTu"])

    def pick_t(self, prev):
        lo, hi = self.t_range(prev)
        lo = max(lo, min(hi, 512))
        r = self.r.random()
        if r < 0.35:
            return lo
        if r < 0.6:
            return hi
        return self.r.randint(lo, hi)

    # ---- blocks ----
    def apply(self, prev, ids, h):
        """state after the transactions ids on prev, or None"""
        s = self.st.get(prev)
        if s is None or not s["ok"]:
            return None
        ut = dict(s["utxo"])
        inc = set(s["inc"])
        for t in ids:
            x = self.txs[t]
            if t in inc or x["minb"] > h:
                return None
            for i in x["ins"]:
                o = ut.pop((i["tx"], i["ind"]), None)
                if o is None or o[0] != i["val"] or i["how"] not in ("ok", "mall") or o[1] != i["key"]:
                    return None
            for n, o in enumerate(x["outs"]):
                ut[(t, n)] = (o["val"], o["key"])
            inc.add(t)
        return dict(utxo=ut, inc=frozenset(inc), h=h, ok=True)

    def block(self, prev, ids=(), key=None, shape=None, time=None, t=None, cbval=None, cbh=None,
              root=None, bad=False, ok=True):
        """a block; by default a valid one holding transactions ids"""
        h = self.height(prev) + 1
        key = key or self.r.choice(self.keys)
        if root is None:
            fees = sum(self.fee(x) for x in ids if not self.txs[x]["cb"])
            cb = self.coinbase(h if cbh is None else cbh,
                               self.P["reward"] + fees if cbval is None else cbval, key)
            shape = shape or self.r.choice(["bal", "bal", "right", "left", "rnd"])
            root = self.tree([cb] + [x for x in ids], shape)
        b = self.nid("b")
        self.blks[b] = dict(prev=prev, root=root, time=self.pick_time(prev) if time is None else time,
                            t=self.pick_t(prev) if t is None else t, bad=bad)
        lv = self.leaves(root)
        s = self.apply(prev, lv, h) if ok and not bad else None
        self.st[b] = s or dict(ok=False, h=h, utxo={}, inc=frozenset())
        self.st[b]["work"] = self.st.get(prev, {}).get("work", 0) + (1 << 20) // max(1, self.blks[b]["t"])
        return b

    def spendable(self, b, extra=(), low=3, high=1000000):
        """[(tx, ind, val, key)] worth low or more unspent after block b, plus outputs of transactions extra"""
        out = [(k[0], k[1], v[0], v[1]) for k, v in self.st[b]["utxo"].items()] if b in self.st else []
        for t in extra:
            for n, o in enumerate(self.txs[t]["outs"]):
                out.append((t, n, o["val"], o["key"]))
        out = [o for o in out if low <= o[2] < high and o[3] in self.keys]
        out.sort()
        return out

    def split(self, total, n):
        n = max(1, min(n, total))
        cuts = sorted(self.r.sample(range(1, total), n - 1)) if n > 1 else []
        pts = [0] + cuts + [total]
        return [pts[i + 1] - pts[i] for i in range(n)]

    def late(self, h):
        # a first height beyond h
        return self.r.choice([h + 1, h + 1, h + 2, h + 5, CAPU, 2 * CAPU - 1, 2 * CAPU, 4 * CAPU - 1])

    def spend(self, avail, nin=None, nout=None, fee=None, minb=0, how="ok"):
        """a valid transaction from avail (a list it shrinks), or None"""
        avail[:] = [o for o in avail if o[3] in self.keys]   # nobody can spend what is nobody's
        if not avail:
            return None
        nin = nin or self.r.choice([1, 1, 1, 2, 3])
        ins = []
        for _ in range(min(nin, len(avail))):
            ins.append(avail.pop(self.r.randrange(len(avail))))
        tot = sum(i[2] for i in ins)
        if tot < 3:
            return None
        f = self.r.choice([1, 2, 3, 10, 50, 100, 150]) if fee is None else fee
        f = max(1, min(f, tot - 1))
        nout = nout if nout is not None else self.r.choice([1, 1, 2, 2, 3, 4])
        outs = [(v, self.r.choice(self.payees)) for v in self.split(tot - f, nout)]
        odd = self.r.random()
        if nout == 0 or odd < 0.04:
            outs = []   # everything is fee
        elif odd < 0.12:
            outs.insert(self.r.randrange(len(outs) + 1), (0, self.r.choice(self.keys)))
        hw = how if how != "ok" else ("mall" if self.r.random() < 0.05 else "ok")
        return self.tx([(i[0], i[1], i[2], i[3], hw) for i in ins], outs, minb)

    def fill(self, prev, n, allow_dep=True):
        """up to n transactions valid in a child of prev, ordered for level order by `order`"""
        h = self.height(prev) + 1
        avail = self.spendable(prev, low=self.r.choice([0, 3]))
        out = []
        for _ in range(n):
            if not avail:
                break
            t = self.spend(avail, minb=self.r.choice([0, 0, 0, h, max(0, h - 1)]))
            if t is None:
                continue
            out.append(t)
            if allow_dep and self.r.random() < 0.5:
                for k, o in enumerate(self.txs[t]["outs"]):
                    if o["val"] > 5 or self.r.random() < .2:
                        avail.append((t, k, o["val"], o["key"]))
        return out

    def valid_block(self, prev, ntx=None, **kw):
        """a block believed valid (tries orders/shapes until the level order is applicable)"""
        ntx = self.r.choice([0, 0, 1, 1, 2, 3, 4]) if ntx is None else ntx
        ids = kw.pop("ids", None)
        ids = self.fill(prev, ntx) if ids is None else ids
        while ids and 112 + sum(self.vsize(x) + 1 for x in ids) > self.P["maxBlk"]:
            ids = ids[:-1]
        for shape in self.r.sample(["bal", "right", "left", "rnd"], 4) + ["right"]:
            h = self.height(prev) + 1
            fees = sum(self.fee(x) for x in ids)
            cb = self.coinbase(h, self.P["reward"] + fees, kw.get("key") or self.r.choice(self.keys))
            root = self.tree([cb] + ids, shape)
            if self.apply(prev, self.leaves(root), h) is not None:
                return self.block(prev, root=root, **{k: v for k, v in kw.items() if k != "key"})
        return self.block(prev, [], **kw)

    # ---- steps ----
    def offer_of(self, head, mode="min"):
        """the entities of the chain to head"""
        txs, mks, blks = [], [], []
        for b in self.chain(head):
            lv, order = [], []
            q = [self.blks[b]["root"]]
            while q:
                x = q.pop(0)
                if x in self.txs:
                    lv.append(x)
                elif x in self.mks:
                    order.append(x)
                    q.append(self.mks[x]["l"])
                    if self.mks[x]["r"] != self.mks[x]["l"]:
                        q.append(self.mks[x]["r"])
            for x in self.dep_order(lv):
                if x not in txs:
                    txs.append(x)
            for x in reversed(order):
                if x not in mks:
                    mks.append(x)
            blks.append(b)
        if mode == "min":
            txs = [x for x in txs if x not in self.kn]
            mks = [x for x in mks if x not in self.kn]
            blks = [x for x in blks if x not in self.kn]
        return dict(head=head, txs=txs, mks=mks, blks=blks)

    def dep_order(self, ids):
        ids = list(ids)
        out, done = [], set()
        while ids:
            for x in ids:
                if all(i["tx"] not in ids or i["tx"] == x for i in self.txs[x]["ins"]):
                    break
            else:
                x = ids[0]
            ids.remove(x)
            out.append(x)
        return out

    def offer(self, head, mode="min", **over):
        o = self.offer_of(head, "min" if mode not in ("full",) else "full")
        if mode == "shuffle":
            self.r.shuffle(o[self.r.choice(["txs", "mks", "blks"])])
        elif mode == "drop":
            f = self.r.choice([k for k in ("txs", "mks", "blks") if o[k]] or ["txs"])
            if o[f]:
                o[f].pop(self.r.randrange(len(o[f])))
        elif mode == "dup":
            for f in ("txs", "mks", "blks"):
                o[f] = o[f] + o[f][:2]
        elif mode == "bare":
            o = dict(head=head, txs=[], mks=[], blks=[])
        o.update(over)
        self.steps.append(dict(op="offer", via="bus", o=o))
        if mode in ("min", "full", "dup"):
            self.kn.update(o["txs"] + o["mks"] + o["blks"])
            if self.st.get(head, {}).get("ok") and self.st[head]["work"] > self.st[self.head].get("work", 0):
                self.head = head
                inc = self.st[head]["inc"]
                self.pool = [t for t in self.pool if t not in inc]
        return o

    def submit(self, t):
        self.steps.append(dict(op="tx", via="bus", t=t))
        if all(i["how"] in ("ok", "mall") for i in self.txs[t]["ins"]):
            self.kn.add(t)
            self.pool.append(t)

    def resubmit(self, n):
        """transactions that are known, most of them pending: nothing is to come of it"""
        p = [t for t in dict.fromkeys(self.pool) if t in self.kn]
        for _ in range(n):
            c = p if p and self.r.random() < .6 else sorted(t for t in self.kn if t in self.txs and self.txs[t]["ins"])
            if c:
                self.steps.append(dict(op="tx", via="bus", t=self.r.choice(c)))

    def restart(self):
        self.steps.append(dict(op="restart", via="bus"))
        self.pool = []

    def crash(self, follow=None, mx=12):
        self.steps.append(dict(op="crash", via="bus", max=mx, fo=follow))

    def look(self):
        self.steps.append(dict(op="look", via="bus"))

    def done(self):
        return dict(name=self.name, profile=self.profile, P=self.P, keys=self.payees, txs=self.txs,
                    mks=self.mks, blks=self.blks, opts=self.opts, steps=self.steps,
                    seed=self.r.randrange(1 << 30))

    def doomed(self, base):
        """a chain on base that is refused only when it is applied, holding pending and new transactions"""
        r = self.r
        room = lambda q: 112 + sum(self.vsize(x) + 1 for x in q) < self.P["maxBlk"]
        ids = []
        for t in self.dep_order(list(dict.fromkeys(self.pool))):
            if r.random() < .6 and self.apply(base, ids + [t], self.height(base) + 1) is not None and room(ids + [t]):
                ids.append(t)
        new = []
        for _ in range(r.choice([1, 1, 2])):
            t = self.spend([o for o in self.spendable(base) if not any((i["tx"], i["ind"]) == (o[0], o[1]) for x in ids for i in self.txs[x]["ins"])])
            if t and t not in ids and self.apply(base, ids + [t], self.height(base) + 1) is not None and room(ids + [t]):
                ids.append(t)
                new.append(t)
        inc = sorted(t for t in self.st[base]["inc"] if self.txs[t]["ins"])
        used = [i for t in ids + inc[-2:] for i in self.txs[t]["ins"] if i["key"] in self.keys and i["val"] > 3]
        if r.random() < .4 and inc:
            bad = r.choice(inc)
        elif used:
            i = r.choice(used)
            bad = self.spend([(i["tx"], i["ind"], i["val"], i["key"])], nin=1)
        else:
            bad = self.spend(self.spendable(base), minb=self.late(self.height(base) + 1))
        if not bad or bad in ids or not room(ids + [bad]):
            return None
        if r.random() < .3:
            base = self.block(base, ids)
            ids = []
        q = ids + [bad]
        b = self.block(base, q if r.random() < .7 else [bad] + ids, shape=r.choice(["bal", "right"]), ok=False)
        self.offer(b, r.choice(["min", "full", "full"]))
        self.pool += new
        return b

    # ---- malformed transactions ----
    def bad_tx(self, kind=None, base=None):
        """a transaction that breaks (or may break) a rule; spends outputs at base"""
        base = base or self.head
        av = self.spendable(base, self.pool[-3:], low=self.r.choice([0, 3]))
        kinds = ["sig", "sig", "sig", "val+", "val-", "valbig", "owner", "ind", "indbig", "origin", "eq", "over",
                 "wrapouts", "wrapins", "dup", "dup3", "cbin", "cbouts0", "cbouts2", "cblow", "cbwrap", "big",
                 "noins", "cbok", "zero"]
        kind = kind or self.r.choice(kinds)
        h = self.height(base) + 1
        R = self.P["reward"]
        if kind.startswith("cb"):
            k = self.r.choice(self.keys)
            if kind == "cbin" and av:
                i = self.r.choice(av)
                return self.tx([(i[0], i[1], i[2], i[3], "ok")], [(R + 5, k)], h, True)
            if kind == "cbouts0":
                return self.tx([], [], h, True)
            if kind == "cbouts2":
                return self.tx([], [(R, k), (self.r.choice([1, 2, R]), self.r.choice(self.keys))], h, True)
            if kind == "cblow":
                return self.tx([], [(R - self.r.choice([1, 2, R]), k)], h, True)
            if kind == "cbwrap":
                return self.tx([], [(2 * CAPU, k), (2 * CAPU + R, k)], h, True)
            return self.tx([], [(R + self.r.choice([0, 1, 77]), k)], self.r.choice([0, h, h + 3]), True)
        if kind == "noins":
            return self.tx([], [(self.r.choice([0, 1, 5]), self.keys[0])] if self.r.random() < .7 else [], h, False)
        if not av:
            return None
        n = self.r.choice([1, 1, 2])
        ins = [list(x) + ["ok"] for x in self.r.sample(av, min(n, len(av)))]
        lone = None
        zv = [x for x in av if x[2] == 0 and x[:2] != tuple(ins[0][:2])]
        if zv and ins[0][2] > 0 and self.r.random() < .6:
            # an input worth nothing is checked like any other
            ins = [ins[0], list(self.r.choice(zv)) + ["ok"]]
            lone = 1
        tot = sum(i[2] for i in ins)
        f = self.r.choice([1, 2, 10])
        outs = [(v, self.r.choice(self.keys)) for v in self.split(max(1, tot - f), self.r.choice([1, 2, 3]))]
        minb = self.r.choice([0, 0, h, h + 1, h + 2])
        j = self.r.randrange(len(ins)) if lone is None else lone
        if kind == "sig":
            m = self.r.choice(SIG_MODES)
            if m == "other":
                m = "other:" + self.r.choice([k for k in self.keys if k != ins[j][3]])
            ins[j][4] = m
        elif kind == "val+":
            ins[j][2] += self.r.choice([1, 2, 500])
            if self.r.random() < 0.5:
                outs[0] = (outs[0][0] + ins[j][2] - 1, outs[0][1])
        elif kind == "val-":
            ins[j][2] = max(0, ins[j][2] - self.r.choice([1, 2]))
            outs = [(1, self.keys[0])]
        elif kind == "valbig":
            ins[j][2] += self.r.choice([CAPU, 2 * CAPU, 3 * CAPU])
        elif kind == "owner":
            n = [(k[0], k[1], v[0], v[1]) for k, v in self.st[base]["utxo"].items() if v[1] == "z"] if base in self.st else []
            if n and self.r.random() < .6:
                ins[j] = list(self.r.choice(sorted(n))) + ["ok"]
                tot = sum(i[2] for i in ins)
                outs = [(max(1, tot - f), self.r.choice(self.keys))]
            near = {"k1": "k2", "k2": "k1", "k3": "k4", "k4": "k3"}.get(ins[j][3])
            if near in self.keys and self.r.random() < .6:
                ins[j][3] = near
            else:
                ins[j][3] = self.r.choice([k for k in self.keys if k != ins[j][3]])
        elif kind == "ind":
            ins[j][1] += self.r.choice([1, 2, 7])
        elif kind == "indbig":
            ins[j][1] = self.r.choice([CAPU, 2 * CAPU - 1, 2 * CAPU, 4 * CAPU - 1])
        elif kind == "origin":
            ins[j][0] = "u%d" % self.r.randrange(5)
        elif kind == "eq":
            outs = [(tot, self.r.choice(self.keys))]
        elif kind == "over":
            outs = [(tot + self.r.choice([1, 5, CAPU]), self.r.choice(self.keys))]
        elif kind == "wrapouts":
            w = self.r.choice([[2, 2], [3, 1], [1, 1, 2], [1, 1, 1, 1], [2, 2, 2, 2], [0, 2, 2], [0, 3, 1], [2, 0, 2], [0, 1, 1, 2]])
            outs = [(a * CAPU, self.r.choice(self.keys)) for a in w]
            j = w.index(0) if 0 in w else self.r.choice([0, 0, len(w) - 1])
            outs[j] = (outs[j][0] + self.r.choice([1, tot - 1, tot // 2] if 0 in w else [0, tot - 1, tot // 2]), outs[j][1])
        elif kind == "wrapins":
            ins[j][2] = 4 * CAPU - 1
            outs = [(self.r.choice([1, 3 * CAPU]), self.r.choice(self.keys))]
        elif kind in ("dup", "dup3"):
            i = ins[0]
            c = 2 if kind == "dup" else 3
            ins = [list(i) for _ in range(c)] + ins[1:]
            tot = sum(i[2] for i in ins)
            outs = [(v, self.r.choice(self.keys)) for v in self.split(max(1, tot - f), 2)]
            if self.r.random() < 0.4:
                outs = [(max(1, i[2] - 1), self.keys[0])]
        elif kind == "big":
            k = (self.P["maxTx"] - 72 - 210 * len(ins)) // 40 + self.r.choice([-1, 0, 1, 2])
            k = max(1, min(k, tot - 1))
            outs = [(v, self.r.choice(self.keys)) for v in self.split(tot - 1, k)]
        elif kind == "zero":
            outs = outs + [(0, self.r.choice(self.keys))]
        return self.tx(ins, outs, minb)

    # ---- malformed blocks ----
    BLK_KINDS = ["pow", "root", "roottx", "parent", "cbnotfirst", "twocb", "cbheight", "cbheight0", "total+", "total-",
                 "overlap", "child", "size", "minb", "double", "across", "again", "order", "badtx", "badtxval",
                 "foreign", "wraptotal", "nocb", "dupin", "pendminb"]

    def bad_block(self, prev, kind=None):
        """a block on prev that breaks a rule"""
        kind = kind or self.r.choice(self.BLK_KINDS)
        h = self.height(prev) + 1
        R = self.P["reward"]
        av = self.spendable(prev)
        k = self.r.choice(self.keys)
        ids = self.fill(prev, self.r.choice([0, 1, 2]), allow_dep=False)
        while ids and 112 + sum(self.vsize(x) + 1 for x in ids) > self.P["maxBlk"] - 300:
            ids = ids[:-1]
        fees = sum(self.fee(x) for x in ids)
        if kind == "pow":
            return self.block(prev, ids, bad=True)
        if kind == "root":
            return self.block(prev, root=self.nid("x"), ok=False)
        if kind == "roottx":
            return self.block(prev, root=self.coinbase(h, R, k), ok=False)
        if kind == "parent":
            p = self.nid("x")
            cb = self.coinbase(self.r.choice([1, h]), R, k)
            b = self.nid("b")
            self.blks[b] = dict(prev=p, root=self.mk(cb, cb), time=self.pick_time(prev),
                                t=self.blks[prev]["t"] if prev != "0" else self.P["origTu"], bad=False)
            self.st[b] = dict(ok=False, h=h, utxo={}, inc=frozenset(), work=0)
            return b
        cb = self.coinbase(h, R + fees, k)
        if kind == "cbnotfirst":
            if not ids:
                ids = self.fill(prev, 1, False)
                cb = self.coinbase(h, R + sum(self.fee(x) for x in ids), k)
            return self.block(prev, root=self.tree(ids + [cb], "bal"), ok=False)
        if kind == "nocb":
            ids = ids or self.fill(prev, 1, False)
            if ids:
                return self.block(prev, root=self.tree(ids, "bal"), ok=False)
            kind = "twocb"
        if kind == "twocb" and av and self.r.random() < .6:
            # two that take together what one may take
            i = [x for x in self.spendable(prev, low=R)][:1] or av[:self.r.choice([3, 6])]
            tot = sum(x[2] for x in i)
            if tot >= R:
                over = tot - R
                p = self.tx([tuple(x) + ("ok",) for x in i], [(over, k)] if over else [], 0)
                c1, c2 = self.coinbase(h, R, k), self.coinbase(h, R, self.r.choice([x for x in self.keys if x != k]))
                return self.block(prev, root=self.tree(self.r.choice([[c1, p, c2], [c1, c2, p]]), self.r.choice(["bal", "right"])), ok=False)
        if kind == "twocb":
            c2 = self.coinbase(self.r.choice([h, h - 1, 0]), R, self.r.choice(self.keys))
            if c2 == cb:
                c2 = self.coinbase(h, R + 1, k)
            return self.block(prev, root=self.tree([cb] + ids + [c2], self.r.choice(["bal", "right", "rnd"])), ok=False)
        if kind == "cbheight":
            return self.block(prev, ids, cbh=max(0, h + self.r.choice([-1, 1, 2])), ok=False)
        if kind == "cbheight0":
            return self.block(prev, ids, cbh=0, ok=False)
        if kind == "total+":
            return self.block(prev, ids, cbval=R + fees + self.r.choice([1, 2, 100, R]), ok=False)
        if kind == "total-":
            if not ids:
                ids = self.fill(prev, 1, False)
                fees = sum(self.fee(x) for x in ids)
            d = self.r.randint(1, max(1, fees)) if fees else 0
            return self.block(prev, ids, cbval=R + fees - d, ok=(d == 0))
        if kind == "wraptotal":
            return self.block(prev, ids, cbval=self.r.choice([4 * CAPU - 1, 2 * CAPU + R, CAPU]), ok=False)
        if kind == "overlap":
            c2 = self.mk(cb, cb)
            x = self.mk(cb, c2) if not ids else self.mk(self.mk(cb, ids[0]), self.mk(ids[0], self.coinbase(h, R + 9, k)))
            if ids and self.r.random() < 0.5:
                x = self.mk(self.mk(cb, ids[0]), ids[0])
            return self.block(prev, root=x, ok=False)
        if kind == "child":
            return self.block(prev, root=self.mk(cb, self.nid("x")) if self.r.random() < .5 else self.mk(self.nid("x"), cb), ok=False)
        if kind == "size":
            big = []
            avail = self.spendable(prev)
            while avail and 112 + sum(self.vsize(x) for x in big) <= self.P["maxBlk"]:
                t = self.spend(avail, nin=1, nout=self.r.choice([4, 8, 12]))
                if t is None:
                    break
                big.append(t)
                for q, o in enumerate(self.txs[t]["outs"]):
                    if o["val"] > 20:
                        avail.append((t, q, o["val"], o["key"]))
            return self.block(prev, big, shape="right")
        if not av:
            return self.bad_block(prev, self.r.choice(["pow", "total+", "twocb", "cbheight", "overlap"]))
        if kind in ("minb", "pendminb"):
            t = self.spend(av, minb=self.late(h))
            if kind == "pendminb":
                self.submit(t)
            return self.block(prev, [t])
        if kind == "double":
            i = self.r.choice(av)
            a = self.spend([i], nin=1)
            b = self.spend([i], nin=1)
            return self.block(prev, [a, b])
        if kind == "across":
            i = self.r.choice(av)
            a = self.spend([i], nin=1)
            b = self.spend([i], nin=1)
            return self.block(self.block(prev, [a]), [b])
        if kind == "again":
            inc = [t for t in self.st[prev]["inc"] if not self.txs[t]["cb"]]
            a = self.r.choice(inc) if inc and self.r.random() < .7 else self.spend(av, nin=1)
            p = prev if a in inc else self.block(prev, [a])
            return self.block(p, [a])
        if kind == "order":
            i = self.r.choice(av)
            a = self.spend([i], nin=1)
            o = [(a, n, x["val"], x["key"]) for n, x in enumerate(self.txs[a]["outs"]) if x["val"] > 2 and x["key"] in self.keys]
            if not o:
                return self.block(prev, [a])
            b = self.spend([self.r.choice(o)], nin=1)
            return self.block(prev, [b, a], shape=self.r.choice(["bal", "right"]))
        if kind == "foreign":
            # spends an output that exists on another branch only
            others = [b for b in self.st if b != "0" and self.st[b]["ok"] and b not in self.chain(prev)]
            if others:
                o = [x for x in self.spendable(self.r.choice(others)) if (x[0], x[1]) not in self.st[prev]["utxo"]]
                if o:
                    return self.block(prev, [self.spend([self.r.choice(o)], nin=1)])
        if kind == "dupin":
            t = self.bad_tx("dup", prev)
            return self.block(prev, [t], cbval=R + 1 if self.r.random() < .3 else None)
        t = self.bad_tx(self.r.choice(["val+", "val-", "valbig", "wrapouts", "wrapins"]) if kind == "badtxval" else
                        self.r.choice(["sig", "sig", "owner", "ind", "eq", "dup", "big", "zero"]), prev)
        if t is None:
            return self.block(prev, [])
        f = self.fee(t)
        f = f % (4 * CAPU)
        return self.block(prev, [t], cbval=max(0, min(4 * CAPU - 1, R + f)))


# ------------------------------------------------------------------ profiles
def grow(g, b, n, ntx=None):
    for _ in range(n):
        b = g.valid_block(b, ntx)
    return b


def mode(r):
    return r.choice(["min", "min", "min", "full", "dup", "shuffle", "drop", "bare"])


def p_adv(r, name):
    """malformed transactions, by submission and inside offered chains"""
    g = Gen(r, name, "adv", max_blk=r.choice([1300, 1500, 2000, 112 * 3]), max_tx=r.choice([700, 1000]))
    b = grow(g, "0", r.randint(2, 4), 0 if g.P["maxBlk"] < 500 else None)
    g.offer(b)
    for _ in range(r.randint(6, 12)):
        x = r.random()
        if x < 0.55:
            t = g.bad_tx()
            if t:
                g.submit(t) if r.random() < .8 else (g.submit(t), g.submit(t))
        elif x < 0.75:
            t = g.spend(g.spendable(g.head, g.pool[-2:]), minb=r.choice([0, 0, 0, g.late(g.height(g.head))]))
            if t:
                g.submit(t)
                if r.random() < .3:
                    g.submit(t)
        elif x < 0.9:
            k = r.choice(["badtx", "badtxval", "dupin"])
            b = g.bad_block(g.head, k)
            g.offer(b, r.choice(["min", "full"]))
        else:
            g.offer(grow(g, g.head, 1))
    if r.random() < .5:
        ref = r.choice([t for t in g.txs if g.txs[t]["ins"]] or [None])
        if ref:
            g.P["maxTxRef"], g.P["maxTxD"] = ref, r.choice([-1, 0, 1])
    g.offer(grow(g, g.head, 1))
    return g.done()


def p_blk(r, name):
    """malformed blocks and trees, then valid continuations"""
    g = Gen(r, name, "blk", max_blk=r.choice([1300, 1500]))
    b = grow(g, "0", r.randint(2, 4), r.choice([1, 2]))
    g.offer(b)
    kinds = r.sample(Gen.BLK_KINDS, 7)
    for k in kinds:
        prev = g.head
        if r.random() < .25 and g.height(g.head) > 1:
            c = g.chain(g.head)
            prev = c[-2]
        b = g.bad_block(prev, k)
        tip = b
        for _ in range(r.choice([0, 0, 1, 2])):
            # build on top of the bad block, so that work would suffice
            h = g.height(tip) + 1
            tip = g.block(tip, [], key=r.choice(g.keys), ok=False)
        if prev != g.head:
            tip = g.block(tip, [], ok=False)
        g.offer(tip, r.choice(["min", "min", "full", "drop"]))
        if r.random() < .4:
            g.offer(grow(g, g.head, r.choice([1, 1, 2])), r.choice(["min", "full"]))
        if r.random() < .2:
            g.offer(b, "bare")
    if r.random() < .4:
        bs = [b for b in g.blks if len(g.leaves(g.blks[b]["root"])) > 1]
        if bs:
            g.P["maxBlkRef"], g.P["maxBlkD"] = r.choice(bs), r.choice([-1, 0, 1])
    g.offer(grow(g, g.head, 1))
    return g.done()


def p_time(r, name):
    """block times and targets around every bound"""
    dp = r.choice([4, 4, 5, 8])
    g = Gen(r, name, "time", dp=dp, orig=r.choice([1 << 17, 1 << 16, 3 << 15]), miners=r.random() < .6,
            btt=r.choice([10, 7, 60]))
    H = r.randint(dp + 2, 3 * dp + 3) if dp < 8 else r.randint(9, 19)
    b = "0"
    pend = 0
    while g.height(b) < H:
        h = g.height(b) + 1
        lo = g.min_time(b)
        l5 = g.last5(b)
        md = median(l5) if l5 else None
        tl, th = g.t_range(b)
        # attempts just outside
        if pend == 0 and r.random() < .35:
            kw = {}
            x = r.random()
            if x < .35 and md is not None:
                kw["time"] = r.choice([md, md, md - 1, md - 30, lo - 1, lo - 1])
            elif x < .55:
                kw["time"] = 200000 + r.choice([3640, 3700, 5000, 7150, 7250, 40000, 90000])
            elif x < .9:
                kw["t"] = r.choice([tl - 1, th + 1, max(300, tl // 2), min(th * 2, 1 << 19), tl - 1, th + 1])
                if kw["t"] < 200 or kw["t"] == tl:
                    kw = {"t": th + 1}
            else:
                kw["t"], kw["time"] = th + 1, lo - 1
            bad = g.block(b, [], **kw)
            inside = tl <= g.blks[bad]["t"] <= th and lo <= g.blks[bad]["time"] <= 203000
            g.st[bad]["ok"] = inside
            if not inside:
                g.offer(bad, r.choice(["min", "full"]))
                g.kn.discard(bad)
        # a valid one
        x = r.random()
        if h % dp == 0 and r.random() < .5:
            time = lo + r.choice([30, 100, 400])        # first of a period far ahead
        elif h % dp == dp - 1 and x < .5:
            time = lo                                    # last of a period as early as allowed
        elif x < .3:
            time = lo
        elif x < .37:
            time = 200000 + r.choice([3000, 3500])
        else:
            time = lo + r.choice([0, 1, 5, 10, 15, 40])
        if (l5 and max(l5) > 190000):
            time = lo
        t = None
        if h % dp == 0:
            t = r.choice([max(tl, 400), th, r.randint(max(tl, min(400, th)), th)])
        b = g.valid_block(b, r.choice([0, 0, 0, 1]), time=time, t=t)
        pend += 1
        if r.random() < .5 or g.height(b) == H or g.height(b) % dp == dp - 1:
            g.offer(b)
            pend = 0
            if g.opts["miners"] and r.random() < .25 and g.height(b) < H - 2:
                pass
    if pend:
        g.offer(b)
    if g.opts["miners"]:
        for _ in range(r.randint(1, 3)):
            i = g.nid("z")
            g.steps.append(dict(op="mine", via="bus", key=r.choice(g.keys), ids=[i, i + "b"],
                                dt=r.choice([0, 3, 20])))
    return g.done()


def p_fork(r, name):
    """competing branches, reorganisations of any depth, dependent transactions"""
    g = Gen(r, name, "fork", miners=r.random() < .3, save=r.random() < .2, max_blk=r.choice([1500, 2500]))
    trunk = grow(g, "0", r.randint(1, 4))
    tips = [trunk]
    for _ in range(r.randint(2, 4)):
        c = ["0"] + g.chain(r.choice(tips))
        base = r.choice(c[max(0, len(c) - 5):])
        tips.append(grow(g, base, r.randint(1, 5)))
    # a branch sharing transactions with another one
    c = g.chain(r.choice(tips))
    if len(c) > 2:
        k = r.randint(1, len(c) - 1)
        base = c[k - 1]
        ids = [t for b in c[k:] for t in g.leaves(g.blks[b]["root"]) if not g.txs[t]["cb"]]
        r.shuffle(ids)
        pick = []
        for t in g.dep_order(ids):
            h = g.height(base) + 1
            if g.apply(base, pick + [t], h) is not None and 112 + sum(g.vsize(x) + 1 for x in pick + [t]) < g.P["maxBlk"]:
                pick.append(t)
        nb = g.valid_block(base, ids=pick)
        tips.append(grow(g, nb, r.randint(0, 4)))
    g.offer(trunk)
    for _ in range(r.randint(5, 9)):
        x = r.random()
        if x < .6:
            tip = r.choice(tips)
            c = g.chain(tip)
            g.offer(r.choice(c[-2:]) if r.random() < .3 else tip, mode(r))
        elif x < .8:
            # extend something so that it wins
            tip = r.choice(tips)
            c = g.chain(tip)
            base = r.choice(c[-2:])
            t2 = base
            while g.st[t2]["work"] <= g.st[g.head].get("work", 0) and len(g.chain(t2)) < 14:
                t2 = g.valid_block(t2)
            tips.append(t2)
            g.offer(t2, r.choice(["min", "min", "full", "drop"]))
        elif x < .9:
            t = g.spend(g.spendable(r.choice(tips)))
            if t and all(i["tx"] in g.kn for i in g.txs[t]["ins"]):
                g.submit(t)
        else:
            if r.random() < .5:
                g.doomed(g.head)
            else:
                b = g.bad_block(r.choice(tips), r.choice(["foreign", "double", "again", "across", "minb"]))
                g.offer(b)
        if r.random() < .15:
            g.resubmit(r.choice([1, 2]))
    for tip in r.sample(tips, min(2, len(tips))):
        g.offer(tip, "full")
    return g.done()


def p_work(r, name):
    """heavier-but-shorter and equal-work branches across period boundaries"""
    g = Gen(r, name, "work", dp=4, orig=1 << 16)
    base = grow(g, "0", 3, r.choice([0, 1]))
    g.offer(base)
    tips = []
    for _ in range(r.randint(2, 4)):
        lo, hi = g.t_range(base)
        t = r.choice([lo, hi, (lo + hi) // 2, lo * 2])
        b = g.block(base, [], t=min(hi, max(lo, t)))
        tips.append(grow(g, b, r.randint(0, 3), r.choice([0, 1])))
    for _ in range(6):
        tip = r.choice(tips)
        g.offer(r.choice(g.chain(tip)[3:]), r.choice(["min", "full"]))
    # an equal-work sibling of the head
    h = g.head
    if h != "0" and g.blks[h]["prev"] in g.st:
        sib = g.block(g.blks[h]["prev"], [], t=g.blks[h]["t"])
        g.offer(sib)
        g.offer(grow(g, sib, 1))
    # one unit less / more work than the head at a boundary
    return g.done()


def p_pool(r, name):
    """pending transactions, templates, mining from templates, reorganisations of mined blocks"""
    g = Gen(r, name, "pool", miners=True, max_blk=r.choice([700, 1000, 1500, 2500]), keys=4, save=r.random() < .1)
    b = grow(g, "0", r.randint(3, 6), 0)
    # spread coins over many outputs
    sp = []
    av = g.spendable(b)
    for _ in range(min(2, len(av))):
        sp.append(g.spend(av, nin=1, nout=8, fee=2))
    if g.P["maxBlk"] >= 1500:
        b = g.valid_block(b, ids=sp)
    elif sp:
        b = g.valid_block(b, ids=sp[:1])
    tiny = 0
    if r.random() < .4:
        # outputs so small that what spends them has the smallest size and the least rate
        av = [o for o in g.spendable(b) if o[2] > 100]
        if av:
            i = r.choice(av)
            vs = [r.choice([3, 4, 7, 9]) for _ in range(3)]
            b = g.valid_block(b, ids=[g.tx([tuple(i) + ("ok",)], [(v, r.choice(g.keys)) for v in vs + [i[2] - sum(vs) - 2]], 0)])
            tiny = .15
    g.offer(b)
    nmine = 0
    for _ in range(r.randint(8, 16)):
        if r.random() < tiny:
            t = g.spend(g.spendable(g.head, (), 3, 10), nin=1, nout=0)
            if t:
                g.submit(t)
        x = r.random() * (.96 if g.head == "0" else 1)
        if x < .06:
            g.resubmit(1)
        elif x < .58:
            av = g.spendable(g.head, [t for t in g.pool if r.random() < .5])
            t = g.spend(av, fee=r.choice([1, 2, 5, 20, 40, 80, 120]), minb=r.choice([0] * 6 + [g.late(g.height(g.head))]))
            if t:
                g.submit(t)
                if r.random() < .1:
                    g.submit(t)
        elif x < .74:
            i = g.nid("z")
            g.steps.append(dict(op="mine", via="bus", key=r.choice(g.keys), ids=[i, i + "b"], dt=r.choice([0, 1, 30])))
            nmine += 1
        elif x < .84:
            # a competing chain, possibly confirming some pending transactions
            c = ["0"] + g.chain(g.head)
            base = r.choice(c[-3:])
            ids = []
            for t in g.dep_order(list(dict.fromkeys(g.pool))):
                if r.random() < .5 and g.apply(base, ids + [t], g.height(base) + 1) is not None \
                        and 112 + sum(g.vsize(q) + 1 for q in ids + [t]) < g.P["maxBlk"]:
                    ids.append(t)
            nb = g.valid_block(base, ids=ids)
            need = g.st[g.head].get("work", 0) + nmine * 40
            while g.st[nb]["work"] <= need and g.height(nb) < 18:
                nb = g.valid_block(nb, r.choice([0, 0, 1]))
            g.offer(nb, r.choice(["min", "full"]))
            nmine = 0
        elif x < .88:
            t = g.bad_tx(r.choice(["dup", "sig", "over", "wrapouts", "owner"]))
            if t:
                g.submit(t)
        elif x < .93:
            g.offer(g.bad_block(g.head))
        else:
            # what was pending or came along stays pending
            g.doomed(g.head)
            if r.random() < .5:
                t = g.spend(g.spendable(g.head, g.pool))
                if t:
                    g.submit(t)
    if r.random() < .3:
        ref = [t for t in g.txs if g.txs[t]["ins"] and len(g.txs[t]["outs"]) < 4]
        if ref:
            q = r.sample(ref, min(len(ref), r.choice([1, 2])))
            bare = [t for t in ref if not g.txs[t]["outs"] and t not in q]
            if bare and r.random() < .7:
                q[-1] = bare[0]
            g.P["maxBlkTx"], g.P["maxBlkD"] = q, r.choice([-1, 0, 0, 1])
    g.resubmit(r.choice([0, 2, 3]))
    i = g.nid("z")
    g.steps.append(dict(op="mine", via="bus", key=r.choice(g.keys), ids=[i, i + "b"], dt=1))
    return g.done()


def p_restart(r, name):
    """stops and starts on the same directory, between and after anything"""
    g = Gen(r, name, "restart", save=True, miners=r.random() < .5)
    b = grow(g, "0", r.randint(1, 3))
    if r.random() < .2:
        g.restart()
    g.offer(b)
    tips = [b]
    for _ in range(r.randint(6, 11)):
        x = r.random()
        if x < .3:
            g.restart()
            if r.random() < .2:
                g.restart()
        elif x < .5:
            t = g.spend(g.spendable(g.head, g.pool[-2:]))
            if t:
                g.submit(t)
        elif x < .75:
            ids = []
            kn = [t for t in g.txs if t in g.kn and not g.txs[t]["cb"]]
            r.shuffle(kn)
            for t in g.dep_order(kn):
                if g.apply(g.head, ids + [t], g.height(g.head) + 1) is not None and len(ids) < 3 \
                        and 112 + sum(g.vsize(q) + 1 for q in ids + [t]) < g.P["maxBlk"]:
                    ids.append(t)
            nb = g.valid_block(g.head, ids=ids)
            tips.append(nb)
            g.offer(nb, r.choice(["min", "min", "full", "drop"]))
        elif x < .9:
            c = ["0"] + g.chain(r.choice(tips))
            nb = r.choice(c[-3:])
            while g.st[nb]["work"] <= g.st[g.head].get("work", 0):
                nb = g.valid_block(nb)
            tips.append(nb)
            g.offer(nb, r.choice(["min", "full"]))
        elif x < .95:
            kn = [t for t in g.txs if t in g.kn]
            if kn:
                g.submit(r.choice(kn))
        else:
            g.offer(g.bad_block(g.head))
    g.restart()
    g.offer(grow(g, g.head, 1))
    return g.done()


def p_crash(r, name):
    """kill at every prefix of the file operations of a step"""
    g = Gen(r, name, "crash", save=True)
    b = grow(g, "0", r.randint(1, 3), r.choice([0, 1, 2]))
    g.offer(b)
    c = ["0"] + g.chain(g.head)
    nb = r.choice(c[-3:]) if r.random() < .5 else g.head
    k = 0
    while k == 0 or g.st[nb]["work"] <= g.st[g.head].get("work", 0):
        nb = g.valid_block(nb, r.choice([1, 2]))
        k += 1
    if r.random() < .3:
        t = g.spend(g.spendable(g.head))
        if t:
            g.submit(t)
    g.offer(nb)
    f = g.offer_of(grow(g, nb, 1, 1), "full")
    g.crash(f, 14)
    return g.done()


def believe(g, head):
    """the node is believed to have been given the whole chain to head"""
    if g.st.get(head, {}).get("ok") and g.st[head]["work"] > g.st[g.head].get("work", 0):
        o = g.offer_of(head, "full")
        g.kn.update(o["txs"] + o["mks"] + o["blks"])
        g.head = head
        inc = g.st[head]["inc"]
        g.pool = [t for t in g.pool if t not in inc]


def p_sync(r, name):
    """synchronisations of the node with an honest peer"""
    return p_conv(r, name, True)


def p_conv(r, name, sync=False):
    """conversations of the node with an honest peer"""
    g = Gen(r, name, "conv", max_blk=r.choice([1500, 2500, 4000]), dp=r.choice([4, 5, 8]))
    g.opts["peer"] = r.choice(["i", "n"])
    trunk = grow(g, "0", r.randint(0, 3))
    tips = [trunk]
    for _ in range(r.randint(1, 3)):
        c = ["0"] + g.chain(r.choice(tips))
        tips.append(grow(g, r.choice(c[-4:]), r.choice([1, 1, 2, 3, 5]), r.choice([None, None, 2, 4])))
    # the node holds some chain, or nothing
    if r.random() < .8:
        for tip in r.sample(tips, r.choice([1, 1, 2]) if len(tips) > 1 else 1):
            if tip != "0":
                g.offer(tip)
    for _ in range(r.choice([0, 0, 1, 2])):
        t = g.spend(g.spendable(g.head, g.pool))
        if t:
            g.submit(t)
    ehead = r.choice(tips + [g.head, "0"])
    eb = dict(head=ehead)
    etx = []

    def e_sync(head):
        eb["head"] = head
        believe(g, head)
        return dict(k="e", c="sync-chain", head=head, col=r.random() < .5)

    def stim():
        x = r.random() * (.5 if sync else 1)
        if x < .25:
            # the peer gets a better chain
            base = r.choice([g.head, g.head, eb["head"], r.choice(tips)])
            ids = [t for t in dict.fromkeys(g.pool + etx) if r.random() < .6]
            nb = base
            pick = []
            for t in g.dep_order(ids):
                if base in g.st and g.st[base]["ok"] and g.apply(base, pick + [t], g.height(base) + 1) is not None \
                        and 112 + sum(g.vsize(q) + 1 for q in pick + [t]) < g.P["maxBlk"]:
                    pick.append(t)
            if pick:
                nb = g.valid_block(base, ids=pick)
            for _ in range(20):
                if nb != base and g.st[nb]["work"] > g.st[g.head].get("work", 0) and r.random() < .6:
                    break
                nb = g.valid_block(nb)
            tips.append(nb)
            return [e_sync(nb)]
        if x < .4:
            # the node gets a better chain
            nb = r.choice([g.head, g.head, r.choice(tips)])
            if not g.st[nb]["ok"]:
                return []
            for _ in range(20):
                nb = g.valid_block(nb)
                if g.st[nb]["work"] > g.st[g.head].get("work", 0):
                    break
            o = g.offer_of(nb)
            tips.append(nb)
            believe(g, nb)
            if g.st[nb]["work"] > g.st[eb["head"]].get("work", 0):
                eb["head"] = nb
            return [dict(k="offer", o=o)]
        if x < .55:
            t = g.spend(g.spendable(g.head, g.pool))
            if not t:
                return []
            g.kn.add(t)
            g.pool.append(t)
            return [dict(k="tx", t=t)]
        if x < .75:
            t = g.spend(g.spendable(g.head, g.pool)) if r.random() < .85 or not etx else r.choice(etx)
            if not t:
                return []
            etx.append(t)
            if t not in g.pool and all(i["how"] in ("ok", "mall") for i in g.txs[t]["ins"]):
                g.kn.add(t)
                g.pool.append(t)
            return [dict(k="e", c="new-tx", t=t, col=r.random() < .5)]
        if x < .8:
            return [dict(k="e", c="ping", col=r.random() < .5)]
        if x < .85:
            return [dict(k="e", c="announce-addr", s=r.choice(["127.0.0.1:9", "", "x" * r.choice([1, 255, 256, 300, 65535])]),
                         col=r.random() < .5)]
        if x < .89:
            return [dict(k="e", c="addrs-request", col=r.random() < .5)]
        if x < .92:
            n = r.choice([0, 1, 2, 3])
            return [dict(k="e", c="peer-addrs", a=[["p%d" % j, "127.0.0.1:%d" % (1 + j)] for j in range(n)], col=r.random() < .5)]
        if x < .95:
            return [dict(k="announce-addr", s=r.choice(["127.0.0.1:9", "", "y" * r.choice([1, 255, 256, 300, 65535])]))]
        if x < .975:
            return [dict(k="addrs-request")]
        return [dict(k="peer-addrs", a=[["q%d" % j, "127.0.0.1:%d" % (1 + j)] for j in range(r.choice([0, 1, 2, 5]))])]

    first = [dict(k="set", head=ehead)] if g.opts["peer"] == "i" else [e_sync(ehead)]
    if g.opts["peer"] == "i":
        believe(g, ehead)
    if g.st[g.head].get("work", 0) > g.st[eb["head"]].get("work", 0):
        eb["head"] = g.head
    seg = r.choice(["", "", "", "byte", "rand", "hdr", "hdr"])
    if r.random() < .15:
        for _ in range(r.choice([1, 2])):
            first += stim()
    g.steps.append(dict(op="connect", via="wire", stim=first, seg=seg))
    for _ in range(r.randint(2, 5)):
        q = []
        for _ in range(r.choice([1, 1, 2, 3, 4])):
            q += stim()
        for x in q:
            if x.get("col") and r.random() < .25:
                x["race"] = True
        g.steps.append(dict(op="conv", via="wire", stim=q))
    if r.random() < .2:
        # a long list, and the stream still in step behind it
        k = r.choice([dict(k="e", c="peer-addrs"), dict(k="peer-addrs")])
        k["a"] = [["p%d" % j, "127.0.0.1:%d" % (1 + j)] for j in range(r.choice([30, 70, 150, 300]))]
        g.steps.append(dict(op="conv", via="wire", stim=[k]))
        g.steps.append(dict(op="conv", via="wire", stim=[dict(k="e", c="ping")]))
    return g.done()


HOWS = ["flip", "flip", "other", "other", "other", "zero", "huge", "big", "cut", "none", "junk", "kind", "extra"]
THENS = ["half", "half", "reset", "junk", "go", "go"]


def p_vast(r, name):
    return p_long(r, name, 1050)


def p_long(r, name, n=None):
    """the node, or its peer, is far behind, or on a branch that parted long ago"""
    g = Gen(r, name, "conv", max_blk=1500, dp=r.choice([200, 300]))
    g.opts["peer"] = r.choice(["i", "n"])
    n = n or r.choice([130, 260, 520])
    trunk = grow(g, "0", r.choice([0, 1, 3]), 0)
    near = grow(g, trunk, r.choice([0, 1, n // 2]), 0)
    far = grow(g, trunk, n, 0)
    how = r.choice(["in", "in", "out", "late"])
    mine, theirs = (far, near) if how == "out" else (near, far)
    if mine != "0":
        g.offer(mine)
    q = [dict(k="e", c="ping")]
    if how == "late":
        q = [dict(k="e", c="sync-chain", head=theirs, col=False)]
        theirs = near
    first = [dict(k="set", head=theirs)] if g.opts["peer"] == "i" else [dict(k="e", c="sync-chain", head=theirs, col=False)]
    g.steps.append(dict(op="connect", via="wire", stim=first, seg=""))
    g.steps.append(dict(op="conv", via="wire", stim=q))
    return g.done()


def p_deep(r, name):
    """long chains, deep changes of branch, and a restart on them"""
    g = Gen(r, name, "restart", save=True, dp=r.choice([200, 300]))
    n = r.choice([110, 150, 200])
    a = grow(g, "0", r.choice([0, 1, 3]), 0)
    if a != "0":
        g.offer(a)
    b = grow(g, a, n, 0)
    x = grow(g, r.choice(g.chain(b)[:-5]), 1, None)
    g.offer(b, r.choice(["min", "full"]))
    c = grow(g, a, n + r.choice([1, 2]), 0)
    if r.random() < .5:
        g.restart()
    for t in r.sample(["c", "t", "t"], 3):
        if t == "c":
            g.offer(c)
        else:
            y = g.spend(g.spendable(g.head, g.pool))
            if y:
                g.submit(y)
    g.restart()
    g.offer(grow(g, g.head, 2))
    while g.st[x]["work"] <= g.st[g.head].get("work", 0):
        x = g.valid_block(x)
    g.offer(x)
    return g.done()


def p_rich(r, name):
    """amounts around multiples of 2^62, as far as there can be any"""
    g = Gen(r, name, "pool", reward=CAPU - r.choice([0, 0, 1, 3]), keys=3)
    HI = 4 * CAPU

    def pay(b, extra=()):
        av = g.spendable(b, extra, 0, HI)
        if not av:
            return None
        ins = r.sample(av, min(len(av), r.choice([1, 1, 2, 3])))
        tot = sum(i[2] for i in ins)
        f = r.choice([1, 2, 50])
        if tot <= f:
            return None
        if tot < CAPU // 4:
            outs = [tot - f] if r.random() < .5 or tot - f < 2 else g.split(tot - f, 2)
        else:
            x = r.choice([0, 0, 1, 7, 300])
            u = (tot + CAPU // 2) // CAPU
            if u > 1 and r.random() < .5:
                outs = [CAPU, tot - CAPU - x - f, x]
            else:
                outs = [tot - x - f, x]
            outs = [o for o in outs if o >= 0]
        r.shuffle(outs)
        outs = [(o, r.choice(g.payees)) for o in outs]
        return g.tx([tuple(i) + ("ok",) for i in ins], outs, 0)

    def block(b):
        h = g.height(b) + 1
        ids = []
        for _ in range(r.choice([0, 1, 2])):
            t = pay(b, ids) if r.random() < .7 else r.choice(g.pool or [None])
            if t and t not in ids and g.apply(b, ids + [t], h) is not None and 112 + sum(g.vsize(q) + 1 for q in ids + [t]) < g.P["maxBlk"]:
                ids.append(t)
        return g.valid_block(b, ids=ids)

    a = block("0")
    g.offer(a)
    b = a
    for _ in range(r.choice([1, 2])):
        if r.random() < .7:
            t = pay(g.head, g.pool)
            if t:
                g.submit(t)
        b = block(b)
        g.offer(b)
    for _ in range(r.randint(1, 4)):
        x = r.random()
        if x < .6:
            t = pay(g.head, g.pool)
            if t:
                g.submit(t)
        elif x < .8:
            t = g.bad_tx(r.choice(["over", "wrapouts", "eq", "val+", "valbig", "wrapins"]))
            if t:
                g.submit(t)
        elif g.height(g.head) < 3:
            g.offer(block(g.head))
    if g.height(g.head) < 3:
        c = block(block(r.choice(["0", a])))
        while g.st[c]["work"] <= g.st[g.head].get("work", 0) and g.height(c) < 3:
            c = block(c)
        g.offer(c)
    return g.done()


def p_silent(r, name):
    return p_attack(r, name, True)


def p_alloc(r, name):
    """lengths and counts that nothing follows"""
    g = Gen(r, name, "attack", max_blk=2500)
    g.opts["peer"] = "n"
    g.offer(grow(g, "0", 3))
    g.steps.append(dict(op="connect", via="wire", stim=[dict(k="set", head=g.head)], seg=""))
    for n in range(4):
        kind = r.choice(["u", "u", "tx", "tx", "s", "blk"])
        nb = g.valid_block(g.head, 2)
        if kind == "u":
            q = [dict(k="e", c="peer-addrs", a=[["a:x", "127.0.0.1:1"]])]
        elif kind == "tx" and r.random() < .6:
            q = [dict(k="e", c="new-tx", t=g.spend(g.spendable(g.head)))]
        else:
            q = [dict(k="e", c="sync-chain", head=nb)]
        a = dict(role=r.choice(["i", "n"]), id="A%d" % n, stim=[dict(k="set", head=g.head)] + q, dev=0, kind=kind,
                 how=r.choice(["huge", "big", "big"]), then=r.choice(["half", "reset", "junk", "go"]), seed=r.randrange(1 << 30),
                 cold=True)
        g.steps.append(dict(op="attack", via="wire", att=a))
    return g.done()


def p_attack(r, name, silent=False):
    """peers that deviate from the protocol, beside an honest one"""
    g = Gen(r, name, "attack", max_blk=r.choice([1500, 2500]), dp=r.choice([4, 5, 8]))
    g.opts["peer"] = "n"
    trunk = grow(g, "0", r.randint(1, 3))
    tips = [trunk] + [grow(g, r.choice(["0"] + g.chain(trunk)), r.choice([1, 2, 3])) for _ in range(r.randint(0, 2))]
    if r.random() < .8:
        g.offer(r.choice(tips))
    g.steps.append(dict(op="connect", via="wire", stim=[dict(k="set", head=g.head)], seg=""))
    etx = []

    def bad_tip(base):
        for _ in range(8):
            k = r.choice([x for x in Gen.BLK_KINDS if x != "parent"])
            b = g.bad_block(base, k)
            if b:
                break
        if r.random() < .5:
            for _ in range(r.choice([1, 2])):
                b = g.block(b, [], ok=False)
        return b

    def better(base):
        for _ in range(6):
            base = g.valid_block(base, r.choice([0, 1, 2]))
            if g.st[base]["work"] > g.st[g.head].get("work", 0):
                break
        return base

    def stim():
        x = r.random()
        if x < .35:
            base = r.choice([g.head, g.head, r.choice(tips)])
            if not g.st[base]["ok"]:
                base = g.head
            y = r.random()
            if y < .35:
                b = bad_tip(better(base) if r.random() < .6 else base)
                return [dict(k="e", c="sync-chain", head=b, lie=r.choice([0, 0, 1 << 29]), col=r.random() < .5)]
            if y < .55:
                # cannot prove what it claims
                return [dict(k="e", c="sync-chain", head=r.choice(tips + [g.head]), lie=1 << 29, col=r.random() < .5)]
            b = better(base)
            tips.append(b)
            return [dict(k="e", c="sync-chain", head=b)]
        if x < .6:
            t = g.spend(g.spendable(g.head, g.pool)) if r.random() < .4 else g.bad_tx()
            return [dict(k="e", c="new-tx", t=t)] if t else []
        if x < .68:
            return [dict(k="e", c="peer-addrs", a=[["a:p%d" % j, "127.0.0.1:%d" % (1 + j)] for j in range(r.choice([0, 1, 3]))])]
        if x < .72:
            return [dict(k="e", c="announce-addr", s=r.choice(["127.0.0.1:9", "", "x" * 300]))]
        if x < .76:
            return [dict(k="e", c="addrs-request")]
        if x < .78:
            return [dict(k="e", c="ping")]
        if x < .88:
            t = g.spend(g.spendable(g.head, g.pool))
            if not t:
                return []
            g.kn.add(t)
            g.pool.append(t)
            return [dict(k="tx", t=t)]
        if x < .96:
            b = better(g.head)
            o = g.offer_of(b)
            tips.append(b)
            believe(g, b)
            return [dict(k="offer", o=o)]
        return [dict(k="addrs-request")]

    for n in range(r.choice([2, 3, 4])):
        q = [dict(k="set", head=r.choice(["0", g.head, r.choice(tips)]), lie=r.choice([0, 0, 0, 1 << 29]))]
        deny = not silent and r.random() < .15
        for _ in range(0 if deny else r.choice([1, 1, 2])):
            q += stim()
        kind = r.choice(["", "", "", "s", "s", "b", "h", "w", "u", "blk", "mk", "tx"])
        dev = r.choice([r.randrange(0, 5), r.randrange(4, 12), r.randrange(4, 12), r.randrange(8, 24)]) if not kind else \
            r.choice([0, 0, 1, 2]) if kind in "wu" else r.choice([0, 1, 2, 3, 5])
        a = dict(role=r.choice(["i", "n", "n"]), id="A%d" % n, stim=q, dev=dev, kind=kind,
                 how=r.choice(HOWS), then="silent" if silent and n == 0 else r.choice(THENS), seed=r.randrange(1 << 30),
                 hold=r.random() < .5)
        if deny:
            # denies even the root
            a.update(role=r.choice(["i", "i", "n"]), dev=0, kind="b", how="deny")
            a["stim"] = [dict(k="set", head="0")] + ([dict(k="e", c="sync-chain", head="0")] if a["role"] == "n" else [])
        g.steps.append(dict(op="attack", via="wire", att=a))
        d = []
        if r.random() < .3:
            b = better(g.head)
            tips.append(b)
            believe(g, b)
            d.append(dict(k="e", c="sync-chain", head=b))
        if r.random() < .3:
            t = g.spend(g.spendable(g.head, g.pool))
            if t:
                d.append(dict(k="e", c="new-tx", t=t))
        g.steps.append(dict(op="conv", via="wire", stim=d + [dict(k="e", c="ping")]))
        if silent:
            break
    if silent:
        g.steps.append(dict(op="attend", via="wire", att=dict(id="A0")))
    return g.done()


def p_swap(r, name):
    """a peer gives a block another time on its way (ids do not cover times)"""
    g = Gen(r, name, "attack", max_blk=1500, dp=8)
    g.opts["peer"] = "n"
    b1 = g.valid_block("0", 0, time=r.randint(0, 1000))
    g.steps.append(dict(op="connect", via="wire", stim=[dict(k="set", head=g.head)], seg=""))
    q = [dict(k="set", head="0"), dict(k="e", c="sync-chain", head=b1)]
    g.steps.append(dict(op="attack", via="wire", att=dict(role="n", id="A0", stim=q, dev=0, kind="blk", how="time",
                                                           then="go", seed=1, hold=False)))
    believe(g, b1)
    g.offer(g.valid_block(b1, 0, time=2000))
    return g.done()


def p_wallet(r, name):
    """people with the wallet program at a node: what it shows and what it pays"""
    g = Gen(r, name, "wallet", miners=True, max_blk=20000, max_tx=16384, reward=r.choice([1000, 5000, 5000, 20000]), keys=r.choice([4] * 10 + [20, 70, 130]),
            save=r.random() < .25)
    g.opts["rest"] = True
    b = grow(g, "0", r.randint(2, 6))
    if r.random() < .95:
        g.offer(b)
    npay, nmine = 0, 0
    made = []

    def own():
        k = r.choice([0, 1, 1, 2, 2, 3, 4, 4, len(g.keys), len(g.keys)])
        return r.sample(g.keys, min(k, len(g.keys)))

    def ask():
        c = r.choice(["balance", "balance", "utxos", "utxos", "confirms", "block", "rich", "tx", "mk", "blk"])
        a = dict(c=c, own=own(), q=[], n=-1, bad="")
        if c in ("balance", "utxos"):
            if r.random() < .5:
                a["q"] = r.sample(g.payees + ["x9"], r.randint(1, 3))
        elif c == "rich":
            a["n"] = r.choice([-1, 0, 1, 2, 3, 4, 100])
        else:
            pool = {"mk": list(g.mks), "blk": list(g.blks)}.get(c, list(g.txs) + made)
            a["q"] = r.sample(pool, min(len(pool), r.randint(1, 5))) + r.choice([[], [], ["no1"], ["no1", "no2"]])
            if r.random() < .05:
                a["q"] += ["no%d" % (3 + j) for j in range(r.choice([20, 70, 130]))]
            r.shuffle(a["q"])
        if a["q"] and r.random() < .15:
            a["q"].append(r.choice(a["q"]))
        if c != "rich" and a["q"] and r.random() < .06:
            a["bad"] = r.choice(["00", "zz" * 32, "0x" + "1" * 62, "1" * 63, "1" * 65])
        elif c == "rich" and r.random() < .06:
            a["bad"] = r.choice(["-1", "many", "1.5"])
        return a

    def pay():
        nonlocal npay
        npay += 1
        w = "w%d" % npay
        made.append(w)
        o = own() or (own() if r.random() < .9 else []) or r.sample(g.keys, 2)
        rich = sorted({x[3] for x in g.spendable(g.head, low=500)} - set(o))
        if rich and r.random() < .7:
            o.append(r.choice(rich))
        have = sum(x[2] for x in g.spendable(g.head, low=0) if x[3] in o)
        c = r.choice(["send", "send", "send", "consolidate"])
        d = []
        if c == "send":
            ks = r.sample(g.payees, r.randint(1, 3))
            for k in ks:
                d.append(dict(val=r.choice([0, 1, r.randint(1, 50), r.randint(1, max(1, have // (2 * len(ks)))), r.randint(1, max(1, have // (2 * len(ks))))]), key=k))
            if r.random() < .2:
                d[-1]["val"] = r.choice([max(0, have - r.randint(200, 700)), have + 1, have])
        g.steps.append(dict(op="pay", via="cli", ids=[w], pay=dict(c=c, own=o, dests=d, say=r.choice(["y"] * 7 + ["Y", "n", ""]))))

    for _ in range(r.randint(7, 12)):
        x = r.random()
        if x < .32:
            g.steps.append(dict(op="ask", via="cli", ask=[ask() for _ in range(r.randint(2, 5))]))
        elif x < .6:
            pay()
            if r.random() < .3:
                pay()
        elif x < .72:
            t = g.spend(g.spendable(g.head, g.pool[-2:]))
            if t:
                g.submit(t)
        elif x < .84:
            i = g.nid("z")
            g.steps.append(dict(op="mine", via="bus", key=r.choice(g.keys), ids=[i, i + "b"], dt=r.choice([0, 1, 30])))
            made.append(i + "c")
            nmine += 1
        elif x < .96 or not g.opts["save"]:
            base = r.choice((["0"] + g.chain(g.head))[-3:])
            nb = g.valid_block(base)
            need = g.st[g.head].get("work", 0) + nmine * 40
            while g.st[nb]["work"] <= need and g.height(nb) < 16 and r.random() < .9:
                nb = g.valid_block(nb, r.choice([0, 1]))
            g.offer(nb, r.choice(["min", "full"]))
            nmine = 0
        else:
            g.restart()
    g.steps.append(dict(op="ask", via="cli", ask=[dict(c="balance", own=g.keys, q=[], n=-1, bad=""), dict(c="utxos", own=g.keys, q=[], n=-1, bad="")]))
    return g.done()


PROFILES = dict(vast=p_vast, wallet=p_wallet, long=p_long, rich=p_rich, deep=p_deep, swap=p_swap, attack=p_attack, silent=p_silent, alloc=p_alloc, conv=p_conv, sync=p_sync, adv=p_adv, blk=p_blk, time=p_time, fork=p_fork, work=p_work, pool=p_pool, restart=p_restart,
                crash=p_crash)


def scenarios(profile, n, seed):
    out = []
    for i in range(n):
        rng = random.Random("%s/%s/%d" % (seed, profile, i))
        out.append(PROFILES[profile](rng, "%s-%d" % (profile, i)))
    return out


if __name__ == "__main__":
    import sys, json
    for s in scenarios(sys.argv[1], int(sys.argv[2]), sys.argv[3]):
        print(json.dumps(s))

package main

// Real miners solving a real node's templates.
//
// The node and every miner sit on different buses; the harness carries
// templates one way (the very slices the node published, so that memory shared
// between miners shows) and announced blocks the other way.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/levilutz/basiccoin/internal/bus"
	"github.com/levilutz/basiccoin/internal/miner"
	"github.com/levilutz/basiccoin/pkg/core"
	"github.com/levilutz/basiccoin/pkg/topic"
)

type MinedObs struct {
	Key     string    `json:"key"`
	Tmpls   []TmplObs `json:"tmpls"`
	Unknown bool      `json:"unknown"`
}

type MineRun struct {
	Scenario
	NMiners int   `json:"nminers"`
	SameKey bool  `json:"samekey"`
	Rounds  int   `json:"rounds"`
	Lead    int   `json:"lead"`   // blocks the harness mines first
	Ahead   int64 `json:"ahead"`  // how far those run ahead of the clock (0: far behind)
	Future  bool  `json:"future"` // the miners' templates need times ahead of the clock
}

type liveMiner struct {
	bus   *bus.Bus
	cands topic.Sub[bus.CandidateHeadEvent]
	key   string
}

type mineRunner struct {
	runner
	mr     *MineRun
	ms     []*liveMiner
	tmpls  []TmplObs
	sent   int
	cnt    int
	out    []*Step
	recent core.HashT
}

func (r *mineRunner) fresh(p string) string {
	r.cnt++
	return fmt.Sprintf("%s%d", p, r.cnt)
}

// names for everything in an announced block; false if something is not known
func (r *mineRunner) learn(e bus.CandidateHeadEvent) (*OfferDef, bool) {
	w := &r.sc.World
	o := &OfferDef{Head: "", Txs: []string{}, Mks: []string{}, Blks: []string{}}
	for _, t := range e.Txs {
		id := t.Hash()
		if _, ok := w.names[id]; !ok {
			d := &TxDef{Cb: t.IsCoinbase, MinB: encVal(t.MinBlock), Ins: []InDef{}, Outs: []OutDef{}}
			if len(t.Inputs) > 0 {
				return nil, false
			}
			for _, x := range t.Outputs {
				k, ok := w.pkhs[x.PublicKeyHash]
				if !ok {
					k = "?"
				}
				d.Outs = append(d.Outs, OutDef{Val: encVal(x.Value), Key: k})
			}
			n := r.fresh("mc")
			w.Txs[n] = d
			w.rtx[n] = t
			w.setId(n, id)
		}
		o.Txs = append(o.Txs, w.name(id))
	}
	for _, m := range e.Merkles {
		id := m.Hash()
		l, okl := w.names[m.LChild]
		rr, okr := w.names[m.RChild]
		if !okl || !okr {
			return nil, false
		}
		if _, ok := w.names[id]; !ok {
			n := r.fresh("mm")
			w.Mks[n] = &MkDef{L: l, R: rr}
			w.rmk[n] = m
			w.setId(n, id)
		}
		o.Mks = append(o.Mks, w.name(id))
	}
	for _, b := range e.Blocks {
		if _, ok := w.names[b.MerkleRoot]; !ok {
			return nil, false
		}
		if _, ok := w.names[b.PrevBlockId]; !ok {
			return nil, false
		}
		if _, ok := w.names[b.Hash()]; !ok {
			w.addBlk(r.fresh("mb"), b)
		}
		o.Blks = append(o.Blks, w.name(b.Hash()))
	}
	o.Head = w.name(e.Head)
	return o, true
}

func (r *mineRunner) step(st *Step) bool {
	st.Now = r.now()
	switch st.Op {
	case "mine":
		if !r.mine(st) {
			return false
		}
		r.n.offerAndWait(r.event(st.O))
	case "tx":
		err, _ := r.n.submit(r.sc.World.tx(st.T))
		r.n.offerAndWait()
		o := r.observe(r.n)
		o.Ret = "ok"
		if err != nil {
			o.Ret = "err"
		}
		st.Obs = &o
		r.out = append(r.out, st)
		return !o.Dead
	}
	o := r.observe(r.n)
	st.Obs = &o
	r.out = append(r.out, st)
	return !o.Dead
}

// carry the node's latest template to every miner
func (r *mineRunner) carry() {
	if r.n.lastT == nil {
		return
	}
	e := *r.n.lastT
	t := TmplObs{Head: r.sc.World.name(e.Head), Tg: tgtOf(e.Target), Txs: []string{}}
	for _, id := range e.TxIds {
		t.Txs = append(t.Txs, r.sc.World.name(id))
	}
	r.tmpls = append(r.tmpls, t)
	for _, m := range r.ms {
		m.bus.MinerTarget.Pub(e)
	}
	r.recent = e.Head
}

func (r *mineRunner) lastObs() *Obs {
	if len(r.out) == 0 {
		return nil
	}
	return r.out[len(r.out)-1].Obs
}

// a transaction spending something free
func (r *mineRunner) spend() {
	o := r.lastObs()
	if o == nil {
		return
	}
	type u struct {
		k   string
		tx  string
		ind int64
		v   int64
	}
	all := []u{}
	ks := append([]string{}, r.sc.Keys...)
	sort.Strings(ks)
	for _, k := range ks {
		for _, x := range o.Free[k] {
			if x[2].(int64) > 1 && x[2].(int64) < 2*capU {
				all = append(all, u{k, x[0].(string), x[1].(int64), x[2].(int64)})
			}
		}
	}
	if len(all) == 0 {
		return
	}
	sort.Slice(all, func(i, j int) bool {
		return fmt.Sprint(all[i]) < fmt.Sprint(all[j])
	})
	x := all[r.rng.Intn(len(all))]
	d := &TxDef{MinB: 0, Outs: []OutDef{}, Ins: []InDef{{Tx: x.tx, Ind: x.ind, Val: x.v, Key: x.k, How: "ok"}}}
	fee := x.v/2 + 1
	if x.v >= capU/4 {
		fee = 1000
	}
	left := x.v - 1 - r.rng.Int63n(fee)
	if x.v >= capU/4 {
		// amounts stay close to multiples of 2^62
		if r.rng.Intn(2) == 0 {
			v := r.rng.Int63n(1000)
			left -= v
			d.Outs = append(d.Outs, OutDef{Val: v, Key: r.sc.Keys[r.rng.Intn(len(r.sc.Keys))]})
		}
		d.Outs = append(d.Outs, OutDef{Val: left, Key: r.sc.Keys[r.rng.Intn(len(r.sc.Keys))]})
		left = 0
	}
	for left > 0 && len(d.Outs) < 4 {
		v := 1 + r.rng.Int63n(left)
		d.Outs = append(d.Outs, OutDef{Val: v, Key: r.sc.Keys[r.rng.Intn(len(r.sc.Keys))]})
		left -= v
	}
	n := r.fresh("x")
	r.sc.World.Txs[n] = d
	r.step(&Step{Op: "tx", Via: "bus", T: n})
}

func (r *mineRunner) run() {
	sc := r.sc
	// the harness's first blocks lie between base and base+lead*...
	base := time.Now().Unix() - 200000
	sc.World.init(base)
	sc.Opts.Miners = true
	r.n = newNode(sc.params(), true, nil)
	r.n.offerAndWait()
	ms := []*liveMiner{}
	for i := 0; i < r.mr.NMiners; i++ {
		k := sc.Keys[i%len(sc.Keys)]
		if r.mr.SameKey {
			k = sc.Keys[0]
		}
		m := &liveMiner{bus: bus.NewBus(), key: k}
		m.cands = m.bus.CandidateHead.Sub()
		real := miner.NewMiner(miner.NewParams(sc.World.pkh(k)), m.bus, r.n.inv)
		go real.Loop()
		ms = append(ms, m)
	}
	r.ms = ms
	defer func() {
		for _, m := range ms {
			m.bus.MinerTarget.Pub(bus.MinerTargetEvent{Head: core.NewHashTRand()})
		}
		sc.Steps = r.out
	}()
	// the node publishes its first template only when something happens
	o := r.observe(r.n)
	r.out = append(r.out, &Step{Op: "look", Via: "bus", Now: r.now(), Obs: &o})
	if o.Dead {
		return
	}
	for i := 0; i < r.mr.Lead; i++ {
		dt := int64(30)
		if i == 0 && r.mr.Ahead != 0 {
			dt = r.now() + r.mr.Ahead - 400
		}
		n := r.fresh("h")
		if !r.step(&Step{Op: "mine", Via: "bus", Key: sc.Keys[i%len(sc.Keys)], Ids: []string{n, "hb" + n}, Dt: dt}) {
			return
		}
	}
	if r.n.lastT == nil {
		return
	}
	for round := 0; round < r.mr.Rounds; round++ {
		for i := r.rng.Intn(4); i > 0; i-- {
			r.spend()
			if r.rng.Intn(2) == 0 {
				r.carry()
			}
		}
		r.carry()
		// what the miners announce, until one announces a block on the current head
		done := false
		stale := 0
		start := time.Now()
		for !done {
			if time.Since(start) > 60*time.Second {
				r.out = append(r.out, &Step{Op: "mined", Via: "miner", Now: r.now(), Obs: &Obs{Heads: []string{}, TxEv: []string{}},
					O: &OfferDef{Head: "?", Txs: []string{}, Mks: []string{}, Blks: []string{}}, Mn: &MinedObs{Key: "silent", Tmpls: append([]TmplObs{}, r.tmpls...)}})
				return
			}
			got := 0
			for _, m := range r.ms {
				k := 0
				for e, ok := m.cands.Pop(); ok; e, ok = m.cands.Pop() {
					got++
					k++
					cur := len(e.Blocks) == 1 && e.Blocks[0].PrevBlockId == r.n.head
					if !cur {
						if k > 1 || stale >= 3 {
							continue
						}
						stale++
					} else if done && r.rng.Intn(20) != 0 {
						continue
					}
					st := &Step{Op: "mined", Via: "miner", Now: r.now(), Mn: &MinedObs{Key: m.key, Tmpls: append([]TmplObs{}, r.tmpls...)}}
					od, ok := r.learn(e)
					if !ok {
						st.Mn.Unknown = true
						st.O = &OfferDef{Head: "?", Txs: []string{}, Mks: []string{}, Blks: []string{}}
						st.Obs = &Obs{Heads: []string{}, TxEv: []string{}}
						r.out = append(r.out, st)
						return
					}
					st.O = od
					head := r.n.head
					r.n.offerAndWait(e)
					ob := r.observe(r.n)
					st.Obs = &ob
					r.out = append(r.out, st)
					if ob.Dead {
						return
					}
					if r.n.head != head {
						done = true
					} else if cur && !done {
						return
					}
				}
			}
			if got == 0 {
				time.Sleep(5 * time.Millisecond)
			}
		}
		// only the last few templates matter from now on
		if len(r.tmpls) > 12 {
			r.tmpls = r.tmpls[len(r.tmpls)-12:]
		}
	}
}

// miner <in> <out> <parallel>
func cmdMiner(args []string) {
	runtime.GOMAXPROCS(8)
	in, err := os.Open(args[0])
	if err != nil {
		panic(err)
	}
	par := 2
	fmt.Sscan(args[2], &par)
	out, err := os.Create(args[1])
	if err != nil {
		panic(err)
	}
	defer out.Close()
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan struct{}, par)
	rd := bufio.NewReaderSize(in, 1<<20)
	for {
		line, err := rd.ReadString('\n')
		if strings.TrimSpace(line) == "" {
			if err != nil {
				break
			}
			continue
		}
		mr := &MineRun{}
		if e := json.Unmarshal([]byte(line), mr); e != nil {
			panic(e)
		}
		sem <- struct{}{}
		wg.Add(1)
		go func() {
			defer func() { <-sem; wg.Done() }()
			r := &mineRunner{mr: mr}
			r.sc = &mr.Scenario
			r.rng = rand.New(rand.NewSource(mr.Seed))
			r.run()
			for n := range r.sc.World.Blks {
				r.sc.World.Blks[n].T = 0
			}
			raw, e := json.Marshal(r.sc)
			if e != nil {
				panic(e)
			}
			mu.Lock()
			out.Write(append(raw, '\n'))
			mu.Unlock()
		}()
		if err != nil {
			break
		}
	}
	wg.Wait()
}

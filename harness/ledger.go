package main

// Executes ledger scenarios against real nodes and records what they show.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/levilutz/basiccoin/internal/bus"
	"github.com/levilutz/basiccoin/internal/peerfactory"
	"github.com/levilutz/basiccoin/pkg/core"
	"github.com/levilutz/basiccoin/pkg/topic"
)

type Step struct {
	Op  string    `json:"op"`
	Via string    `json:"via"`
	T   string    `json:"t,omitempty"`
	O   *OfferDef `json:"o,omitempty"`
	Key string    `json:"key,omitempty"`
	Ids []string  `json:"ids,omitempty"` // names for entities made by the harness
	Dt  int64     `json:"dt,omitempty"`
	Max int       `json:"max,omitempty"`
	Now int64     `json:"now"`
	Obs *Obs      `json:"obs,omitempty"`
	// crash
	Fo   *OfferDef `json:"fo,omitempty"`
	Alts []Alt     `json:"alts,omitempty"`
	// conversation
	Stim []Stim   `json:"stim,omitempty"`
	Toks *[]Tok   `json:"toks,omitempty"`
	Conv *ConvObs `json:"conv,omitempty"`
	Seg  string   `json:"seg,omitempty"`
	Addr string   `json:"addr,omitempty"`
	Att  *Attack  `json:"att,omitempty"`
	// the wallet program
	Ask []*CliAsk `json:"ask,omitempty"`
	Pay *CliPay   `json:"pay,omitempty"`
	// mined
	Mn *MinedObs `json:"mn,omitempty"`
}

type Alt struct {
	At     string `json:"at"`
	Last   bool   `json:"last"`
	Obs    Obs    `json:"obs"`
	Follow string `json:"follow,omitempty"`
}

type RichObs struct {
	N int64            `json:"n"`
	M map[string]int64 `json:"m"`
}

type TmplObs struct {
	Head string   `json:"head"`
	Tg   Tgt      `json:"tg"`
	Txs  []string `json:"txs"`
}

type UtxoObs [][3]interface{}

type Obs struct {
	Dead   bool               `json:"dead"`
	Why    string             `json:"why,omitempty"`
	Ret    string             `json:"ret"`
	Head   string             `json:"head"`
	Heads  []string           `json:"heads"`
	TxEv   []string           `json:"txev"`
	Height *int64             `json:"height,omitempty"`
	Bal    map[string]int64   `json:"bal,omitempty"`
	Utxo   map[string]UtxoObs `json:"utxo,omitempty"`
	Free   map[string]UtxoObs `json:"free,omitempty"`
	Asked  []string           `json:"asked,omitempty"`
	Conf   *map[string]int64  `json:"conf,omitempty"`
	Inc    *map[string]string `json:"inc,omitempty"`
	Rich   []RichObs          `json:"rich,omitempty"`
	Tmpl   *TmplObs           `json:"tmpl,omitempty"`
	Miners bool               `json:"miners,omitempty"`
	Ktx    *[]string          `json:"ktx,omitempty"`
	Kmk    *[]string          `json:"kmk,omitempty"`
	Kbl    *[]string          `json:"kbl,omitempty"`
	Reads  []ReadObs          `json:"reads,omitempty"`
	Http   []string           `json:"http,omitempty"`
}

type Scenario struct {
	Name    string `json:"name"`
	Profile string `json:"profile"`
	World
	Opts struct {
		Miners bool `json:"miners"`
		Save   bool `json:"save"`
		Rest   bool `json:"rest"`
		// a peer connects: "i" the node opens the connection, "n" the peer does
		Peer string `json:"peer,omitempty"`
	} `json:"opts"`
	Steps []*Step `json:"steps"`
	Seed  int64   `json:"seed"`
	Note  string  `json:"note,omitempty"`
}

type runner struct {
	sc      *Scenario
	n       *Node
	dir     string
	saveDir *string
	rng     *rand.Rand
	fw      *fileWatch
	tree0   map[string][]byte // the save dir before the last step
	rest    *restObs
	front   *cliFront
	cliBin  string
	pf      *peerfactory.PeerFactory
	ep      *epeer
	addr    string
	epAddr  string
	// a silent attacker
	pend      *epeer
	pendSince time.Time
	pendEvs   topic.Sub[bus.PeerClosingEvent]
}

func (r *runner) now() int64 { return time.Now().Unix() - r.sc.base }

func (r *runner) utxoObs(m map[core.Utxo]core.HashT) map[string]UtxoObs {
	out := map[string]UtxoObs{}
	for _, k := range r.sc.Keys {
		out[k] = UtxoObs{}
	}
	for u, pkh := range m {
		k, ok := r.sc.pkhs[pkh]
		if !ok {
			k = "?"
		}
		out[k] = append(out[k], [3]interface{}{r.sc.name(u.TxId), int64(u.Ind), encVal(u.Value)})
	}
	return out
}

// everything a user can see of node n
func (r *runner) observe(n *Node) (o Obs) {
	w := &r.sc.World
	o.Heads = []string{}
	o.TxEv = []string{}
	defer func() {
		if x := recover(); x != nil {
			n.why.Store(fmt.Sprint(x))
			n.dead.Store(true)
		}
		o.Dead = n.dead.Load()
		if o.Dead {
			o.Why, _ = n.why.Load().(string)
		}
	}()
	for e, ok := n.heads.Pop(); ok; e, ok = n.heads.Pop() {
		n.head = e.Head
		o.Heads = append(o.Heads, w.name(e.Head))
	}
	o.Head = w.name(n.head)
	for e, ok := n.txs.Pop(); ok; e, ok = n.txs.Pop() {
		o.TxEv = append(o.TxEv, w.name(e.TxId))
	}
	for e, ok := n.targets.Pop(); ok; e, ok = n.targets.Pop() {
		ev := e
		n.lastT = &ev
		t := TmplObs{Head: w.name(e.Head), Tg: tgtOf(e.Target), Txs: []string{}}
		for _, id := range e.TxIds {
			t.Txs = append(t.Txs, w.name(id))
		}
		o.Tmpl = &t
	}
	o.Miners = r.sc.Opts.Miners
	if n.dead.Load() {
		return
	}
	pkhs := []core.HashT{}
	for _, k := range r.sc.Keys {
		pkhs = append(pkhs, w.keys[k].pkh)
	}
	txIds := []core.HashT{}
	for t := range w.rtx {
		txIds = append(txIds, w.ids[t])
		o.Asked = append(o.Asked, t)
	}
	r.readBack(n, &o)
	if r.rest != nil && r.rest.n == n {
		r.rest.observe(r, &o, pkhs, txIds)
		o.Http = append([]string{}, r.rest.bad...)
		r.rest.bad = nil
	} else {
		hc := make(chan uint64)
		bc := make(chan map[core.HashT]uint64)
		uc := make(chan map[core.Utxo]core.HashT)
		fc := make(chan map[core.Utxo]core.HashT)
		cc := make(chan map[core.HashT]uint64)
		ic := make(chan map[core.HashT]core.HashT)
		n.bus.HeadHeight.Pub(bus.HeadHeightQuery{Ret: hc})
		n.bus.PkhBalance.Pub(bus.PkhBalanceQuery{Ret: bc, PublicKeyHashes: pkhs})
		n.bus.PkhUtxos.Pub(bus.PkhUtxosQuery{Ret: uc, PublicKeyHashes: pkhs})
		n.bus.PkhUtxos.Pub(bus.PkhUtxosQuery{Ret: fc, PublicKeyHashes: pkhs, ExcludeMempool: true})
		n.bus.TxConfirms.Pub(bus.TxConfirmsQuery{Ret: cc, TxIds: txIds})
		n.bus.TxIncludedBlock.Pub(bus.TxIncludedBlockQuery{Ret: ic, TxIds: txIds})
		richN := []uint64{0, 1, 2, 3, 100, 1 << 63, 1<<64 - 1}
		rn := richN[r.rng.Intn(len(richN))]
		rc := make(chan map[core.HashT]uint64)
		n.bus.RichList.Pub(bus.RichListQuery{Ret: rc, MaxLen: rn})
		var ok bool
		if h, k := ask(n, hc); k {
			hh := int64(h)
			o.Height = &hh
		}
		b, ok := ask(n, bc)
		if !ok {
			return
		}
		o.Bal = r.balObs(b)
		u, ok := ask(n, uc)
		if !ok {
			return
		}
		o.Utxo = r.utxoObs(u)
		f, ok := ask(n, fc)
		if !ok {
			return
		}
		o.Free = r.utxoObs(f)
		c, ok := ask(n, cc)
		if !ok {
			return
		}
		r.confObs(&o, c)
		ib, ok := ask(n, ic)
		if !ok {
			return
		}
		r.incObs(&o, ib)
		rl, ok := ask(n, rc)
		if !ok {
			return
		}
		r.richObs(&o, rn, rl)
	}
	ktx, kmk, kbl := []string{}, []string{}, []string{"0"}
	for t := range w.Txs {
		if id, ok := w.ids[t]; ok && n.inv.HasTx(id) {
			ktx = append(ktx, t)
		}
	}
	for t := range w.Mks {
		if id, ok := w.ids[t]; ok && n.inv.HasMerkle(id) {
			kmk = append(kmk, t)
		}
	}
	for t := range w.Blks {
		if id, ok := w.ids[t]; ok && n.inv.HasBlock(id) {
			kbl = append(kbl, t)
		}
	}
	sort.Strings(ktx)
	sort.Strings(kmk)
	sort.Strings(kbl)
	o.Ktx, o.Kmk, o.Kbl = &ktx, &kmk, &kbl
	return
}

func (r *runner) balObs(b map[core.HashT]uint64) map[string]int64 {
	out := map[string]int64{}
	for p, v := range b {
		k, known := r.sc.pkhs[p]
		if !known {
			k = "?"
		}
		out[k] = encVal(v)
	}
	return out
}
func (r *runner) confObs(o *Obs, c map[core.HashT]uint64) {
	conf := map[string]int64{}
	for t, v := range c {
		conf[r.sc.name(t)] = int64(v)
	}
	o.Conf = &conf
}
func (r *runner) incObs(o *Obs, ib map[core.HashT]core.HashT) {
	inc := map[string]string{}
	for t, v := range ib {
		inc[r.sc.name(t)] = r.sc.name(v)
	}
	o.Inc = &inc
}
func (r *runner) richObs(o *Obs, rn uint64, rl map[core.HashT]uint64) {
	n64 := int64(1000)
	if rn < 1000 {
		n64 = int64(rn)
	}
	rr := RichObs{N: n64, M: map[string]int64{}}
	for p, v := range rl {
		k, known := r.sc.pkhs[p]
		if !known {
			k = "?"
		}
		rr.M[k] = encVal(v)
	}
	o.Rich = append(o.Rich, rr)
}

func (r *runner) event(o *OfferDef) bus.CandidateHeadEvent {
	w := &r.sc.World
	e := bus.CandidateHeadEvent{Head: w.id(o.Head)}
	for _, t := range o.Txs {
		e.Txs = append(e.Txs, copyTx(w.tx(t)))
	}
	for _, m := range o.Mks {
		e.Merkles = append(e.Merkles, w.mk(m))
	}
	for _, b := range o.Blks {
		e.Blocks = append(e.Blocks, w.blk(b))
	}
	return e
}

// turn a "mine" step into an offer of a block on the node's last template
func (r *runner) mine(st *Step) bool {
	w := &r.sc.World
	if r.n.lastT == nil || len(st.Ids) < 2 {
		return false
	}
	t := r.n.lastT
	txs := append([]core.HashT{}, t.TxIds...)
	fees := int64(0)
	for _, id := range txs {
		d, ok := w.Txs[w.name(id)]
		if !ok {
			return false
		}
		for _, i := range d.Ins {
			fees += i.Val
		}
		for _, o := range d.Outs {
			fees -= o.Val
		}
	}
	prev := w.name(t.Head)
	h := int64(0)
	for b := prev; b != "0"; b = w.Blks[b].Prev {
		if _, ok := w.Blks[b]; !ok {
			return false
		}
		h++
	}
	cbDef := TxDef{Cb: true, MinB: h + 1, Ins: []InDef{}, Outs: []OutDef{{Val: w.P.Reward + fees, Key: st.Key}}}
	// an identical coinbase may exist already
	cb := ""
	for n, d := range w.Txs {
		if d.Cb && d.MinB == cbDef.MinB && len(d.Outs) == 1 && d.Outs[0] == cbDef.Outs[0] && len(d.Ins) == 0 {
			cb = n
		}
	}
	if cb == "" {
		cb = st.Ids[0] + "c"
		w.Txs[cb] = &cbDef
	}
	ids := []string{cb}
	for _, id := range txs {
		ids = append(ids, w.name(id))
	}
	// balanced tree over ids, own construction
	mks := []string{}
	layer := ids
	first := true
	for first || len(layer) > 1 {
		first = false
		next := []string{}
		for i := 0; i < len(layer); i += 2 {
			l, rr := layer[i], layer[i]
			if i+1 < len(layer) {
				rr = layer[i+1]
			}
			name := ""
			for n, d := range w.Mks {
				if d.L == l && d.R == rr {
					name = n
				}
			}
			if name == "" {
				name = fmt.Sprintf("%sm%d", st.Ids[0], len(mks))
				w.Mks[name] = &MkDef{L: l, R: rr}
			}
			mks = append(mks, name)
			next = append(next, name)
		}
		layer = next
	}
	// time: just above the median of the last five, or later
	times := []int64{}
	for b := prev; b != "0" && len(times) < 5; b = w.Blks[b].Prev {
		times = append(times, w.Blks[b].Time)
	}
	tm := st.Dt
	if len(times) > 0 {
		mx := times[0]
		for _, x := range times {
			if x > mx {
				mx = x
			}
		}
		tm = mx + 1 + st.Dt
	}
	w.all()
	b := core.Block{PrevBlockId: t.Head, MerkleRoot: w.id(layer[0]), Target: t.Target,
		Noise: core.NewHashTRand(), Nonce: firstNonce(), MinedTime: uint64(w.base + tm)}
	if tgtOf(b.Target).W > 1<<16 {
		return false // would take too long
	}
	for !lessInt(b.Hash(), b.Target) {
		b.Nonce++
	}
	w.addBlk(st.Ids[1], b)
	st.Op, st.Via = "offer", "tmpl"
	st.O = &OfferDef{Head: st.Ids[1], Txs: []string{cb}, Mks: mks, Blks: []string{st.Ids[1]}}
	return true
}

func (r *runner) run() {
	sc := r.sc
	base := time.Now().Unix() - 200000
	sc.World.init(base)
	sc.World.all()
	sc.World.limits()
	if sc.Opts.Save {
		d := filepath.Join(r.dir, sc.Name)
		os.MkdirAll(d, 0o755)
		r.saveDir = &d
		defer os.RemoveAll(d)
	}
	var ro *restObs
	if sc.Opts.Rest {
		ro = &restObs{}
	}
	r.n = newNode(sc.params(), sc.Opts.Miners, r.saveDir)
	if ro != nil {
		ro.start(r.n)
		r.rest = ro
	}
	if sc.Opts.Peer != "" {
		r.conversant(sc.Opts.Peer == "n")
	}
	r.n.offerAndWait()
	defer func() {
		if r.front != nil {
			r.front.l.Close()
		}
	}()
	out := []*Step{}
	defer func() { sc.Steps = out }()
	for si, st := range sc.Steps {
		st.Now = r.now()
		if st.Op == "mine" {
			if !r.mine(st) {
				continue
			}
		}
		nextCrash := si+1 < len(sc.Steps) && sc.Steps[si+1].Op == "crash"
		if nextCrash && r.saveDir != nil {
			r.snapshot()
		}
		switch st.Op {
		case "tx":
			var err error
			var ok bool
			if r.rest != nil {
				err, ok = r.rest.submit(r, copyTx(sc.World.tx(st.T)), sc.World.id(st.T))
			} else {
				err, ok = r.n.submit(copyTx(sc.World.tx(st.T)))
			}
			ret := "ok"
			if err != nil {
				ret = "err"
			}
			if ok {
				r.n.offerAndWait()
			}
			o := r.observe(r.n)
			o.Ret = ret
			st.Obs = &o
		case "offer":
			r.n.offerAndWait(r.event(st.O))
			o := r.observe(r.n)
			st.Obs = &o
		case "look":
			o := r.observe(r.n)
			st.Obs = &o
		case "restart":
			if r.saveDir == nil {
				continue
			}
			r.n = newNode(sc.params(), sc.Opts.Miners, r.saveDir)
			if !r.n.dead.Load() {
				r.n.offerAndWait()
				if r.rest != nil {
					r.rest = &restObs{}
					r.rest.start(r.n)
				}
			}
			o := r.observe(r.n)
			st.Obs = &o
		case "crash":
			if r.saveDir == nil || r.fw == nil {
				continue
			}
			r.crash(st)
		case "connect", "conv":
			st.Addr = r.addr
			r.conv(st)
			if st.Conv.Bad != "" {
				out = append(out, st)
				return
			}
		case "attack":
			st.Addr = r.addr
			r.attack(st)
		case "attend":
			r.attend(st)
		case "ask":
			for _, a := range st.Ask {
				r.cliAsk(a)
			}
			o := r.observe(r.n)
			st.Obs = &o
		case "pay":
			r.cliPay(st)
			if !r.n.dead.Load() {
				r.n.offerAndWait()
			}
			o := r.observe(r.n)
			st.Obs = &o
		default:
			panic("script error: op " + st.Op)
		}
		out = append(out, st)
		if st.Obs != nil && st.Obs.Dead {
			break
		}
	}
	if r.ep != nil && r.ep.wire != nil && r.ep.c != nil {
		r.ep.c.Close()
	}
}

// ledger <in.ndjson> <out.ndjson> <scratch dir> <parallel>
func cmdLedger(args []string) {
	in, err := os.Open(args[0])
	if err != nil {
		panic(err)
	}
	par := 64
	if len(args) > 3 {
		fmt.Sscan(args[3], &par)
	}
	bin := ""
	if len(args) > 4 {
		bin = args[4]
	}
	rd := bufio.NewReaderSize(in, 1<<20)
	var mu sync.Mutex
	out, err := os.Create(args[1])
	if err != nil {
		panic(err)
	}
	defer out.Close()
	sem := make(chan struct{}, par)
	var wg sync.WaitGroup
	for {
		line, err := rd.ReadString('\n')
		if strings.TrimSpace(line) == "" {
			if err != nil {
				break
			}
			continue
		}
		sc := &Scenario{}
		if e := json.Unmarshal([]byte(line), sc); e != nil {
			panic(e)
		}
		sem <- struct{}{}
		wg.Add(1)
		go func() {
			defer func() { <-sem; wg.Done() }()
			r := &runner{sc: sc, dir: args[2], cliBin: bin, rng: rand.New(rand.NewSource(sc.Seed))}
			r.run()
			for n := range sc.World.Blks {
				sc.World.Blks[n].T = 0
				sc.World.Blks[n].Bad = false
			}
			raw, e := json.Marshal(sc)
			if e != nil {
				panic(e)
			}
			mu.Lock()
			out.Write(append(raw, '\n'))
			mu.Unlock()
		}()
		if err != nil {
			break
		}
	}
	wg.Wait()
}

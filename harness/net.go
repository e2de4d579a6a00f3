package main

// A network of real nodes in one process: every node has its own ledger and
// keeper of peers, every connection goes through a relay that cuts the stream
// into pieces and delays them.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"net"
	"os"
	"sync"
	"time"

	"github.com/levilutz/basiccoin/internal/bus"
	"github.com/levilutz/basiccoin/internal/peerfactory"
	"github.com/levilutz/basiccoin/pkg/core"
	"github.com/levilutz/basiccoin/pkg/topic"
)

type NAct struct {
	A     string    `json:"a"` // link, cut, mine, tx
	N     int       `json:"n"`
	M     int       `json:"m"`
	Late  int       `json:"late"` // ms after the start of the step
	O     *OfferDef `json:"o,omitempty"`
	T     string    `json:"t"`
	Ret   string    `json:"ret"`
	Knows bool      `json:"knows"` // (tx) the node had it before
}
type NStep struct {
	Acts []*NAct `json:"acts"`
	Now  int64   `json:"now"`
	// what was seen when the network had come to rest
	Settled bool     `json:"settled"`
	Links   [][2]int `json:"links"`
	Dropped [][2]int `json:"dropped"` // connections that ended by themselves
	Failed  [][2]int `json:"failed"`  // that were not made
	Obs     []*Obs   `json:"obs"`
	Took    int      `json:"took"` // ms
}
type NScen struct {
	World
	Name  string   `json:"name"`
	N     int      `json:"n"`
	Seg   bool     `json:"seg"`
	Steps []*NStep `json:"steps"`
	Seed  int64    `json:"seed"`
	Opts  struct {
		Rest bool `json:"rest"`
	} `json:"opts"`
}

type nlink struct {
	a, b  int
	mu    sync.Mutex
	conns []net.Conn
	cut   bool
	l     net.Listener
}

type nnode struct {
	*Node
	addr  string
	rid   string
	clo   topic.Sub[bus.PeerClosingEvent]
	ann   topic.Sub[bus.ShouldAnnounceAddrEvent]
	hs    topic.Sub[bus.ValidatedHeadEvent]
	ts    topic.Sub[bus.ValidatedTxEvent]
	cur   core.HashT
	annN  map[string]int
	cloN  map[string]int
	evs   int
	links map[int]bool
}

type nrun struct {
	sc    *NScen
	r     *runner
	nodes []*nnode
	mu    sync.Mutex
	live  map[[2]int]*nlink
	// before the step
	before map[[2]int]*nlink
	knew   map[*NAct]map[int]bool
	rng    *rand.Rand
	rmu    sync.Mutex
}

func (x *nrun) rnd(n int) int {
	x.rmu.Lock()
	defer x.rmu.Unlock()
	return x.rng.Intn(n)
}

func (x *nrun) poll() {
	x.mu.Lock()
	defer x.mu.Unlock()
	for _, n := range x.nodes {
		for e, ok := n.hs.Pop(); ok; e, ok = n.hs.Pop() {
			n.cur = e.Head
			n.evs++
		}
		for _, ok := n.ts.Pop(); ok; _, ok = n.ts.Pop() {
			n.evs++
		}
		for e, ok := n.clo.Pop(); ok; e, ok = n.clo.Pop() {
			n.cloN[e.PeerRuntimeId]++
			n.evs++
		}
		for e, ok := n.ann.Pop(); ok; e, ok = n.ann.Pop() {
			n.annN[e.TargetRuntimeId]++
			n.evs++
		}
	}
}

func (x *nrun) until(d time.Duration, f func() bool) bool {
	for end := time.Now().Add(d); ; time.Sleep(2 * time.Millisecond) {
		x.poll()
		x.mu.Lock()
		ok := f()
		x.mu.Unlock()
		if ok {
			return true
		}
		if time.Now().After(end) {
			return false
		}
	}
}

// pass on what one side says
func (x *nrun) pump(l *nlink, from, to net.Conn) {
	defer from.Close()
	defer to.Close()
	b := make([]byte, 4096)
	for {
		n, err := from.Read(b)
		for p := b[:n]; len(p) > 0; {
			k := len(p)
			if x.sc.Seg && k > 1 {
				switch x.rnd(4) {
				case 0:
					k = 1 + x.rnd(k)
				case 1:
					k = 1
				}
				if x.rnd(6) == 0 {
					time.Sleep(time.Duration(x.rnd(20)) * time.Millisecond)
				}
			}
			if _, err := to.Write(p[:k]); err != nil {
				return
			}
			p = p[k:]
		}
		if err != nil {
			return
		}
	}
}

func (x *nrun) link(a, b int) bool {
	na, nb := x.nodes[a-1], x.nodes[b-1]
	l, err := net.Listen("tcp", loopback()+":0")
	if err != nil {
		panic("script error: " + err.Error())
	}
	k := &nlink{a: a, b: b, l: l}
	go func() {
		c, err := l.Accept()
		if err != nil {
			return
		}
		d, err := net.Dial("tcp", nb.addr)
		if err != nil {
			c.Close()
			return
		}
		k.mu.Lock()
		k.conns = []net.Conn{c, d}
		if k.cut {
			c.Close()
			d.Close()
		}
		k.mu.Unlock()
		go x.pump(k, c, d)
		x.pump(k, d, c)
	}()
	x.poll()
	x.mu.Lock()
	wa, wb := na.annN[nb.rid]+1, nb.annN[na.rid]+1
	x.mu.Unlock()
	na.bus.PeersReceived.Pub(bus.PeersReceivedEvent{PeerAddrs: map[string]string{nb.rid: l.Addr().String()}})
	ok := x.until(20*time.Second, func() bool { return na.annN[nb.rid] >= wa && nb.annN[na.rid] >= wb })
	l.Close()
	if ok {
		x.mu.Lock()
		x.live[[2]int{a, b}] = k
		x.mu.Unlock()
	}
	return ok
}

func (x *nrun) cut(a, b int) bool {
	na, nb := x.nodes[a-1], x.nodes[b-1]
	x.poll()
	x.mu.Lock()
	k := x.live[[2]int{a, b}]
	if k == nil {
		k = x.live[[2]int{b, a}]
	}
	if k == nil {
		x.mu.Unlock()
		return true
	}
	delete(x.live, [2]int{k.a, k.b})
	wa, wb := na.cloN[nb.rid]+1, nb.cloN[na.rid]+1
	x.mu.Unlock()
	k.mu.Lock()
	k.cut = true
	for _, c := range k.conns {
		c.Close()
	}
	k.mu.Unlock()
	ok := x.until(20*time.Second, func() bool { return na.cloN[nb.rid] >= wa && nb.cloN[na.rid] >= wb })
	// their keepers hear of it a little later
	time.Sleep(20 * time.Millisecond)
	return ok
}

// connections that are up: both ends went up more often than they closed
func (x *nrun) links() (up [][2]int, dropped [][2]int) {
	x.poll()
	x.mu.Lock()
	defer x.mu.Unlock()
	up, dropped = [][2]int{}, [][2]int{}
	for k := range x.live {
		na, nb := x.nodes[k[0]-1], x.nodes[k[1]-1]
		if na.annN[nb.rid] > na.cloN[nb.rid] && nb.annN[na.rid] > nb.cloN[na.rid] {
			up = append(up, k)
		} else {
			dropped = append(dropped, k)
		}
	}
	return
}

func (x *nrun) comps() [][]int {
	id := make([]int, len(x.nodes)+1)
	for i := range id {
		id[i] = i
	}
	for range x.nodes {
		for k := range x.live {
			a, b := k[0], k[1]
			if id[a] < id[b] {
				id[b] = id[a]
			} else {
				id[a] = id[b]
			}
		}
	}
	m := map[int][]int{}
	for i := 1; i <= len(x.nodes); i++ {
		m[id[i]] = append(m[id[i]], i)
	}
	out := [][]int{}
	for _, c := range m {
		out = append(out, c)
	}
	return out
}

// who must hear of a transaction: over connections that were up all along,
// through nodes that knew what it spends
func (x *nrun) reach(t *NAct) map[int]bool {
	got := map[int]bool{t.N: true}
	for range x.nodes {
		for k := range x.before {
			if l := x.live[k]; l == nil || l != x.before[k] {
				continue
			}
			for _, e := range [][2]int{{k[0], k[1]}, {k[1], k[0]}} {
				if got[e[0]] && x.knew[t][e[1]] {
					got[e[1]] = true
				}
			}
		}
	}
	return got
}

// everything that must arrive has arrived
func (x *nrun) atRest(st *NStep) bool {
	for _, c := range x.comps() {
		for _, i := range c[1:] {
			a, b := x.nodes[c[0]-1], x.nodes[i-1]
			if !a.inv.HasBlock(a.cur) || !b.inv.HasBlock(b.cur) ||
				a.inv.GetBlockTotalWork(a.cur) != b.inv.GetBlockTotalWork(b.cur) {
				return false
			}
		}
	}
	for _, t := range st.Acts {
		if t.A != "tx" || t.Ret != "ok" || t.Knows {
			continue
		}
		for i := range x.reach(t) {
			if !x.nodes[i-1].inv.HasTx(x.sc.id(t.T)) {
				return false
			}
		}
	}
	return true
}

func (x *nrun) total() int {
	x.poll()
	x.mu.Lock()
	defer x.mu.Unlock()
	t := 0
	for _, n := range x.nodes {
		t += n.evs
	}
	return t
}

func (x *nrun) step(st *NStep) {
	st.Now = x.r.now()
	st.Failed = [][2]int{}
	x.before, x.knew = map[[2]int]*nlink{}, map[*NAct]map[int]bool{}
	for k, l := range x.live {
		x.before[k] = l
	}
	for _, a := range st.Acts {
		if a.A != "tx" {
			continue
		}
		x.knew[a] = map[int]bool{}
		for i, n := range x.nodes {
			ok := true
			for _, in := range x.sc.tx(a.T).Inputs {
				ok = ok && n.inv.HasTx(in.Utxo.TxId)
			}
			x.knew[a][i+1] = ok
		}
	}
	var wg sync.WaitGroup
	t0 := time.Now()
	for _, a := range st.Acts {
		a := a
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(time.Duration(a.Late) * time.Millisecond)
			ok := true
			n := x.nodes[a.N-1]
			switch a.A {
			case "link":
				ok = x.link(a.N, a.M)
			case "cut":
				ok = x.cut(a.N, a.M)
			case "mine":
				n.offerAndWait(x.r.event(a.O))
			case "tx":
				a.Knows = n.inv.HasTx(x.sc.id(a.T))
				err, got := n.submit(copyTx(x.sc.tx(a.T)))
				if got {
					a.Ret = "ok"
					if err != nil {
						a.Ret = "err"
					}
				}
			}
			if !ok {
				x.mu.Lock()
				st.Failed = append(st.Failed, [2]int{a.N, a.M})
				x.mu.Unlock()
			}
		}()
	}
	wg.Wait()
	st.Settled = x.until(20*time.Second, func() bool { return x.atRest(st) })
	// nothing more comes
	for i, last := 0, -1; i < 100; i++ {
		if t := x.total(); t == last && i > 2 {
			break
		} else {
			last = t
		}
		time.Sleep(120 * time.Millisecond)
	}
	st.Took = int(time.Since(t0).Milliseconds())
	for _, n := range x.nodes {
		o := x.r.observe(n.Node)
		st.Obs = append(st.Obs, &o)
	}
	st.Links, st.Dropped = x.links()
}

func runNet(sc *NScen) {
	sc.World.init(time.Now().Unix() - 200000)
	sc.World.all()
	sc.World.limits()
	rs := &Scenario{Name: sc.Name, World: sc.World, Steps: nil, Seed: sc.Seed}
	x := &nrun{sc: sc, rng: rand.New(rand.NewSource(sc.Seed)), live: map[[2]int]*nlink{}}
	x.r = &runner{sc: rs, rng: rand.New(rand.NewSource(sc.Seed + 1))}
	for i := 0; i < sc.N; i++ {
		n := &nnode{Node: newNode(sc.params(), false, nil), addr: loopback() + ":21720", annN: map[string]int{}, cloN: map[string]int{}}
		n.rid = fmt.Sprintf("node-%s-%d", sc.Name, i+1)
		n.clo, n.ann = n.bus.PeerClosing.Sub(), n.bus.ShouldAnnounceAddr.Sub()
		n.hs, n.ts = n.bus.ValidatedHead.Sub(), n.bus.ValidatedTx.Sub()
		pf := peerfactory.NewPeerFactory(peerfactory.Params{Listen: true, LocalAddr: n.addr, MinPeers: 1, MaxPeers: 16,
			RuntimeId: n.rid, SeekNewPeersFreq: 3 * time.Hour}, n.bus, n.inv)
		n.offerAndWait()
		go pf.Loop()
		x.nodes = append(x.nodes, n)
	}
	for _, n := range x.nodes {
		if c := dial(n.addr); c != nil {
			c.Close()
		}
	}
	for i, st := range sc.Steps {
		x.step(st)
		if !st.Settled || len(st.Failed) > 0 || len(st.Dropped) > 0 {
			sc.Steps = sc.Steps[:i+1]
			break
		}
	}
	for k := range x.live {
		x.cut(k[0], k[1])
	}
}

// net <in> <out> <parallel>
func cmdNet(args []string) {
	in, err := os.Open(args[0])
	if err != nil {
		panic(err)
	}
	defer in.Close()
	out, err := os.Create(args[1])
	if err != nil {
		panic(err)
	}
	defer out.Close()
	par := 16
	fmt.Sscan(args[2], &par)
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan struct{}, par)
	s := bufio.NewScanner(in)
	s.Buffer(nil, 1<<28)
	for s.Scan() {
		sc := &NScen{}
		if err := json.Unmarshal(s.Bytes(), sc); err != nil {
			panic(err)
		}
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			runNet(sc)
			for n := range sc.World.Blks {
				sc.World.Blks[n].T = 0
				sc.World.Blks[n].Bad = false
			}
			b, _ := json.Marshal(sc)
			mu.Lock()
			out.Write(append(b, '\n'))
			mu.Unlock()
		}()
	}
	wg.Wait()
}

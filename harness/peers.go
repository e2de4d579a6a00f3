package main

// The set of peers a node keeps: a real PeerFactory (with its listener,
// dialling and connections) among scripted peers that connect, announce
// addresses, ask for them, tell them and leave, one after another or all at
// once.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"net"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/levilutz/basiccoin/internal/bus"
	"github.com/levilutz/basiccoin/internal/peerfactory"
	"github.com/levilutz/basiccoin/pkg/core"
	"github.com/levilutz/basiccoin/pkg/topic"
)

type PHost struct {
	Id   string     `json:"id"`
	Mode string     `json:"mode"` // ok, none (nothing listens), own (the node's own address)
	Book [][]string `json:"book"` // what a peer reached there answers when asked for addresses
}

type PAct struct {
	A    string     `json:"a"` // connect, leave, announce, ask, tell, straggle
	P    string     `json:"p"`
	Id   string     `json:"id"`
	How  string     `json:"how"`
	S    string     `json:"s"`
	M    [][]string `json:"m"`
	Late int        `json:"late"` // ms before it starts
	// what was seen
	Res    string     `json:"res"`
	Got    [][]string `json:"got"`
	Closed bool       `json:"closed"`
}

type PStep struct {
	Acts  []*PAct `json:"acts"`
	Seek  int     `json:"seek"`  // wait until the node has this many peers
	Dials []*PAct `json:"dials"` // connections the node opened
	Size  int     `json:"size"`  // how many scripted peers think they are connected
	Own   string  `json:"own"`   // the address the node announced to the peers accepted in this step
}

type PScen struct {
	Name  string            `json:"name"`
	Max   int               `json:"max"`
	Seek  int               `json:"seek"` // ms between two attempts to find peers; 0: never
	Self  string            `json:"self"`
	Seeds []string          `json:"seeds"`
	Hosts map[string]*PHost `json:"hosts"`
	Steps []*PStep          `json:"steps"`
	Seed  int64             `json:"seed"`
	Bad   string            `json:"bad"`
}

type fpeer struct {
	*wire
	s        *pset
	name, id string
	init     bool // it opened the connection
	book     [][]string
	work     chan func()
	pending  []func()
	mu       sync.Mutex
	ended    string
	own      string
	maps     [][][]string
	gone     chan struct{}
	served   bool
}

type pset struct {
	sc    *PScen
	n     *Node
	addr  string
	addrs map[string]string // host -> address
	names map[string]string // address -> host
	mu    sync.Mutex
	peers map[string]*fpeer
	dials []*PAct
	tails sync.WaitGroup
	stop  chan struct{}
	ls    []net.Listener
	sent  chan struct{}
	sAddr string
	ann   topic.Sub[bus.PeerAnnouncedAddrEvent]
	clo   topic.Sub[bus.PeerClosingEvent]
	rcv   topic.Sub[bus.PeersReceivedEvent]
	annN  map[string]int
	cloN  map[string]int
	rcvN  int
}

// counts of the events seen so far
func (s *pset) poll() {
	s.mu.Lock()
	defer s.mu.Unlock()
	for v, ok := s.ann.Pop(); ok; v, ok = s.ann.Pop() {
		s.annN[v.PeerRuntimeId]++
	}
	for v, ok := s.clo.Pop(); ok; v, ok = s.clo.Pop() {
		s.cloN[v.PeerRuntimeId]++
	}
	for _, ok := s.rcv.Pop(); ok; _, ok = s.rcv.Pop() {
		s.rcvN++
	}
}

func (s *pset) until(d time.Duration, f func() bool) bool {
	for end := time.Now().Add(d); ; time.Sleep(time.Millisecond) {
		s.poll()
		s.mu.Lock()
		ok := f()
		s.mu.Unlock()
		if ok {
			return true
		}
		if time.Now().After(end) {
			return false
		}
	}
}

// The node's keeper of peers has handled what was there before: it is idle
// between the attempts to reach the sentinel, which are made one after another.
func (s *pset) barrier() {
	for i := 0; i < 3 && s.sc.Bad == ""; i++ {
		s.n.bus.PeersReceived.Pub(bus.PeersReceivedEvent{PeerAddrs: map[string]string{"sentinel": s.sAddr}})
		select {
		case <-s.sent:
		case <-time.After(20 * time.Second):
			s.sc.Bad = "an address is not tried"
		}
	}
}

func (s *pset) out(a string) string {
	if n, ok := s.names[a]; ok {
		return n
	}
	return a
}
func (s *pset) in(n string) string {
	if a, ok := s.addrs[n]; ok {
		return a
	}
	return n
}
func (s *pset) outMap(m [][]string) [][]string {
	r := [][]string{}
	for _, p := range m {
		r = append(r, []string{p[0], s.out(p[1])})
	}
	sort.Slice(r, func(i, j int) bool { return r[i][0] < r[j][0] })
	return r
}

func (s *pset) newPeer(name, id string, c *net.TCPConn, init bool) *fpeer {
	return &fpeer{s: s, name: name, id: id, init: init, work: make(chan func(), 16), gone: make(chan struct{}),
		wire: &wire{w: newWorld(), c: c, rng: rand.New(rand.NewSource(s.sc.Seed)), wait: 20 * time.Second}}
}

// shake hands and see what the node thinks of us
func (p *fpeer) enter(a *PAct) {
	a.Got = [][]string{}
	defer func() {
		if x := recover(); x != nil {
			we, ok := x.(wireErr)
			if !ok {
				panic(x)
			}
			if a.Res == "" {
				a.Res = "error: " + we.what
			}
			p.c.Close()
		}
	}()
	p.sendStr("levilutz/basiccoin")
	p.sendStr("v0.0.0")
	p.sendStr(p.id)
	if x, y := p.recvStr(), p.recvStr(); x != "levilutz/basiccoin" || y != "v0.0.0" {
		p.fail("handshake %q %q", x, y)
	}
	p.recvStr()
	p.sendStr("continue")
	switch p.recvStr() {
	case "continue":
	case "cancel":
		a.Res = "cancelled"
		p.drain(a)
		return
	default:
		p.fail("handshake")
	}
	m := p.recvStr()
	switch m {
	case "cmd:close", "cmd:peer-addrs":
		a.Res = "refused"
		if m == "cmd:peer-addrs" {
			a.Got = p.s.outMap(p.readMap())
			if x := p.recvStr(); x != "cmd:close" {
				p.fail("refused, then %q", x)
			}
		}
		p.drain(a)
	default:
		p.receive(m)
		if !p.init {
			// what follows the first synchronisation
			p.receive(p.recvStr())
		}
		a.Res = "accepted"
		p.mu.Lock()
		p.served = true
		p.mu.Unlock()
		go p.serve()
	}
}

// the node closes the connection
func (p *fpeer) drain(a *PAct) {
	p.s.tails.Add(1)
	go func() {
		defer p.s.tails.Done()
		p.c.SetReadDeadline(time.Now().Add(10 * time.Second))
		b := make([]byte, 100)
		for {
			_, err := p.c.Read(b)
			if err != nil {
				a.Closed = !os.IsTimeout(err)
				p.c.Close()
				return
			}
		}
	}()
}

func (p *fpeer) readMap() [][]string {
	r := [][]string{}
	for n := p.recvU(); n > 0; n-- {
		id := p.recvStr()
		r = append(r, []string{id, p.recvStr()})
	}
	return r
}

func (p *fpeer) serve() {
	defer close(p.gone)
	defer func() {
		x := recover()
		p.mu.Lock()
		p.ended = fmt.Sprint(x)
		if we, ok := x.(wireErr); ok {
			p.ended = we.what
		}
		p.mu.Unlock()
	}()
	for {
		select {
		case f := <-p.work:
			f()
			if p.ended != "" {
				return
			}
		case <-p.s.stop:
			p.c.Close()
			return
		default:
			if len(p.pending) > 0 {
				f := p.pending[0]
				p.pending = p.pending[1:]
				f()
			} else if !p.quiet(4 * time.Millisecond) {
				p.receive(p.recvStr())
			}
		}
	}
}

// run f between two messages; false if the connection has ended
func (p *fpeer) do(f func()) bool {
	done := make(chan struct{})
	select {
	case p.work <- func() { f(); close(done) }:
	case <-p.gone:
		return false
	}
	select {
	case <-done:
		return true
	case <-p.gone:
		select {
		case <-done:
			return true
		default:
			return false
		}
	}
}

func (p *fpeer) receive(msg string) {
	if !strings.HasPrefix(msg, "cmd:") {
		p.fail("expected a command, got %q", msg)
	}
	c := msg[4:]
	if c == "close" {
		p.fail("closed by command")
	}
	p.sendStr("ack:" + c)
	switch c {
	case "ping":
	case "announce-addr":
		x := p.recvStr()
		p.mu.Lock()
		p.own = x
		p.mu.Unlock()
	case "addrs-request":
		p.pending = append(p.pending, func() { p.tell(p.book) })
	case "peer-addrs":
		m := p.s.outMap(p.readMap())
		p.mu.Lock()
		p.maps = append(p.maps, m)
		p.mu.Unlock()
	case "sync-chain":
		p.sendWork(0)
		p.sendId("0")
		p.recvWork()
		p.recvId()
		p.sendStr("cancel")
		p.recvStr()
	default:
		p.fail("unexpected command %q", msg)
	}
}

func (p *fpeer) issue(c string, rest func()) {
	p.sendStr("cmd:" + c)
	m := p.recvStr()
	if m == "ack:"+c {
		rest()
		return
	}
	if !strings.HasPrefix(m, "cmd:") {
		p.fail("expected ack:%s, got %q", c, m)
	}
	get := func() {
		if x := p.recvStr(); x != "ack:"+c {
			p.fail("expected ack:%s, got %q", c, x)
		}
		rest()
	}
	if p.init {
		p.receive(m)
		get()
	} else {
		get()
		p.receive(m)
	}
}

func (p *fpeer) tell(m [][]string) {
	p.issue("peer-addrs", func() {
		p.sendU(int64(len(m)))
		for _, x := range m {
			p.sendStr(x[0])
			p.sendStr(p.s.in(x[1]))
		}
	})
}

// a host the node may dial
func (s *pset) host(name string, h *PHost) {
	if h.Mode == "own" {
		s.addrs[name] = s.addr
		return
	}
	a := loopback() + ":21720"
	s.addrs[name], s.names[a] = a, name
	if h.Mode == "none" {
		return
	}
	ta, _ := net.ResolveTCPAddr("tcp", a)
	l, err := net.ListenTCP("tcp", ta)
	if err != nil {
		panic(err)
	}
	s.ls = append(s.ls, l)
	go func() {
		for k := 1; ; k++ {
			c, err := l.AcceptTCP()
			if err != nil {
				return
			}
			act := &PAct{A: "dial", P: name + "#" + strconv.Itoa(k), Id: h.Id, S: name, M: [][]string{}}
			p := s.newPeer(act.P, h.Id, c, false)
			p.book = h.Book
			p.enter(act)
			s.mu.Lock()
			s.peers[act.P] = p
			s.dials = append(s.dials, act)
			s.mu.Unlock()
		}
	}()
}

func (s *pset) act(a *PAct) {
	a.S = s.out(s.in(a.S))
	time.Sleep(time.Duration(a.Late) * time.Millisecond)
	if a.A == "connect" {
		c := dial(s.addr)
		if c == nil {
			a.Res = "error: no connection"
			return
		}
		p := s.newPeer(a.P, a.Id, c, true)
		p.enter(a)
		s.mu.Lock()
		s.peers[a.P] = p
		s.mu.Unlock()
		return
	}
	s.mu.Lock()
	p := s.peers[a.P]
	s.mu.Unlock()
	if p == nil || !p.served {
		a.Res = "nobody"
		return
	}
	a.Id = p.id
	if a.A == "straggle" {
		// what its connection heard comes through after the connection has ended
		select {
		case <-p.gone:
		default:
			a.Res = "nobody"
			return
		}
		s.n.bus.PeerAnnouncedAddr.Pub(bus.PeerAnnouncedAddrEvent{PeerRuntimeId: p.id, Addr: s.in(a.S)})
		a.Res = "ok"
		return
	}
	select {
	case <-p.gone:
		p.mu.Lock()
		a.Res = "ended: " + p.ended
		if p.ended == "left" {
			a.Res = "nobody"
		}
		p.mu.Unlock()
		return
	default:
	}
	a.Res = "ended"
	switch a.A {
	case "announce", "tell":
		s.poll()
		s.mu.Lock()
		wasA, wasR := s.annN[p.id], s.rcvN
		s.mu.Unlock()
		if !p.do(func() {
			if a.A == "announce" {
				p.issue("announce-addr", func() { p.sendStr(s.in(a.S)) })
			} else {
				p.tell(a.M)
			}
		}) {
			return
		}
		if !s.until(10*time.Second, func() bool {
			if a.A == "announce" {
				return s.annN[p.id] > wasA
			}
			return s.rcvN > wasR
		}) {
			a.Res = "not taken"
			return
		}
		a.Res = "ok"
	case "ask":
		p.mu.Lock()
		was := len(p.maps)
		p.mu.Unlock()
		if !p.do(func() { p.issue("addrs-request", func() {}) }) {
			return
		}
		if !s.until(10*time.Second, func() bool { p.mu.Lock(); defer p.mu.Unlock(); return len(p.maps) > was }) {
			a.Res = "no answer"
			return
		}
		p.mu.Lock()
		a.Got = p.maps[was]
		p.mu.Unlock()
		a.Res = "ok"
	case "leave":
		s.poll()
		s.mu.Lock()
		was := s.cloN[p.id]
		s.mu.Unlock()
		if !p.do(func() {
			switch a.How {
			case "close":
				p.sendStr("cmd:close")
			case "announce": // and gone
				p.issue("announce-addr", func() { p.sendStr(s.in(a.S)); p.sendStr("cmd:close") })
			case "reset":
				p.c.SetLinger(0)
				p.c.Close()
			case "half":
				p.sendStr("cmd:announce-addr")
				p.c.CloseWrite()
			case "lost": // in the middle of a message
				p.write([]byte{0, 9, 'c'})
				p.c.Close()
			default:
				p.c.Close()
			}
			p.mu.Lock()
			p.ended = "left"
			p.mu.Unlock()
		}) {
			return
		}
		if !s.until(15*time.Second, func() bool { return s.cloN[p.id] > was }) {
			a.Res = "not noticed"
			return
		}
		p.c.Close()
		a.Res = "ok"
	}
}

func (s *pset) connected() int {
	k := 0
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, p := range s.peers {
		select {
		case <-p.gone:
			continue
		default:
		}
		p.mu.Lock()
		if p.ended == "" && p.served {
			k++
		}
		p.mu.Unlock()
	}
	return k
}

// everything the node was told to dial has been dialled
func (s *pset) dialled(want map[string]bool) {
	s.barrier()
	s.until(2*time.Second, func() bool {
		n := 0
		for h := range want {
			for _, d := range s.dials {
				if d.S == h {
					n++
					break
				}
			}
		}
		return n == len(want)
	})
}

func runPeers(sc *PScen) {
	s := &pset{sc: sc, addrs: map[string]string{}, names: map[string]string{}, peers: map[string]*fpeer{},
		stop: make(chan struct{}), sent: make(chan struct{}, 16), annN: map[string]int{}, cloN: map[string]int{}}
	for _, st := range sc.Steps {
		if st.Acts == nil {
			st.Acts = []*PAct{}
		}
		st.Dials = []*PAct{}
		for _, a := range st.Acts {
			a.Got = [][]string{}
			if a.M == nil {
				a.M = [][]string{}
			}
		}
	}
	s.addr = loopback() + ":21720"
	s.names[s.addr], s.addrs["own"] = "own", s.addr
	s.n = newNode(core.DevNetParams(), false, nil)
	s.ann = s.n.bus.PeerAnnouncedAddr.Sub()
	s.clo, s.rcv = s.n.bus.PeerClosing.Sub(), s.n.bus.PeersReceived.Sub()
	// the sentinel: closes at once what connects to it
	s.sAddr = loopback() + ":21720"
	ta, _ := net.ResolveTCPAddr("tcp", s.sAddr)
	l, err := net.ListenTCP("tcp", ta)
	if err != nil {
		panic(err)
	}
	s.ls = append(s.ls, l)
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			c.Close()
			s.sent <- struct{}{}
		}
	}()
	for _, h := range sc.Hosts {
		if h.Book == nil {
			h.Book = [][]string{}
		}
	}
	names := []string{}
	for k := range sc.Hosts {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		s.host(k, sc.Hosts[k])
	}
	freq := 3 * time.Hour
	if sc.Seek > 0 {
		freq = time.Duration(sc.Seek) * time.Millisecond
	}
	pf := peerfactory.NewPeerFactory(peerfactory.Params{Listen: true, LocalAddr: s.addr, MinPeers: 1, MaxPeers: sc.Max,
		RuntimeId: sc.Self, SeekNewPeersFreq: freq}, s.n.bus, s.n.inv)
	if len(sc.Seeds) > 0 {
		a := []string{}
		for _, h := range sc.Seeds {
			a = append(a, s.addrs[h])
		}
		pf.SetSeeds(a)
	}
	go pf.Loop()
	if c := dial(s.addr); c != nil {
		c.Close()
	}
	s.barrier()
	for _, st := range sc.Steps {
		var wg sync.WaitGroup
		for _, a := range st.Acts {
			wg.Add(1)
			go func(a *PAct) { defer wg.Done(); s.act(a) }(a)
		}
		wg.Wait()
		want := map[string]bool{}
		known := map[string]bool{sc.Self: true}
		s.mu.Lock()
		for _, p := range s.peers {
			known[p.id] = true
		}
		s.mu.Unlock()
		for _, a := range st.Acts {
			for _, x := range a.M {
				if h, ok := sc.Hosts[x[1]]; ok && h.Mode == "ok" && !known[x[0]] {
					want[x[1]] = true
				}
			}
		}
		s.dialled(want)
		if st.Seek > 0 {
			s.until(12*time.Second, func() bool {
				n := 0
				for _, p := range s.peers {
					p.mu.Lock()
					if p.ended == "" && p.served {
						n++
					}
					p.mu.Unlock()
				}
				return n >= st.Seek
			})
			// nothing more may come of it
			time.Sleep(300 * time.Millisecond)
		}
		s.barrier()
		s.mu.Lock()
		st.Dials = append(st.Dials, s.dials...)
		s.dials = nil
		s.mu.Unlock()
		st.Size = s.connected()
		st.Own = "own"
		s.mu.Lock()
		for _, p := range s.peers {
			p.mu.Lock()
			if p.own != "" {
				st.Own = s.out(p.own)
			}
			p.mu.Unlock()
		}
		s.mu.Unlock()
		if sc.Bad != "" {
			break
		}
	}
	s.tails.Wait()
	close(s.stop)
	for _, l := range s.ls {
		l.Close()
	}
	if s.n.dead.Load() {
		sc.Bad = "the node stopped: " + fmt.Sprint(s.n.why.Load())
	}
}

func cmdPeers(args []string) {
	in, err := os.Open(args[0])
	if err != nil {
		panic(err)
	}
	var scs []*PScen
	r := bufio.NewScanner(in)
	r.Buffer(make([]byte, 1<<20), 1<<28)
	for r.Scan() {
		sc := &PScen{}
		if err := json.Unmarshal(r.Bytes(), sc); err != nil {
			panic(err)
		}
		scs = append(scs, sc)
	}
	par, _ := strconv.Atoi(args[2])
	sem := make(chan struct{}, par)
	var wg sync.WaitGroup
	for _, sc := range scs {
		wg.Add(1)
		sem <- struct{}{}
		go func(sc *PScen) { defer wg.Done(); runPeers(sc); <-sem }(sc)
	}
	wg.Wait()
	out, err := os.Create(args[1])
	if err != nil {
		panic(err)
	}
	defer out.Close()
	enc := json.NewEncoder(out)
	for _, sc := range scs {
		enc.Encode(sc)
	}
}

// a world of nothing but the first block
func newWorld() *World {
	return &World{ids: map[string]core.HashT{"0": {}}, names: map[core.HashT]string{{}: "0"}, Blks: map[string]*BlkDef{},
		Txs: map[string]*TxDef{}, Mks: map[string]*MkDef{}}
}

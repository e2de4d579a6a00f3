package main

// Conversations of a real node with an honest peer played by the harness.

import (
	"fmt"
	"math/rand"
	"net"
	"strings"
	"time"

	"github.com/levilutz/basiccoin/internal/bus"
	"github.com/levilutz/basiccoin/internal/peerfactory"
	"github.com/levilutz/basiccoin/pkg/core"
	"github.com/levilutz/basiccoin/pkg/topic"
)

type Stim struct {
	K string      `json:"k"` // tx, offer, announce-addr, addrs-request, peer-addrs (inside the node); e (a command of the peer)
	T string      `json:"t,omitempty"`
	O *OfferDef   `json:"o,omitempty"`
	C string      `json:"c,omitempty"` // command of the peer
	A [][2]string `json:"a,omitempty"`
	S string      `json:"s,omitempty"`
	// the peer's command crosses with one of the node
	Col bool `json:"col,omitempty"`
	// the peer learns the head it is offered meanwhile, from elsewhere
	Race bool `json:"race,omitempty"`
	// the peer adopts this head first
	Head string `json:"head,omitempty"`
	// the work the peer claims for its head
	Lie int64 `json:"lie,omitempty"`
}

type ConvObs struct {
	Bad  string `json:"bad"`
	Why  string `json:"why,omitempty"`
	Dels []Del  `json:"dels"`
}

// something the node's side of the connection handed to the rest of the node
type Del struct {
	K string            `json:"k"`
	A string            `json:"a"`
	P map[string]string `json:"p"`
}

type ecmd struct {
	c  string
	st Stim
}

// the node's networking and the peer connected to it
type epeer struct {
	*wire
	r        *runner
	n        *Node
	id       string
	init     bool // the peer opened the connection
	head     string
	kn       map[string]bool
	issued   int
	expected int
	ann      topic.Sub[bus.PeerAnnouncedAddrEvent]
	req      topic.Sub[bus.PeersRequestedEvent]
	rcv      topic.Sub[bus.PeersReceivedEvent]
	send     topic.Sub[bus.SendPeersEvent]
	shAnn    topic.Sub[bus.ShouldAnnounceAddrEvent]
	shReq    topic.Sub[bus.ShouldRequestPeersEvent]
	heads    topic.Sub[bus.ValidatedHeadEvent]
	txs      topic.Sub[bus.ValidatedTxEvent]
	nreq     int
	nsend    int
	// something said to the node may not have been read yet
	dirty     bool
	adopted   bool // the peer has a new head
	race      bool
	lie       int64
	announced string // the address announced last
	hasAnn    bool   // which the node may not know yet
	knows     bool
	known     string
	probes    int
}

func newPF(n *Node, addr string, listen bool, max int) *peerfactory.PeerFactory {
	return peerfactory.NewPeerFactory(peerfactory.Params{
		Listen: listen, LocalAddr: addr, MinPeers: 1, MaxPeers: max,
		RuntimeId: "node-" + addr, SeekNewPeersFreq: 3 * time.Hour,
	}, n.bus, n.inv)
}

func newEpeer(r *runner, init bool, id string) *epeer {
	n := r.n
	e := &epeer{r: r, n: n, id: id, init: init, head: "0", kn: map[string]bool{"0": true}}
	e.ann, e.req, e.rcv = n.bus.PeerAnnouncedAddr.Sub(), n.bus.PeersRequested.Sub(), n.bus.PeersReceived.Sub()
	e.send, e.shAnn, e.shReq = n.bus.SendPeers.Sub(), n.bus.ShouldAnnounceAddr.Sub(), n.bus.ShouldRequestPeers.Sub()
	e.heads, e.txs = n.bus.ValidatedHead.Sub(), n.bus.ValidatedTx.Sub()
	return e
}

// connect; the node's events so far do not concern the peer
func (e *epeer) connect(pf *peerfactory.PeerFactory, addr string, seg string) {
	e.count()
	e.expected = 0
	e.wire = &wire{w: &e.r.sc.World, seg: seg, rng: e.r.rng, wait: 20 * time.Second}
	if e.init {
		go pf.Loop()
		e.c = dial(addr)
		if e.c == nil {
			e.fail("stuck: the node does not listen")
		}
	} else {
		a, _ := net.ResolveTCPAddr("tcp", e.r.epAddr)
		l, err := net.ListenTCP("tcp", a)
		if err != nil {
			panic(err)
		}
		pf.SetSeeds([]string{e.r.epAddr})
		go pf.Loop()
		l.SetDeadline(time.Now().Add(20 * time.Second))
		c, err := l.AcceptTCP()
		if err != nil {
			e.fail("stuck: the node does not connect")
		}
		e.c = c
		// the node connects again to the same address and is told to
		go func() {
			defer l.Close()
			l.SetDeadline(time.Now().Add(60 * time.Second))
			c2, err := l.AcceptTCP()
			if err != nil {
				return
			}
			defer func() { recover(); c2.Close() }()
			y := &wire{w: e.w, c: c2, rng: rand.New(rand.NewSource(1)), wait: 20 * time.Second}
			y.handshake(e.id)
			for {
				y.read(1)
			}
		}()
	}
	if _, ok := e.handshake(e.id); !ok {
		e.fail("refused")
	}
	if e.init {
		// the node announces its address
		e.expected = 1
	} else {
		e.expected = 1 // the node starts with a synchronisation
	}
	if e.init {
		e.shAnnIgnore()
	}
	if !e.init && e.quiet(20*time.Second) {
		// the node's side listens to the rest of the node by now
		e.fail("stuck: no synchronisation after connecting")
	}
}

// the node has decided to announce its address
func (e *epeer) shAnnIgnore() {
	for start := time.Now(); time.Since(start) < 10*time.Second; time.Sleep(time.Millisecond) {
		for v, ok := e.shAnn.Pop(); ok; v, ok = e.shAnn.Pop() {
			if v.TargetRuntimeId == e.id {
				return
			}
		}
	}
	e.fail("stuck: no announcement of the address")
}

// count the events the node's side of the connection must turn into commands
func (e *epeer) count() {
	for _, ok := e.heads.Pop(); ok; _, ok = e.heads.Pop() {
		e.expected++
	}
	for _, ok := e.txs.Pop(); ok; _, ok = e.txs.Pop() {
		e.expected++
	}
	for v, ok := e.send.Pop(); ok; v, ok = e.send.Pop() {
		if v.TargetRuntimeId == e.id {
			e.expected++
			e.nsend++
		} else if v.TargetRuntimeId == "probe" {
			e.probes++
			e.known, e.knows = v.PeerAddrs[e.id]
		}
	}
	for v, ok := e.shAnn.Pop(); ok; v, ok = e.shAnn.Pop() {
		if v.TargetRuntimeId == e.id {
			e.expected++
		}
	}
	for v, ok := e.shReq.Pop(); ok; v, ok = e.shReq.Pop() {
		if v.TargetRuntimeId == e.id {
			e.expected++
		}
	}
}

func (e *epeer) settle() {
	e.n.offerAndWait()
	if e.n.dead.Load() {
		e.fail("stuck: the node stopped")
	}
	for start := time.Now(); ; time.Sleep(time.Millisecond) {
		e.count()
		if e.nsend >= e.nreq {
			return
		}
		if time.Since(start) > 15*time.Second {
			e.fail("stuck: no answer to a request for addresses")
		}
	}
}

// ---------------------------------------------------------------- commands
func (e *epeer) recvCmd() string {
	s := e.recvStr()
	if strings.HasPrefix(s, "cmd:") {
		e.issued++
	}
	return s
}

func (e *epeer) expect(s string) {
	if got := e.recvStr(); got != s {
		e.fail("expected %q, got %q", s, got)
	}
}

// issue a command; first is what the node has sent already, if anything
func (e *epeer) issue(c ecmd, first string) {
	e.sendStr("cmd:" + c.c)
	resp := first
	if resp == "" {
		resp = e.recvCmd()
	}
	if resp == "ack:"+c.c {
		e.write2(c)
		return
	}
	if !strings.HasPrefix(resp, "cmd:") {
		e.fail("expected %q, got %q", "ack:"+c.c, resp)
	}
	if e.init {
		e.receive(resp)
		e.expect("ack:" + c.c)
		e.write2(c)
	} else {
		e.expect("ack:" + c.c)
		e.write2(c)
		e.receive(resp)
	}
}

// the part of a command after its acknowledgement
func (e *epeer) write2(c ecmd) {
	switch c.c {
	case "ping", "addrs-request":
		if c.c == "addrs-request" {
			e.nreq++
		}
	case "announce-addr":
		e.sendStr(c.st.S)
		e.announced, e.hasAnn = c.st.S, true
	case "peer-addrs":
		e.sendU(int64(len(c.st.A)))
		for _, p := range c.st.A {
			e.sendStr(p[0])
			e.sendStr(p[1])
		}
	case "new-tx":
		e.kn[c.st.T] = true
		e.sendId(c.st.T)
		if e.recvBool() {
			e.sendTx(c.st.T)
		}
	case "sync-chain":
		e.sync()
	default:
		panic("script error: command " + c.c)
	}
}

func (e *epeer) receive(msg string) {
	if !strings.HasPrefix(msg, "cmd:") {
		e.fail("expected a command, got %q", msg)
	}
	c := msg[4:]
	if c == "close" {
		e.fail("closed by command")
	}
	e.sendStr("ack:" + c)
	switch c {
	case "ping", "addrs-request":
	case "announce-addr":
		e.recvStr()
	case "peer-addrs":
		for n := e.recvU(); n > 0; n-- {
			e.recvStr()
			e.recvStr()
		}
	case "new-tx":
		t := e.recvId()
		if e.kn[t] {
			e.sendBool(false)
		} else {
			e.sendBool(true)
			e.kn[e.recvTx()] = true
		}
	case "sync-chain":
		e.sync()
	default:
		e.fail("unknown command %q", msg)
	}
}

func (e *epeer) work(b string) int64 {
	n := int64(0)
	for b != "0" {
		e.w.blk(b)
		n += e.w.Blks[b].Tg.W
		b = e.w.Blks[b].Prev
	}
	return n
}

// know the chain to b and everything in it
func (e *epeer) learn(b string) {
	for b != "0" {
		e.kn[b] = true
		q := []string{e.w.Blks[b].Root}
		for len(q) > 0 {
			x := q[0]
			q = q[1:]
			e.kn[x] = true
			if m, ok := e.w.Mks[x]; ok {
				q = append(q, m.L, m.R)
			}
		}
		b = e.w.Blks[b].Prev
	}
}

func (e *epeer) sync() {
	our, head := e.work(e.head), e.head
	if e.lie != 0 {
		our = e.lie
	}
	e.sendWork(our)
	e.sendId(head)
	their := e.recvWork()
	th := e.recvId()
	if their == our || (our < their && e.kn[th] && e.w.Blks[th] != nil) {
		e.sendStr("cancel")
		e.recvStr()
		return
	}
	e.sendStr("continue")
	if e.recvStr() == "cancel" {
		return
	}
	if their < our {
		e.sendStr("sync:send")
		e.expect("sync:recv")
		e.outbound(head)
	} else {
		e.sendStr("sync:recv")
		e.expect("sync:send")
		e.inbound()
	}
}

func (e *epeer) outbound(head string) {
	need := []string{}
	b := head
	for {
		e.sendId(b)
		if e.recvBool() {
			break
		}
		if b == "0" || len(need) > 5000 {
			e.fail("the node does not know the first block")
		}
		need = append(need, b)
		b = e.w.Blks[b].Prev
	}
	if len(need) == 0 {
		return
	}
	for _, x := range need {
		e.sendBlk(x)
	}
	if !e.recvBool() {
		return
	}
	for {
		id := e.recvId()
		if id == "0" {
			break
		}
		if _, ok := e.w.Mks[id]; ok {
			e.sendBool(false)
			e.sendMk(id)
		} else if _, ok := e.w.Txs[id]; ok {
			e.sendBool(true)
			e.sendTx(id)
		} else {
			e.fail("asked for an unknown entity")
		}
	}
	e.expect("complete")
}

func (e *epeer) inbound() {
	need := []string{}
	h := e.recvId()
	head := h
	if e.race {
		e.race = false
		e.learn(h)
		if e.work(h) > e.work(e.head) {
			e.head, e.adopted = h, true
		}
	}
	for !e.kn[h] {
		need = append(need, h)
		e.sendBool(false)
		if len(need) > 5000 {
			e.fail("endless chain")
		}
		h = e.recvId()
	}
	e.sendBool(true)
	if len(need) == 0 {
		return
	}
	for range need {
		e.recvBlk()
	}
	e.sendBool(true)
	// ask for what is missing, in any order
	want := []string{}
	add := func(x string) {
		if e.kn[x] {
			return
		}
		for _, y := range want {
			if x == y {
				return
			}
		}
		want = append(want, x)
	}
	for _, b := range need {
		if d, ok := e.w.Blks[b]; ok {
			add(d.Root)
		}
	}
	for len(want) > 0 {
		i := e.rng.Intn(len(want))
		x := want[i]
		want = append(want[:i], want[i+1:]...)
		e.sendId(x)
		e.kn[x] = true
		if e.recvBool() {
			e.recvTx()
		} else {
			e.recvMk()
			if m, ok := e.w.Mks[x]; ok {
				add(m.L)
				add(m.R)
			}
		}
	}
	e.sendId("0")
	e.sendStr("complete")
	e.learn(head)
	e.head = head
	e.adopted = true
}

// ---------------------------------------------------------------- one step
func (e *epeer) local(s Stim) {
	switch s.K {
	case "tx":
		err, ok := e.n.submit(e.w.tx(s.T))
		if !ok {
			e.fail("stuck: no answer to a submission")
		}
		ret := "ok"
		if err != nil {
			ret = "err"
		}
		e.note(Tok{"x", "tx", []string{s.T, ret}})
	case "offer":
		e.n.offerAndWait(e.r.event(s.O))
		e.note(Tok{"x", "offer", s.O})
	case "announce-addr":
		e.n.bus.ShouldAnnounceAddr.Pub(bus.ShouldAnnounceAddrEvent{TargetRuntimeId: e.id, Addr: s.S},
			bus.ShouldAnnounceAddrEvent{TargetRuntimeId: "other", Addr: "nowhere"})
		e.note(Tok{"x", "announce-addr", s.S})
	case "addrs-request":
		e.n.bus.ShouldRequestPeers.Pub(bus.ShouldRequestPeersEvent{TargetRuntimeId: "other"},
			bus.ShouldRequestPeersEvent{TargetRuntimeId: e.id})
		e.note(Tok{"x", "addrs-request", ""})
	case "peer-addrs":
		m := map[string]string{}
		for _, p := range s.A {
			m[p[0]] = p[1]
		}
		e.n.bus.SendPeers.Pub(bus.SendPeersEvent{TargetRuntimeId: "other", PeerAddrs: m},
			bus.SendPeersEvent{TargetRuntimeId: e.id, PeerAddrs: m})
		e.nreq++ // it was not asked for, but is counted as an answer
		e.note(Tok{"x", "peer-addrs", s.A})
	default:
		panic("script error: stimulus " + s.K)
	}
}

// the node has taken in everything the peer said so far
func (e *epeer) barrier() {
	e.issue(ecmd{c: "ping"}, "")
	e.settle()
	if e.hasAnn {
		// the address is known to the node's peer keeper
		for start := time.Now(); ; {
			e.n.bus.PeersRequested.Pub(bus.PeersRequestedEvent{PeerRuntimeId: "probe"})
			for !(e.knows && e.known == e.announced) && time.Since(start) < 15*time.Second {
				time.Sleep(time.Millisecond)
				n := e.probes
				e.count()
				if e.probes > n {
					break
				}
			}
			if e.knows && e.known == e.announced {
				break
			}
			if time.Since(start) > 15*time.Second {
				e.fail("stuck: the announced address is not kept")
			}
		}
		e.hasAnn = false
	}
	e.dirty = false
}

func (e *epeer) step(stims []Stim) {
	for _, s := range stims {
		if s.K == "set" {
			e.lie = s.Lie
			e.head = s.Head
			e.learn(s.Head)
			continue
		}
		if s.K != "e" {
			if e.dirty {
				e.barrier()
			}
			e.local(s)
			e.settle()
			continue
		}
		if s.Head != "" {
			e.head = s.Head
			e.learn(s.Head)
		}
		if e.hasAnn && s.C == "addrs-request" {
			e.barrier()
		}
		e.race = s.Race
		e.lie = s.Lie
		first := ""
		if s.Col && e.issued < e.expected {
			first = e.recvCmd()
		}
		e.issue(ecmd{s.C, s}, first)
		e.dirty = true
		e.settle()
	}
	for {
		if e.adopted {
			// a node that adopts a chain tells its peers
			e.adopted = false
			e.issue(ecmd{c: "sync-chain"}, "")
			e.dirty = true
			e.settle()
		}
		for e.issued < e.expected {
			e.dirty = true
			e.receive(e.recvCmd())
			e.settle()
		}
		if e.dirty {
			e.barrier()
		}
		e.settle()
		if e.issued >= e.expected && !e.dirty && !e.adopted {
			break
		}
	}
	// nothing else may come
	if !e.quiet(3 * time.Millisecond) {
		e.receive(e.recvCmd())
	}
}

func (e *epeer) dels() []Del {
	out := []Del{}
	who := func(id string) string {
		if id == e.id {
			return ""
		}
		return "?" + id
	}
	for v, ok := e.ann.Pop(); ok; v, ok = e.ann.Pop() {
		out = append(out, Del{"announced" + who(v.PeerRuntimeId), v.Addr, map[string]string{}})
	}
	for v, ok := e.req.Pop(); ok; v, ok = e.req.Pop() {
		if v.PeerRuntimeId != "probe" {
			out = append(out, Del{"requested" + who(v.PeerRuntimeId), "", map[string]string{}})
		}
	}
	for v, ok := e.rcv.Pop(); ok; v, ok = e.rcv.Pop() {
		out = append(out, Del{"received", "", v.PeerAddrs})
	}
	return out
}

// run one conversation step, recording what was said
func (r *runner) conv(st *Step) {
	e := r.ep
	co := &ConvObs{Dels: []Del{}}
	st.Conv = co
	func() {
		defer func() {
			if x := recover(); x != nil {
				if we, ok := x.(wireErr); ok {
					co.Bad, co.Why = "other", we.what
					for _, k := range []string{"stuck", "closed", "refused"} {
						if strings.HasPrefix(we.what, k) {
							co.Bad = k
						}
					}
					return
				}
				panic(x)
			}
		}()
		if st.Op == "connect" {
			e.connect(r.pf, r.addr, st.Seg)
		}
		e.step(st.Stim)
	}()
	toks := []Tok{}
	if e.wire != nil && e.log != nil {
		toks = e.log
		e.log = nil
	}
	st.Toks = &toks
	co.Dels = e.dels()
	o := r.observe(r.n)
	o.Heads, o.TxEv = []string{}, []string{}
	st.Obs = &o
}

func (r *runner) conversant(init bool) {
	r.addr = loopback() + ":21720"
	r.epAddr = loopback() + ":21720"
	r.pf = newPF(r.n, r.addr, init, 4)
	r.ep = newEpeer(r, init, "E")
}

var _ = fmt.Sprint
var _ = core.HashT{}

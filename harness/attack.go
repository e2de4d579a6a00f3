package main

// A peer that misbehaves: it converses like an honest one up to one token,
// which it replaces, and then ends in one of several ways, while an honest
// peer stays connected and another one connects.

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"net"
	"os"
	"runtime"
	"sort"
	"strings"
	"time"

	"github.com/levilutz/basiccoin/internal/bus"
	"github.com/levilutz/basiccoin/pkg/core"
	"github.com/levilutz/basiccoin/pkg/topic"
)

type Attack struct {
	Role string `json:"role"` // "i": the node opens the connection, "n": the attacker
	Id   string `json:"id"`
	Stim []Stim `json:"stim"`
	At   int    `json:"dev"`  // the token that is replaced (from the handshake on)
	Kind string `json:"kind"` // if not empty: only tokens of this kind count, and from the handshake's end on
	How  string `json:"how"`  // by what
	Then string `json:"then"` // half, reset, junk, go, silent
	Seed int64  `json:"seed"`
	Hold bool   `json:"hold,omitempty"` // the honest peers do something while the attacker is still there
	Cold bool   `json:"cold,omitempty"` // measure memory
	// what was seen
	What   string `json:"what"`   // what was replaced by what
	Hs     bool   `json:"hs"`     // it happened before the handshake was over
	End    string `json:"end"`    // how the attacker's script ended
	Closed bool   `json:"closed"` // the node closed the connection
	Freed  bool   `json:"freed"`  // the node's keeper of peers was told
	Others string `json:"others"` // trouble of the honest peers
	Alloc  int64  `json:"alloc"`  // MB allocated
	Sent   int    `json:"sent"`
}

type Deviation struct {
	At   int
	Kind string
	How  string
	Go   bool
	rng  *rand.Rand
	done bool
	what string
}

type devDone struct{}

func str16(s string) []byte {
	b := make([]byte, 2)
	binary.BigEndian.PutUint16(b, uint16(len(s)))
	return append(b, s...)
}

// some entity of the world that is not n
func (x *wire) another(k, n string) string {
	c := []string{}
	switch k {
	case "blk":
		for m := range x.w.Blks {
			c = append(c, m)
		}
	case "mk":
		for m := range x.w.Mks {
			c = append(c, m)
		}
	case "tx":
		for m := range x.w.Txs {
			c = append(c, m)
		}
	default:
		for m := range x.w.Blks {
			c = append(c, m)
		}
		for m := range x.w.Mks {
			c = append(c, m)
		}
		for m := range x.w.Txs {
			c = append(c, m)
		}
	}
	sort.Strings(c)
	d := []string{}
	for _, m := range c {
		if m != n {
			d = append(d, m)
		}
	}
	if len(d) == 0 {
		return ""
	}
	return d[x.dev.rng.Intn(len(d))]
}

func (x *wire) deviate(k string, v interface{}, b []byte) {
	d := x.dev
	d.done = true
	d.what = fmt.Sprintf("%s %v: %s", k, v, d.How)
	rng := d.rng
	raw := func(out []byte) {
		// bytes that may be read as a proper value are called that
		n := map[string]int{"b": 1, "h": 32, "w": 32, "u": 8}[k]
		switch {
		case bytes.HasPrefix(out, b):
			x.in(k, v)
			n = len(b)
		case n == 0 || len(out) < n || k == "b" && out[0] > 1:
			n = 0
		case k == "b":
			x.in("b", out[0] == 1)
		case k == "h":
			x.in("h", "?")
		case k == "w":
			x.in("w", 1<<30)
		case k == "u":
			x.in("u", 1<<30)
		}
		if n < len(out) || n == 0 {
			x.in("raw", len(out)-n)
		}
		x.write(out)
	}
	junk := func(n int) []byte {
		out := make([]byte, n)
		rng.Read(out)
		return out
	}
	how := d.How
	switch how {
	case "flip": // another value of the same kind, of no meaning
		switch k {
		case "b":
			nv := !v.(bool)
			x.in("b", nv)
			x.write([]byte{map[bool]byte{true: 1, false: 0}[nv]})
		case "h":
			x.in("h", "?")
			x.write(junk(32))
		case "w":
			x.in("w", 1<<30)
			x.write(append([]byte{0}, junk(31)...))
		case "u":
			x.in("u", v.(int64)+1)
			x.write(u64(uint64(v.(int64) + 1)))
		case "s":
			n := v.(string) + "x"
			x.in("s", n)
			x.write(str16(n))
		default: // an entity with one bit changed (not in a block's time, which its id does not cover)
			out := append([]byte{}, b...)
			lim := len(out)
			if k == "blk" {
				lim -= 8
			}
			if k == "tx" {
				lim = 9
			}
			out[rng.Intn(lim)] ^= 1 << rng.Intn(8)
			if k == "tx" && out[0] > 1 {
				x.in("raw", len(out))
			} else {
				x.in(k, "?")
			}
			x.write(out)
		}
	case "other": // another value of the same kind
		switch k {
		case "h", "blk", "mk", "tx":
			n := x.another(k, v.(string))
			if n == "" {
				raw(junk(7))
				break
			}
			x.in(k, n)
			switch k {
			case "h":
				y := x.w.id(n).Data()
				x.write(y[:])
			case "blk":
				x.write(blkBytes(x.w.blk(n)))
			case "mk":
				x.write(mkBytes(x.w.mk(n)))
			case "tx":
				x.write(txBytes(x.w.tx(n)))
			}
		case "w":
			n := []int64{0, v.(int64) + 1, v.(int64) - 1, v.(int64) * 2, 3}[rng.Intn(5)]
			if n < 0 {
				n = 0
			}
			x.in("w", n)
			y := core.NewHashTFromBigInt(big.NewInt(n)).Data()
			x.write(y[:])
		case "s":
			n := []string{"", "cmd:close", "cmd:ping", "cmd:nonsense", "ack:ping", "cancel", "continue", "sync:send", "sync:recv", "complete",
				"cmd:sync-chain", "cmd:addrs-request", "cmd:"}[rng.Intn(13)]
			x.in("s", n)
			x.write(str16(n))
		case "u":
			x.in("u", 0)
			x.write(u64(0))
		default:
			raw([]byte{byte(2 + rng.Intn(250))})
		}
	case "zero":
		switch k {
		case "h":
			x.in("h", "0")
			x.write(make([]byte, 32))
		case "w":
			x.in("w", 0)
			x.write(make([]byte, 32))
		case "u":
			x.in("u", 0)
			x.write(make([]byte, 8))
		default:
			raw(make([]byte, len(b)))
		}
	case "huge", "big": // lengths and counts far beyond what follows
		n := uint64(1) << (20 + rng.Intn(2))
		if how == "huge" {
			n = []uint64{1 << 62, 1<<63 - 1, 1 << 63, 1<<64 - 1, 1 << 48}[rng.Intn(5)]
		}
		switch k {
		case "s":
			raw(append([]byte{255, 255}, junk(rng.Intn(20))...))
		case "u":
			x.in("u", 1<<30)
			x.write(u64(n))
		case "w":
			x.in("w", 1<<30)
			x.write([]byte(strings.Repeat("\xff", 32)))
		case "tx":
			out := append([]byte{}, b...)
			at := 9 + 8*rng.Intn(2)
			copy(out[at:], u64(n))
			if rng.Intn(2) == 0 {
				out = out[:25]
			}
			raw(out)
		default:
			raw(append(append([]byte{}, b...), []byte(strings.Repeat("\xff", 100))...))
		}
	case "cut":
		raw(b[:len(b)/2])
	case "none":
		x.in("raw", 0)
	case "junk":
		raw(junk(1 + rng.Intn(200)))
	case "kind":
		switch rng.Intn(3) {
		case 0:
			y := []string{"continue", "cmd:ping", "what?"}[rng.Intn(3)]
			if k == "s" {
				x.in("s", y)
				x.write(str16(y))
			} else {
				raw(str16(y))
			}
		case 1:
			raw(junk(32))
		default:
			raw([]byte{1})
		}
	case "deny": // has none of the other side's blocks, not even the root
		x.in("b", false)
		x.wait = 3 * time.Second
		for {
			x.write([]byte{0})
			x.read(32)
		}
	case "time": // another time: the id stays what it was
		blk := x.w.blk(v.(string))
		blk.MinedTime = uint64(x.w.base + 203400)
		x.in(k, v)
		x.write(blkBytes(blk))
	case "extra":
		x.in(k, v)
		x.write(b)
		raw(junk(1 + rng.Intn(60)))
	default:
		panic("script error: deviation " + how)
	}
	if !d.Go {
		panic(devDone{})
	}
	x.wait = 300 * time.Millisecond
}

// connect as an attacker
func (e *epeer) aconnect(role string) {
	if role == "n" {
		e.c = dial(e.r.addr)
	} else {
		addr := loopback() + ":21720"
		a, _ := net.ResolveTCPAddr("tcp", addr)
		l, err := net.ListenTCP("tcp", a)
		if err != nil {
			panic(err)
		}
		defer l.Close()
		e.n.bus.PeersReceived.Pub(bus.PeersReceivedEvent{PeerAddrs: map[string]string{"a:" + e.id: addr}})
		l.SetDeadline(time.Now().Add(20 * time.Second))
		e.c, err = l.AcceptTCP()
		if err != nil {
			e.c = nil
		}
	}
	if e.c == nil {
		e.fail("stuck: no connection")
	}
}

// an honest peer connects, converses and leaves; what went wrong
func (r *runner) visitor(id string) (bad string) {
	defer func() {
		if x := recover(); x != nil {
			if we, ok := x.(wireErr); ok {
				bad = we.what
				return
			}
			panic(x)
		}
	}()
	e := newEpeer(r, true, id)
	e.wire = &wire{w: &r.sc.World, rng: rand.New(rand.NewSource(1)), wait: 10 * time.Second}
	e.c = dial(r.addr)
	if e.c == nil {
		return "no connection"
	}
	defer e.c.Close()
	if _, ok := e.handshake(id); !ok {
		return "refused"
	}
	e.issue(ecmd{c: "ping"}, "")
	e.sendStr("cmd:close")
	return ""
}

func (r *runner) attack(st *Step) {
	a := st.Att
	e := newEpeer(r, a.Role == "n", a.Id)
	closing := r.n.bus.PeerClosing.Sub()
	rng := rand.New(rand.NewSource(a.Seed))
	e.wire = &wire{w: &r.sc.World, rng: rng, wait: 20 * time.Second,
		dev: &Deviation{At: a.At, Kind: a.Kind, How: a.How, Go: a.Then == "go", rng: rng}}
	var m0, m1 runtime.MemStats
	runtime.ReadMemStats(&m0)
	up := false
	func() {
		defer func() {
			if x := recover(); x != nil {
				switch y := x.(type) {
				case wireErr:
					a.End = "stopped: " + y.what
				case devDone:
					a.End = "deviated"
				default:
					panic(x)
				}
			}
		}()
		e.aconnect(a.Role)
		_, ok := e.handshake(a.Id)
		if e.dev.done || !ok {
			a.Hs = true
			return
		}
		up = true
		e.expected = 1
		if a.Role == "i" {
			e.expected = 2 // a synchronisation and the address
		}
		e.shAnnIgnore()
		if e.quiet(20 * time.Second) {
			e.fail("stuck: nothing after connecting")
		}
		e.step(a.Stim)
		a.End = "complete"
	}()
	if e.c == nil {
		st.Toks = &[]Tok{}
		a.Others = "the node does not connect"
		o := r.observe(r.n)
		st.Obs = &o
		return
	}
	if !up {
		a.Hs = true
		e.log = nil
	}
	a.What = e.dev.what
	// the honest peers do not notice
	if a.Hold {
		if x := r.visitor(a.Id + "v"); x != "" {
			a.Others = "a new peer: " + x
		}
	}
	if strings.HasPrefix(a.End, "stopped: stuck") && !e.dev.done {
		a.Others = "the node stops talking"
	}
	if a.Then == "silent" {
		// goes on in a later step
		time.Sleep(50 * time.Millisecond)
		r.n.offerAndWait()
		r.pend, r.pendSince, r.pendEvs = e, time.Now(), closing
		a.Closed, a.Freed = true, true
	} else {
		r.ending(e, a, closing)
	}
	runtime.ReadMemStats(&m1)
	if a.Cold {
		a.Alloc = int64(m1.TotalAlloc-m0.TotalAlloc) >> 20
	}
	a.Sent = e.sent
	r.n.offerAndWait()
	if !a.Hold {
		if x := r.visitor(a.Id + "v"); x != "" {
			a.Others = "a new peer afterwards: " + x
		}
	}
	toks := []Tok{}
	if e.log != nil {
		toks = e.log
	}
	st.Toks = &toks
	o := r.observe(r.n)
	st.Obs = &o
}

// a silent attacker comes to its end
func (r *runner) attend(st *Step) {
	e := r.pend
	a := &Attack{Then: "end", Id: st.Att.Id, Stim: []Stim{}}
	st.Att = a
	if e == nil || e.c == nil {
		a.Closed, a.Freed = true, true
	} else {
		time.Sleep(time.Until(r.pendSince.Add(32 * time.Second)))
		a.Id, a.Hs = e.id, e.log == nil
		func() {
			defer func() { recover() }()
			e.write(str16("cmd:ping"))
		}()
		r.ending(e, a, r.pendEvs)
	}
	r.pend = nil
	if x := r.visitor(a.Id + "w"); x != "" {
		a.Others = "a new peer afterwards: " + x
	}
	o := r.observe(r.n)
	st.Obs = &o
}

// nothing more comes from the attacker, which waits for the end
func (r *runner) ending(e *epeer, a *Attack, closing topic.Sub[bus.PeerClosingEvent]) {
	patience := 10 * time.Second
	if a.Then == "junk" {
		func() {
			defer func() { recover() }()
			out := make([]byte, 1+e.rng.Intn(3000))
			e.rng.Read(out)
			e.write(out)
		}()
	}
	if a.Then == "reset" {
		e.c.SetLinger(0)
		e.c.Close()
		a.Closed = true
	} else {
		e.c.CloseWrite()
		e.c.SetReadDeadline(time.Now().Add(patience))
		_, err := io.Copy(io.Discard, e.c)
		a.Closed = err == nil || !os.IsTimeout(err)
		e.c.Close()
	}
	for start := time.Now(); time.Since(start) < patience && !a.Freed; time.Sleep(time.Millisecond) {
		for v, ok := closing.Pop(); ok; v, ok = closing.Pop() {
			a.Freed = a.Freed || v.PeerRuntimeId == a.Id
		}
		if a.Hs {
			a.Freed = true
		}
	}
}

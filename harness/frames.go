package main

// Messages between two real protocol connections through a relay that cuts
// and delays the bytes.

import (
	"bufio"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"net"
	"os"
	"strings"
	"sync"
	"time"

	"github.com/levilutz/basiccoin/pkg/core"
	"github.com/levilutz/basiccoin/pkg/prot"
)

type FrameItem struct {
	K   string `json:"k"` // s (string), h, u, b, blk, mk, tx
	Len int    `json:"len"`
	Ls  []int  `json:"ls,omitempty"` // lengths of the keys and signatures of a tx
	Out int    `json:"out,omitempty"`
	Gap int    `json:"gap,omitempty"` // milliseconds before writing it
	Ms  int    `json:"ms,omitempty"`  // how long one read waits for a string
}

type FrameEv struct {
	E   string `json:"e"` // w or r
	D   string `json:"d"` // direction
	K   string `json:"k"`
	Ss  []int  `json:"ss"` // lengths of the strings in it
	Dig string `json:"dig"`
	Res string `json:"res"` // ok, refused, error, stuck
}

type FrameScript struct {
	Name string      `json:"name"`
	Seed int64       `json:"seed"`
	Seg  string      `json:"seg"`
	A    []FrameItem `json:"a"` // one side's messages
	B    []FrameItem `json:"b"` // the other side's
	Evs  []FrameEv   `json:"evs"`
	Done bool        `json:"done"`
}

func (it FrameItem) strings() []int {
	switch it.K {
	case "s":
		return []int{it.Len}
	case "tx":
		return append([]int{}, it.Ls[:len(it.Ls)/2*2]...)
	}
	return []int{}
}

func relay(rng *rand.Rand, seg string, from, to *net.TCPConn) {
	b := make([]byte, 1<<16)
	for {
		n, err := from.Read(b)
		p := b[:n]
		for len(p) > 0 {
			k := len(p)
			switch seg {
			case "byte":
				if len(p) < 3000 {
					k = 1
				} else {
					k = 1 + rng.Intn(len(p))
				}
			case "rand":
				k = 1 + rng.Intn(len(p))
			case "slow":
				k = 1 + rng.Intn(len(p))
				if rng.Intn(2) == 0 {
					k = 1
				}
				if rng.Intn(4) == 0 {
					time.Sleep(time.Duration(rng.Intn(150)) * time.Millisecond)
				}
			}
			if _, e := to.Write(p[:k]); e != nil {
				return
			}
			p = p[k:]
		}
		if err != nil {
			to.CloseWrite()
			return
		}
	}
}

func digest(b []byte) string { s := sha256.Sum256(b); return hex.EncodeToString(s[:6]) }

type frameConn struct {
	c    *prot.Conn
	rng  *rand.Rand
	dir  string
	logf func(FrameEv)
}

func randHash(r *rand.Rand) core.HashT {
	b := make([]byte, 32)
	r.Read(b)
	return core.NewHashTFromBytes(b)
}

// make the value of an item: the bytes that must arrive and how to write and read it
func frameValue(r *rand.Rand, it FrameItem) (raw []byte, write func(*prot.Conn), read func(*prot.Conn, time.Duration) []byte) {
	switch it.K {
	case "s":
		raw = make([]byte, it.Len)
		r.Read(raw)
		if it.Len > 8 && r.Intn(2) == 0 {
			// looks like further messages
			copy(raw[it.Len/2:], []byte{0, 4, 'c', 'm', 'd', ':', 0, 0})
		}
		write = func(c *prot.Conn) { c.Write(raw) }
		read = func(c *prot.Conn, d time.Duration) []byte { return c.ReadTimeout(d) }
	case "h":
		h := randHash(r)
		d := h.Data()
		raw = d[:]
		write = func(c *prot.Conn) { c.WriteHashT(h) }
		read = func(c *prot.Conn, _ time.Duration) []byte { d := c.ReadHashT().Data(); return d[:] }
	case "u":
		v := r.Uint64() >> uint(r.Intn(64))
		raw = u64(v)
		write = func(c *prot.Conn) { c.WriteUint64(v) }
		read = func(c *prot.Conn, _ time.Duration) []byte { return u64(c.ReadUint64()) }
	case "b":
		v := r.Intn(2) == 0
		enc := func(v bool) []byte {
			if v {
				return []byte{1}
			}
			return []byte{0}
		}
		raw = enc(v)
		write = func(c *prot.Conn) { c.WriteBool(v) }
		read = func(c *prot.Conn, _ time.Duration) []byte { return enc(c.ReadBool()) }
	case "blk":
		b := core.Block{PrevBlockId: randHash(r), MerkleRoot: randHash(r), Target: randHash(r), Noise: randHash(r),
			Nonce: r.Uint64(), MinedTime: r.Uint64()}
		raw = blkBytes(b)
		write = func(c *prot.Conn) { c.WriteBlock(b) }
		read = func(c *prot.Conn, _ time.Duration) []byte { return blkBytes(c.ReadBlock(b.Hash())) }
	case "mk":
		m := core.MerkleNode{LChild: randHash(r), RChild: randHash(r)}
		raw = mkBytes(m)
		write = func(c *prot.Conn) { c.WriteMerkle(m) }
		read = func(c *prot.Conn, _ time.Duration) []byte { return mkBytes(c.ReadMerkle(m.Hash())) }
	case "tx":
		t := core.Tx{IsCoinbase: r.Intn(2) == 0, MinBlock: r.Uint64() >> uint(r.Intn(64))}
		for i := 0; i+1 < len(it.Ls); i += 2 {
			pk, sg := make([]byte, it.Ls[i]), make([]byte, it.Ls[i+1])
			r.Read(pk)
			r.Read(sg)
			t.Inputs = append(t.Inputs, core.TxIn{Utxo: core.Utxo{TxId: randHash(r), Ind: r.Uint64() >> uint(r.Intn(64)), Value: r.Uint64()},
				PublicKey: pk, Signature: sg})
		}
		for i := 0; i < it.Out; i++ {
			t.Outputs = append(t.Outputs, core.TxOut{Value: r.Uint64(), PublicKeyHash: randHash(r)})
		}
		raw = txBytes(t)
		write = func(c *prot.Conn) { c.WriteTx(t) }
		read = func(c *prot.Conn, _ time.Duration) []byte { return txBytes(c.ReadTx(t.Hash())) }
	default:
		panic("script error: item " + it.K)
	}
	return
}

func runFrames(sc *FrameScript) {
	rng := rand.New(rand.NewSource(sc.Seed))
	listen := func() *net.TCPListener {
		a, _ := net.ResolveTCPAddr("tcp", loopback()+":0")
		l, err := net.ListenTCP("tcp", a)
		if err != nil {
			panic(err)
		}
		return l
	}
	l1, l2 := listen(), listen()
	defer l1.Close()
	defer l2.Close()
	go func() {
		c1, err := l1.AcceptTCP()
		if err != nil {
			return
		}
		c2, err := net.DialTCP("tcp", nil, l2.Addr().(*net.TCPAddr))
		if err != nil {
			return
		}
		go relay(rand.New(rand.NewSource(sc.Seed+1)), sc.Seg, c1, c2)
		relay(rand.New(rand.NewSource(sc.Seed+2)), sc.Seg, c2, c1)
	}()
	var ca, cb *prot.Conn
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		var err error
		ca, err = prot.ResolveConn(prot.NewParams("A", true, false), l1.Addr().String())
		if err != nil {
			panic(err)
		}
	}()
	go func() {
		defer wg.Done()
		c, err := l2.AcceptTCP()
		if err != nil {
			panic(err)
		}
		cb = prot.NewConn(prot.NewParams("B", false, false), c)
	}()
	wg.Wait()
	var mu sync.Mutex
	logf := func(e FrameEv) {
		mu.Lock()
		sc.Evs = append(sc.Evs, e)
		mu.Unlock()
	}
	hs := func(d string, c *prot.Conn, want string) bool {
		if c.HasErr() || c.PeerRuntimeId() != want {
			logf(FrameEv{"r", d, "handshake", []int{}, fmt.Sprint(c.Err()), "error"})
			return false
		}
		return true
	}
	okA, okB := hs("ba", ca, "B"), hs("ab", cb, "A")
	if !okA || !okB {
		return
	}
	// a connection is used by one routine at a time: strictly one writes while the other reads
	talk := func(d string, from, to *prot.Conn, items []FrameItem) bool {
		type val struct {
			raw   []byte
			write func(*prot.Conn)
			read  func(*prot.Conn, time.Duration) []byte
		}
		vals := []val{}
		for _, it := range items {
			raw, w, r := frameValue(rng, it)
			vals = append(vals, val{raw, w, r})
		}
		accepted := make(chan int, len(items)+1)
		go func() {
			for i, it := range items {
				time.Sleep(time.Duration(it.Gap) * time.Millisecond)
				// what the writer refuses must leave no trace on the wire; logged before the reader can see it
				mu.Lock()
				over := false
				vals[i].write(from)
				res := "ok"
				if err := from.Err(); err != nil {
					res = "refused"
					over = true
				}
				sc.Evs = append(sc.Evs, FrameEv{"w", d, it.K, it.strings(), digest(vals[i].raw), res})
				mu.Unlock()
				if !over {
					accepted <- i
				}
			}
			close(accepted)
		}()
		for i := range accepted {
			it := items[i]
			var got []byte
			res := "ok"
			wait := time.Duration(it.Ms) * time.Millisecond
			if it.Ms == 0 {
				wait = 30 * time.Second
			}
			start := time.Now()
			for {
				got = vals[i].read(to, wait)
				err := to.Err()
				if err == nil {
					break
				}
				if !os.IsTimeout(err) {
					res = "error"
					break
				}
				if time.Since(start) > 12*time.Second {
					res = "stuck"
					break
				}
			}
			logf(FrameEv{"r", d, it.K, []int{}, digest(got), res})
			if res != "ok" {
				return false
			}
		}
		return true
	}
	if talk("ab", ca, cb, sc.A) {
		sc.Done = talk("ba", cb, ca, sc.B)
	}
	ca.Close()
	cb.Close()
}

// frames <in> <out> <parallel>
func cmdFrames(args []string) {
	raw, err := os.ReadFile(args[0])
	if err != nil {
		panic(err)
	}
	par := 16
	fmt.Sscan(args[2], &par)
	out, err := os.Create(args[1])
	if err != nil {
		panic(err)
	}
	defer out.Close()
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan struct{}, par)
	rd := bufio.NewScanner(strings.NewReader(string(raw)))
	rd.Buffer(nil, 1<<26)
	for rd.Scan() {
		sc := &FrameScript{}
		if err := json.Unmarshal(rd.Bytes(), sc); err != nil {
			panic(err)
		}
		sc.Evs = []FrameEv{}
		sem <- struct{}{}
		wg.Add(1)
		go func() {
			defer func() { <-sem; wg.Done() }()
			runFrames(sc)
			b, _ := json.Marshal(sc)
			mu.Lock()
			out.Write(append(b, '\n'))
			mu.Unlock()
		}()
	}
	wg.Wait()
}

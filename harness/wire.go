package main

// An honest peer played by the harness: typed tokens over a real TCP
// connection to a real node, everything recorded.

import (
	"encoding/binary"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"net"
	"os"
	"sync/atomic"
	"time"

	"github.com/levilutz/basiccoin/pkg/core"
)

type Tok struct {
	D string      `json:"d"` // o: from the node, i: to the node, x: something that happens inside the node
	K string      `json:"k"`
	V interface{} `json:"v"`
}

type wireErr struct{ what string }

// node addresses: every node of the process has its own loopback address
var addrCount atomic.Uint64

func loopback() string {
	n := addrCount.Add(1)
	return fmt.Sprintf("127.%d.%d.%d", os.Getpid()%200+20, (n/250)%250+1, n%250+1)
}

type wire struct {
	w    *World
	c    *net.TCPConn
	log  []Tok
	seg  string // how bytes are cut: "", byte, slow, rand
	rng  *rand.Rand
	wait time.Duration
	dev  *Deviation // what an attacker does wrong
	sent int        // tokens sent
	nlog int        // how much of the log belongs to the handshake
	size int        // bytes written
}

func (x *wire) fail(f string, a ...interface{}) { panic(wireErr{fmt.Sprintf(f, a...)}) }

// (of a conversation that deviates, the part before is recorded)
func (x *wire) note(t Tok) {
	if x.dev == nil || !x.dev.done {
		x.log = append(x.log, t)
	}
}
func (x *wire) in(k string, v interface{})  { x.note(Tok{"i", k, v}) }
func (x *wire) out(k string, v interface{}) { x.note(Tok{"o", k, v}) }

// send one token
func (x *wire) emit(k string, v interface{}, b []byte) {
	x.sent++
	if d := x.dev; d != nil && !d.done {
		if d.Kind == "" && x.sent-1 == d.At {
			x.deviate(k, v, b)
			return
		}
		if d.Kind == k && x.nlog > 0 {
			if d.At == 0 {
				x.deviate(k, v, b)
				return
			}
			d.At--
		}
	}
	x.in(k, v)
	x.write(b)
}

// write bytes, cut into pieces
func (x *wire) write(b []byte) {
	x.size += len(b)
	for len(b) > 0 {
		n := len(b)
		switch x.seg {
		case "byte":
			n = 1
		case "rand":
			n = 1 + x.rng.Intn(len(b))
		case "slow":
			n = 1 + x.rng.Intn(len(b))
			if x.rng.Intn(3) == 0 {
				n = 1
			}
		}
		x.c.SetWriteDeadline(time.Now().Add(20 * time.Second))
		if _, err := x.c.Write(b[:n]); err != nil {
			x.fail("closed: %s", err)
		}
		b = b[n:]
		if len(b) > 0 {
			switch x.seg {
			case "slow":
				if x.rng.Intn(4) == 0 {
					time.Sleep(time.Duration(x.rng.Intn(260)) * time.Millisecond)
				}
			case "rand":
				if x.rng.Intn(8) == 0 {
					time.Sleep(time.Millisecond)
				}
			}
		}
	}
}

func (x *wire) read(n int) []byte {
	b := make([]byte, n)
	x.c.SetReadDeadline(time.Now().Add(x.wait))
	if _, err := io.ReadFull(x.c, b); err != nil {
		if os.IsTimeout(err) {
			x.fail("stuck")
		}
		x.fail("closed: %s", err)
	}
	return b
}

// is there something to read within d?
func (x *wire) quiet(d time.Duration) bool {
	raw, err := x.c.SyscallConn()
	if err != nil {
		return true
	}
	end := time.Now().Add(d)
	for {
		n := 0
		raw.Read(func(fd uintptr) bool {
			n = peek(int(fd))
			return true
		})
		if n > 0 {
			return false
		}
		if time.Now().After(end) {
			return true
		}
		time.Sleep(2 * time.Millisecond)
	}
}

func (x *wire) sendStr(s string) {
	b := make([]byte, 2)
	binary.BigEndian.PutUint16(b, uint16(len(s)))
	if x.seg == "hdr" && x.rng.Intn(2) == 0 {
		x.in("s", s)
		// the first byte of the length alone, for longer than the node waits at once
		x.write(b[:1])
		time.Sleep(time.Duration(105+x.rng.Intn(150)) * time.Millisecond)
		b = b[1:]
		x.write(append(b, s...))
		return
	}
	x.emit("s", s, append(b, s...))
}
func (x *wire) recvStr() string {
	n := binary.BigEndian.Uint16(x.read(2))
	s := string(x.read(int(n)))
	x.out("s", s)
	return s
}
func (x *wire) sendId(name string) {
	d := x.w.id(name).Data()
	x.emit("h", name, d[:])
}
func (x *wire) recvRaw() core.HashT { return core.NewHashTFromBytes(x.read(32)) }
func (x *wire) recvId() string {
	n := x.w.name(x.recvRaw())
	x.out("h", n)
	return n
}
func (x *wire) sendWork(v int64) {
	d := core.NewHashTFromBigInt(big.NewInt(v)).Data()
	x.emit("w", v, d[:])
}
func (x *wire) recvWork() int64 {
	v := hashInt(x.recvRaw())
	n := int64(-1)
	if v.IsInt64() && v.Int64() < 1<<30 {
		n = v.Int64()
	}
	x.out("w", n)
	return n
}
func (x *wire) sendBool(v bool) {
	if v {
		x.emit("b", v, []byte{1})
	} else {
		x.emit("b", v, []byte{0})
	}
}
func (x *wire) recvBool() bool {
	b := x.read(1)[0]
	if b > 1 {
		x.out("b", fmt.Sprint("byte", b))
		x.fail("bad boolean")
	}
	x.out("b", b == 1)
	return b == 1
}
func u64(v uint64) []byte {
	b := make([]byte, 8)
	binary.BigEndian.PutUint64(b, v)
	return b
}
func (x *wire) sendU(v int64) {
	x.emit("u", v, u64(uint64(v)))
}
func (x *wire) rawU() uint64 { return binary.BigEndian.Uint64(x.read(8)) }
func (x *wire) recvU() int64 {
	v := int64(x.rawU())
	if v < 0 || v > 1<<20 {
		v = -1
	}
	x.out("u", v)
	return v
}

func blkBytes(b core.Block) []byte {
	out := []byte{}
	for _, h := range []core.HashT{b.PrevBlockId, b.MerkleRoot, b.Target, b.Noise} {
		d := h.Data()
		out = append(out, d[:]...)
	}
	out = append(out, u64(b.Nonce)...)
	return append(out, u64(b.MinedTime)...)
}
func (x *wire) sendBlk(n string) {
	x.emit("blk", n, blkBytes(x.w.blk(n)))
}
func (x *wire) recvBlk() string {
	b := core.Block{PrevBlockId: x.recvRaw(), MerkleRoot: x.recvRaw(), Target: x.recvRaw(), Noise: x.recvRaw(),
		Nonce: x.rawU(), MinedTime: x.rawU()}
	n := x.w.name(b.Hash())
	if _, ok := x.w.Blks[n]; !ok {
		x.out("blk", "?")
		return "?"
	}
	if x.w.blk(n) != b {
		n = "altered:" + n
	}
	x.out("blk", n)
	return n
}
func mkBytes(m core.MerkleNode) []byte {
	l, r := m.LChild.Data(), m.RChild.Data()
	return append(append([]byte{}, l[:]...), r[:]...)
}
func (x *wire) sendMk(n string) {
	x.emit("mk", n, mkBytes(x.w.mk(n)))
}
func (x *wire) recvMk() string {
	m := core.MerkleNode{LChild: x.recvRaw(), RChild: x.recvRaw()}
	n := "?"
	for name := range x.w.Mks {
		if x.w.mk(name) == m {
			n = name
		}
	}
	x.out("mk", n)
	return n
}
func txBytes(t core.Tx) []byte {
	out := []byte{0}
	if t.IsCoinbase {
		out[0] = 1
	}
	out = append(out, u64(t.MinBlock)...)
	out = append(out, u64(uint64(len(t.Inputs)))...)
	out = append(out, u64(uint64(len(t.Outputs)))...)
	str := func(b []byte) {
		l := make([]byte, 2)
		binary.BigEndian.PutUint16(l, uint16(len(b)))
		out = append(append(out, l...), b...)
	}
	for _, i := range t.Inputs {
		d := i.Utxo.TxId.Data()
		out = append(out, d[:]...)
		out = append(out, u64(i.Utxo.Ind)...)
		out = append(out, u64(i.Utxo.Value)...)
		str(i.PublicKey)
		str(i.Signature)
	}
	for _, o := range t.Outputs {
		out = append(out, u64(o.Value)...)
		d := o.PublicKeyHash.Data()
		out = append(out, d[:]...)
	}
	return out
}
func (x *wire) sendTx(n string) {
	x.emit("tx", n, txBytes(x.w.tx(n)))
}
func (x *wire) recvTx() string {
	t := core.Tx{IsCoinbase: x.read(1)[0] == 1, MinBlock: x.rawU()}
	ni, no := x.rawU(), x.rawU()
	if ni > 10000 || no > 10000 {
		x.fail("absurd transaction")
	}
	str := func() []byte { return x.read(int(binary.BigEndian.Uint16(x.read(2)))) }
	for i := 0; i < int(ni); i++ {
		t.Inputs = append(t.Inputs, core.TxIn{Utxo: core.Utxo{TxId: x.recvRaw(), Ind: x.rawU(), Value: x.rawU()},
			PublicKey: str(), Signature: str()})
	}
	for i := 0; i < int(no); i++ {
		t.Outputs = append(t.Outputs, core.TxOut{Value: x.rawU(), PublicKeyHash: x.recvRaw()})
	}
	n := "?"
	raw := string(txBytes(t))
	for name := range x.w.Txs {
		if string(txBytes(x.w.tx(name))) == raw {
			n = name
		}
	}
	x.out("tx", n)
	return n
}

// the handshake of an honest node
func (x *wire) handshake(id string) (theirs string, ok bool) {
	x.sendStr("levilutz/basiccoin")
	x.sendStr("v0.0.0")
	x.sendStr(id)
	if a, b := x.recvStr(), x.recvStr(); a != "levilutz/basiccoin" || b != "v0.0.0" {
		x.fail("handshake %q %q", a, b)
	}
	theirs = x.recvStr()
	x.sendStr("continue")
	ok = x.recvStr() == "continue"
	x.log = nil
	x.nlog = x.sent
	return
}

func dial(addr string) *net.TCPConn {
	for i := 0; i < 1500; i++ {
		a, _ := net.ResolveTCPAddr("tcp", addr)
		if c, err := net.DialTCP("tcp", nil, a); err == nil {
			return c
		}
		time.Sleep(10 * time.Millisecond)
	}
	return nil
}

package main

// The universe of one scenario: abstract entities (ids like "t3", "m2", "b1",
// keys like "k1") and the real objects they stand for.

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/sha256"
	"crypto/x509"
	"encoding/asn1"
	"fmt"
	"math/big"
	mrand "math/rand"
	"sync"

	"github.com/levilutz/basiccoin/pkg/core"
)

const capU = 10000000

// ---- amounts: the number a*capU+b stands for a*2^62+b (|b| small) ----

func decVal(v int64) uint64 {
	a := (v + capU/2) / capU
	b := v - a*capU
	x := new(big.Int).Lsh(big.NewInt(a), 62)
	x.Add(x, big.NewInt(b))
	return x.Uint64()
}

func encVal(x uint64) int64 {
	q := new(big.Int).SetUint64(x)
	half := new(big.Int).Lsh(big.NewInt(1), 61)
	a := new(big.Int).Rsh(new(big.Int).Add(q, half), 62)
	b := new(big.Int).Sub(q, new(big.Int).Lsh(a, 62))
	if b.CmpAbs(big.NewInt(capU/2)) >= 0 {
		return -7 // not representable: no model value is negative
	}
	return a.Int64()*capU + b.Int64()
}

// ---- targets ----

type Tgt struct {
	Q []int64 `json:"q"`
	W int64   `json:"w"`
}

// target with t units of 2^236
func tgtHash(t int64) core.HashT {
	x := new(big.Int).Lsh(big.NewInt(t), 236)
	return core.NewHashTFromBigInt(x)
}

func hashInt(h core.HashT) *big.Int {
	d := h.Data()
	return new(big.Int).SetBytes(d[:])
}

func tgtOf(h core.HashT) Tgt {
	x := hashInt(h)
	out := Tgt{}
	d := h.Data()
	for i := 0; i < 32; i += 2 {
		out.Q = append(out.Q, int64(d[i])<<8|int64(d[i+1]))
	}
	if x.Sign() > 0 {
		max := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1))
		w := max.Div(max, x)
		if w.IsInt64() && w.Int64() < 1<<30 {
			out.W = w.Int64()
		} else {
			out.W = 1 << 30
		}
	}
	return out
}

func lessInt(h core.HashT, t core.HashT) bool { return hashInt(h).Cmp(hashInt(t)) < 0 }

// ---- keys ----

type key struct {
	priv *ecdsa.PrivateKey
	pub  []byte
	pkh  core.HashT
}

func dhash(b []byte) core.HashT {
	f := sha256.Sum256(b)
	g := sha256.Sum256(f[:])
	return core.NewHashTFromBytes(g[:])
}

func newKey() *key {
	priv, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		panic(err)
	}
	pub, err := x509.MarshalPKIXPublicKey(priv.Public())
	if err != nil {
		panic(err)
	}
	return &key{priv, pub, dhash(pub)}
}

var keyPool []*key
var keyPoolMu sync.Mutex

// the first two keys have hashes that begin alike, the next two hashes that end alike
func lookalikes() []*key {
	ks := make([]*key, 5000)
	for i := range ks {
		ks[i] = newKey()
	}
	pair := func(part func(d [32]byte) string) []*key {
		by := map[string]int{}
		for i, k := range ks {
			if k == nil {
				continue
			}
			x := part(k.pkh.Data())
			if j, ok := by[x]; ok {
				out := []*key{ks[j], k}
				ks[i], ks[j] = nil, nil
				return out
			}
			by[x] = i
		}
		return nil
	}
	first := pair(func(d [32]byte) string { return string(d[:3]) })
	if first == nil {
		first = pair(func(d [32]byte) string { return string(d[:2]) })
	}
	last := pair(func(d [32]byte) string { return string(d[29:]) })
	if last == nil {
		last = pair(func(d [32]byte) string { return string(d[30:]) })
	}
	return append(first, last...)
}

// the n-th key of the process (scenarios share keys: they never share nodes)
func poolKey(n int) *key {
	keyPoolMu.Lock()
	defer keyPoolMu.Unlock()
	if len(keyPool) == 0 {
		keyPool = lookalikes()
	}
	for len(keyPool) <= n {
		keyPool = append(keyPool, newKey())
	}
	return keyPool[n]
}

// ---- script ----

type InDef struct {
	Tx  string `json:"tx"`
	Ind int64  `json:"ind"`
	Val int64  `json:"val"`
	Key string `json:"key"`
	// how the signature is made: ok, mall (other valid encoding), garbage, empty,
	// other:<key>, outs (signed a different first amount), dest (signed a different
	// recipient), order (outputs signed in another order), minb, drop (last output
	// not signed), extra, junkpk
	How string `json:"how"`
	// filled in when realised
	Sig bool  `json:"sig"`
	Pk  int64 `json:"pk"`
	Sg  int64 `json:"sg"`
}
type OutDef struct {
	Val int64  `json:"val"`
	Key string `json:"key"`
}
type TxDef struct {
	Cb   bool     `json:"cb"`
	MinB int64    `json:"minb"`
	Ins  []InDef  `json:"ins"`
	Outs []OutDef `json:"outs"`
}
type MkDef struct {
	L string `json:"l"`
	R string `json:"r"`
}
type BlkDef struct {
	Prev string `json:"prev"`
	Root string `json:"root"`
	Time int64  `json:"time"`
	T    int64  `json:"t,omitempty"`   // target in units of 2^236 (script)
	Bad  bool   `json:"bad,omitempty"` // make the id miss the target
	Tg   Tgt    `json:"tg"`
	Pow  bool   `json:"pow"`
}
type ParDef struct {
	Reward int64 `json:"reward"`
	Dp     int64 `json:"dp"`
	Btt    int64 `json:"btt"`
	MaxBlk int64 `json:"maxBlk"`
	MaxTx  int64 `json:"maxTx"`
	MaxT   int64 `json:"maxTu,omitempty"`
	OrigT  int64 `json:"origTu,omitempty"`
	// limits taken from the real size of a transaction or block, plus a difference
	MaxTxRef  string   `json:"maxTxRef,omitempty"`
	MaxTxD    int64    `json:"maxTxD,omitempty"`
	MaxBlkRef string   `json:"maxBlkRef,omitempty"`
	MaxBlkTx  []string `json:"maxBlkTx,omitempty"`
	MaxBlkD   int64    `json:"maxBlkD,omitempty"`
	TMax      Tgt      `json:"maxT"`
	TOrig     Tgt      `json:"origT"`
}
type OfferDef struct {
	Head string   `json:"head"`
	Txs  []string `json:"txs"`
	Mks  []string `json:"mks"`
	Blks []string `json:"blks"`
}

type World struct {
	P     ParDef             `json:"P"`
	Keys  []string           `json:"keys"`
	Txs   map[string]*TxDef  `json:"txs"`
	Mks   map[string]*MkDef  `json:"mks"`
	Blks  map[string]*BlkDef `json:"blks"`
	base  int64
	keys  map[string]*key
	rtx   map[string]core.Tx
	rmk   map[string]core.MerkleNode
	rblk  map[string]core.Block
	ids   map[string]core.HashT
	names map[core.HashT]string
	pkhs  map[core.HashT]string
}

func (w *World) params() core.Params {
	return core.Params{
		BlockReward:      decVal(w.P.Reward),
		DifficultyPeriod: uint64(w.P.Dp),
		BlockTargetTime:  uint64(w.P.Btt),
		MaxBlockVSize:    uint64(w.P.MaxBlk),
		MaxTxVSize:       uint64(w.P.MaxTx),
		MaxTarget:        tgtHash(w.P.MaxT),
		OriginalTarget:   tgtHash(w.P.OrigT),
	}
}

func (w *World) init(base int64) {
	w.base = base
	w.P.TMax = tgtOf(tgtHash(w.P.MaxT))
	w.P.TOrig = tgtOf(tgtHash(w.P.OrigT))
	w.keys = map[string]*key{}
	w.pkhs = map[core.HashT]string{}
	for i, k := range w.Keys {
		w.keys[k] = poolKey(i)
		if k == "z" { // nobody's: the hash is zero
			w.keys[k] = &key{w.keys[k].priv, w.keys[k].pub, core.HashT{}}
		}
		w.pkhs[w.keys[k].pkh] = k
	}
	w.rtx = map[string]core.Tx{}
	w.rmk = map[string]core.MerkleNode{}
	w.rblk = map[string]core.Block{}
	w.ids = map[string]core.HashT{"0": {}}
	w.names = map[core.HashT]string{{}: "0"}
	if w.Txs == nil {
		w.Txs = map[string]*TxDef{}
	}
	if w.Mks == nil {
		w.Mks = map[string]*MkDef{}
	}
	if w.Blks == nil {
		w.Blks = map[string]*BlkDef{}
	}
}

func (w *World) name(id core.HashT) string {
	if n, ok := w.names[id]; ok {
		return n
	}
	return "?" + id.String()[:12]
}

func (w *World) setId(name string, id core.HashT) {
	if other, ok := w.names[id]; ok && other != name {
		panic(fmt.Sprintf("script error: %s and %s are the same entity", name, other))
	}
	w.ids[name] = id
	w.names[id] = name
}

// id of any entity (realising it if needed); unknown names get a random id
func (w *World) id(name string) core.HashT {
	if id, ok := w.ids[name]; ok {
		return id
	}
	if _, ok := w.Txs[name]; ok {
		w.tx(name)
	} else if _, ok := w.Mks[name]; ok {
		w.mk(name)
	} else if _, ok := w.Blks[name]; ok {
		w.blk(name)
	} else {
		w.setId(name, core.NewHashTRand())
	}
	return w.ids[name]
}

func (w *World) pkh(k string) core.HashT {
	if kk, ok := w.keys[k]; ok {
		return kk.pkh
	}
	return w.id("pkh:" + k)
}

func sign(k *key, h core.HashT) []byte {
	d := h.Data()
	sig, err := ecdsa.SignASN1(rand.Reader, k.priv, d[:])
	if err != nil {
		panic(err)
	}
	return sig
}

type rs struct{ R, S *big.Int }

func (w *World) tx(name string) core.Tx {
	if t, ok := w.rtx[name]; ok {
		return t
	}
	d := w.Txs[name]
	t := core.Tx{IsCoinbase: d.Cb, MinBlock: decVal(d.MinB), Inputs: []core.TxIn{}, Outputs: []core.TxOut{}}
	for _, o := range d.Outs {
		t.Outputs = append(t.Outputs, core.TxOut{Value: decVal(o.Val), PublicKeyHash: w.pkh(o.Key)})
	}
	pre := core.TxHashPreSig(t.MinBlock, t.Outputs)
	for i := range d.Ins {
		in := &d.Ins[i]
		k := w.keys[in.Key]
		pub := k.pub
		var sig []byte
		in.Sig = false
		outs := append([]core.TxOut{}, t.Outputs...)
		switch {
		case in.How == "" || in.How == "ok":
			sig = sign(k, pre)
			in.Sig = true
		case in.How == "mall":
			s0 := sign(k, pre)
			var v rs
			asn1.Unmarshal(s0, &v)
			v.S = new(big.Int).Sub(elliptic.P256().Params().N, v.S)
			sig, _ = asn1.Marshal(v)
			in.Sig = true
		case in.How == "garbage":
			sig = sign(k, pre)
			sig[len(sig)-3] ^= 0x10
		case in.How == "empty":
			sig = []byte{}
		case len(in.How) > 6 && in.How[:6] == "other:":
			sig = sign(w.keys[in.How[6:]], pre)
		case in.How == "outs":
			if len(outs) == 0 {
				outs = append(outs, core.TxOut{Value: 1})
			} else {
				outs[0].Value++
			}
			sig = sign(k, core.TxHashPreSig(t.MinBlock, outs))
		case in.How == "lastout":
			if len(outs) == 0 {
				outs = append(outs, core.TxOut{Value: 1})
			} else {
				outs[len(outs)-1].Value++
			}
			sig = sign(k, core.TxHashPreSig(t.MinBlock, outs))
		case in.How == "dest":
			if len(outs) == 0 {
				outs = append(outs, core.TxOut{Value: 1})
			} else {
				outs[len(outs)-1].PublicKeyHash = core.NewHashTRand()
			}
			sig = sign(k, core.TxHashPreSig(t.MinBlock, outs))
		case in.How == "order":
			if len(outs) < 2 || outs[0] == outs[len(outs)-1] {
				outs = append(outs, core.TxOut{Value: 1})
			} else {
				outs[0], outs[len(outs)-1] = outs[len(outs)-1], outs[0]
			}
			sig = sign(k, core.TxHashPreSig(t.MinBlock, outs))
		case in.How == "drop":
			if len(outs) == 0 {
				outs = append(outs, core.TxOut{Value: 1})
			} else {
				outs = outs[:len(outs)-1]
			}
			sig = sign(k, core.TxHashPreSig(t.MinBlock, outs))
		case in.How == "minb":
			sig = sign(k, core.TxHashPreSig(t.MinBlock+1, outs))
		case in.How == "minb0":
			if t.MinBlock == 0 {
				sig = sign(k, core.TxHashPreSig(7, outs))
			} else {
				sig = sign(k, core.TxHashPreSig(0, outs))
			}
		case in.How == "junkpk":
			pub = append([]byte{}, k.pub...)
			pub[1] ^= 0x55
			sig = sign(k, pre)
		case in.How == "emptypk":
			pub = []byte{}
			sig = sign(k, pre)
		default:
			panic("script error: signature mode " + in.How)
		}
		in.Pk = int64(len(pub))
		in.Sg = int64(len(sig))
		t.Inputs = append(t.Inputs, core.TxIn{
			Utxo:      core.Utxo{TxId: w.id(in.Tx), Ind: decVal(in.Ind), Value: decVal(in.Val)},
			PublicKey: pub, Signature: sig,
		})
	}
	w.rtx[name] = t
	w.setId(name, t.Hash())
	return t
}

func (w *World) mk(name string) core.MerkleNode {
	if m, ok := w.rmk[name]; ok {
		return m
	}
	d := w.Mks[name]
	m := core.MerkleNode{LChild: w.id(d.L), RChild: w.id(d.R)}
	w.rmk[name] = m
	w.setId(name, m.Hash())
	return m
}

// where the search for a nonce starts: anywhere in 64 bits
func firstNonce() uint64 {
	switch mrand.Intn(6) {
	case 0:
		return 0
	case 1:
		return 1<<63 - uint64(mrand.Intn(3))
	case 2:
		return 1<<64 - 1 - uint64(mrand.Intn(3))
	case 3:
		return 1<<53 + uint64(mrand.Intn(3))
	}
	return mrand.Uint64()
}

func (w *World) blk(name string) core.Block {
	if b, ok := w.rblk[name]; ok {
		return b
	}
	d := w.Blks[name]
	b := core.Block{
		PrevBlockId: w.id(d.Prev), MerkleRoot: w.id(d.Root), Target: tgtHash(d.T),
		Noise: core.NewHashTRand(), Nonce: firstNonce(), MinedTime: uint64(w.base + d.Time),
	}
	for lessInt(b.Hash(), b.Target) == d.Bad {
		b.Nonce++
	}
	d.Tg = tgtOf(b.Target)
	d.Pow = !d.Bad
	w.rblk[name] = b
	w.setId(name, b.Hash())
	return b
}

// realise everything (so that every definition is complete when written out)
func (w *World) all() {
	for n := range w.Txs {
		w.id(n)
	}
	for n := range w.Mks {
		w.id(n)
	}
	for n := range w.Blks {
		w.id(n)
	}
}

func (w *World) vsize(t string) int64 {
	d := w.Txs[t]
	n := int64(72 + 40*len(d.Outs))
	for _, i := range d.Ins {
		n += 48 + i.Pk + i.Sg
	}
	return n
}

// size of everything under a tree node (a repeated subtree counts once)
func (w *World) treeSize(id string) int64 {
	if _, ok := w.Txs[id]; ok {
		return w.vsize(id)
	}
	m, ok := w.Mks[id]
	if !ok {
		return 0
	}
	if m.L == m.R {
		return w.treeSize(m.L)
	}
	return w.treeSize(m.L) + w.treeSize(m.R)
}

// limits that refer to realised entities
func (w *World) limits() {
	if w.P.MaxTxRef != "" {
		w.P.MaxTx = w.vsize(w.P.MaxTxRef) + w.P.MaxTxD
	}
	if w.P.MaxBlkRef != "" {
		w.P.MaxBlk = w.treeSize(w.Blks[w.P.MaxBlkRef].Root) + w.P.MaxBlkD
	}
	if len(w.P.MaxBlkTx) > 0 {
		n := int64(112)
		for _, t := range w.P.MaxBlkTx {
			n += w.vsize(t)
		}
		w.P.MaxBlk = n + w.P.MaxBlkD
	}
	if w.P.MaxBlk < 340 {
		w.P.MaxBlk = 340
	}
}

// adopt an entity made outside of the script
func (w *World) addBlk(name string, b core.Block) {
	w.Blks[name] = &BlkDef{Prev: w.name(b.PrevBlockId), Root: w.name(b.MerkleRoot),
		Time: int64(b.MinedTime) - w.base, Tg: tgtOf(b.Target), Pow: lessInt(b.Hash(), b.Target)}
	w.rblk[name] = b
	w.setId(name, b.Hash())
}

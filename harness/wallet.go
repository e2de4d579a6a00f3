package main

// Transactions built from owned outputs by the real code.

import (
	"bufio"
	"crypto/ecdsa"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"sync"

	"github.com/levilutz/basiccoin/pkg/core"
)

type wAmt [2]int64

func (a wAmt) real() uint64 { return uint64(a[0])<<62 + uint64(a[1]) }
func wAmtOf(v uint64) wAmt {
	for h := int64(0); h <= 4; h++ {
		d := v - uint64(h)<<62 // modulo 2^64
		if h == 4 && v < 1<<63 {
			continue
		}
		if h == 0 && v >= 1<<63 {
			continue
		}
		if int64(d) > -1<<30 && int64(d) < 1<<30 {
			return wAmt{h, int64(d)}
		}
	}
	return wAmt{-1, 0}
}

type wUtxo struct {
	Val wAmt `json:"val"`
	Key int  `json:"key"`
}
type wDest struct {
	Key int  `json:"key"`
	Val wAmt `json:"val"`
}
type wCase struct {
	Utxos []wUtxo  `json:"utxos"`
	Dests []wDest  `json:"dests"`
	Rate  [2]int64 `json:"rate"`
	MaxTx int64    `json:"maxtx"`
	MinB  int64    `json:"minb"`
	Merge bool     `json:"merge"`
}
type wIn struct {
	I   int  `json:"i"`
	Pk  bool `json:"pk"`
	Sig bool `json:"sig"`
}
type wRes struct {
	Err   bool    `json:"err"`
	Panic bool    `json:"panic"`
	What  string  `json:"what"`
	Ins   []wIn   `json:"ins"`
	Outs  []wDest `json:"outs"`
	MinB  int64   `json:"minb"`
	Cb    bool    `json:"cb"`
	Size  int64   `json:"size"`
}

var wKeys = func() map[int]*ecdsa.PrivateKey {
	m := map[int]*ecdsa.PrivateKey{}
	for _, k := range []int{1, 2, 3, 7} {
		p, err := core.NewEcdsa()
		if err != nil {
			panic(err)
		}
		m[k] = p
	}
	return m
}

func wPkh(keys map[int]*ecdsa.PrivateKey, k int) core.HashT {
	if p, ok := keys[k]; ok {
		pub, _ := core.MarshalEcdsaPublic(p)
		return core.DHashBytes(pub)
	}
	return core.DHashBytes([]byte(fmt.Sprintf("someone %d", k)))
}

// what a transaction is, in the terms of the case
func wDescribe(c wCase, tx core.Tx, keys map[int]*ecdsa.PrivateKey, utxos []core.Utxo) (r wRes) {
	r.Ins, r.Outs = []wIn{}, []wDest{}
	size := 72
	pre := core.TxHashPreSig(tx.MinBlock, tx.Outputs)
	for _, in := range tx.Inputs {
		w := wIn{}
		for i, u := range utxos {
			if u == in.Utxo {
				w.I = i + 1
				w.Pk = core.DHashBytes(in.PublicKey) == wPkh(keys, c.Utxos[i].Key)
			}
		}
		w.Sig, _ = core.EcdsaVerify(in.PublicKey, pre, in.Signature)
		size += 48 + len(in.PublicKey) + len(in.Signature)
		r.Ins = append(r.Ins, w)
	}
	for _, o := range tx.Outputs {
		d := wDest{Key: 99, Val: wAmtOf(o.Value)}
		for k := 1; k < 30; k++ {
			if wPkh(keys, k) == o.PublicKeyHash {
				d.Key = k
			}
		}
		size += 40
		r.Outs = append(r.Outs, d)
	}
	r.MinB, r.Cb, r.Size = int64(tx.MinBlock), tx.IsCoinbase, int64(size)
	return
}

func wBuild(c wCase, keys map[int]*ecdsa.PrivateKey) (r wRes) {
	defer func() {
		if x := recover(); x != nil {
			r = wRes{Panic: true, What: fmt.Sprint(x), Ins: []wIn{}, Outs: []wDest{}}
		}
	}()
	p := core.ProdNetParams()
	p.MaxTxVSize = uint64(c.MaxTx)
	rate := math.Inf(1)
	if c.Rate[1] != 0 {
		rate = float64(c.Rate[0]) / float64(c.Rate[1])
	}
	if c.Rate[1] == 0 && c.MinB%2 == 1 {
		rate = 1e300
	}
	var privs []*ecdsa.PrivateKey
	for _, k := range []int{1, 2, 3} {
		privs = append(privs, keys[k])
	}
	var utxos []core.Utxo
	owned := map[core.Utxo]core.HashT{}
	for i, u := range c.Utxos {
		x := core.Utxo{TxId: core.DHashBytes([]byte{byte(i)}), Ind: uint64(i % 3), Value: u.Val.real()}
		utxos = append(utxos, x)
		owned[x] = wPkh(keys, u.Key)
	}
	dests := map[core.HashT]uint64{}
	for _, d := range c.Dests {
		dests[wPkh(keys, d.Key)] = d.Val.real()
	}
	var tx *core.Tx
	var err error
	if c.Merge {
		tx, err = core.MakeConsolidateTx(p, privs, owned, rate, uint64(c.MinB))
	} else {
		tx, err = core.MakeOutboundTx(p, privs, owned, dests, rate, uint64(c.MinB))
	}
	if err != nil {
		return wRes{Err: true, What: err.Error(), Ins: []wIn{}, Outs: []wDest{}}
	}
	return wDescribe(c, *tx, keys, utxos)
}

// wallet <in> <out>
func cmdWallet(args []string) {
	in, err := os.Open(args[0])
	if err != nil {
		panic(err)
	}
	defer in.Close()
	var raws []json.RawMessage
	d := json.NewDecoder(in)
	for d.More() {
		var x json.RawMessage
		if err := d.Decode(&x); err != nil {
			panic(err)
		}
		raws = append(raws, x)
	}
	outs := make([][]byte, len(raws))
	keys := wKeys()
	var wg sync.WaitGroup
	for w := 0; w < 8; w++ {
		w := w
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := w; i < len(raws); i += 8 {
				var c wCase
				if err := json.Unmarshal(raws[i], &c); err != nil {
					panic(err)
				}
				outs[i], _ = json.Marshal(map[string]interface{}{"c": raws[i], "r": wBuild(c, keys)})
			}
		}()
	}
	wg.Wait()
	o, err := os.Create(args[1])
	if err != nil {
		panic(err)
	}
	b := bufio.NewWriter(o)
	for _, x := range outs {
		b.Write(append(x, '\n'))
	}
	b.Flush()
	o.Close()
}

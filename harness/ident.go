package main

// The names the real code gives to entities.

import (
	"bufio"
	"encoding/json"
	"os"

	"github.com/levilutz/basiccoin/pkg/core"
)

type identEnt struct {
	K string          `json:"k"`
	X json.RawMessage `json:"x"`
}
type identTx struct {
	Cb   bool  `json:"cb"`
	MinB int64 `json:"minb"`
	Ins  []struct {
		Tx  int64 `json:"tx"`
		Ind int64 `json:"ind"`
		Val int64 `json:"val"`
		Pk  []int `json:"pk"`
		Sg  []int `json:"sg"`
	} `json:"ins"`
	Outs []struct {
		Val int64 `json:"val"`
		Key int64 `json:"key"`
	} `json:"outs"`
}
type identMk struct{ L, R int64 }
type identBlk struct{ Prev, Root, Tg, Noise, Nonce, Time int64 }

func identNum(x int64) uint64 {
	return []uint64{0, 1, 1<<64 - 1}[x]
}
func identId(x int64) core.HashT {
	b := make([]byte, 32)
	switch x {
	case 1:
		b[31] = 1
	case 2:
		b[0] = 1
	case 3:
		for i := range b {
			b[i] = 255
		}
	}
	return core.NewHashTFromBytes(b)
}
func identBytes(x []int) []byte {
	b := []byte{}
	for _, v := range x {
		b = append(b, byte(v))
	}
	return b
}

// ident <in> <out>
func cmdIdent(args []string) {
	in, err := os.Open(args[0])
	if err != nil {
		panic(err)
	}
	out, err := os.Create(args[1])
	if err != nil {
		panic(err)
	}
	w := bufio.NewWriter(out)
	defer out.Close()
	defer w.Flush()
	r := bufio.NewScanner(in)
	r.Buffer(make([]byte, 1<<20), 1<<24)
	for r.Scan() {
		var e identEnt
		if err := json.Unmarshal(r.Bytes(), &e); err != nil {
			panic(err)
		}
		var id core.HashT
		switch e.K {
		case "tx":
			var x identTx
			if err := json.Unmarshal(e.X, &x); err != nil {
				panic(err)
			}
			t := core.Tx{IsCoinbase: x.Cb, MinBlock: identNum(x.MinB), Inputs: []core.TxIn{}, Outputs: []core.TxOut{}}
			for _, i := range x.Ins {
				t.Inputs = append(t.Inputs, core.TxIn{Utxo: core.Utxo{TxId: identId(i.Tx), Ind: identNum(i.Ind), Value: identNum(i.Val)},
					PublicKey: identBytes(i.Pk), Signature: identBytes(i.Sg)})
			}
			for _, o := range x.Outs {
				t.Outputs = append(t.Outputs, core.TxOut{Value: identNum(o.Val), PublicKeyHash: identId(o.Key)})
			}
			id = t.Hash()
		case "mk":
			var x identMk
			if err := json.Unmarshal(e.X, &x); err != nil {
				panic(err)
			}
			id = core.MerkleNode{LChild: identId(x.L), RChild: identId(x.R)}.Hash()
		case "blk":
			var x identBlk
			if err := json.Unmarshal(e.X, &x); err != nil {
				panic(err)
			}
			id = core.Block{PrevBlockId: identId(x.Prev), MerkleRoot: identId(x.Root), Target: identId(x.Tg),
				Noise: identId(x.Noise), Nonce: identNum(x.Nonce), MinedTime: identNum(x.Time)}.Hash()
		}
		d := id.Data()
		raw, _ := json.Marshal(map[string]interface{}{"e": json.RawMessage(r.Bytes()), "n": core.NewHashTFromBytes(d[:]).String()})
		w.Write(append(raw, '\n'))
	}
}

package main

// Payments and consolidations by the repository's wallet program, with the
// outputs of a case on the node it is connected to.

import (
	"bufio"
	"context"
	"crypto/x509"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/levilutz/basiccoin/internal/rest/models"
	"github.com/levilutz/basiccoin/pkg/core"
)

type cwIn struct {
	C    json.RawMessage `json:"c"`
	Say  string          `json:"say"`  // what is answered to the question
	Node string          `json:"node"` // "": it accepts; refuse; wrongid
	Dev  bool            `json:"dev"`
}
type cwOut struct {
	C      json.RawMessage `json:"c"`
	Say    string          `json:"say"`
	Node   string          `json:"node"`
	Dev    bool            `json:"dev"`
	R      wRes            `json:"r"`
	Posts  int             `json:"posts"`
	Asked  bool            `json:"asked"` // the question was put
	Fee    wAmt            `json:"fee"`   // as shown with it
	Shown  wAmt            `json:"shown"` // outputs, as shown
	Ok     bool            `json:"ok"`    // it ended with success
	Right  bool            `json:"right"` // it asked for the outputs of its own keys, without pending ones
	Stable bool            `json:"stable"`
	Out    string          `json:"out"`
}

var cwNum = map[string]*regexp.Regexp{
	"outputs": regexp.MustCompile(`(?m)^outputs: (\d+)`),
	"fees":    regexp.MustCompile(`(?m)^fees: (\d+)`),
}

func cwShown(out, what string) wAmt {
	m := cwNum[what].FindStringSubmatch(out)
	if m == nil {
		return wAmt{-1, 0}
	}
	v, err := strconv.ParseUint(m[1], 10, 64)
	if err != nil {
		return wAmt{-1, 1}
	}
	return wAmtOf(v)
}

func cwRun(bin, dir string, node *cliNode, name string, in cwIn) (o cwOut) {
	o = cwOut{C: in.C, Say: in.Say, Node: in.Node, Dev: in.Dev}
	var c wCase
	if err := json.Unmarshal(in.C, &c); err != nil {
		panic(err)
	}
	keys := wKeys()
	u := cliUser{bin: bin, home: filepath.Join(dir, name), prox: node.addr}
	cfgDir := filepath.Join(u.home, ".config", "basiccoin")
	os.MkdirAll(cfgDir, 0o700)
	os.MkdirAll(filepath.Join(u.home, "tmp"), 0o700)
	u.cmd(context.Background(), -1)
	side, file := "main", "wallet.json"
	if in.Dev {
		side, file = "dev", "wallet-dev.json"
	}
	j := cliFileJSON{Dev: in.Dev, Addr: fmt.Sprintf("%s/%s/%s", node.addr, name, side)}
	own := map[string]bool{}
	for _, k := range []int{1, 2, 3} {
		der, _ := x509.MarshalECPrivateKey(keys[k])
		h := wPkh(keys, k)
		d := h.Data()
		j.Keys = append(j.Keys, cliFileKey{hex.EncodeToString(d[:]), der})
		own[hex.EncodeToString(d[:])] = true
	}
	raw, _ := json.Marshal(j)
	os.WriteFile(filepath.Join(cfgDir, file), raw, 0o600)
	u.own(u.home)
	defer os.RemoveAll(u.home)

	var utxos []core.Utxo
	owned := map[core.Utxo]core.HashT{}
	for i, x := range c.Utxos {
		y := core.Utxo{TxId: core.DHashBytes([]byte{byte(i)}), Ind: uint64(i % 3), Value: x.Val.real()}
		utxos = append(utxos, y)
		owned[y] = wPkh(keys, x.Key)
	}
	var mu sync.Mutex
	o.Right = true
	posted := []core.Tx{}
	node.mu.Lock()
	node.h[name] = func(w http.ResponseWriter, q *http.Request, path string) {
		mu.Lock()
		defer mu.Unlock()
		switch strings.Trim(path, "/") {
		case "wallet/head/height":
			io.WriteString(w, strconv.FormatInt(c.MinB, 10))
		case "wallet/utxos":
			v := q.URL.Query()
			got := map[string]bool{}
			for _, p := range v["publicKeyHash"] {
				got[p] = true
			}
			if len(got) != len(own) || v.Get("excludeMempool") != "true" {
				o.Right = false
			}
			for p := range got {
				o.Right = o.Right && own[p]
			}
			json.NewEncoder(w).Encode(models.UtxosResp{Utxos: owned})
		case "wallet/tx":
			b, _ := io.ReadAll(q.Body)
			var tx core.Tx
			if q.Method != "POST" || json.Unmarshal(b, &tx) != nil {
				o.Right = false
				w.WriteHeader(400)
				return
			}
			posted = append(posted, tx)
			switch in.Node {
			case "refuse":
				w.WriteHeader(400)
			case "wrongid":
				io.WriteString(w, fmt.Sprint(core.DHashBytes([]byte("other"))))
			default:
				io.WriteString(w, fmt.Sprint(tx.Hash()))
			}
		default:
			http.NotFound(w, q)
		}
	}
	node.mu.Unlock()
	args := []string{}
	if in.Dev {
		args = append(args, "dev")
	}
	if c.Merge {
		args = append(args, "consolidate")
	} else {
		args = append(args, "send")
		for _, d := range c.Dests {
			h := wPkh(keys, d.Key)
			x := h.Data()
			args = append(args, fmt.Sprintf("%s:%d", hex.EncodeToString(x[:]), d.Val.real()))
		}
	}
	out, ran, _ := u.run(in.Say+"\n", -1, time.Duration(0), args...)
	node.mu.Lock()
	delete(node.h, name)
	delete(node.ask, name)
	node.mu.Unlock()
	after, _ := os.ReadFile(filepath.Join(cfgDir, file))
	o.Stable = string(after) == string(raw)
	o.Ok = ran && strings.Contains(out, "success")
	o.Posts = len(posted)
	o.Asked = strings.Contains(out, "confirm? (y/n)")
	o.Shown, o.Fee = cwShown(out, "outputs"), cwShown(out, "fees")
	o.R = wRes{Err: true, Ins: []wIn{}, Outs: []wDest{}}
	if len(posted) > 0 {
		o.R = wDescribe(c, posted[0], keys, utxos)
	}
	if !ran {
		o.R.Panic = true
	}
	if len(out) > 700 {
		out = out[len(out)-700:]
	}
	o.Out = out
	return
}

// cliwallet <bin> <dir> <in> <out>
func cmdCliWallet(args []string) {
	f, err := os.Open(args[2])
	if err != nil {
		panic(err)
	}
	defer f.Close()
	var ins []cwIn
	d := json.NewDecoder(f)
	for d.More() {
		var x cwIn
		if err := d.Decode(&x); err != nil {
			panic(err)
		}
		ins = append(ins, x)
	}
	node := newCliNode()
	outs := make([][]byte, len(ins))
	var wg sync.WaitGroup
	for w := 0; w < 8; w++ {
		w := w
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := w; i < len(ins); i += 8 {
				outs[i], _ = json.Marshal(cwRun(args[0], args[1], node, fmt.Sprintf("p%d", i), ins[i]))
			}
		}()
	}
	wg.Wait()
	o, err := os.Create(args[3])
	if err != nil {
		panic(err)
	}
	b := bufio.NewWriter(o)
	for _, x := range outs {
		b.Write(append(x, '\n'))
	}
	b.Flush()
	o.Close()
}

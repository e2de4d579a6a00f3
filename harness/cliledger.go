package main

// The repository's wallet program, connected to a real node with a real
// ledger: what it shows and what it pays.

import (
	"bytes"
	"context"
	"crypto/ecdsa"
	"crypto/x509"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"path"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/levilutz/basiccoin/pkg/core"
)

type CliAns struct {
	Id string `json:"id"`
	I  int64  `json:"i"`
	V  int64  `json:"v"`
	To string `json:"to"`
}

// one question
type CliAsk struct {
	C     string   `json:"c"`
	Own   []string `json:"own"`
	Q     []string `json:"q"` // keys or ids asked about; none: the wallet's own
	N     int64    `json:"n"`
	Bad   string   `json:"bad"` // a malformed argument among them
	Ok    bool     `json:"ok"`
	Panic bool     `json:"panic"`
	Ans   []CliAns `json:"ans"`
	Total int64    `json:"total"`
	Same  bool     `json:"same"` // the wallet's file is as it was
	Out   string   `json:"out"`
}

// one payment or consolidation
type CliPay struct {
	C     string   `json:"c"`
	Own   []string `json:"own"`
	Dests []OutDef `json:"dests"`
	Say   string   `json:"say"`
	Asked bool     `json:"asked"`
	Fee   int64    `json:"fee"`
	Shown int64    `json:"shown"`
	Posts int      `json:"posts"`
	Odd   bool     `json:"odd"` // what was sent is not a transaction of this world
	Ok    bool     `json:"ok"`
	Panic bool     `json:"panic"`
	Same  bool     `json:"same"`
	Out   string   `json:"out"`
}

// stands between the wallet and the node, to say the version the wallet knows
// and to see what is sent
type cliFront struct {
	r     *runner
	addr  string
	l     net.Listener
	dev   bool
	mu    sync.Mutex
	posts []core.Tx
	odd   bool
}

func newCliFront(r *runner) *cliFront {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic("script error: " + err.Error())
	}
	f := &cliFront{r: r, l: l, addr: "http://" + l.Addr().String()}
	go http.Serve(l, f)
	return f
}

var cliDirect = &http.Client{Timeout: 30 * time.Second, CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}

func (f *cliFront) ServeHTTP(w http.ResponseWriter, q *http.Request) {
	if q.URL.Host != "" { // asked to be a proxy
		w.WriteHeader(502)
		return
	}
	if path.Clean(q.URL.Path) == "/version" {
		io.WriteString(w, "v0.0.0")
		return
	}
	body, _ := io.ReadAll(q.Body)
	if q.Method == "POST" && path.Clean(q.URL.Path) == "/wallet/tx" {
		var j jTx
		f.mu.Lock()
		if json.Unmarshal(body, &j) != nil {
			f.odd = true
		}
		f.posts = append(f.posts, j.real())
		f.mu.Unlock()
	}
	n, err := http.NewRequest(q.Method, f.r.rest.base+q.URL.RequestURI(), bytes.NewReader(body))
	if err != nil {
		w.WriteHeader(502)
		return
	}
	n.Header = q.Header.Clone()
	restMu.RLock()
	defer restMu.RUnlock()
	a, err := cliDirect.Do(n)
	if err != nil {
		w.WriteHeader(502)
		return
	}
	defer a.Body.Close()
	b, err := io.ReadAll(a.Body)
	if err != nil {
		w.WriteHeader(502)
		return
	}
	for _, k := range []string{"Location", "Content-Type"} {
		if v := a.Header.Get(k); v != "" {
			w.Header().Set(k, v)
		}
	}
	w.WriteHeader(a.StatusCode)
	w.Write(b)
}

func hex64(h core.HashT) string {
	d := h.Data()
	return hex.EncodeToString(d[:])
}

// run the program as the owner of some keys
func (r *runner) cliRun(own []string, stdin string, args ...string) (out string, ran, same bool) {
	if r.front == nil {
		r.front = newCliFront(r)
	}
	u := cliUser{bin: r.cliBin, home: filepath.Join(r.dir, r.sc.Name+"-home"), prox: r.front.addr}
	d := filepath.Join(u.home, ".config", "basiccoin")
	os.MkdirAll(d, 0o700)
	os.MkdirAll(filepath.Join(u.home, "tmp"), 0o700)
	defer os.RemoveAll(u.home)
	j := cliFileJSON{Addr: r.front.addr, Keys: []cliFileKey{}}
	for _, k := range own {
		x := r.sc.keys[k]
		der, err := x509.MarshalECPrivateKey(x.priv)
		if err != nil {
			panic(err)
		}
		j.Keys = append(j.Keys, cliFileKey{hex64(x.pkh), der})
	}
	raw, _ := json.Marshal(j)
	file := filepath.Join(d, "wallet.json")
	os.WriteFile(file, raw, 0o600)
	u.cmd(context.Background(), -1)
	u.own(u.home)
	func() {
		defer func() {
			if x := recover(); x != nil {
				if !strings.Contains(fmt.Sprint(x), "does not end") {
					panic(x)
				}
				out = fmt.Sprint(x)
			}
		}()
		out, ran, _ = u.run(stdin, -1, 0, args...)
	}()
	after, _ := os.ReadFile(file)
	return cliPlain.ReplaceAllString(out, ""), ran, string(after) == string(raw)
}

var cliPlain = regexp.MustCompile("\x1b\\[[0-9;]*m")
var cliPair = regexp.MustCompile(`(?m)^\W*([0-9a-f]{64})\W+(\d+|[a-z][a-z ]*)\s*$`)
var cliTotal = regexp.MustCompile(`(?mi)^\W*total\W+(\d+)\s*$`)
var cliUtxo = regexp.MustCompile(`([0-9a-f]{64})\W+(\d+)\W+(\d+)`)
var cliIn = regexp.MustCompile(`\b([0-9a-f]{64})\s+([0-9a-f]{64}|[a-z][a-z ]*)`)
var cliOk = regexp.MustCompile(`(?m)^success\s*$`)

func cliNum(s string) int64 {
	v, err := strconv.ParseUint(s, 10, 64)
	if err != nil {
		return -1
	}
	return encVal(v)
}

func (r *runner) keyName(h core.HashT) string {
	if k, ok := r.sc.pkhs[h]; ok {
		return k
	}
	return strings.TrimPrefix(r.sc.name(h), "pkh:")
}

var cliCmds = map[string]string{"balance": "balance", "utxos": "utxos", "confirms": "tx-confirms", "block": "tx-block",
	"rich": "rich-list", "tx": "get-tx", "mk": "get-merkle", "blk": "get-block"}

func (r *runner) cliAsk(a *CliAsk) {
	w := &r.sc.World
	args := []string{cliCmds[a.C]}
	ids := map[string]core.HashT{}
	q := []string{}
	for _, x := range a.Q {
		var h core.HashT
		switch a.C {
		case "balance", "utxos":
			h = w.pkh(x)
		default:
			_, known := w.ids[x]
			_, t := w.Txs[x]
			_, m := w.Mks[x]
			_, b := w.Blks[x]
			if !known && !t && !m && !b && !strings.HasPrefix(x, "no") {
				continue // not made (yet)
			}
			h = w.id(x)
		}
		q = append(q, x)
		ids[x] = h
		args = append(args, hex64(h))
	}
	a.Q = q
	if len(q) == 0 && a.C != "balance" && a.C != "utxos" && a.C != "rich" {
		q = append(q, "no1")
		a.Q, ids["no1"] = q, w.id("no1")
		args = append(args, hex64(w.id("no1")))
	}
	if a.Bad != "" {
		args = append(args, a.Bad)
	}
	if a.C == "rich" && a.N >= 0 && a.Bad == "" {
		args = append(args, strconv.FormatInt(a.N, 10))
	}
	out, ran, same := r.cliRun(a.Own, "", args...)
	a.Panic, a.Same, a.Ok = !ran, same, cliOk.MatchString(out)
	a.Ans = []CliAns{}
	switch a.C {
	case "balance", "rich":
		a.Total = -1
		for _, m := range cliPair.FindAllStringSubmatch(out, -1) {
			a.Ans = append(a.Ans, CliAns{Id: r.keyName(hashOf(m[1])), V: cliNum(m[2])})
		}
		if m := cliTotal.FindStringSubmatch(out); m != nil {
			a.Total = cliNum(m[1])
		}
	case "utxos":
		for _, m := range cliUtxo.FindAllStringSubmatch(out, -1) {
			a.Ans = append(a.Ans, CliAns{Id: w.name(hashOf(m[1])), I: cliNum(m[2]), V: cliNum(m[3])})
		}
	case "confirms":
		for _, m := range cliPair.FindAllStringSubmatch(out, -1) {
			a.Ans = append(a.Ans, CliAns{Id: w.name(hashOf(m[1])), V: cliNum(m[2])})
		}
	case "block":
		for _, m := range cliIn.FindAllStringSubmatch(out, -1) {
			x := CliAns{Id: w.name(hashOf(m[1])), To: "-"}
			if len(m[2]) == 64 {
				x.To = w.name(hashOf(m[2]))
			}
			a.Ans = append(a.Ans, x)
		}
	default:
		// <id>: <content>, or <id> and words
		for _, x := range a.Q {
			d := CliAns{Id: x, To: "none"}
			for _, ln := range regexp.MustCompile(`(?m)^\W*`+hex64(ids[x])+`\W*:?\s*\{`).FindAllStringIndex(out, -1) {
				raw := json.RawMessage{}
				d.To = "other"
				if json.NewDecoder(strings.NewReader(out[ln[1]-1:])).Decode(&raw) != nil {
					break
				}
				if t, ok := w.rtx[x]; ok {
					var j jTx
					if json.Unmarshal(raw, &j) == nil && sameTx(j.real(), t) {
						d.To = "same"
					}
				} else if m, ok := w.rmk[x]; ok {
					var j jMk
					if json.Unmarshal(raw, &j) == nil && (core.MerkleNode{LChild: hashOf(j.L), RChild: hashOf(j.R)}) == m {
						d.To = "same"
					}
				} else if b, ok := w.rblk[x]; ok {
					var v jBlk
					if json.Unmarshal(raw, &v) == nil && (core.Block{PrevBlockId: hashOf(v.Prev), MerkleRoot: hashOf(v.Root), Target: hashOf(v.Target),
						Noise: hashOf(v.Noise), Nonce: v.Nonce, MinedTime: v.Time}) == b {
						d.To = "same"
					}
				}
			}
			a.Ans = append(a.Ans, d)
		}
	}
	if len(out) > 1500 {
		out = out[:1500]
	}
	a.Out = out
}

// learn a transaction somebody else made; false if it speaks of things unknown
func (w *World) learn(name string, t core.Tx) bool {
	d := TxDef{Cb: t.IsCoinbase, MinB: encVal(t.MinBlock), Ins: []InDef{}, Outs: []OutDef{}}
	pre := core.TxHashPreSig(t.MinBlock, t.Outputs)
	hs := pre.Data()
	for _, i := range t.Inputs {
		n, ok := w.names[i.Utxo.TxId]
		k, own := w.pkhs[dhash(i.PublicKey)]
		if !ok || !own {
			return false
		}
		p, err := x509.ParsePKIXPublicKey(i.PublicKey)
		pub, is := p.(*ecdsa.PublicKey)
		d.Ins = append(d.Ins, InDef{Tx: n, Ind: encVal(i.Utxo.Ind), Val: encVal(i.Utxo.Value), Key: k, How: "ok",
			Sig: err == nil && is && ecdsa.VerifyASN1(pub, hs[:], i.Signature), Pk: int64(len(i.PublicKey)), Sg: int64(len(i.Signature))})
	}
	for _, o := range t.Outputs {
		k, ok := w.pkhs[o.PublicKeyHash]
		if !ok {
			n, known := w.names[o.PublicKeyHash]
			if !known || !strings.HasPrefix(n, "pkh:") {
				return false
			}
			k = strings.TrimPrefix(n, "pkh:")
		}
		d.Outs = append(d.Outs, OutDef{Val: encVal(o.Value), Key: k})
	}
	if _, known := w.names[t.Hash()]; known {
		return false
	}
	w.Txs[name] = &d
	w.rtx[name] = t
	w.setId(name, t.Hash())
	return true
}

func (r *runner) cliPay(st *Step) {
	p := st.Pay
	args := []string{p.C}
	for _, d := range p.Dests {
		args = append(args, fmt.Sprintf("%s:%d", hex64(r.sc.pkh(d.Key)), d.Val))
	}
	if r.front != nil {
		r.front.mu.Lock()
		r.front.posts, r.front.odd = nil, false
		r.front.mu.Unlock()
	}
	out, ran, same := r.cliRun(p.Own, p.Say+"\n", args...)
	p.Panic, p.Same, p.Ok = !ran, same, cliOk.MatchString(out)
	p.Asked = strings.Contains(out, "confirm? (y/n)")
	p.Fee, p.Shown = -1, -1
	if m := cwNum["fees"].FindStringSubmatch(out); m != nil {
		p.Fee = cliNum(m[1])
	}
	if m := cwNum["outputs"].FindStringSubmatch(out); m != nil {
		p.Shown = cliNum(m[1])
	}
	r.front.mu.Lock()
	p.Posts, p.Odd = len(r.front.posts), r.front.odd
	posts := r.front.posts
	r.front.mu.Unlock()
	if p.Posts > 0 {
		if r.sc.World.learn(st.Ids[0], posts[0]) {
			st.T = st.Ids[0]
		} else {
			p.Odd = true
		}
	}
	if len(out) > 1500 {
		out = out[:1500]
	}
	p.Out = out
}

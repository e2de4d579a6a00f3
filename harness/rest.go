package main

// The HTTP interface of a real node: everything a step observes is asked over
// HTTP (by a client of our own and by the repository's), transactions are
// submitted over HTTP, and malformed requests come in between.

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"net/url"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/levilutz/basiccoin/internal/rest"
	"github.com/levilutz/basiccoin/internal/rest/client"
	"github.com/levilutz/basiccoin/pkg/core"
)

// ---- servers: each has its own port; those that answer on the process's
// default handlers are told apart by the port a request came in on ----

// held while a server mounts its handlers: no requests meanwhile
var restMu sync.RWMutex
var restMux sync.Map

func restDispatch(w http.ResponseWriter, q *http.Request) {
	a, _ := q.Context().Value(http.LocalAddrContextKey).(net.Addr)
	_, port, _ := net.SplitHostPort(a.String())
	h, ok := restMux.Load(port)
	if !ok {
		http.NotFound(w, q)
		return
	}
	h.(http.Handler).ServeHTTP(w, q)
}

var dispatcher = func() *http.ServeMux {
	m := http.NewServeMux()
	m.HandleFunc("/", restDispatch)
	return m
}()

func freePort() int {
	l, err := net.Listen("tcp", ":0")
	if err != nil {
		panic(err)
	}
	defer l.Close()
	return l.Addr().(*net.TCPAddr).Port
}

// start a server on some port; returns the port
func startRest(n *Node, admin, wallet bool, pw string) (string, string) {
	restMu.Lock()
	defer restMu.Unlock()
	for try := 0; try < 20; try++ {
		port := freePort()
		version := "v" + strconv.Itoa(port) + "-" + strconv.Itoa(rand.Int())
		mine := http.NewServeMux()
		restMux.Store(strconv.Itoa(port), mine)
		http.DefaultServeMux = mine
		s := rest.NewServer(rest.Params{Port: port, EnableAdmin: admin, EnableWallet: wallet, Password: pw, Version: version},
			n.bus, n.inv)
		go s.Start()
		for end := time.Now().Add(5 * time.Second); time.Now().Before(end); time.Sleep(3 * time.Millisecond) {
			r, err := (&http.Client{Timeout: time.Second}).Get("http://127.0.0.1:" + strconv.Itoa(port) + "/version")
			if err != nil {
				continue
			}
			b, _ := io.ReadAll(r.Body)
			r.Body.Close()
			if string(b) == version {
				http.DefaultServeMux = dispatcher
				return strconv.Itoa(port), version
			}
			break
		}
	}
	http.DefaultServeMux = dispatcher
	panic("script error: no server")
}

type restObs struct {
	n    *Node
	base string
	hc   *http.Client
	cli  *client.WalletClient
	ver  string
	bad  []string
	mu   sync.Mutex
}

func (ro *restObs) note(f string, a ...interface{}) {
	ro.mu.Lock()
	defer ro.mu.Unlock()
	ro.bad = append(ro.bad, fmt.Sprintf(f, a...))
}

func (ro *restObs) start(n *Node) {
	port, ver := startRest(n, false, true, "")
	ro.n, ro.base, ro.ver = n, "http://127.0.0.1:"+port, ver
	ro.hc = &http.Client{Transport: &http.Transport{MaxIdleConnsPerHost: 16}}
	restMu.RLock()
	c, err := client.NewWalletClient(ro.base, ver)
	restMu.RUnlock()
	if err != nil {
		ro.note("client")
		return
	}
	ro.cli = c
}

// one request; status 0 when there was no answer
func (ro *restObs) do(method, path, body string) (int, []byte) {
	ctx, cancel := context.WithTimeout(context.Background(), waitMax)
	defer cancel()
	done := make(chan struct{})
	defer close(done)
	go func() {
		for {
			select {
			case <-done:
				return
			case <-time.After(20 * time.Millisecond):
				if ro.n.dead.Load() {
					cancel()
					return
				}
			}
		}
	}()
	q, err := http.NewRequestWithContext(ctx, method, ro.base+path, strings.NewReader(body))
	if err != nil {
		panic("script error: " + err.Error())
	}
	restMu.RLock()
	defer restMu.RUnlock()
	r, err := ro.hc.Do(q)
	if err != nil {
		if ctx.Err() != nil && !ro.n.dead.Load() {
			ro.n.why.Store("no answer to " + method + " " + path)
			ro.n.dead.Store(true)
		}
		return 0, nil
	}
	defer r.Body.Close()
	b, err := io.ReadAll(r.Body)
	if err != nil {
		return 0, nil
	}
	return r.StatusCode, b
}

func (ro *restObs) get(path string, v interface{}) bool {
	st, b := ro.do("GET", path, "")
	if ro.n.dead.Load() {
		return false
	}
	if st != 200 {
		ro.note("get %d %s", st, strings.Split(path, "?")[0])
		return false
	}
	if v == nil {
		return true
	}
	if err := json.Unmarshal(b, v); err != nil {
		ro.note("json %s", strings.Split(path, "?")[0])
		return false
	}
	return true
}

func query(k string, ids []core.HashT) string {
	v := url.Values{}
	for _, id := range ids {
		d := id.Data()
		v.Add(k, fmt.Sprintf("%x", d[:]))
	}
	return "?" + v.Encode()
}

func hashOf(s string) core.HashT {
	h, err := core.NewHashTFromString(s)
	if err != nil {
		return core.NewHashTRand()
	}
	return h
}
func hashes[V any](m map[string]V) map[core.HashT]V {
	out := map[core.HashT]V{}
	for k, v := range m {
		out[hashOf(k)] = v
	}
	return out
}

type jUtxos struct {
	Utxos []struct {
		Utxo struct {
			TxId  string `json:"txId"`
			Ind   uint64 `json:"ind"`
			Value uint64 `json:"value"`
		} `json:"utxo"`
		Pkh string `json:"pkh"`
	} `json:"utxos"`
}

func (j jUtxos) real() map[core.Utxo]core.HashT {
	m := map[core.Utxo]core.HashT{}
	for _, u := range j.Utxos {
		m[core.Utxo{TxId: hashOf(u.Utxo.TxId), Ind: u.Utxo.Ind, Value: u.Utxo.Value}] = hashOf(u.Pkh)
	}
	return m
}

func same(a, b interface{}) bool {
	x, _ := json.Marshal(a)
	y, _ := json.Marshal(b)
	return string(x) == string(y)
}
func sameMap[V comparable](a, b map[core.HashT]V) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || w != v {
			return false
		}
	}
	return true
}

// requests that are refused
func (ro *restObs) malformed(r *runner) {
	h := r.sc.Keys[0]
	p := r.sc.keys[h].pkh.String()
	type rq struct{ name, m, path, body string }
	tx := func(s string) rq { return rq{"tx", "POST", "/wallet/tx", s} }
	cut := func(s string) string { return s[:len(s)-2] }
	all := []rq{
		{"noparam", "GET", "/wallet/balance", ""}, {"noparam", "GET", "/wallet/utxos?publickeyhash=" + p, ""},
		{"noparam", "GET", "/wallet/tx", ""}, {"noparam", "GET", "/wallet/tx/confirms?", ""},
		{"noparam", "GET", "/wallet/tx/block?blockId=" + p, ""}, {"noparam", "GET", "/wallet/merkle", ""},
		{"noparam", "GET", "/wallet/block", ""},
		{"badhex", "GET", "/wallet/balance?publicKeyHash=" + cut(p), ""},
		{"badhex", "GET", "/wallet/balance?publicKeyHash=" + p + "&publicKeyHash=zz" + p[2:], ""},
		{"badhex", "GET", "/wallet/utxos?publicKeyHash=" + p + "00", ""},
		{"badhex", "GET", "/wallet/utxos?publicKeyHash=", ""},
		{"badhex", "GET", "/wallet/tx?txId=" + cut(p) + "..", ""},
		{"badhex", "GET", "/wallet/tx/confirms?txId=" + p + "&txId=0", ""},
		{"badhex", "GET", "/wallet/tx/block?txId=0x" + p[2:], ""},
		{"badhex", "GET", "/wallet/merkle?merkleId=%20" + p, ""},
		{"badhex", "GET", "/wallet/block?blockId=" + cut(p), ""},
		{"unknown", "GET", "/wallet/tx?txId=" + p, ""}, {"unknown", "GET", "/wallet/merkle?merkleId=" + p, ""},
		{"unknown", "GET", "/wallet/block?blockId=" + p, ""},
		{"maxlen", "GET", "/wallet/richlist?maxLen=-1", ""}, {"maxlen", "GET", "/wallet/richlist?maxLen=", ""},
		{"maxlen", "GET", "/wallet/richlist?maxLen=18446744073709551616", ""}, {"maxlen", "GET", "/wallet/richlist?maxLen=1e3", ""},
		{"method", "POST", "/wallet/balance?publicKeyHash=" + p, ""}, {"method", "PUT", "/wallet/tx", "{}"},
		{"method", "DELETE", "/wallet/block?blockId=" + p, ""}, {"method", "POST", "/wallet/head/height", ""},
		{"path", "GET", "/wallet", ""}, {"path", "GET", "/wallet/txs", ""}, {"path", "POST", "/admin/terminate", ""},
		tx(""), tx("null"), tx("{}"), tx("[]"), tx("{"), tx(`"` + p + `"`), tx("{}{}"),
		tx(`{"isCoinbase":false,"minBlock":-1,"inputs":[],"outputs":[]}`),
		tx(`{"isCoinbase":true,"minBlock":1,"inputs":[],"outputs":[{"value":1000,"publicKeyHash":"` + p + `"}]}`),
		tx(`{"isCoinbase":"no","minBlock":1,"inputs":[],"outputs":[]}`),
		tx(`{"minBlock":18446744073709551616,"inputs":null,"outputs":null}`),
		tx(`{"minBlock":1.5}`),
		tx(`{"minBlock":0,"inputs":[{}],"outputs":[]}`),
		tx(`{"minBlock":0,"inputs":[{"utxo":{"txId":"` + p + `","ind":0,"value":1000},"publicKey":null,"signature":null}],"outputs":[]}`),
		tx(`{"minBlock":0,"inputs":[{"utxo":{"txId":"` + p + `","ind":0,"value":18446744073709551615},"publicKey":"AAAA","signature":"AAAA"}],"outputs":[]}`),
		tx(`{"minBlock":0,"inputs":[{"utxo":{"txId":"` + cut(p) + `","ind":0,"value":5},"publicKey":"","signature":""}],"outputs":[]}`),
		tx(`{"minBlock":0,"inputs":[{"utxo":{"txId":"` + p + `","ind":0,"value":5},"publicKey":"!!","signature":""}],"outputs":[]}`),
		tx(strings.Repeat(`{"inputs":[`, 3000)),
	}
	for i := 0; i < 3; i++ {
		q := all[r.rng.Intn(len(all))]
		st, b := ro.do(q.m, q.path, q.body)
		if ro.n.dead.Load() {
			return
		}
		if st < 400 || st >= 500 {
			ro.note("malformed %s %s: %d %.60s", q.m, q.path, st, b)
		}
	}
}

func (ro *restObs) observe(r *runner, o *Obs, pkhs []core.HashT, txIds []core.HashT) {
	if r.rng.Intn(2) == 0 {
		ro.malformed(r)
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	do := func(f func() func()) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if g := f(); g != nil {
				mu.Lock()
				g()
				mu.Unlock()
			}
		}()
	}
	use := ro.cli != nil && r.rng.Intn(3) == 0
	var eb, eh, eu, ef, ec, ei, er bool
	var hb map[core.HashT]uint64
	var hh uint64
	var hu, hf map[core.Utxo]core.HashT
	var hcf map[core.HashT]uint64
	var hi map[core.HashT]core.HashT
	var hr map[core.HashT]uint64
	do(func() func() {
		st, b := ro.do("GET", "/wallet/head/height", "")
		h, err := strconv.ParseUint(string(b), 10, 64)
		if st != 200 || err != nil {
			if !ro.n.dead.Load() {
				ro.note("get %d height", st)
			}
			return nil
		}
		hh, eh = h, true
		return func() { x := int64(h); o.Height = &x }
	})
	if len(pkhs) > 0 {
		do(func() func() {
			var j struct {
				Balances map[string]uint64 `json:"balances"`
			}
			if !ro.get("/wallet/balance"+query("publicKeyHash", pkhs), &j) {
				return nil
			}
			hb, eb = hashes(j.Balances), true
			return func() { o.Bal = r.balObs(hb) }
		})
		do(func() func() {
			var j jUtxos
			if !ro.get("/wallet/utxos"+query("publicKeyHash", pkhs)+[]string{"", "&excludeMempool=false", "&excludeMempool=no"}[len(txIds)%3], &j) {
				return nil
			}
			hu, eu = j.real(), true
			return func() { o.Utxo = r.utxoObs(hu) }
		})
		do(func() func() {
			var j jUtxos
			if !ro.get("/wallet/utxos"+query("publicKeyHash", pkhs)+"&excludeMempool=true", &j) {
				return nil
			}
			hf, ef = j.real(), true
			return func() { o.Free = r.utxoObs(hf) }
		})
	}
	if len(txIds) > 0 {
		do(func() func() {
			var j struct {
				C map[string]uint64 `json:"confirms"`
			}
			if !ro.get("/wallet/tx/confirms"+query("txId", txIds), &j) {
				return nil
			}
			hcf, ec = hashes(j.C), true
			return func() { r.confObs(o, hcf) }
		})
		do(func() func() {
			var j struct {
				C map[string]string `json:"includedBlocks"`
			}
			if !ro.get("/wallet/tx/block"+query("txId", txIds), &j) {
				return nil
			}
			m := map[core.HashT]core.HashT{}
			for k, v := range j.C {
				m[hashOf(k)] = hashOf(v)
			}
			hi, ei = m, true
			return func() { r.incObs(o, m) }
		})
	}
	richN := []uint64{0, 1, 2, 3, 10, 100, 1 << 63, 1<<64 - 1}
	rn := richN[r.rng.Intn(len(richN))]
	do(func() func() {
		var j struct {
			C map[string]uint64 `json:"richList"`
		}
		p := "/wallet/richlist?maxLen=" + strconv.FormatUint(rn, 10)
		if rn == 10 {
			p = "/wallet/richlist"
		}
		if !ro.get(p, &j) {
			return nil
		}
		hr, er = hashes(j.C), true
		return func() { r.richObs(o, rn, hr) }
	})
	wg.Wait()
	if ro.n.dead.Load() {
		return
	}
	if use {
		restMu.RLock()
		defer restMu.RUnlock()
		bad := func(what string) { ro.note("client %s", what) }
		if h, err := ro.cli.GetHeadHeight(); eh && (err != nil || h != hh) {
			bad("height")
		}
		if b, err := ro.cli.GetManyBalances(pkhs); eb && (err != nil || !sameMap(b, hb)) {
			bad("balances")
		}
		if b, err := ro.cli.GetBalance(pkhs[0]); eb && (err != nil || b != hb[pkhs[0]]) {
			bad("balance")
		}
		us := func(a, b map[core.Utxo]core.HashT) bool {
			if len(a) != len(b) {
				return false
			}
			for k, v := range a {
				if x, ok := b[k]; !ok || x != v {
					return false
				}
			}
			return true
		}
		if u, err := ro.cli.GetManyUtxos(pkhs, false); eu && (err != nil || !us(u, hu)) {
			bad("utxos")
		}
		if u, err := ro.cli.GetManyUtxos(pkhs, true); ef && (err != nil || !us(u, hf)) {
			bad("free utxos")
		}
		if c, err := ro.cli.GetTxConfirms(txIds); ec && (err != nil || !sameMap(c, hcf)) {
			bad("confirms")
		}
		if c, err := ro.cli.GetTxIncludedBlock(txIds); ei && (err != nil || !sameMap(c, hi)) {
			bad("block")
		}
		if rn <= 100 {
			// who is left out among equals is open
			if c, err := ro.cli.GetRichList(rn); er && (err != nil || len(c) != len(hr)) {
				bad("richlist")
			}
		}
	}
}

// ---- entities, as they are answered over HTTP ----

type jTx struct {
	IsCoinbase bool   `json:"isCoinbase"`
	MinBlock   uint64 `json:"minBlock"`
	Inputs     []struct {
		Utxo struct {
			TxId  string `json:"txId"`
			Ind   uint64 `json:"ind"`
			Value uint64 `json:"value"`
		} `json:"utxo"`
		PublicKey []byte `json:"publicKey"`
		Signature []byte `json:"signature"`
	} `json:"inputs"`
	Outputs []struct {
		Value         uint64 `json:"value"`
		PublicKeyHash string `json:"publicKeyHash"`
	} `json:"outputs"`
}

func (j jTx) real() core.Tx {
	t := core.Tx{IsCoinbase: j.IsCoinbase, MinBlock: j.MinBlock}
	for _, i := range j.Inputs {
		t.Inputs = append(t.Inputs, core.TxIn{Utxo: core.Utxo{TxId: hashOf(i.Utxo.TxId), Ind: i.Utxo.Ind, Value: i.Utxo.Value},
			PublicKey: i.PublicKey, Signature: i.Signature})
	}
	for _, x := range j.Outputs {
		t.Outputs = append(t.Outputs, core.TxOut{Value: x.Value, PublicKeyHash: hashOf(x.PublicKeyHash)})
	}
	return t
}

type jMk struct {
	L string `json:"lChild"`
	R string `json:"rChild"`
}
type jBlk struct {
	Prev   string `json:"prevBlockId"`
	Root   string `json:"merkleRoot"`
	Target string `json:"target"`
	Noise  string `json:"noise"`
	Nonce  uint64 `json:"nonce"`
	Time   uint64 `json:"minedTime"`
}

// the entities of the given ids, as answered in one request each kind
func (ro *restObs) entities(txs, mks, blks []core.HashT) (map[core.HashT]core.Tx, map[core.HashT]core.MerkleNode, map[core.HashT]core.Block) {
	rt, rm, rb := map[core.HashT]core.Tx{}, map[core.HashT]core.MerkleNode{}, map[core.HashT]core.Block{}
	ask := func(path string, n int, v interface{}) {
		if n == 0 {
			return
		}
		st, b := ro.do("GET", path, "")
		if ro.n.dead.Load() || st == 400 {
			return // none of them is known
		}
		if st != 200 || json.Unmarshal(b, v) != nil {
			ro.note("get %d %s", st, strings.Split(path, "?")[0])
		}
	}
	var jt struct {
		M map[string]jTx `json:"txs"`
	}
	var jm struct {
		M map[string]jMk `json:"merkles"`
	}
	var jb struct {
		M map[string]jBlk `json:"blocks"`
	}
	ask("/wallet/tx"+query("txId", txs), len(txs), &jt)
	ask("/wallet/merkle"+query("merkleId", mks), len(mks), &jm)
	ask("/wallet/block"+query("blockId", blks), len(blks), &jb)
	for k, v := range jt.M {
		rt[hashOf(k)] = v.real()
	}
	for k, v := range jm.M {
		rm[hashOf(k)] = core.MerkleNode{LChild: hashOf(v.L), RChild: hashOf(v.R)}
	}
	for k, v := range jb.M {
		rb[hashOf(k)] = core.Block{PrevBlockId: hashOf(v.Prev), MerkleRoot: hashOf(v.Root), Target: hashOf(v.Target),
			Noise: hashOf(v.Noise), Nonce: v.Nonce, MinedTime: v.Time}
	}
	// the repository's client sees the same
	restMu.RLock()
	defer restMu.RUnlock()
	if ro.cli != nil && len(rt) > 0 {
		if c, err := ro.cli.GetTx(txs); err != nil || len(c) != len(rt) || !sameTxs(c, rt) {
			ro.note("client tx")
		}
	}
	if ro.cli != nil && len(rm) > 0 {
		if c, err := ro.cli.GetMerkle(mks); err != nil || !sameMap(c, rm) {
			ro.note("client merkle")
		}
	}
	if ro.cli != nil && len(rb) > 0 {
		if c, err := ro.cli.GetBlock(blks); err != nil || !sameMap(c, rb) {
			ro.note("client block")
		}
	}
	return rt, rm, rb
}

func sameTxs(a, b map[core.HashT]core.Tx) bool {
	for k, v := range a {
		w, ok := b[k]
		if !ok || !sameTx(v, w) {
			return false
		}
	}
	return true
}

// submit a transaction over HTTP: no error means success with its id
func (ro *restObs) submit(r *runner, tx core.Tx, id core.HashT) (error, bool) {
	if ro.cli != nil && r.rng.Intn(4) == 0 {
		type res struct {
			id  core.HashT
			err error
		}
		c := make(chan res, 1)
		go func() {
			restMu.RLock()
			defer restMu.RUnlock()
			id, err := ro.cli.PostTx(tx)
			c <- res{id, err}
		}()
		v, ok := ask(ro.n, c)
		if v.err == nil && v.id != id {
			return fmt.Errorf("other id"), ok
		}
		return v.err, ok
	}
	ins, outs := []map[string]interface{}{}, []map[string]interface{}{}
	for _, i := range tx.Inputs {
		ins = append(ins, map[string]interface{}{"utxo": map[string]interface{}{"txId": i.Utxo.TxId.String(), "ind": i.Utxo.Ind, "value": i.Utxo.Value},
			"publicKey": i.PublicKey, "signature": i.Signature})
	}
	for _, x := range tx.Outputs {
		outs = append(outs, map[string]interface{}{"value": x.Value, "publicKeyHash": x.PublicKeyHash.String()})
	}
	b, err := json.Marshal(map[string]interface{}{"isCoinbase": tx.IsCoinbase, "minBlock": tx.MinBlock, "inputs": ins, "outputs": outs})
	if err != nil {
		panic(err)
	}
	st, body := ro.do("POST", "/wallet/tx", string(b))
	if ro.n.dead.Load() {
		return nil, false
	}
	if st != 200 {
		if st < 400 || st >= 500 {
			ro.note("submit %d", st)
		}
		return fmt.Errorf("%d %s", st, body), true
	}
	if string(body) != id.String() {
		return fmt.Errorf("other id"), true
	}
	return nil, true
}

func sameTx(a, b core.Tx) bool {
	if a.IsCoinbase != b.IsCoinbase || a.MinBlock != b.MinBlock || len(a.Inputs) != len(b.Inputs) || len(a.Outputs) != len(b.Outputs) {
		return false
	}
	for i := range a.Inputs {
		if a.Inputs[i].Utxo != b.Inputs[i].Utxo || string(a.Inputs[i].PublicKey) != string(b.Inputs[i].PublicKey) ||
			string(a.Inputs[i].Signature) != string(b.Inputs[i].Signature) {
			return false
		}
	}
	for i := range a.Outputs {
		if a.Outputs[i] != b.Outputs[i] {
			return false
		}
	}
	return true
}

func copyTx(a core.Tx) core.Tx {
	b := core.Tx{IsCoinbase: a.IsCoinbase, MinBlock: a.MinBlock, Inputs: []core.TxIn{}, Outputs: append([]core.TxOut{}, a.Outputs...)}
	for _, i := range a.Inputs {
		b.Inputs = append(b.Inputs, core.TxIn{Utxo: i.Utxo, PublicKey: append([]byte{}, i.PublicKey...), Signature: append([]byte{}, i.Signature...)})
	}
	return b
}

// ---- what is read back under an id ----

type ReadObs struct {
	Id  string `json:"id"`
	Res string `json:"res"` // same, other (content), none
	N   int64  `json:"n"`   // size of a transaction or tree, height of a block
	W   int64  `json:"w"`   // total work of a block
}

func workNum(h core.HashT) int64 {
	x := hashInt(h)
	if x.IsInt64() && x.Int64() < 1<<30 {
		return x.Int64()
	}
	return 1 << 30
}

// read some entities back, from the node's inventory or over HTTP
func (r *runner) readBack(n *Node, o *Obs) {
	w := &r.sc.World
	o.Reads = []ReadObs{}
	names := []string{}
	for k := range w.rtx {
		names = append(names, k)
	}
	for k := range w.rmk {
		names = append(names, k)
	}
	for k := range w.rblk {
		names = append(names, k)
	}
	sort.Strings(names)
	r.rng.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	if len(names) > 7 {
		names = names[:7]
	}
	var hx []core.HashT
	var hm []core.HashT
	var hb []core.HashT
	for _, k := range names {
		id := w.ids[k]
		q := ReadObs{Id: k, Res: "none", N: -1, W: -1}
		if t, ok := w.rtx[k]; ok {
			hx = append(hx, id)
			if n.inv.HasTx(id) {
				q.Res, q.N = "other", int64(n.inv.GetTxVSize(id))
				if sameTx(n.inv.GetTx(id), t) && n.inv.GetEntityVSize(id) == n.inv.GetTxVSize(id) {
					q.Res = "same"
				}
				for i := 0; i <= len(t.Outputs); i++ {
					has := n.inv.HasTxOut(id, uint64(i))
					if has != (i < len(t.Outputs)) || has && n.inv.GetTxOut(id, uint64(i)) != t.Outputs[i] {
						q.Res = "other"
					}
				}
			}
		} else if m, ok := w.rmk[k]; ok {
			hm = append(hm, id)
			if n.inv.HasMerkle(id) {
				q.Res, q.N = "other", int64(n.inv.GetMerkleVSize(id))
				if n.inv.GetMerkle(id) == m && n.inv.GetEntityVSize(id) == n.inv.GetMerkleVSize(id) {
					q.Res = "same"
				}
			}
		} else if b, ok := w.rblk[k]; ok {
			hb = append(hb, id)
			if n.inv.HasBlock(id) {
				q.Res, q.N, q.W = "other", int64(n.inv.GetBlockHeight(id)), workNum(n.inv.GetBlockTotalWork(id))
				if n.inv.GetBlock(id) == b && n.inv.GetBlockParentId(id) == b.PrevBlockId {
					q.Res = "same"
				}
			}
		}
		o.Reads = append(o.Reads, q)
	}
	if r.rest == nil || r.rest.n != n {
		return
	}
	gt, gm, gb := r.rest.entities(hx, hm, hb)
	if n.dead.Load() {
		return
	}
	for i := range o.Reads {
		q := &o.Reads[i]
		id := w.ids[q.Id]
		had, ok := false, false
		if t, is := w.rtx[q.Id]; is {
			x, in := gt[id]
			had, ok = in, in && sameTx(x, t)
		} else if m, is := w.rmk[q.Id]; is {
			x, in := gm[id]
			had, ok = in, in && x == m
		} else if b, is := w.rblk[q.Id]; is {
			x, in := gb[id]
			had, ok = in, in && x == b
		}
		if had != (q.Res != "none") || had && !ok {
			q.Res = "http-" + q.Res
		}
	}
	if len(gt)+len(gm)+len(gb) > len(names) {
		r.rest.note("more than asked for")
	}
}

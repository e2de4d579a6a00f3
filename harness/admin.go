package main

// The administrative interface, of servers in this process (admin) and of the
// repository's node program (adminproc).

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/levilutz/basiccoin/internal/bus"
	"github.com/levilutz/basiccoin/pkg/core"
	"github.com/levilutz/basiccoin/pkg/topic"
)

type admCfg struct {
	Admin  bool     `json:"admin"`
	Wallet bool     `json:"wallet"`
	Pw     []string `json:"pw"`
}
type admReq struct {
	Tg    admTarget         `json:"tg"`
	M     string            `json:"m"`
	N     string            `json:"n"`
	Pws   [][]string        `json:"pws"`
	Oth   []json.RawMessage `json:"oth"`
	Extra string            `json:"extra"`
}
type admTarget struct {
	T     string `json:"t"`
	Ep    string `json:"ep"`
	Plain bool   `json:"plain"`
}
type admItem struct {
	Q    admReq `json:"q"`
	May  bool   `json:"may"`
	Must bool   `json:"must"`
}
type admPlan struct {
	Cfg  admCfg    `json:"cfg"`
	Reqs []admItem `json:"reqs"`
}

func (q admReq) raw() []byte {
	var b bytes.Buffer
	fmt.Fprintf(&b, "%s %s HTTP/1.1\r\nHost: node\r\n", q.M, q.Tg.T)
	for _, v := range q.Pws {
		fmt.Fprintf(&b, "%s: %s\r\n", q.N, strings.Join(v, ""))
	}
	if len(q.Oth) == 3 {
		var name, pre string
		var val []string
		json.Unmarshal(q.Oth[0], &name)
		json.Unmarshal(q.Oth[1], &pre)
		json.Unmarshal(q.Oth[2], &val)
		fmt.Fprintf(&b, "%s: %s%s\r\n", name, pre, strings.Join(val, ""))
	}
	if q.Extra != "" {
		b.WriteString(q.Extra + "\r\n")
	}
	b.WriteString("Content-Length: 0\r\n\r\n")
	return b.Bytes()
}

// a client keeps one connection open as long as it can
type admClient struct {
	addr string
	c    net.Conn
	r    *bufio.Reader
}

func (a *admClient) close() {
	if a.c != nil {
		a.c.Close()
		a.c = nil
	}
}

// status of the answer; 0 when there is none
func (a *admClient) do(q admReq) int {
	for try := 0; try < 2; try++ {
		fresh := a.c == nil
		if fresh {
			c, err := net.DialTimeout("tcp", a.addr, 10*time.Second)
			if err != nil {
				return 0
			}
			a.c, a.r = c, bufio.NewReader(c)
		}
		a.c.SetDeadline(time.Now().Add(20 * time.Second))
		a.c.Write(q.raw())
		resp, err := http.ReadResponse(a.r, &http.Request{Method: q.M})
		if err != nil {
			a.close()
			if fresh {
				return 0
			}
			continue
		}
		io.Copy(io.Discard, resp.Body)
		resp.Body.Close()
		if resp.Close {
			a.close()
		}
		return resp.StatusCode
	}
	return 0
}

func admRead(f string) (out []admPlan) {
	in, err := os.Open(f)
	if err != nil {
		panic(err)
	}
	defer in.Close()
	d := json.NewDecoder(in)
	for d.More() {
		var p admPlan
		if err := d.Decode(&p); err != nil {
			panic(err)
		}
		out = append(out, p)
	}
	return
}

type admOut struct {
	Cfg admCfg      `json:"cfg"`
	E   interface{} `json:"e"`
}
type admOne struct {
	K   string `json:"k"`
	Q   admReq `json:"q"`
	St  int    `json:"st"`
	Eff int    `json:"eff"`
}
type admMany struct {
	K   string   `json:"k"`
	Qs  []admReq `json:"qs"`
	Sts []int    `json:"sts"`
	Eff int      `json:"eff"`
}

func admWrite(f string, outs [][]admOut) {
	o, err := os.Create(f)
	if err != nil {
		panic(err)
	}
	w := bufio.NewWriter(o)
	for _, x := range outs {
		for _, y := range x {
			b, _ := json.Marshal(y)
			w.Write(append(b, '\n'))
		}
	}
	w.Flush()
	o.Close()
}

// the effects a server has had
type admEffects struct {
	sub topic.Sub[bus.TerminateCommand]
}

func (e *admEffects) take(want int, wait time.Duration) int {
	n := 0
	for end := time.Now().Add(wait); ; time.Sleep(time.Millisecond) {
		for {
			if _, ok := e.sub.Pop(); !ok {
				break
			}
			n++
		}
		if n >= want || !time.Now().Before(end) {
			return n
		}
	}
}

func admServer(p admPlan, seed int64) (out []admOut) {
	rnd := rand.New(rand.NewSource(seed))
	n := newNode(core.DevNetParams(), false, nil)
	eff := &admEffects{sub: n.bus.Terminate.Sub()}
	port, _ := startRest(n, p.Cfg.Admin, p.Cfg.Wallet, strings.Join(p.Cfg.Pw, ""))
	addr := "127.0.0.1:" + port
	keep := &admClient{addr: addr}
	defer keep.close()
	var musts, quiet []admItem
	for _, r := range p.Reqs {
		if r.Must {
			musts = append(musts, r)
		} else if !r.May {
			quiet = append(quiet, r)
		}
	}
	one := func(r admItem) {
		c := keep
		if rnd.Intn(4) == 0 {
			c = &admClient{addr: addr}
			defer c.close()
		}
		restMu.RLock()
		st := c.do(r.Q)
		restMu.RUnlock()
		want, wait := 0, time.Duration(0)
		if r.May && (r.Must || st/100 == 2) {
			want, wait = 1, 5*time.Second
		}
		out = append(out, admOut{p.Cfg, admOne{"one", r.Q, st, eff.take(want, wait)}})
	}
	order := rnd.Perm(len(p.Reqs))
	for i, k := range order {
		one(p.Reqs[k])
		// after one that was let through, one that must not be
		if p.Reqs[k].Must && len(quiet) > 0 {
			one(quiet[rnd.Intn(len(quiet))])
		}
		if i%400 == 399 && len(musts) > 0 {
			one(musts[rnd.Intn(len(musts))])
		}
	}
	// many at once
	for round := 0; round < 3; round++ {
		var m admMany
		m.K = "many"
		for i := 0; i < 12 && len(musts) > 0; i++ {
			m.Qs = append(m.Qs, musts[rnd.Intn(len(musts))].Q)
		}
		for i := 0; i < 24 && len(quiet) > 0; i++ {
			m.Qs = append(m.Qs, quiet[rnd.Intn(len(quiet))].Q)
		}
		rnd.Shuffle(len(m.Qs), func(i, j int) { m.Qs[i], m.Qs[j] = m.Qs[j], m.Qs[i] })
		m.Sts = make([]int, len(m.Qs))
		var wg sync.WaitGroup
		restMu.RLock()
		for i := range m.Qs {
			i := i
			wg.Add(1)
			go func() {
				defer wg.Done()
				c := &admClient{addr: addr}
				defer c.close()
				m.Sts[i] = c.do(m.Qs[i])
			}()
		}
		wg.Wait()
		restMu.RUnlock()
		want := 0
		for i, q := range m.Qs {
			if q.Tg.Ep == "terminate" && m.Sts[i]/100 == 2 {
				want++
			}
		}
		m.Eff = eff.take(want, 5*time.Second)
		out = append(out, admOut{p.Cfg, m})
	}
	// nothing comes late
	time.Sleep(100 * time.Millisecond)
	late := admMany{K: "many", Qs: []admReq{}, Sts: []int{}}
	late.Eff = eff.take(0, 0)
	return append(out, admOut{p.Cfg, late})
}

// admin <in> <out> <seed>
func cmdAdmin(args []string) {
	plans := admRead(args[0])
	seed, _ := strconv.ParseInt(args[2], 10, 64)
	outs := make([][]admOut, len(plans))
	sem := make(chan struct{}, 8)
	var wg sync.WaitGroup
	for i := range plans {
		i := i
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer wg.Done()
			outs[i] = admServer(plans[i], seed*1000+int64(i))
			<-sem
		}()
	}
	wg.Wait()
	admWrite(args[1], outs)
}

// one run of the node program
type admProc struct {
	cmd  *exec.Cmd
	addr string
	gone chan struct{}
}

func admStart(bin, dir string, c admCfg) *admProc {
	for try := 0; try < 5; try++ {
		port := freePort()
		a := []string{"-dev", "-new-network", "-http", strconv.Itoa(port)}
		if c.Admin {
			a = append(a, "-http-admin")
		}
		if c.Wallet {
			a = append(a, "-http-wallet")
		}
		if len(c.Pw) > 0 {
			a = append(a, "-admin-pw="+strings.Join(c.Pw, ""))
		}
		p := &admProc{cmd: exec.Command(bin, a...), addr: "127.0.0.1:" + strconv.Itoa(port), gone: make(chan struct{})}
		p.cmd.Dir = dir
		if err := p.cmd.Start(); err != nil {
			panic("script error: " + err.Error())
		}
		go func() {
			p.cmd.Wait()
			close(p.gone)
		}()
		if !c.Admin && !c.Wallet {
			select {
			case <-p.gone:
				continue
			case <-time.After(3 * time.Second):
				return p
			}
		}
		for end := time.Now().Add(20 * time.Second); time.Now().Before(end); time.Sleep(20 * time.Millisecond) {
			select {
			case <-p.gone:
				end = time.Now()
				continue
			default:
			}
			if (&admClient{addr: p.addr}).do(admReq{Tg: admTarget{T: "/version"}, M: "GET"}) == 200 {
				return p
			}
		}
		p.stop()
	}
	return nil
}

func (p *admProc) stop() {
	p.cmd.Process.Kill()
	<-p.gone
}

func admRunProc(bin, dir string, p admPlan, seed int64) (out []admOut) {
	rnd := rand.New(rand.NewSource(seed))
	a := admStart(bin, dir, p.Cfg)
	if a == nil {
		return append(out, admOut{p.Cfg, map[string]interface{}{"k": "down"}})
	}
	defer func() { a.stop() }()
	if !p.Cfg.Admin && !p.Cfg.Wallet {
		if c, err := net.Dial("tcp", a.addr); err == nil {
			c.Close()
			return append(out, admOut{p.Cfg, admOne{"one", admReq{Tg: admTarget{Ep: "terminate", Plain: true}, Pws: [][]string{}, Oth: []json.RawMessage{}}, 200, 0}})
		}
		return append(out, admOut{p.Cfg, map[string]interface{}{"k": "down"}})
	}
	keep := &admClient{addr: a.addr}
	defer func() { keep.close() }()
	var musts []admItem
	n := 0
	one := func(r admItem) bool {
		st := keep.do(r.Q)
		wait := time.Duration(0)
		if r.May && (r.Must || st/100 == 2) || st == 0 {
			wait = 10 * time.Second
		}
		eff := 0
		select {
		case <-a.gone:
			eff = 1
		case <-time.After(wait):
		}
		if eff == 1 && st == 0 && r.Must {
			st = 200 // it was gone before it could answer
		}
		out = append(out, admOut{p.Cfg, admOne{"one", r.Q, st, eff}})
		return eff == 0
	}
	for _, k := range rnd.Perm(len(p.Reqs)) {
		r := p.Reqs[k]
		if r.Must {
			musts = append(musts, r)
		}
		if r.May || n > 400 {
			continue
		}
		n++
		if !one(r) {
			return
		}
	}
	// nothing comes late
	select {
	case <-a.gone:
		return append(out, admOut{p.Cfg, admMany{"many", []admReq{}, []int{}, 1}})
	case <-time.After(300 * time.Millisecond):
	}
	if len(musts) > 0 {
		one(musts[rnd.Intn(len(musts))])
	}
	return
}

// adminproc <bin> <dir> <in> <out> <seed>
func cmdAdminProc(args []string) {
	plans := admRead(args[2])
	seed, _ := strconv.ParseInt(args[4], 10, 64)
	outs := make([][]admOut, len(plans))
	sem := make(chan struct{}, 8)
	var wg sync.WaitGroup
	for i := range plans {
		i := i
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer wg.Done()
			outs[i] = admRunProc(args[0], args[1], plans[i], seed*1000+int64(i))
			<-sem
		}()
	}
	wg.Wait()
	admWrite(args[3], outs)
}

package main

// Runs of the repository's wallet program, in a home directory of its own, as
// a user that has no other.

import (
	"bytes"
	"context"
	"crypto/ecdsa"
	"crypto/x509"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/levilutz/basiccoin/pkg/core"
)

const cliUid = 54321

var cliNs sync.Once
var cliUserNs bool

type cliUser struct {
	bin  string
	home string
	prox string
}

func (u *cliUser) cmd(ctx context.Context, limit int, args ...string) *exec.Cmd {
	var c *exec.Cmd
	if limit >= 0 {
		c = exec.CommandContext(ctx, "/bin/bash", append([]string{"-c", fmt.Sprintf(`ulimit -c 0; ulimit -f %d; exec "$0" "$@"`, limit), u.bin}, args...)...)
	} else {
		c = exec.CommandContext(ctx, u.bin, args...)
	}
	c.Dir = u.home
	c.Env = []string{"HOME=" + u.home, "USER=walletuser", "PATH=/usr/bin:/bin", "TMPDIR=" + filepath.Join(u.home, "tmp"),
		"HTTP_PROXY=" + u.prox, "http_proxy=" + u.prox, "GOTRACEBACK=single"}
	cliNs.Do(func() {
		t := exec.Command("/bin/true")
		t.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: cliUid, Gid: cliUid}}
		cliUserNs = t.Run() != nil
	})
	if cliUserNs {
		c.SysProcAttr = &syscall.SysProcAttr{Cloneflags: syscall.CLONE_NEWUSER,
			UidMappings: []syscall.SysProcIDMap{{ContainerID: cliUid, HostID: os.Getuid(), Size: 1}},
			GidMappings: []syscall.SysProcIDMap{{ContainerID: cliUid, HostID: os.Getgid(), Size: 1}}}
	} else {
		c.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: cliUid, Gid: cliUid}}
	}
	return c
}

// hand everything below to the user
func (u *cliUser) own(dir string) {
	if cliUserNs {
		return
	}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil {
			os.Lchown(p, cliUid, cliUid)
		}
		return nil
	})
}

func (u *cliUser) run(stdin string, limit int, kill time.Duration, args ...string) (out string, ok, killed bool) {
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	c := u.cmd(ctx, limit, args...)
	var b bytes.Buffer
	c.Stdout = &b
	var e bytes.Buffer
	c.Stderr = &e
	c.Stdin = strings.NewReader(stdin)
	if err := c.Start(); err != nil {
		panic("script error: " + err.Error())
	}
	if kill > 0 {
		time.AfterFunc(kill, func() { c.Process.Kill() })
	}
	err := c.Wait()
	if ctx.Err() != nil {
		panic("script error: the wallet program does not end: " + strings.Join(args, " "))
	}
	var ee *exec.ExitError
	if errors.As(err, &ee) {
		ws := ee.Sys().(syscall.WaitStatus)
		killed = ws.Signaled()
	} else if err != nil {
		panic("script error: " + err.Error())
	}
	if os.Getenv("VERIF_NOISE") != "" {
		fmt.Println(args, b.String(), e.String())
	}
	return b.String() + e.String(), err == nil, killed
}

// ---- a node to talk to ----
type cliNode struct {
	addr string
	mu   sync.Mutex
	ask  map[string][]string // by prefix: addresses asked about
	h    map[string]func(w http.ResponseWriter, q *http.Request, path string)
}

func newCliNode() *cliNode {
	n := &cliNode{ask: map[string][]string{}, h: map[string]func(http.ResponseWriter, *http.Request, string){}}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic("script error: " + err.Error())
	}
	n.addr = "http://" + l.Addr().String()
	go http.Serve(l, n)
	return n
}

// paths: /<run>/<side>[/other]/...
func (n *cliNode) ServeHTTP(w http.ResponseWriter, q *http.Request) {
	if q.URL.Host != "" { // asked to be a proxy
		w.WriteHeader(502)
		return
	}
	for strings.Contains(q.URL.Path, "//") {
		q.URL.Path = strings.ReplaceAll(q.URL.Path, "//", "/")
	}
	p := strings.SplitN(strings.TrimPrefix(q.URL.Path, "/"), "/", 3)
	if len(p) < 3 {
		http.NotFound(w, q)
		return
	}
	run, side, rest := p[0], p[1], strings.TrimPrefix(p[2], "other/")
	if side == "x" && rest == "version" {
		io.WriteString(w, "v9.9.9")
		return
	}
	if rest == "version" {
		if side == "dev" {
			io.WriteString(w, "v0.0.0-dev")
		} else {
			io.WriteString(w, "v0.0.0")
		}
		return
	}
	n.mu.Lock()
	if q.Method == "GET" {
		n.ask[run] = append(n.ask[run], q.URL.Query()["publicKeyHash"]...)
	}
	h := n.h[run]
	n.mu.Unlock()
	if h != nil {
		h(w, q, rest)
		return
	}
	switch rest {
	case "wallet/balance":
		m := map[string]uint64{}
		for _, k := range q.URL.Query()["publicKeyHash"] {
			if len(k) == 64 {
				m[k] = 5
			}
		}
		json.NewEncoder(w).Encode(map[string]interface{}{"balances": m})
	case "wallet/utxos":
		io.WriteString(w, `{"utxos":[]}`)
	case "wallet/richlist":
		io.WriteString(w, `{"richList":{}}`)
	default:
		http.NotFound(w, q)
	}
}

func (n *cliNode) asked(run string) []string {
	n.mu.Lock()
	defer n.mu.Unlock()
	r := n.ask[run]
	delete(n.ask, run)
	return r
}

// ---- keys ----
type cliKey struct {
	priv *ecdsa.PrivateKey
	pkh  string
	der  []byte
}

func newCliKey() cliKey {
	p, err := core.NewEcdsa()
	if err != nil {
		panic(err)
	}
	pub, _ := x509.MarshalPKIXPublicKey(p.Public())
	der, _ := x509.MarshalECPrivateKey(p)
	h := core.DHashBytes(pub)
	d := h.Data()
	return cliKey{p, hex.EncodeToString(d[:]), der}
}

type cliFileKey struct {
	Pkh string `json:"publicKeyHash"`
	Der []byte `json:"privateKey"`
}
type cliFileJSON struct {
	Dev  bool         `json:"dev"`
	Addr string       `json:"nodeAddr"`
	Keys []cliFileKey `json:"keys"`
}
type cliFile struct {
	Has   bool   `json:"has"`
	Whole bool   `json:"whole"`
	Good  bool   `json:"good"`
	Addr  string `json:"addr"`
	Keys  []int  `json:"keys"`
}

type cliImp struct {
	Own   int    `json:"own"`
	Pool  []int  `json:"pool"`
	Twice bool   `json:"twice"`
	Bad   string `json:"bad"`
}
type cliStep struct {
	Cmd    string             `json:"cmd"`
	Side   string             `json:"side"`
	Arg    string             `json:"arg"`
	Fault  string             `json:"fault"`
	Crash  bool               `json:"crash"`
	Imp    []cliImp           `json:"imp"`
	Ok     bool               `json:"ok"`
	Killed bool               `json:"killed"`
	Fits   bool               `json:"fits"`
	Reach  bool               `json:"reach"`
	Addr   string             `json:"addr"`
	Given  []int              `json:"given"`
	Told   []int              `json:"told"`
	Asked  []int              `json:"asked"`
	Before map[string]cliFile `json:"before"`
	After  map[string]cliFile `json:"after"`
	Alts   []cliAlt           `json:"alts"`
	Out    string             `json:"out"`
}
type cliAlt struct {
	At    string  `json:"at"`
	Main  cliFile `json:"main"`
	Dev   cliFile `json:"dev"`
	Works bool    `json:"works"`
}
type cliScript struct {
	Name  string    `json:"name"`
	Seed  int64     `json:"seed"`
	Steps []cliStep `json:"steps"`
}

type cliRun struct {
	cliUser
	node  *cliNode
	name  string
	dir   string
	ids   map[string]int
	pool  map[int]cliKey
	known map[string][]byte // address -> key as first seen
	rng   *rand.Rand
}

var cliFiles = map[string]string{"main": "wallet.json", "dev": "wallet-dev.json"}

func (r *cliRun) id(pkh string) int {
	if i, ok := r.ids[pkh]; ok {
		return i
	}
	i := 1
	for _, x := range r.ids {
		if x < 100 && x >= i {
			i = x + 1
		}
	}
	r.ids[pkh] = i
	return i
}

func (r *cliRun) read(raw []byte, has bool) cliFile {
	f := cliFile{Has: has, Keys: []int{}}
	if !has {
		f.Whole, f.Good = true, true
		return f
	}
	var j cliFileJSON
	if json.Unmarshal(raw, &j) != nil {
		return f
	}
	f.Whole, f.Good, f.Addr = true, true, j.Addr
	for _, k := range j.Keys {
		f.Keys = append(f.Keys, r.id(k.Pkh))
		p, err := x509.ParseECPrivateKey(k.Der)
		if err != nil {
			f.Good = false
			continue
		}
		pub, err := x509.MarshalPKIXPublicKey(p.Public())
		if err != nil {
			f.Good = false
			continue
		}
		h := core.DHashBytes(pub)
		d := h.Data()
		if hex.EncodeToString(d[:]) != k.Pkh {
			f.Good = false
		}
		if o, ok := r.known[k.Pkh]; ok && !bytes.Equal(o, k.Der) {
			f.Good = false
		}
		r.known[k.Pkh] = k.Der
	}
	return f
}

func (r *cliRun) config(home string) string { return filepath.Join(home, ".config", "basiccoin") }
func (r *cliRun) files(home string) map[string]cliFile {
	m := map[string]cliFile{}
	for s, f := range cliFiles {
		raw, err := os.ReadFile(filepath.Join(r.config(home), f))
		m[s] = r.read(raw, err == nil)
	}
	return m
}

func (r *cliRun) stored(side string) (j cliFileJSON) {
	raw, _ := os.ReadFile(filepath.Join(r.config(r.home), cliFiles[side]))
	json.Unmarshal(raw, &j)
	return
}

// write the file to import; returns its path
func (r *cliRun) importFile(st *cliStep, n int) string {
	i := st.Imp[0]
	var j cliFileJSON
	j.Dev, j.Addr = r.rng.Intn(2) == 0, "http://127.0.0.1:9/elsewhere"
	for k, x := range r.stored(st.Side).Keys {
		if k < i.Own {
			j.Keys = append(j.Keys, x)
		}
	}
	sort.Ints(i.Pool)
	if (i.Bad == "addr" || i.Bad == "der" || i.Bad == "torn") && len(i.Pool) == 0 {
		i.Pool = []int{101}
	}
	for _, p := range i.Pool {
		j.Keys = append(j.Keys, cliFileKey{r.pool[p].pkh, r.pool[p].der})
	}
	r.rng.Shuffle(len(j.Keys), func(a, b int) { j.Keys[a], j.Keys[b] = j.Keys[b], j.Keys[a] })
	if i.Twice {
		j.Keys = append(j.Keys, j.Keys...)
	}
	st.Given = []int{}
	for _, k := range j.Keys {
		st.Given = append(st.Given, r.id(k.Pkh))
	}
	if i.Bad == "addr" || i.Bad == "der" {
		k := r.rng.Intn(len(j.Keys))
		if i.Bad == "addr" {
			x := newCliKey()
			if r.rng.Intn(2) == 0 {
				j.Keys[k].Pkh = x.pkh
			} else {
				j.Keys[k].Der = x.der
			}
		} else {
			d := append([]byte{}, j.Keys[k].Der...)
			j.Keys[k].Der = d[:len(d)-3]
		}
	}
	p := filepath.Join(r.home, fmt.Sprintf("import-%d.json", n))
	raw, _ := json.MarshalIndent(j, "", "  ")
	if j.Keys == nil {
		raw = []byte(`{"keys": []}`)
	}
	switch i.Bad {
	case "junk":
		raw = []byte("these are not keys")
	case "torn":
		raw = raw[:len(raw)-len(raw)/3]
	case "missing":
		return p
	}
	os.WriteFile(p, raw, 0o644)
	os.Chmod(p, 0o644)
	return p
}

var cliHex = regexp.MustCompile(`(?m)^[0-9a-f]{64}$`)

func (r *cliRun) step(st *cliStep, n int) {
	st.Before = r.files(r.home)
	st.Given, st.Told, st.Asked, st.Alts = []int{}, []int{}, []int{}, []cliAlt{}
	if st.Imp == nil {
		st.Imp = []cliImp{}
	}
	args := []string{}
	if st.Side == "dev" {
		args = append(args, "dev")
	}
	good := fmt.Sprintf("%s/%s/%s", r.node.addr, r.name, st.Side)
	switch st.Cmd {
	case "generate":
		args = append(args, "generate")
		if st.Arg != "" {
			args = append(args, st.Arg)
		}
	case "import":
		args = append(args, "import", r.importFile(st, n))
	case "connect":
		st.Addr = map[string]string{"good": good, "other": good + "/other/", "wrongversion": fmt.Sprintf("%s/%s/x", r.node.addr, r.name), "nobody": "http://127.0.0.1:1"}[st.Arg]
		st.Reach = st.Arg == "good" || st.Arg == "other"
		args = append(args, "connect", st.Addr)
	case "read":
		args = append(args, strings.Fields(st.Arg)...)
	}
	limit, kill := -1, time.Duration(0)
	switch st.Fault {
	case "full":
		limit = r.rng.Intn(2)
	case "kill":
		kill = time.Duration(1+r.rng.Intn(9000)) * time.Microsecond
	case "nodir":
		c := r.config(r.home)
		if _, err := os.Stat(c); err != nil {
			c = r.home
		}
		for _, f := range cliFiles {
			os.Chmod(filepath.Join(c, f), 0o400)
		}
		os.Chmod(c, 0o500)
		defer os.Chmod(c, 0o700)
		defer func() {
			for _, f := range cliFiles {
				os.Chmod(filepath.Join(c, f), 0o600)
			}
		}()
	}
	r.node.asked(r.name)
	w := &runner{saveDir: &r.home}
	crash := st.Crash && st.Fault == ""
	if crash {
		w.snapshot()
	}
	var ran bool
	st.Out, ran, st.Killed = r.run("", limit, kill, args...)
	st.Ok = ran && strings.Contains(st.Out, "success")
	for _, a := range r.node.asked(r.name) {
		st.Asked = append(st.Asked, r.id(a))
	}
	st.Fits = true
	if st.Cmd == "generate" {
		for _, a := range cliHex.FindAllString(st.Out, -1) {
			st.Told = append(st.Told, r.id(a))
			st.Fits = st.Fits && strings.HasPrefix(a, st.Arg)
		}
	}
	st.After = r.files(r.home)
	if len(st.Out) > 600 {
		st.Out = st.Out[:600]
	}
	if crash {
		states, labels := w.prefixes()
		for i, s := range states {
			d := filepath.Join(r.dir, fmt.Sprintf("%s-%d-%d", r.name, n, i))
			os.MkdirAll(d, 0o755)
			for p := range s {
				if strings.HasSuffix(p, "/") {
					os.MkdirAll(filepath.Join(d, p), 0o700)
				}
			}
			for p, c := range s {
				if !strings.HasSuffix(p, "/") {
					os.MkdirAll(filepath.Dir(filepath.Join(d, p)), 0o700)
					os.WriteFile(filepath.Join(d, p), c, 0o600)
				}
			}
			r.own(d)
			a := cliAlt{At: labels[i]}
			f := r.files(d)
			a.Main, a.Dev = f["main"], f["dev"]
			u := r.cliUser
			u.home = d
			v, ok, _ := u.run("", -1, 0, "version")
			a.Works = ok && strings.Contains(v, "v0.0.0")
			v, ok, _ = u.run("", -1, 0, "dev", "version")
			a.Works = a.Works && ok && strings.Contains(v, "v0.0.0-dev")
			st.Alts = append(st.Alts, a)
			os.RemoveAll(d)
		}
	}
}

func cliStart(bin, dir, name string, node *cliNode, seed int64) *cliRun {
	r := &cliRun{node: node, name: name, dir: dir, ids: map[string]int{}, pool: map[int]cliKey{}, known: map[string][]byte{}, rng: rand.New(rand.NewSource(seed))}
	r.bin, r.home, r.prox = bin, filepath.Join(dir, name), node.addr
	os.MkdirAll(filepath.Join(r.home, "tmp"), 0o700)
	r.cmd(context.Background(), -1) // find out how to be the user
	for i := 101; i <= 103; i++ {
		r.pool[i] = newCliKey()
		r.ids[r.pool[i].pkh] = i
	}
	r.own(r.home)
	return r
}

// cli <bin> <dir> <in> <out>
func cmdCli(args []string) {
	raw, err := os.ReadFile(args[2])
	if err != nil {
		panic(err)
	}
	var scripts []cliScript
	if err := json.Unmarshal(raw, &scripts); err != nil {
		panic(err)
	}
	node := newCliNode()
	sem := make(chan struct{}, 12)
	var wg sync.WaitGroup
	for i := range scripts {
		s := &scripts[i]
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer wg.Done()
			r := cliStart(args[0], args[1], s.Name, node, s.Seed)
			if r.rng.Intn(2) == 0 {
				os.MkdirAll(r.config(r.home), 0o700)
				r.own(r.home)
			}
			for k := range s.Steps {
				r.step(&s.Steps[k], k)
			}
			os.RemoveAll(r.home)
			<-sem
		}()
	}
	wg.Wait()
	o, err := os.Create(args[3])
	if err != nil {
		panic(err)
	}
	for _, s := range scripts {
		b, _ := json.Marshal(s)
		o.Write(append(b, '\n'))
	}
	o.Close()
}

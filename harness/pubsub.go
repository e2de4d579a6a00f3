package main

// Replays sequential scripts and records concurrent runs of the topics.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/levilutz/basiccoin/pkg/topic"
)

type psOp struct {
	Op  string `json:"op"`
	S   int    `json:"s"`
	Arg int    `json:"arg"`
	Ans []int  `json:"ans"`
	Got []int  `json:"got"`
	Why string `json:"why,omitempty"`
}

type psIn struct {
	Kind string `json:"kind"`
	Name string `json:"name"`
	Ops  []psOp `json:"ops,omitempty"`
	Seed int64  `json:"seed,omitempty"`
	// concurrent runs
	NPub, NSub, Per, MaxBatch, NClose int
}

type psPub struct {
	A int64 `json:"a"`
	B int64 `json:"b"`
	N int   `json:"n"`
}
type psSub struct {
	A    int64    `json:"a"`
	B    int64    `json:"b"`
	Ca   int64    `json:"ca"`
	Full bool     `json:"full"`
	Got  [][2]int `json:"got"`
	Hang string   `json:"hang,omitempty"`
}
type psRun struct {
	Name string  `json:"name"`
	Kind string  `json:"kind"`
	Ops  []psOp  `json:"ops,omitempty"`
	Pubs []psPub `json:"pubs,omitempty"`
	Subs []psSub `json:"subs,omitempty"`
	Hang string  `json:"hang,omitempty"`
}

// run f, or report that it does not end
func within(d time.Duration, f func()) bool {
	done := make(chan struct{})
	go func() { f(); close(done) }()
	select {
	case <-done:
		return true
	case <-time.After(d):
		return false
	}
}

func psSeq(in psIn) psRun {
	out := psRun{Name: in.Name, Kind: "seq"}
	t := topic.NewTopic[int]()
	start := time.Now()
	subs := map[int]topic.Sub[int]{}
	chs := map[int]*topic.SubCh[int]{}
	next := 1
	for _, op := range in.Ops {
		op := op
		op.Got = []int{}
		ok := within(25*time.Second, func() {
			switch op.Op {
			case "sub":
				if op.Arg == 1 {
					chs[op.S] = t.SubCh()
				} else {
					subs[op.S] = t.Sub()
				}
			case "pub":
				op.Got = append(op.Got, next)
				ms := []int{}
				for i := 0; i < op.Arg; i++ {
					ms = append(ms, next)
					next++
				}
				t.Pub(ms...)
			case "pop":
				if s, ok := subs[op.S]; ok {
					for i := 0; i < op.Arg; i++ {
						v, ok := s.Pop()
						if !ok {
							break
						}
						op.Got = append(op.Got, v)
					}
				} else {
					// as many as the answer has, plus a moment to see that no more come
					c := chs[op.S].C
					for i := 0; i < op.Arg; i++ {
						d := 10 * time.Second
						if i >= len(op.Ans) {
							d = 80 * time.Millisecond
						}
						select {
						case v := <-c:
							op.Got = append(op.Got, v)
							continue
						case <-time.After(d):
						}
						break
					}
				}
			case "peek":
				v, ok := subs[op.S].Peek()
				if ok {
					op.Got = append(op.Got, v)
				}
				if n := subs[op.S].Size(); n != op.Arg {
					op.Why = fmt.Sprintf("size %d instead of %d", n, op.Arg)
				}
			case "close":
				if s, ok := subs[op.S]; ok {
					s.Close()
				} else {
					chs[op.S].Close()
				}
			case "gc":
				if d := 15500*time.Millisecond - time.Since(start); d > 0 {
					time.Sleep(d)
				}
			}
		})
		if !ok {
			op.Why = "does not end"
			out.Ops = append(out.Ops, op)
			out.Hang = op.Op
			return out
		}
		out.Ops = append(out.Ops, op)
	}
	return out
}

type psMsg struct{ k, i int }

func psConc(in psIn) psRun {
	out := psRun{Name: in.Name, Kind: "conc", Pubs: make([]psPub, in.NPub*in.Per), Subs: make([]psSub, in.NSub)}
	t := topic.NewTopic[psMsg]()
	var clock atomic.Int64
	var wg, wp sync.WaitGroup
	pubsDone := make(chan struct{})
	for p := 0; p < in.NPub; p++ {
		p := p
		wp.Add(1)
		go func() {
			defer wp.Done()
			rng := rand.New(rand.NewSource(in.Seed*1000 + int64(p)))
			for k := 0; k < in.Per; k++ {
				id := p*in.Per + k
				n := 1 + rng.Intn(in.MaxBatch)
				ms := make([]psMsg, n)
				for i := range ms {
					ms[i] = psMsg{id + 1, i + 1}
				}
				switch rng.Intn(6) {
				case 0:
					runtime.Gosched()
				case 1:
					time.Sleep(time.Duration(rng.Intn(300)) * time.Microsecond)
				}
				a := clock.Add(1)
				t.Pub(ms...)
				out.Pubs[id] = psPub{a, clock.Add(1), n}
			}
		}()
	}
	for s := 0; s < in.NSub; s++ {
		s := s
		wg.Add(1)
		go func() {
			defer wg.Done()
			rng := rand.New(rand.NewSource(in.Seed*1000 + 500 + int64(s)))
			if rng.Intn(2) == 0 {
				time.Sleep(time.Duration(rng.Intn(3000)) * time.Microsecond)
			}
			r := psSub{Got: [][2]int{}}
			closes := s < in.NClose
			stopAt := rng.Intn(in.NPub*in.Per*in.MaxBatch/2 + 1)
			if rng.Intn(2) == 0 {
				r.A = clock.Add(1)
				sub := t.Sub()
				r.B = clock.Add(1)
				for {
					if closes && len(r.Got) >= stopAt {
						break
					}
					// look whether all is published before looking for a message
					fin := false
					select {
					case <-pubsDone:
						fin = true
					default:
					}
					if rng.Intn(20) == 0 {
						if pv, ok := sub.Peek(); ok {
							if v, ok := sub.Pop(); !ok || v != pv {
								r.Hang = "peek and pop differ"
							} else {
								r.Got = append(r.Got, [2]int{v.k, v.i})
							}
							continue
						}
					}
					v, ok := sub.Pop()
					if ok {
						r.Got = append(r.Got, [2]int{v.k, v.i})
					} else if fin {
						r.Full = true
						break
					} else {
						time.Sleep(time.Duration(rng.Intn(200)) * time.Microsecond)
					}
				}
				if closes {
					r.Ca = clock.Add(1)
					if !within(5*time.Second, sub.Close) {
						r.Hang = "close does not end"
					}
				}
			} else {
				r.A = clock.Add(1)
				sub := t.SubCh()
				r.B = clock.Add(1)
				fin := false
			L:
				for {
					if closes && len(r.Got) >= stopAt {
						break
					}
					d := 20 * time.Millisecond
					if fin {
						d = 2 * time.Second
						if len(r.Got) > 0 {
							d = 1500 * time.Millisecond
						}
					}
					select {
					case v := <-sub.C:
						r.Got = append(r.Got, [2]int{v.k, v.i})
					case <-time.After(d):
						if fin {
							r.Full = true
							break L
						}
						select {
						case <-pubsDone:
							fin = true
						default:
						}
					}
				}
				if closes {
					r.Ca = clock.Add(1)
					if !within(5*time.Second, sub.Close) {
						r.Hang = "close does not end"
					}
				}
			}
			out.Subs[s] = r
		}()
	}
	if !within(20*time.Second, wp.Wait) {
		out.Hang = "a publisher does not end"
		out.Subs = nil
		return out
	}
	close(pubsDone)
	if !within(20*time.Second, wg.Wait) {
		out.Hang = "a subscriber does not end"
		out.Subs = nil
	}
	return out
}

// pubsub <in> <out>
func cmdPubsub(args []string) {
	in, err := os.Open(args[0])
	if err != nil {
		panic(err)
	}
	sc := bufio.NewScanner(in)
	sc.Buffer(nil, 1<<28)
	out, err := os.Create(args[1])
	if err != nil {
		panic(err)
	}
	defer out.Close()
	var mu sync.Mutex
	var wg sync.WaitGroup
	conc := make(chan struct{}, 8)
	for sc.Scan() {
		x := psIn{}
		if e := json.Unmarshal(sc.Bytes(), &x); e != nil {
			panic("script error: " + e.Error())
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			var r psRun
			if x.Kind == "seq" {
				r = psSeq(x)
			} else {
				conc <- struct{}{}
				r = psConc(x)
				<-conc
			}
			raw, _ := json.Marshal(r)
			mu.Lock()
			out.Write(append(raw, '\n'))
			mu.Unlock()
		}()
	}
	wg.Wait()
}

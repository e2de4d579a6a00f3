package main

// Kill points: the file operations of one step are recorded with inotify and
// every prefix of them (with torn writes) is rebuilt in a scratch directory,
// on which a fresh node is started.

import (
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
)

type fileEv struct {
	path   string // relative to the save dir
	mask   uint32
	cookie uint32
}

type fileWatch struct {
	fd   int
	dirs map[int]string
}

func readTree(dir string) map[string][]byte {
	out := map[string][]byte{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil {
			rel, _ := filepath.Rel(dir, p)
			if fi.IsDir() {
				out[rel+"/"] = nil
			} else if raw, e := os.ReadFile(p); e == nil {
				out[rel] = raw
			}
		}
		return nil
	})
	return out
}

func (r *runner) snapshot() {
	if r.fw != nil {
		syscall.Close(r.fw.fd)
		r.fw = nil
	}
	r.tree0 = readTree(*r.saveDir)
	fd, err := syscall.InotifyInit1(syscall.IN_NONBLOCK | syscall.IN_CLOEXEC)
	if err != nil {
		panic(err)
	}
	fw := &fileWatch{fd: fd, dirs: map[int]string{}}
	for p := range r.tree0 {
		if strings.HasSuffix(p, "/") {
			wd, err := syscall.InotifyAddWatch(fd, filepath.Join(*r.saveDir, p),
				syscall.IN_CREATE|syscall.IN_MODIFY|syscall.IN_MOVED_FROM|syscall.IN_MOVED_TO|syscall.IN_DELETE)
			if err != nil {
				panic(err)
			}
			fw.dirs[wd] = p
		}
	}
	r.fw = fw
}

func (fw *fileWatch) events() []fileEv {
	out := []fileEv{}
	buf := make([]byte, 1<<20)
	for {
		n, err := syscall.Read(fw.fd, buf)
		if n <= 0 || err != nil {
			return out
		}
		for off := 0; off+16 <= n; {
			wd := int(int32(binary.LittleEndian.Uint32(buf[off:])))
			mask := binary.LittleEndian.Uint32(buf[off+4:])
			cookie := binary.LittleEndian.Uint32(buf[off+8:])
			l := int(binary.LittleEndian.Uint32(buf[off+12:]))
			name := strings.TrimRight(string(buf[off+16:off+16+l]), "\x00")
			if mask&syscall.IN_Q_OVERFLOW != 0 {
				panic("inotify overflow")
			}
			out = append(out, fileEv{filepath.Join(fw.dirs[wd], name), mask, cookie})
			off += 16 + l
		}
	}
}

// all the states the directory went through, oldest first
func (r *runner) prefixes() (states []map[string][]byte, labels []string) {
	evs := r.fw.events()
	syscall.Close(r.fw.fd)
	r.fw = nil
	final := readTree(*r.saveDir)
	// final content of every name, following renames backwards
	content := map[int][]byte{} // event index of last MODIFY of a file -> content
	lastMod := map[string]int{}
	moved := map[uint32]string{}
	for i, e := range evs {
		switch {
		case e.mask&syscall.IN_MODIFY != 0:
			lastMod[e.path] = i
		case e.mask&syscall.IN_MOVED_FROM != 0:
			moved[e.cookie] = e.path
		case e.mask&syscall.IN_MOVED_TO != 0:
			if src, ok := moved[e.cookie]; ok {
				if j, ok := lastMod[src]; ok {
					lastMod[e.path] = j
					delete(lastMod, src)
				}
			}
		}
	}
	full := map[int]bool{}
	for p, i := range lastMod {
		if c, ok := final[p]; ok {
			content[i] = c
			full[i] = true
		}
	}
	cur := map[string][]byte{}
	for p, c := range r.tree0 {
		cur[p] = c
	}
	// files whose content at this point is not known, because it was replaced
	// later in the same step: states with one of them are left out
	unknown := map[string]bool{}
	snap := func(label string) {
		if len(unknown) > 0 {
			return
		}
		c := map[string][]byte{}
		for p, x := range cur {
			c[p] = x
		}
		states = append(states, c)
		labels = append(labels, label)
	}
	snap("start")
	from, lost := map[uint32][]byte{}, map[uint32]bool{}
	for i, e := range evs {
		switch {
		case e.mask&syscall.IN_CREATE != 0:
			if e.mask&syscall.IN_ISDIR != 0 {
				cur[e.path+"/"] = nil
			} else {
				cur[e.path] = []byte{}
				delete(unknown, e.path)
			}
			snap("create " + e.path)
		case e.mask&syscall.IN_MODIFY != 0:
			if full[i] {
				delete(unknown, e.path)
				c := content[i]
				if len(c) > 1 {
					cur[e.path] = c[:len(c)/2]
					snap("torn " + e.path)
					cur[e.path] = c[:len(c)-1]
					snap("torn1 " + e.path)
				}
				cur[e.path] = c
				snap("write " + e.path)
			} else {
				cur[e.path] = []byte{}
				snap("trunc " + e.path)
				unknown[e.path] = true
			}
		case e.mask&syscall.IN_MOVED_FROM != 0:
			from[e.cookie] = cur[e.path]
			delete(cur, e.path)
			if unknown[e.path] {
				delete(unknown, e.path)
				lost[e.cookie] = true
			}
			if !hasCookie(evs[i+1:], e.cookie) {
				snap("moved away " + e.path)
			}
		case e.mask&syscall.IN_MOVED_TO != 0:
			delete(unknown, e.path)
			if lost[e.cookie] {
				unknown[e.path] = true
			}
			if c, ok := from[e.cookie]; ok {
				cur[e.path] = c
			} else {
				cur[e.path] = final[e.path]
			}
			snap("rename " + e.path)
		case e.mask&syscall.IN_DELETE != 0:
			delete(cur, e.path)
			delete(unknown, e.path)
			snap("delete " + e.path)
		}
	}
	cur, unknown = final, nil
	snap("end")
	return
}

func hasCookie(evs []fileEv, c uint32) bool {
	for _, e := range evs {
		if e.mask&syscall.IN_MOVED_TO != 0 && e.cookie == c {
			return true
		}
	}
	return false
}

func (r *runner) crash(st *Step) {
	states, labels := r.prefixes()
	pick := map[int]bool{len(states) - 1: true}
	// the head file and half of the rest first
	for i, l := range labels {
		if strings.HasSuffix(l, "head") || strings.Contains(l, "head") {
			pick[i] = true
		}
	}
	for len(pick) < st.Max && len(pick) < len(states) {
		pick[r.rng.Intn(len(states))] = true
	}
	idx := []int{}
	for i := range pick {
		idx = append(idx, i)
	}
	sort.Ints(idx)
	st.Alts = []Alt{}
	for _, i := range idx {
		d := filepath.Join(r.dir, fmt.Sprintf("%s-crash-%d", r.sc.Name, i))
		os.MkdirAll(d, 0o755)
		for p := range states[i] {
			if strings.HasSuffix(p, "/") {
				os.MkdirAll(filepath.Join(d, p), 0o755)
			}
		}
		for p, c := range states[i] {
			if !strings.HasSuffix(p, "/") {
				os.WriteFile(filepath.Join(d, p), c, 0o644)
			}
		}
		n := newNode(r.sc.params(), r.sc.Opts.Miners, &d)
		if !n.dead.Load() {
			n.offerAndWait()
		}
		a := Alt{At: labels[i], Last: i == len(states)-1}
		a.Obs = r.observe(n)
		if !a.Obs.Dead && st.Fo != nil {
			n.offerAndWait(r.event(st.Fo))
			o := r.observe(n)
			a.Follow = "kept"
			if o.Dead {
				a.Follow = "dead"
			} else if len(o.Heads) > 0 {
				a.Follow = "moved"
			}
		}
		st.Alts = append(st.Alts, a)
		os.RemoveAll(d)
	}
}

package main

// The replicated store on clusters of processes: writes, reads, kills, restarts, pauses, snapshots.

import (
	"encoding/json"
	"fmt"
	mrand "math/rand"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type KOp struct {
	Op string `json:"op"` // set, del, get, lss, burst, bulk, bulkdel, setkill, kill, start, pause, cont, snap, transfer, settle, all
	At string `json:"at"` // L the leader, F a follower, D one that is down, O the one that is for longest, P one that is paused
	I  int    `json:"i"`  // which of them
	K  int    `json:"k"`
	V  int    `json:"v"` // kind of value
}

type KScript struct {
	N   int   `json:"n"`
	T   int   `json:"t"`
	Ops []KOp `json:"ops"`
}

var storeKeys = []string{"a", "LSSx", "k€y \"quoted\"\n", "lss", "b"}

const bulkKeys, bulkEach = 8, 1320

type storeRun struct {
	e     *ensemble
	tr    *Tracer
	tags  map[string]string // value -> tag
	n     int
	r     *mrand.Rand
	moved time.Time
}

func (s *storeRun) value(kind int) string {
	s.n++
	v := fmt.Sprint("v", s.n)
	tag := v
	switch kind % 5 {
	case 1:
		v += strings.Repeat("x", 70000)
	case 2:
		v = fmt.Sprintf(`{"op":"delete","key":"a","value":"%s"}`, v)
	case 3:
		v += " ü\u2028\\\" <&>"
	}
	s.tags[v] = tag
	return v
}

func (s *storeRun) tag(v string) string {
	if v == "" {
		return ""
	}
	if t, ok := s.tags[v]; ok {
		return t
	}
	if i := strings.LastIndex(v, "-"); i > 0 {
		if t, ok := s.tags[v[:i]]; ok {
			return t + "-part"
		}
	}
	return "?" + short([]byte(v))
}

func keyTag(k string) string {
	for i, x := range storeKeys {
		if x == k {
			return fmt.Sprint("k", i+1)
		}
	}
	return k
}

// downs is who is down for longest, if somebody is.
func (s *storeRun) downs(n int) int {
	for _, m := range s.e.ms {
		if m.p == nil && m.since.Before(s.e.m(n).since) {
			n = m.id
		}
	}
	return n
}

func (s *storeRun) pick(at string, i int) int {
	wait := 8 * time.Second
	if !s.quorum() {
		wait = 0
	}
	lead, _ := s.e.calm(wait)
	c := []int{}
	for _, m := range s.e.ms {
		switch at {
		case "L":
			if m.id == lead {
				c = append(c, m.id)
			}
		case "F":
			if m.alive() && m.id != lead {
				c = append(c, m.id)
			}
		case "D":
			if m.p == nil {
				c = append(c, m.id)
			}
		case "O":
			if m.p == nil {
				return s.downs(m.id)
			}
		case "P":
			if m.p != nil && m.paused {
				c = append(c, m.id)
			}
		}
	}
	if len(c) == 0 {
		return 0
	}
	return c[i%len(c)]
}

func (s *storeRun) role(a, b raftView) string {
	// while leadership is being transferred writes are refused
	if !a.ok || !b.ok || time.Since(s.moved) < 10*time.Second || a.term != b.term || a.state != b.state {
		return "unknown"
	}
	return strings.ToLower(a.state)
}

func (s *storeRun) quorum() bool { return 2*len(s.e.alive()) > len(s.e.ms) }

// write does one write and tells how it went.
func (s *storeRun) write(n int, op, k, v string, kill bool) bool {
	m := s.e.m(n)
	a := m.view()
	if kill {
		go func() {
			time.Sleep(time.Duration(s.r.Intn(3000)) * time.Microsecond)
			m.p.cmd.Process.Kill()
		}()
	}
	said, err := m.ask(nodeAsk{Op: op, K: k, V: v}, 25*time.Second)
	q := s.quorum()
	out := "ok"
	switch {
	case err != nil:
		out = "none"
		if !kill {
			s.tr.Emit(M{"e": "stuck", "n": n, "op": op})
			return false
		}
	case said.Err != "":
		out = "error"
	}
	role := "unknown"
	if kill {
		<-m.p.done
		s.e.kill(n)
		s.tr.Emit(M{"e": "write", "n": n, "op": op, "k": keyTag(k), "vs": []string{s.tag(v)}, "out": out, "role": role, "quorum": q})
		s.tr.Emit(M{"e": "kill", "n": n})
		return true
	}
	role = s.role(a, m.view())
	s.tr.Emit(M{"e": "write", "said": said.Err, "n": n, "op": op, "k": keyTag(k), "vs": []string{s.tag(v)}, "out": out, "role": role, "quorum": q && s.quorum()})
	return true
}

func (s *storeRun) get(n int, k string) {
	said, err := s.e.m(n).ask(nodeAsk{Op: "get", K: k}, 10*time.Second)
	if err != nil || said.Err != "" {
		s.tr.Emit(M{"e": "stuck", "n": n, "op": "get"})
		return
	}
	s.tr.Emit(M{"e": "get", "n": n, "k": keyTag(k), "v": s.tag(said.V)})
}

func (s *storeRun) settle() bool {
	if !s.quorum() {
		return true
	}
	e := s.e
	ok := false
	for try := 0; try < 3 && !ok; try++ {
		if l, _ := e.calm(20 * time.Second); l == 0 {
			continue
		}
		ok = e.level(20 * time.Second)
	}
	keys := append([]string{}, storeKeys...)
	keys = append(keys, "LSS")
	for i := 0; i < bulkKeys; i++ {
		keys = append(keys, fmt.Sprint("b", i+1))
	}
	held := []M{}
	for _, i := range e.alive() {
		d, err := e.m(i).ask(nodeAsk{Op: "dump", Key: keys}, 10*time.Second)
		if err != nil {
			ok = false
			continue
		}
		m := M{}
		for _, k := range keys {
			m[keyTag(k)] = s.tag(d.Vals[k])
		}
		held = append(held, M{"n": i, "m": m, "snap": s.e.m(i).view().snap})
	}
	s.tr.Emit(M{"e": "settled", "ok": ok, "held": held})
	return ok
}

func (s *storeRun) start(n int) bool {
	s.e.start(n)
	ok := s.e.ready(n, 25*time.Second)
	s.tr.Emit(M{"e": "start", "n": n, "ok": ok})
	return ok
}

func runStore(sc KScript, keys *Keys, tr *Tracer, r *mrand.Rand) {
	e := newEnsemble(keys, false)
	defer e.close()
	s := &storeRun{e: e, tr: tr, tags: map[string]string{}, r: r}
	for i := 1; i <= keys.N; i++ {
		e.start(i)
	}
	for i := 1; i <= keys.N; i++ {
		if !e.ready(i, 30*time.Second) {
			tr.Emit(M{"e": "start", "n": i, "ok": false})
			return
		}
		tr.Emit(M{"e": "start", "n": i, "ok": true})
	}
	if l, _ := e.calm(30 * time.Second); l == 0 {
		tr.Emit(M{"e": "settled", "ok": false, "held": []M{}})
		return
	}
	// all lets all members run, until they agree
	all := func() bool {
		for _, m := range e.ms {
			e.pause(m.id, false)
			if m.p == nil && !s.start(m.id) {
				return false
			}
		}
		return s.settle()
	}
	for _, op := range sc.Ops {
		if op.Op == "settle" || op.Op == "all" {
			if op.Op == "settle" && !s.settle() || op.Op == "all" && !all() {
				return
			}
			continue
		}
		n := s.pick(op.At, op.I)
		if n == 0 {
			continue
		}
		k := storeKeys[op.K%len(storeKeys)]
		switch op.Op {
		case "set", "setkill":
			if op.Op == "setkill" && len(e.alive()) < 2 {
				continue
			}
			if !s.write(n, "set", k, s.value(op.V), op.Op == "setkill") {
				return
			}
		case "clear":
			if !s.write(n, "set", k, "", false) {
				return
			}
		case "del":
			if !s.write(n, "del", k, "", false) {
				return
			}
		case "get":
			s.get(n, k)
		case "lss":
			v := []string{"x", `{"Height":1}`, `{"Height":1,"Round":0,"Step":1,"Signature":"AA==","SignBytes":"AA"}`, "", "null"}[op.V%5]
			if v != "" {
				s.tags[v] = "lss"
			}
			if !s.write(n, "set", "LSS", v, false) {
				return
			}
			for _, i := range e.alive() {
				s.get(i, "LSS")
			}
		case "burst":
			var wg sync.WaitGroup
			vs, out := make([]string, 12), make([]string, 12)
			for i := range vs {
				vs[i] = s.value(0)
			}
			a := e.m(n).view()
			for i := range vs {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					said, err := e.m(n).ask(nodeAsk{Op: "set", K: k, V: vs[i]}, 25*time.Second)
					out[i] = said.Err
					if err != nil {
						out[i] = "none"
					}
				}(i)
			}
			wg.Wait()
			tags, res := []string{}, "ok"
			for i := range vs {
				tags = append(tags, s.tag(vs[i]))
				if out[i] != "" {
					res = "error"
				}
			}
			tr.Emit(M{"e": "write", "n": n, "op": "set", "k": keyTag(k), "vs": tags, "out": res, "role": s.role(a, e.m(n).view()), "quorum": s.quorum()})
		case "bulk", "bulkdel":
			ks := []string{}
			for i := 0; i < bulkKeys; i++ {
				ks = append(ks, fmt.Sprint("b", i+1))
			}
			v, how := "", "del"
			if op.Op == "bulk" {
				v, how = s.value(0), "set"
			}
			said, err := e.m(n).ask(nodeAsk{Op: "bulk", Key: ks, V: v, N: bulkEach}, 60*time.Second)
			if err != nil || said.Err != "" {
				tr.Emit(M{"e": "stuck", "n": n, "op": "bulk"})
				return
			}
			for _, k := range ks {
				tr.Emit(M{"e": "write", "n": n, "op": how, "k": k, "vs": []string{s.tag(v)}, "out": "ok", "role": "unknown", "quorum": true})
			}
		case "kill":
			e.kill(n)
			tr.Emit(M{"e": "kill", "n": n})
		case "start":
			if !s.start(n) {
				return
			}
		case "pause":
			e.pause(n, true)
			tr.Emit(M{"e": "pause", "n": n})
		case "cont":
			e.pause(n, false)
			tr.Emit(M{"e": "cont", "n": n})
		case "snap":
			said := e.snapshot(n)
			tr.Emit(M{"e": "snap", "n": n, "said": said})
		case "hasty":
			if !s.hasty(k) {
				return
			}
		case "transfer":
			tr.Emit(M{"e": "transfer", "n": n, "to": 1 + op.I%keys.N})
			s.moved = time.Now()
			e.transfer(n, fmt.Sprint(1+op.I%keys.N))
		default:
			panic("HARNESS: " + op.Op)
		}
	}
	all()
}

// hasty stops all members and starts them again, and deletes k at the very moment one of them leads.
func (s *storeRun) hasty(k string) bool {
	for _, m := range s.e.ms {
		if m.p != nil {
			s.e.kill(m.id)
			s.tr.Emit(M{"e": "kill", "n": m.id})
		}
	}
	for _, m := range s.e.ms {
		s.e.start(m.id)
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	stop := int32(0)
	unsure := false // one more such deletion makes no difference
	events := []M{}
	for _, m := range s.e.ms {
		wg.Add(1)
		go func(m *member) {
			defer wg.Done()
			for from := time.Now(); time.Since(from) < 25*time.Second && atomic.LoadInt32(&stop) == 0; {
				said, err := m.ask(nodeAsk{Op: "del", K: k}, 25*time.Second)
				if err == nil && said.Err == "not leader" {
					continue
				}
				out := "error"
				if err != nil {
					out = "none"
				} else if said.Err == "" {
					out = "ok"
					atomic.StoreInt32(&stop, 1)
				}
				if err != nil {
					// it does not listen yet
					time.Sleep(10 * time.Millisecond)
				}
				mu.Lock()
				if out != "ok" && unsure {
					mu.Unlock()
					continue
				}
				unsure = unsure || out != "ok"
				events = append(events, M{"e": "write", "said": said.Err, "n": m.id, "op": "del", "k": keyTag(k), "vs": []string{""}, "out": out, "role": "unknown", "quorum": true})
				mu.Unlock()
			}
		}(m)
	}
	wg.Wait()
	for _, m := range s.e.ms {
		ok := s.e.ready(m.id, 25*time.Second)
		s.tr.Emit(M{"e": "start", "n": m.id, "ok": ok})
		if !ok {
			return false
		}
	}
	for _, e := range events {
		s.tr.Emit(e)
	}
	return true
}

func storeMain(c cosConf) {
	tr := NewTracer(c.Out)
	defer tr.Close()
	start := time.Now()
	scripts := []KScript{}
	readLines(c.Scripts, func(b []byte) {
		var s KScript
		must(json.Unmarshal(b, &s))
		scripts = append(scripts, s)
	})
	keys := map[int]*Keys{}
	for _, s := range scripts {
		if keys[s.N*100+s.T] == nil {
			keys[s.N*100+s.T] = NewKeys(s.N, s.T)
		}
	}
	ran := parallel(tr, c.Workers, len(scripts), func() bool { return time.Since(start).Seconds() > c.Budget }, func(i int, t *Tracer) {
		t.Emit(M{"e": "reset"})
		from := time.Now()
		runStore(scripts[i], keys[scripts[i].N*100+scripts[i].T], t, rng(c.Seed, int64(i)))
		t.Emit(M{"e": "end", "ms": time.Since(from).Milliseconds()})
	})
	fmt.Printf("{\"scripts\":%d,\"events\":%d}\n", ran, tr.n)
}

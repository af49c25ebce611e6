package main

// Single signer processes: histories of requests, kills and restarts on one home directory.

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	mrand "math/rand"
	"os"
	"path/filepath"
	"time"

	tmCryptoEd25519 "github.com/tendermint/tendermint/crypto/ed25519"
	tmProtoPrivval "github.com/tendermint/tendermint/proto/tendermint/privval"
	tm "github.com/tendermint/tendermint/types"
)

type GOp struct {
	Op string    `json:"op"` // req, race, crash, kill, stop, start, reinit, rename
	N  int       `json:"n"`
	P  Payload   `json:"p"`
	Ps []Payload `json:"ps"`
	Us int       `json:"us"`
}

type GScript struct {
	Init string  `json:"init"` // none, init, pv, cos, set
	P    Payload `json:"p"`
	Ops  []GOp   `json:"ops"`
	How  string  `json:"how"`
}

type reply struct {
	q   Payload
	has bool
	err bool
}

type singleWorld struct {
	dir, home string
	env       []string
	flags     []string
	priv      tmCryptoEd25519.PrivKey
	nodes     []*chainNode
	reps      []chan *tmProtoPrivval.Message
	ups       []chan int
	p         *proc
	chain     string
	chains    int
	known     map[string]Payload
	tr        *Tracer
}

// J tells of a payload, and remembers it by its sign bytes.
func (w *singleWorld) J(p Payload) M {
	w.known[string(p.SignBytes())] = p
	return p.J()
}

func (w *singleWorld) of(sb []byte) M {
	if p, ok := w.known[string(sb)]; ok {
		return p.J()
	}
	return Payload{}.J()
}

func (w *singleWorld) start() bool {
	if w.p != nil {
		return true
	}
	for i := range w.nodes {
		for len(w.ups[i]) > 0 {
			<-w.ups[i]
		}
		for len(w.reps[i]) > 0 {
			<-w.reps[i]
		}
	}
	w.p = spawn(w.dir, w.env, append([]string{binary(), "signer", "start"}, w.flags...)...)
	lim := time.After(20 * time.Second)
	for i := range w.nodes {
		select {
		case <-w.ups[i]:
		case <-w.p.done:
			w.tr.Emit(M{"e": "start", "ok": false, "said": w.p.log.tail(300)})
			w.p = nil
			return false
		case <-lim:
			w.p.kill()
			w.tr.Emit(M{"e": "start", "ok": false, "said": "no connection"})
			w.p = nil
			return false
		}
	}
	w.tr.Emit(M{"e": "start", "ok": true})
	return true
}

func (w *singleWorld) down(kind string) {
	if w.p == nil {
		return
	}
	if kind == "stop" {
		w.p.terminate()
	} else {
		w.p.kill()
	}
	w.p = nil
	w.tr.Emit(M{"e": kind})
}

func (w *singleWorld) send(n int, p Payload) {
	p.Chain = w.chain
	if p.S == stepPropose {
		w.nodes[n].send(&tmProtoPrivval.Message{Sum: &tmProtoPrivval.Message_SignProposalRequest{
			SignProposalRequest: &tmProtoPrivval.SignProposalRequest{Proposal: p.Proposal(), ChainId: w.chain}}})
	} else {
		w.nodes[n].send(&tmProtoPrivval.Message{Sum: &tmProtoPrivval.Message_SignVoteRequest{
			SignVoteRequest: &tmProtoPrivval.SignVoteRequest{Vote: p.Vote(), ChainId: w.chain}}})
	}
}

// released tells what a reply is a signature of, if it is one.
func (w *singleWorld) released(m *tmProtoPrivval.Message) M {
	check := func(sb, sig []byte) M {
		if len(sig) == 0 || !w.priv.PubKey().VerifySignature(sb, sig) {
			return M{"sig": len(sig) > 0, "valid": false}
		}
		return M{"sig": true, "valid": true, "q": w.of(sb)}
	}
	r := M{"sig": false, "valid": false}
	guard(func() {
		switch x := m.Sum.(type) {
		case *tmProtoPrivval.Message_SignedVoteResponse:
			r = check(tm.VoteSignBytes(w.chain, &x.SignedVoteResponse.Vote), x.SignedVoteResponse.Vote.Signature)
		case *tmProtoPrivval.Message_SignedProposalResponse:
			r = check(tm.ProposalSignBytes(w.chain, &x.SignedProposalResponse.Proposal), x.SignedProposalResponse.Proposal.Signature)
		}
	})
	return r
}

// recv waits for the reply on connection n; nil if there will be none.
func (w *singleWorld) recv(n int, d time.Duration) M {
	select {
	case m := <-w.reps[n]:
		return w.released(m)
	case <-w.p.done:
		select {
		case m := <-w.reps[n]:
			return w.released(m)
		case <-time.After(20 * time.Millisecond):
			return nil
		}
	case <-time.After(d):
		return nil
	}
}

func (w *singleWorld) emit(ps []Payload, rs []M, how string) {
	rel, asked := []M{}, []M{}
	for _, p := range ps {
		p.Chain = w.chain
		asked = append(asked, w.J(p))
	}
	none := 0
	for _, r := range rs {
		if r == nil {
			none++
		} else if r["valid"] == true {
			rel = append(rel, r["q"].(M))
		}
	}
	w.tr.Emit(M{"e": "sign", "how": how, "asked": asked, "rel": rel, "silent": none})
}

func (w *singleWorld) step(op GOp) {
	switch op.Op {
	case "start":
		w.start()
	case "kill", "stop":
		w.down(op.Op)
	case "req", "race", "crash":
		if !w.start() {
			return
		}
		ps := op.Ps
		if op.Op == "req" {
			ps = []Payload{op.P}
		}
		for i := range ps {
			ps[i].Chain = w.chain
			w.J(ps[i])
		}
		at := func(i int) int { return (op.N + i) % len(w.nodes) }
		for i, p := range ps {
			w.send(at(i), p)
		}
		rs := make([]M, len(ps))
		if op.Op == "crash" {
			// everything on its way when the process dies; what still arrives was released
			t := time.Now()
			for time.Since(t) < time.Duration(op.Us)*time.Microsecond {
			}
			w.p.kill()
			time.Sleep(3 * time.Millisecond)
		}
		for i := range ps {
			rs[i] = w.recv(at(i), 5*time.Second)
		}
		if op.Op == "crash" {
			w.p = nil
		} else if w.p.exited(0) {
			w.p = nil
		}
		w.emit(ps, rs, op.Op)
		if w.p != nil {
			for _, r := range rs {
				if r == nil { // a reply may still come: start over
					w.down("kill")
					break
				}
			}
		}
	case "reinit":
		w.down("kill")
		code, said := command(w.dir, w.env, append([]string{"config", "init", w.chain, w.addrs(), "-o"}, w.flags...)...)
		w.tr.Emit(M{"e": "reinit", "ok": code == 0, "said": said})
	case "rename":
		w.down("kill")
		w.chains++
		to := fmt.Sprintf("chain-%d", w.chains+1)
		code, said := command(w.dir, w.env, append([]string{"config", "chain-id", "set", to}, w.flags...)...)
		if code == 0 {
			w.chain = to
		}
		w.tr.Emit(M{"e": "rename", "ok": code == 0, "said": said})
	default:
		panic("HARNESS: op " + op.Op)
	}
}

func (w *singleWorld) addrs() string {
	s := ""
	for i, n := range w.nodes {
		if i > 0 {
			s += ","
		}
		s += n.addr()
	}
	return s
}

func runSingle(s GScript, tr *Tracer) {
	w := &singleWorld{dir: scratch("sg"), tr: tr, priv: tmCryptoEd25519.GenPrivKey(), chain: chainID, known: map[string]Payload{}}
	defer os.RemoveAll(w.dir)
	for i := 0; i < 2; i++ {
		ch, up := make(chan *tmProtoPrivval.Message, 100), make(chan int, 100)
		w.reps, w.ups = append(w.reps, ch), append(w.ups, up)
		w.nodes = append(w.nodes, newChainNode(fmt.Sprint(i), func(ev string, gen int, m *tmProtoPrivval.Message) {
			switch ev {
			case "up":
				up <- gen
			case "msg":
				ch <- m
			}
		}))
	}
	w.home = filepath.Join(w.dir, ".horcrux")
	w.env = []string{"HOME=" + w.dir}
	if s.How == "flag" {
		w.home = filepath.Join(w.dir, "h")
		w.env = []string{"HOME=" + filepath.Join(w.dir, "none")}
		w.flags = []string{"--home", w.home}
	}
	defer func() {
		if w.p != nil {
			w.p.kill()
		}
		for _, n := range w.nodes {
			n.end()
			n.ln.Close()
		}
	}()
	code, said := command(w.dir, w.env, append([]string{"config", "init", chainID, w.addrs()}, w.flags...)...)
	if code != 0 {
		// without a home directory there is nothing to judge here
		tr.Emit(M{"e": "reset", "mark": M{"h": 0, "r": 0, "s": 0, "c": "", "t": 0}, "init": "failed", "said": said})
		return
	}
	writeFile(filepath.Join(w.home, "priv_validator_key.json"), pvKeyJSON(w.priv))
	state := filepath.Join(w.home, "state", chainID+"_priv_validator_state.json")
	mark := M{"h": 0, "r": 0, "s": 0, "c": "", "t": 0}
	switch s.Init {
	case "none":
		os.Remove(state)
	case "init":
	case "pv", "cos":
		s.P.Chain = ""
		sb := s.P.SignBytes()
		sig, err := w.priv.Sign(sb)
		must(err)
		writeFile(state, stateJSON(s.Init, s.P.H, s.P.R, s.P.S, sb, sig))
		mark = w.J(s.P)
	case "set":
		code, said := command(w.dir, w.env, append([]string{"state", "set", fmt.Sprint(s.P.H)}, w.flags...)...)
		if code == 0 {
			mark = M{"h": s.P.H, "r": 0, "s": 0, "c": "", "t": 0}
		}
		_ = said
	}
	tr.Emit(M{"e": "reset", "mark": mark, "init": s.Init})
	for _, op := range s.Ops {
		w.step(op)
	}
}

func genSingle(r *mrand.Rand, length int) GScript {
	s := GScript{Init: []string{"none", "init", "init", "pv", "cos", "set"}[r.Intn(6)], How: []string{"flag", "home"}[r.Intn(2)]}
	h, t := int64(1+r.Intn(3)), int64(0)
	s.P = randPayload(r, h)
	s.P.Chain = ""
	past := []Payload{}
	if s.Init == "pv" || s.Init == "cos" {
		past = append(past, s.P)
	}
	fresh := func() Payload {
		t++
		if r.Intn(3) > 0 {
			h++
		}
		p := randPayload(r, h)
		p.Chain, p.T = "", t
		past = append(past, p)
		return p
	}
	// a request that looks back at what was signed
	back := func() Payload {
		if len(past) == 0 {
			return fresh()
		}
		p := past[len(past)-1-r.Intn(1+min(len(past)-1, 2))]
		switch r.Intn(6) {
		case 0:
		case 1, 2:
			t++
			p.T = t
		default:
			p = vary(r, p)
			p.Chain = ""
			past = append(past, p)
		}
		return p
	}
	next := func() Payload {
		if r.Intn(5) < 2 {
			return fresh()
		}
		return back()
	}
	for len(s.Ops) < length {
		x := r.Intn(100)
		switch {
		case x < 50:
			s.Ops = append(s.Ops, GOp{Op: "req", N: r.Intn(2), P: next()})
		case x < 62:
			p := fresh()
			ps := []Payload{p, vary(r, p)}
			ps[1].Chain = ""
			past = append(past, ps[1])
			if r.Intn(3) == 0 {
				ps = append(ps, back())
			}
			s.Ops = append(s.Ops, GOp{Op: "race", N: r.Intn(2), Ps: ps})
		case x < 78:
			p := fresh()
			ps := []Payload{p}
			if r.Intn(2) == 0 {
				ps = append(ps, vary(r, p))
				ps[1].Chain = ""
			}
			s.Ops = append(s.Ops, GOp{Op: "crash", N: r.Intn(2), Ps: ps, Us: r.Intn(900)})
			for i := 0; i < 2; i++ {
				s.Ops = append(s.Ops, GOp{Op: "req", N: r.Intn(2), P: func() Payload { q := vary(r, p); q.Chain = ""; return q }()})
			}
		case x < 88:
			s.Ops = append(s.Ops, GOp{Op: []string{"kill", "stop"}[r.Intn(2)]})
			for i := 0; i < 2; i++ {
				s.Ops = append(s.Ops, GOp{Op: "req", N: r.Intn(2), P: back()})
			}
		case x < 94:
			s.Ops = append(s.Ops, GOp{Op: "reinit"}, GOp{Op: "req", N: r.Intn(2), P: back()})
		default:
			s.Ops = append(s.Ops, GOp{Op: "rename"}, GOp{Op: "req", N: r.Intn(2), P: back()})
		}
	}
	return s
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func readLines(path string, f func([]byte)) {
	if path == "" {
		return
	}
	b, err := os.ReadFile(path)
	must(err)
	sc := bufio.NewScanner(bytes.NewReader(b))
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		f(sc.Bytes())
	}
}

func singleMain(c cosConf) {
	tr := NewTracer(c.Out)
	defer tr.Close()
	start := time.Now()
	scripts := []GScript{}
	readLines(c.Scripts, func(b []byte) {
		var s GScript
		must(json.Unmarshal(b, &s))
		scripts = append(scripts, s)
	})
	for i := 0; i < c.Count; i++ {
		scripts = append(scripts, genSingle(rng(c.Seed, int64(i)), c.Length))
	}
	ran := parallel(tr, c.Workers, len(scripts), func() bool { return time.Since(start).Seconds() > c.Budget }, func(i int, t *Tracer) {
		runSingle(scripts[i], t)
	})
	fmt.Printf("{\"scripts\":%d,\"events\":%d}\n", ran, tr.n)
}

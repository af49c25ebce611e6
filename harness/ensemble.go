package main

// Clusters of processes that sign: requests at any member, members that stop and return, leadership that moves.

import (
	"encoding/json"
	"fmt"
	mrand "math/rand"
	"os"
	"path/filepath"
	"sync"
	"time"

	"github.com/strangelove-ventures/horcrux/signer"
	proto "github.com/strangelove-ventures/horcrux/signer/proto"
	tmProtoPrivval "github.com/tendermint/tendermint/proto/tendermint/privval"
)

type EOp struct {
	Op string `json:"op"` // req, both, crowd, reqkill, lone, back, seen, probe, transfer, elect, moved, kill, start, pause, cont, bulk, snap, forget, all
	At string `json:"at"` // L the leader, F a follower, D one that is down, P one that is paused, A any that is up
	I  int    `json:"i"`
	K  string `json:"k"` // fresh, again, conflict, lower, ts, retry
	S  int    `json:"s"`
}

type EScript struct {
	N    int   `json:"n"`
	T    int   `json:"t"`
	Real bool  `json:"real"`
	Ops  []EOp `json:"ops"`
}

type ensembleRun struct {
	*storeRun
	reg   *Registry
	max   Payload // as the specification has it
	top   Payload // the highest that was asked for
	at    map[string][]Payload
	calls map[int]int
	sigs  map[string]bool
	help  map[int]*signer.LocalCosigner
	state map[int]*signer.SignState
	left  int // who was last left alone
	kept  bool
}

func hrsKey(p Payload) string { return fmt.Sprint(p.H, "/", p.R, "/", p.S) }

func below(a, b Payload) bool {
	if a.H != b.H {
		return a.H < b.H
	}
	if a.R != b.R {
		return a.R < b.R
	}
	return a.S < b.S
}

// payload chooses what to ask for.
func (s *ensembleRun) payload(kind string, step int) (Payload, bool) {
	switch kind {
	case "fresh":
		p := s.top
		switch {
		case p.H > 0 && step%4 == 1 && p.S < 3:
			p.S++
		case p.H > 0 && step%4 == 2:
			p.R++
			p.S = 1 + step%3
		default:
			p.H++
			p.R = int64(step % 2)
			p.S = 1 + step%3
		}
		p.Block = []string{"A", "A", "B", ""}[s.r.Intn(4)]
		if p.S == stepPropose && p.Block == "" {
			p.Block = "A"
		}
		p.T = int64(s.r.Intn(6))
		return p, true
	case "again":
		return s.max, s.max.H > 0
	case "retry":
		return s.top, below(s.max, s.top)
	case "conflict":
		p := s.max
		if p.Block == "A" {
			p.Block = "C"
		} else {
			p.Block = "A"
		}
		return p, s.max.H > 0
	case "ts":
		p := s.max
		p.T += 3
		return p, s.max.H > 0 && p.S != stepPropose
	case "lower":
		p := s.max
		switch {
		case p.S > 1 && step%2 == 0:
			p.S--
		case p.R > 0:
			p.R--
		default:
			p.H--
		}
		if p.S == stepPropose && p.Block == "" {
			p.Block = "A"
		}
		return p, p.H > 0
	}
	panic("HARNESS: " + kind)
}

func (s *ensembleRun) learn(p Payload) M {
	s.reg.Learn(p)
	if below(s.top, p) {
		s.top = p
	}
	k := hrsKey(p)
	for _, q := range s.at[k] {
		if q == p {
			return p.J()
		}
	}
	s.at[k] = append(s.at[k], p)
	return p.J()
}

type answer struct {
	out   string
	sig   []byte
	valid bool
	said  string
}

// sign puts a request to a member, as a chain node does.
func (s *ensembleRun) sign(n int, p Payload) answer {
	m := s.e.m(n)
	a := answer{out: "none"}
	if !m.real {
		said, err := m.ask(nodeAsk{Op: "sign", P: &p}, 40*time.Second)
		if err != nil {
			return a
		}
		a.out, a.sig, a.said = "sig", said.Sig, said.Err
		if said.Err != "" {
			a.out = "error"
		}
	} else {
		for len(m.reps) > 0 {
			<-m.reps
		}
		if p.S == stepPropose {
			m.chain.send(&tmProtoPrivval.Message{Sum: &tmProtoPrivval.Message_SignProposalRequest{
				SignProposalRequest: &tmProtoPrivval.SignProposalRequest{Proposal: p.Proposal(), ChainId: p.chain()}}})
		} else {
			m.chain.send(&tmProtoPrivval.Message{Sum: &tmProtoPrivval.Message_SignVoteRequest{
				SignVoteRequest: &tmProtoPrivval.SignVoteRequest{Vote: p.Vote(), ChainId: p.chain()}}})
		}
		select {
		case r := <-m.reps:
			a.out = "error"
			if v := r.GetSignedVoteResponse(); v != nil {
				if v.Error == nil && len(v.Vote.Signature) > 0 {
					a.out, a.sig = "sig", v.Vote.Signature
				} else if v.Error != nil {
					a.said = v.Error.Description
				}
			}
			if v := r.GetSignedProposalResponse(); v != nil {
				if v.Error == nil && len(v.Proposal.Signature) > 0 {
					a.out, a.sig = "sig", v.Proposal.Signature
				} else if v.Error != nil {
					a.said = v.Error.Description
				}
			}
		case <-m.p.done:
		case <-time.After(40 * time.Second):
		}
	}
	if a.out == "sig" {
		a.valid = s.e.keys.Pub.VerifySignature(p.SignBytes(), a.sig)
		for _, q := range s.at[hrsKey(p)] {
			if p.S == stepPropose && s.sigs[fmt.Sprint(q, a.sig)] {
				a.valid = true
			}
		}
	}
	return a
}

func (s *ensembleRun) emit(n int, p Payload, a answer, calm, level bool, up, lead int) {
	s.kept = calm
	by := []int{lead}
	if !calm {
		by = by[:0]
		for _, m := range s.e.ms {
			by = append(by, m.id)
		}
	}
	s.emitBy(n, p, a, calm, level, up, lead, by)
	s.kept = false
}

// emitBy also says who could have begun to sign.
func (s *ensembleRun) emitBy(n int, p Payload, a answer, calm, level bool, up, lead int, by []int) {
	sig := s.reg.ID("S", a.sig)
	if a.out == "sig" && a.valid {
		s.sigs[fmt.Sprint(p, a.sig)] = true
	}
	if a.out == "sig" && s.kept && below(s.max, p) {
		s.max = p
	}
	s.tr.Emit(M{"e": "req", "n": n, "p": p.J(), "out": a.out, "sig": sig, "valid": a.valid, "calm": calm, "level": level, "up": up, "lead": lead, "by": by, "kept": s.kept, "said": a.said})
}

func (s *ensembleRun) rounds() map[int]int {
	m := map[int]int{}
	for _, i := range s.e.alive() {
		if s.e.m(i).real {
			continue
		}
		if v, err := s.e.m(i).ask(nodeAsk{Op: "rounds"}, 5*time.Second); err == nil {
			m[i] = v.Rnd
		}
	}
	return m
}

// quiet runs something, and tells whether one member was leader throughout.
func (s *ensembleRun) quiet(f func()) (calm bool, lead int) {
	l1, t1 := s.e.calm(0)
	before := s.rounds()
	f()
	after := s.rounds()
	l2, t2 := s.e.calm(0)
	calm = l1 != 0 && l1 == l2 && t1 == t2 && time.Since(s.moved) > 2*time.Second
	if calm {
		for i, x := range after {
			if y, ok := before[i]; ok && i != l1 && x > y {
				s.tr.Emit(M{"e": "rounds", "n": i, "calls": x - y})
			}
		}
	}
	return calm, l1
}

func (s *ensembleRun) levelNow() bool {
	return s.quorum() && s.e.level(3*time.Second)
}

func (s *ensembleRun) req(n int, p Payload) {
	s.learn(p)
	var a answer
	level := s.levelNow()
	up := len(s.e.alive())
	calm, lead := s.quiet(func() { a = s.sign(n, p) })
	s.emit(n, p, a, calm, level, up, lead)
}

// seen tells what the members hold once they had time to learn of it.
func (s *ensembleRun) seen() {
	if l, _ := s.e.calm(20 * time.Second); l == 0 || !s.e.level(20*time.Second) {
		return
	}
	hrs := func(f FileObs) Payload { return Payload{H: f.H, R: f.R, S: f.S} }
	for _, i := range s.e.alive() {
		lim := time.Now().Add(20 * time.Second)
		for {
			pv, sh := readState(s.e.m(i).stateFile("priv_validator")), readState(s.e.m(i).stateFile("share_sign"))
			if (!below(hrs(pv), s.max) && !below(hrs(sh), s.max)) || time.Now().After(lim) {
				s.tr.Emit(M{"e": "seen", "n": i, "pv": pv.J(s.reg), "sh": sh.J(s.reg)})
				break
			}
			time.Sleep(20 * time.Millisecond)
		}
	}
}

// helper is a cosigner with the keys of member i, which makes its nonce parts.
func (s *ensembleRun) helper(i int) *signer.LocalCosigner {
	if s.help[i] == nil {
		f := filepath.Join(s.e.dir, fmt.Sprint("help", i, ".json"))
		writeFile(f, stateJSON("cos", 0, 0, 0, nil, nil))
		st, err := signer.LoadSignState(f)
		must(err)
		s.state[i] = &st
		s.help[i] = s.e.keys.NewCosigner(i, s.state[i], s.e.m(i).addr)
	}
	return s.help[i]
}

// probe asks member n for a share with everything that this takes.
func (s *ensembleRun) probe(n int, p Payload) {
	s.learn(p)
	k := p.Key()
	ctx, cancel := ctxFor(10 * time.Second)
	defer cancel()
	c := proto.NewCosignerGRPCClient(s.e.m(n).grpc())
	out, said := "error", ""
	hrst := &proto.HRST{Height: k.Height, Round: k.Round, Step: int32(k.Step), Timestamp: k.Timestamp}
	_, err := c.GetEphemeralSecretParts(ctx, &proto.CosignerGRPCGetEphemeralSecretPartsRequest{Hrst: hrst})
	if err == nil {
		parts := []*proto.EphemeralSecretPart{}
		for i := 1; i <= s.e.keys.N && len(parts) < s.e.keys.T-1; i++ {
			if i == n {
				continue
			}
			r, err := s.helper(i).GetEphemeralSecretParts(k)
			must(err)
			for _, x := range r.EncryptedSecrets {
				if x.DestinationID == n {
					parts = append(parts, &proto.EphemeralSecretPart{SourceID: int32(x.SourceID), DestinationID: int32(x.DestinationID),
						SourceEphemeralSecretPublicKey: x.SourceEphemeralSecretPublicKey, EncryptedSharePart: x.EncryptedSharePart, SourceSig: x.SourceSig})
				}
			}
		}
		r, err2 := c.SetEphemeralSecretPartsAndSign(ctx, &proto.CosignerGRPCSetEphemeralSecretPartsAndSignRequest{EncryptedSecrets: parts, Hrst: hrst, SignBytes: p.SignBytes()})
		if err2 == nil && len(r.GetSignature()) > 0 {
			out = "share"
		}
		err = err2
	}
	if err != nil {
		said = err.Error()
	}
	s.tr.Emit(M{"e": "probe", "n": n, "p": p.J(), "out": out, "said": said})
}

// handOver asks for another leader, by the operator's command for real members.
func (s *ensembleRun) handOver(to int, named bool) {
	if !s.levelNow() {
		return
	}
	before, t1 := s.e.calm(8 * time.Second)
	if before == 0 {
		return
	}
	if to == 0 || !s.e.m(to).alive() {
		return
	}
	name := ""
	if named {
		name = fmt.Sprint(to)
	}
	after := 0
	calm := true
	for try := 0; try < 3; try++ {
		if m := s.e.m(before); m.real {
			args := []string{"elect", "--home", m.home}
			if named {
				args = append(args, name)
			}
			command(m.home, []string{"HOME=" + m.home}, args...)
		} else {
			s.e.transfer(before, name)
		}
		s.moved = time.Now()
		lim := time.Now().Add(6 * time.Second)
		for time.Now().Before(lim) {
			l, t2 := s.e.calm(time.Second)
			after = l
			if named && to != before && l == to || !named && l != 0 && l != before {
				break
			}
			if named && to == before && time.Since(s.moved) > 1500*time.Millisecond {
				break
			}
			// someone else was chosen
			if l != 0 && l != before && t2 > t1 {
				break
			}
			time.Sleep(50 * time.Millisecond)
		}
		if after != before || named && to == before {
			break
		}
	}
	if named {
		s.tr.Emit(M{"e": "transfer", "to": to, "before": before, "after": after, "calm": calm})
	} else {
		s.tr.Emit(M{"e": "moved", "before": before, "after": after, "calm": calm})
	}
	s.moved = time.Time{}
}

func (s *ensembleRun) start(n int) bool {
	m := s.e.m(n)
	s.e.start(n)
	ok := s.e.ready(n, 25*time.Second)
	if ok && m.real {
		select {
		case <-m.up:
		case <-time.After(20 * time.Second):
			ok = false
		}
	}
	s.tr.Emit(M{"e": "start", "n": n, "ok": ok})
	return ok
}

func (s *ensembleRun) recovered() {
	lim := 30 * time.Second
	if up := len(s.e.alive()); 2*up <= s.e.keys.N {
		// nothing is expected
		lim = 2 * time.Second
	}
	l, _ := s.e.calm(lim)
	s.tr.Emit(M{"e": "recovered", "ok": l != 0, "up": len(s.e.alive())})
}

func (s *ensembleRun) all() {
	for _, m := range s.e.ms {
		s.e.pause(m.id, false)
		if m.p == nil {
			s.start(m.id)
		}
	}
	s.recovered()
	s.seen()
	if s.max.H > 0 {
		s.req(1+s.r.Intn(len(s.e.ms)), s.max)
	}
}

func (s *ensembleRun) pickAny(at string, i int) int {
	if at == "A" {
		a := s.e.alive()
		if len(a) == 0 {
			return 0
		}
		return a[i%len(a)]
	}
	return s.pick(at, i)
}

func runEnsemble(sc EScript, keys *Keys, tr *Tracer, r *mrand.Rand, limit time.Duration) {
	e := newEnsemble(keys, sc.Real)
	defer e.close()
	s := &ensembleRun{storeRun: &storeRun{e: e, tr: tr, tags: map[string]string{}, r: r}, reg: NewRegistry(), at: map[string][]Payload{},
		sigs: map[string]bool{}, help: map[int]*signer.LocalCosigner{}, state: map[int]*signer.SignState{}}
	for i := 1; i <= keys.N; i++ {
		e.start(i)
	}
	for i := 1; i <= keys.N; i++ {
		m := e.m(i)
		ok := e.ready(i, 30*time.Second)
		if ok && m.real {
			select {
			case <-m.up:
			case <-time.After(20 * time.Second):
				ok = false
			}
		}
		if !ok {
			panic("HARNESS: member does not start: " + m.p.log.tail(2000))
		}
	}
	s.recovered()
	from := time.Now()
	for _, op := range sc.Ops {
		if limit > 0 && time.Since(from) > limit {
			break
		}
		if op.Op == "kill" || op.Op == "pause" || op.Op == "reqkill" {
			// few can still sign once most are gone
			if up := len(e.alive()) - 1; (2*up <= keys.N || up < keys.T) && r.Intn(5) > 0 {
				continue
			}
		}
		if op.Op == "all" {
			s.all()
			continue
		}
		if op.Op == "back" {
			// all return, and who was alone leads
			for _, m := range s.e.ms {
				s.e.pause(m.id, false)
				if m.p == nil {
					s.start(m.id)
				}
			}
			s.recovered()
			if s.left > 0 {
				s.handOver(s.left, true)
			}
			continue
		}
		n := s.pickAny(op.At, op.I)
		if n == 0 {
			continue
		}
		switch op.Op {
		case "req", "both", "crowd", "reqkill", "probe":
			p, ok := s.payload(op.K, op.S)
			if !ok {
				continue
			}
			switch op.Op {
			case "req":
				s.req(n, p)
			case "both":
				if l, _ := e.calm(8 * time.Second); l != 0 {
					s.req(n, p)
					s.req(l, p)
				}
			case "crowd":
				// everybody is asked at once
				s.learn(p)
				up := e.alive()
				as := make([]answer, len(up))
				s.quiet(func() {
					var wg sync.WaitGroup
					for i := range up {
						wg.Add(1)
						go func(i int) { defer wg.Done(); as[i] = s.sign(up[i], p) }(i)
					}
					wg.Wait()
				})
				for i := range up {
					s.emit(up[i], p, as[i], false, false, len(up), 0)
				}
			case "reqkill":
				s.learn(p)
				m := e.m(n)
				var a answer
				_, t1 := e.calm(0)
				kept := false
				done := make(chan bool)
				go func() { a = s.sign(n, p); close(done) }()
				if op.S%2 == 0 {
					time.Sleep(time.Duration(r.Intn(12000)) * time.Microsecond)
				} else {
					// once it gave the signature, that is not lost
					<-done
				}
				m.p.cmd.Process.Kill()
				<-done
				for _, i := range e.alive() {
					// the others have not had another leader since
					if v := e.m(i).view(); i != n && v.ok && op.S%2 == 1 {
						kept = t1 != 0 && v.term == t1 && v.state == "Follower"
						break
					}
				}
				<-m.p.done
				e.kill(n)
				by := []int{}
				for _, m := range e.ms {
					by = append(by, m.id)
				}
				s.kept = kept
				s.emitBy(n, p, a, false, false, len(e.alive()), 0, by)
				s.kept = false
				tr.Emit(M{"e": "kill", "n": n})
				s.recovered()
				s.seen()
			case "probe":
				s.seen()
				s.probe(n, p)
			}
		case "seen":
			s.seen()
		case "transfer":
			s.handOver(n, true)
		case "moved":
			s.handOver(n, false)
		case "kill":
			e.kill(n)
			tr.Emit(M{"e": "kill", "n": n})
			s.recovered()
		case "start":
			s.start(n)
		case "pause":
			e.pause(n, true)
			tr.Emit(M{"e": "pause", "n": n})
			s.recovered()
		case "cont":
			e.pause(n, false)
			tr.Emit(M{"e": "cont", "n": n})
			s.recovered()
		case "held":
			s.held(n)
		case "half":
			s.half(n)
		case "lone":
			s.lone(n, op.K, op.S)
		case "forget":
			// the leader signed, but did not come to announce it: its file is all that tells
			s.forget(n)
		case "snap":
			tr.Emit(M{"e": "snap", "n": n, "said": e.snapshot(n)})
		case "bulk":
			ks := []string{}
			for i := 0; i < bulkKeys; i++ {
				ks = append(ks, fmt.Sprint("b", i+1))
			}
			said, err := e.m(n).ask(nodeAsk{Op: "bulk", Key: ks, V: "x", N: bulkEach}, 60*time.Second)
			if err != nil || said.Err != "" {
				tr.Emit(M{"e": "bulk", "ok": false})
			}
		default:
			panic("HARNESS: " + op.Op)
		}
	}
	s.all()
}

// half puts a member where it is if it stops after it stored what was announced in one of its two states.
func (s *ensembleRun) half(n int) {
	m := s.e.m(n)
	l, _ := s.e.calm(20 * time.Second)
	if l == 0 || l == n || m.real || !s.e.level(20*time.Second) {
		return
	}
	files := []string{m.stateFile("priv_validator"), m.stateFile("share_sign")}
	old := [][]byte{}
	for _, f := range files {
		b, err := os.ReadFile(f)
		must(err)
		old = append(old, b)
	}
	was := s.max
	p, _ := s.payload("fresh", 0)
	s.req(l, p)
	if s.max == was || !s.e.level(20*time.Second) {
		return
	}
	pv, sh := readState(files[0]), readState(files[1])
	if pv.H != p.H || sh.H != p.H {
		return
	}
	which := 0
	if string(pv.Sig) == string(sh.Sig) && s.r.Intn(3) > 0 {
		// it had no part in the signature
		which = 1
	}
	s.e.kill(n)
	writeFile(files[which], old[which])
	s.tr.Emit(M{"e": "kill", "n": n})
	s.start(n)
	s.recovered()
	s.seen()
}

// lone leaves a member with too few others to have a leader, and asks it to sign.
func (s *ensembleRun) lone(n int, how string, step int) {
	if s.e.m(n).real {
		return
	}
	left := 1
	for _, m := range s.e.ms {
		if m.id == n || !m.alive() {
			continue
		}
		if 2*(left+1) <= s.e.keys.N {
			left++
			continue
		}
		if how == "pause" {
			s.e.pause(m.id, true)
		} else {
			s.e.kill(m.id)
		}
		s.tr.Emit(M{"e": how, "n": m.id})
	}
	if 2*left > s.e.keys.N {
		return
	}
	// it takes a while to notice
	lim := time.Now().Add(6 * time.Second)
	for time.Now().Before(lim) && s.e.m(n).view().state == "Leader" {
		time.Sleep(50 * time.Millisecond)
	}
	time.Sleep(time.Second)
	if v := s.e.m(n).view(); !v.ok || v.state == "Leader" {
		return
	}
	before := s.rounds()
	for i := 0; i < 3; i++ {
		p, _ := s.payload("fresh", step+i)
		s.learn(p)
		// (those that are held may get to see it later, and then anything can come of it)
		by := []int{}
		for _, m := range s.e.ms {
			if how == "pause" {
				by = append(by, m.id)
			}
		}
		s.emitBy(n, p, s.sign(n, p), false, false, left, 0, by)
	}
	s.left = n
	if x, y := s.rounds()[n], before[n]; x > y {
		s.tr.Emit(M{"e": "rounds", "n": n, "calls": x - y})
	}
}

// held asks a member to sign when the leader it knows of no longer answers.
func (s *ensembleRun) held(n int) {
	l, _ := s.e.calm(8 * time.Second)
	for i := 0; l == n && i < 3; i++ {
		n = s.pickAny("F", i)
	}
	if l == 0 || l == n || n == 0 || s.e.m(l).real {
		return
	}
	p, ok := s.payload("fresh", 0)
	if !ok {
		return
	}
	s.learn(p)
	// the leader has begun, and waits for the others when it is held
	others := []int{}
	for _, i := range s.e.alive() {
		if i != l && i != n && s.e.keys.T > 2 {
			s.e.pause(i, true)
			s.tr.Emit(M{"e": "pause", "n": i})
			others = append(others, i)
		}
	}
	var a answer
	done := make(chan bool)
	go func() { a = s.sign(n, p); close(done) }()
	if len(others) > 0 {
		time.Sleep(250 * time.Millisecond)
	} else {
		time.Sleep(time.Duration(s.r.Intn(5000)) * time.Microsecond)
	}
	s.e.pause(l, true)
	s.tr.Emit(M{"e": "pause", "n": l})
	for _, i := range others {
		s.e.pause(i, false)
		s.tr.Emit(M{"e": "cont", "n": i})
	}
	<-done
	up, by := len(s.e.alive()), []int{}
	for _, m := range s.e.ms {
		by = append(by, m.id)
	}
	s.emitBy(n, p, a, false, false, up, 0, by)
	s.tr.Emit(M{"e": "held", "n": n, "answered": a.out != "none", "up": up})
	s.recovered()
	s.e.pause(l, false)
	s.tr.Emit(M{"e": "cont", "n": l})
	s.recovered()
}

// forget puts the cluster where it is if the leader stops after it stored a signature, before it announced it.
func (s *ensembleRun) forget(n int) {
	p, _ := s.payload("fresh", 0)
	p.S, p.Block = stepPrevote, "A"
	s.learn(p)
	sig, err := s.e.keys.Priv.Sign(p.SignBytes())
	must(err)
	part := []int{n}
	for i := 1; i <= s.e.keys.N && len(part) < s.e.keys.T; i++ {
		if i != n {
			part = append(part, i)
		}
	}
	for _, i := range part {
		s.e.kill(i)
		s.tr.Emit(M{"e": "kill", "n": i})
		writeFile(s.e.m(i).stateFile("share_sign"), stateJSON("cos", p.H, p.R, p.S, p.SignBytes(), h32("share")))
	}
	writeFile(s.e.m(n).stateFile("priv_validator"), stateJSON("cos", p.H, p.R, p.S, p.SignBytes(), sig))
	for _, i := range part {
		s.start(i)
	}
	s.recovered()
	s.handOver(n, true)
	s.req(n, p)
	s.seen()
}

func ensembleMain(c cosConf) {
	tr := NewTracer(c.Out)
	defer tr.Close()
	start := time.Now()
	scripts := []EScript{}
	readLines(c.Scripts, func(b []byte) {
		var s EScript
		must(json.Unmarshal(b, &s))
		scripts = append(scripts, s)
	})
	keys := map[int]*Keys{}
	for _, s := range scripts {
		if keys[s.N*100+s.T] == nil {
			keys[s.N*100+s.T] = NewKeys(s.N, s.T)
		}
	}
	ran := parallel(tr, c.Workers, len(scripts), func() bool { return time.Since(start).Seconds() > c.Budget }, func(i int, t *Tracer) {
		t.Emit(M{"e": "reset", "n": scripts[i].N, "t": scripts[i].T})
		from := time.Now()
		runEnsemble(scripts[i], keys[scripts[i].N*100+scripts[i].T], t, rng(c.Seed, int64(i)), time.Duration(c.Length)*time.Second)
		t.Emit(M{"e": "end", "ms": time.Since(from).Milliseconds()})
	})
	fmt.Printf("{\"scripts\":%d,\"events\":%d}\n", ran, tr.n)
	_ = os.Stdout
}

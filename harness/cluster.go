package main

// Drives whole clusters inside one process: real cosigners and real coordinators (threshold validators),
// connected through stand-ins for the network that can lose, delay, spoil or cut calls.

import (
	"bufio"
	"crypto/rand"
	"encoding/json"
	"errors"
	"fmt"
	mrand "math/rand"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/strangelove-ventures/horcrux/signer"
	tmlog "github.com/tendermint/tendermint/libs/log"
	tm "github.com/tendermint/tendermint/types"
)

// ---------------------------------------------------------------- raft stores

// A node that coordinates must be a raft leader. Each node here has a raft of its own, so that every node can
// coordinate at any time, which is more than leadership allows. Notifications are delivered by the scripts.
type storePool struct {
	mu   sync.Mutex
	free []*signer.RaftStore
	dir  string
	n    int
}

func newStorePool(n int) *storePool {
	p := &storePool{dir: scratch("raft")}
	keys := NewKeys(2, 2)
	all := []*signer.RaftStore{}
	var wg sync.WaitGroup
	var mu sync.Mutex
	sem := make(chan struct{}, 64)
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			d := filepath.Join(p.dir, fmt.Sprint(i))
			must(os.MkdirAll(d, 0755))
			ss, err := signer.LoadOrCreateSignState(filepath.Join(d, "dummy.json"))
			must(err)
			dummy := keys.NewCosigner(1, &ss, "")
			st := signer.NewRaftStore("1", d, "127.0.0.1:0", time.Second, nil, dummy, nil)
			_, err = st.Open()
			must(err)
			mu.Lock()
			all = append(all, st)
			mu.Unlock()
		}(i)
	}
	wg.Wait()
	for _, st := range all {
		for i := 0; st.GetLeader() == ""; i++ {
			if i > 3000 {
				panic("HARNESS: no raft leader")
			}
			time.Sleep(10 * time.Millisecond)
		}
	}
	time.Sleep(50 * time.Millisecond)
	p.free = all
	return p
}

func (p *storePool) take() *signer.RaftStore {
	p.mu.Lock()
	defer p.mu.Unlock()
	if len(p.free) == 0 {
		panic("HARNESS: out of raft stores")
	}
	s := p.free[len(p.free)-1]
	p.free = p.free[:len(p.free)-1]
	return s
}

func (p *storePool) give(s *signer.RaftStore) {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.free = append(p.free, s)
}

// ---------------------------------------------------------------- scripts

// Fault says what becomes of the calls a coordinator makes to one cosigner.
//
//	down      every call fails             geterr    getting parts fails     signerr  signing fails, not executed
//	lost      signing executes, its reply does not arrive                    slow     parts arrive late
//	hang      calls do not return          rand32 zero32 short empty foreign stale  a wrong share
//	noparts   no parts are handed out      badparts  parts of somebody else are handed out
//	crashget crashsign  the coordinator is killed before that call; crashgot crashsigned  after it
//	kill      the cosigner is killed after signing, before it replies, and restarted
type CReq struct {
	C      int            `json:"c"`
	P      Payload        `json:"p"`
	Faults map[int]string `json:"faults"`
	Lss    bool           `json:"lss"`   // a notification rather than a request (of the signature for P if known)
	Break  bool           `json:"break"` // the coordinator's state cannot be stored
}

type COp struct {
	Op  string `json:"op"` // req par lss restart, and for requests stopped on the way: open go save
	Req CReq   `json:"req"`
	Par []CReq `json:"par"`
	C   int    `json:"c"`
	Sel int    `json:"sel"` // lss: which of the known signatures, counted from the latest
	Tag int    `json:"tag"` // which stopped request
}

type CScript struct {
	N, T int
	Ops  []COp
}

type cNode struct {
	id           int
	mu           sync.Mutex
	cos          *signer.LocalCosigner
	val          *signer.ThresholdValidator
	store        *signer.RaftStore
	inc          int32 // incarnation, changes when the node dies
	cpath, vpath string
	cw, vw       *Watch
	gets         map[string]map[int]int // round key -> cosigner -> times asked
	rounds       map[string]int
}

type known struct {
	p   Payload
	sig []byte
	id  string
}

type Cluster struct {
	keys  *Keys
	other *Keys
	reg   *Registry
	tr    *Tracer
	dir   string
	pool  *storePool
	nodes map[int]*cNode
	mu    sync.Mutex
	emu   sync.Mutex // from reading files to emitting what was read
	known []known
	nreq  int
	stop  chan struct{}
	fmu   sync.Mutex
	fault map[string]map[int]string // coordinator/key -> cosigner -> fault
	crash map[string]chan struct{}  // coordinator/key -> closed when the coordinator is killed
	last  map[int]*signer.CosignerSignResponse
	gates map[string]*gate
	open  map[int]*pendingReq
	ended sync.WaitGroup
}

// gate stops a signing round before parts are asked for, and again before signatures come back.
type gate struct {
	ask, reply         chan struct{}
	askOnce, replyOnce sync.Once
	at                 int32 // calls that have come to the gate
}

func (g *gate) pass(ask bool) {
	if ask {
		g.askOnce.Do(func() { close(g.ask) })
	} else {
		g.replyOnce.Do(func() { close(g.reply) })
	}
}

func (l *link) stopAt(k signer.HRSTKey, ask bool) {
	l.cl.fmu.Lock()
	g := l.cl.gates[rkey(l.from, k)]
	l.cl.fmu.Unlock()
	if g == nil {
		return
	}
	atomic.AddInt32(&g.at, 1)
	c := g.reply
	if ask {
		c = g.ask
	}
	select {
	case <-c:
	case <-l.cl.stop:
	}
	l.gone()
}

// stuck is how long a hanging call takes, much longer than a request that does not wait for it
const stuck = 15 * time.Second

// endless is when a request is given up, much longer than any may take; the run ends then
const endless = 120 * time.Second

var gaveUp int32

var errNet = errors.New("rpc error: connection refused")

type link struct {
	cl   *Cluster
	from int
	inc  int32
	to   int
}

func (l *link) GetID() int         { return l.to }
func (l *link) GetAddress() string { return fmt.Sprintf("tcp://node-%d:2222", l.to) }

func rkey(c int, k signer.HRSTKey) string { return fmt.Sprint(c, k) }

func (l *link) faultOf(k signer.HRSTKey) string {
	l.cl.fmu.Lock()
	defer l.cl.fmu.Unlock()
	return l.cl.fault[rkey(l.from, k)][l.to]
}

// gone blocks forever in calls of a coordinator that is dead.
func (l *link) gone() {
	if atomic.LoadInt32(&l.cl.nodes[l.from].inc) != l.inc {
		<-l.cl.stop
		select {}
	}
}

// die kills the coordinator, unless all its requests have ended before.
func (l *link) die(k signer.HRSTKey) {
	n := l.cl.nodes[l.from]
	l.cl.fmu.Lock()
	hit := []string{}
	for key := range l.cl.crash {
		if strings.HasPrefix(key, fmt.Sprint(l.from)+" ") {
			hit = append(hit, key)
		}
	}
	if len(hit) > 0 && atomic.CompareAndSwapInt32(&n.inc, l.inc, l.inc+1) {
		for _, key := range hit {
			close(l.cl.crash[key])
			delete(l.cl.crash, key)
		}
	}
	l.cl.fmu.Unlock()
	l.gone()
}

func (l *link) local() *signer.LocalCosigner {
	n := l.cl.nodes[l.to]
	n.mu.Lock()
	defer n.mu.Unlock()
	return n.cos
}

func (l *link) GetEphemeralSecretParts(k signer.HRSTKey) (*signer.CosignerEphemeralSecretPartsResponse, error) {
	l.gone()
	f := l.faultOf(k)
	if f == "crashget" {
		l.die(k)
	}
	l.cl.noteRound(l, k)
	l.stopAt(k, true)
	switch f {
	case "down", "geterr":
		return nil, errNet
	case "hang":
		select {
		case <-l.cl.stop:
		case <-time.After(stuck):
		}
		return nil, errNet
	case "slow":
		time.Sleep(400 * time.Millisecond)
	}
	res, err := l.local().GetEphemeralSecretParts(k)
	if f == "crashgot" {
		l.die(k)
	}
	l.gone()
	if err != nil {
		return nil, err
	}
	switch f {
	case "noparts":
		return &signer.CosignerEphemeralSecretPartsResponse{}, nil
	case "badparts":
		for i := range res.EncryptedSecrets {
			res.EncryptedSecrets[i].SourceEphemeralSecretPublicKey = l.cl.other.Pub.Bytes()
		}
	}
	return res, nil
}

func (l *link) SetEphemeralSecretPartsAndSign(
	req signer.CosignerSetEphemeralSecretPartsAndSignRequest) (*signer.CosignerSignResponse, error) {
	l.gone()
	f := l.faultOf(req.HRST)
	switch f {
	case "down", "signerr":
		return nil, errNet
	case "crashsign":
		l.die(req.HRST)
	}
	res, err := l.local().SetEphemeralSecretPartsAndSign(req)
	out := "share"
	if err != nil || res == nil {
		out = "err"
	}
	l.cl.noteShare(l.from, l.to, req.SignBytes, out)
	l.stopAt(req.HRST, false)
	if f == "crashsigned" {
		l.die(req.HRST)
	}
	if f == "kill" {
		l.cl.bootCosigner(l.to)
		return nil, errNet
	}
	l.gone()
	if out == "err" {
		return nil, err
	}
	l.cl.mu.Lock()
	prev := l.cl.last[l.to]
	l.cl.last[l.to] = res
	l.cl.mu.Unlock()
	bad := *res
	switch f {
	case "lost":
		return nil, errNet
	case "rand32":
		bad.Signature = make([]byte, 32)
		rand.Read(bad.Signature)
		bad.Signature[31] &= 0x0f
	case "zero32":
		bad.Signature = make([]byte, 32)
	case "short":
		bad.Signature = res.Signature[:7]
	case "long":
		bad.Signature = append(append([]byte{}, res.Signature...), res.Signature...)
	case "high32":
		bad.Signature = make([]byte, 32)
		for i := range bad.Signature {
			bad.Signature[i] = 0xff
		}
	case "empty":
		bad.Signature = nil
	case "foreign":
		s := append([]byte{}, res.Signature...)
		s[3] ^= 0x40
		bad.Signature = s
	case "badeph":
		bad.EphemeralPublic = l.cl.other.Pub.Bytes()
	case "noeph":
		bad.EphemeralPublic = nil
	case "stale":
		if prev != nil {
			bad = *prev
		}
	}
	return &bad, nil
}

func (cl *Cluster) noteRound(l *link, k signer.HRSTKey) {
	from, to := l.from, l.to
	n := cl.nodes[from]
	n.mu.Lock()
	defer n.mu.Unlock()
	if atomic.LoadInt32(&n.inc) != l.inc { // of a coordinator that is dead
		return
	}
	key := fmt.Sprint(k)
	if n.gets[key] == nil {
		n.gets[key] = map[int]int{}
	}
	n.gets[key][to]++
	if n.gets[key][to] > n.rounds[key] {
		n.rounds[key] = n.gets[key][to]
		cl.tr.Emit(M{"e": "start", "c": from, "k": []int64{k.Height, k.Round, int64(k.Step), tsIndex(k.Timestamp)}})
	}
}

func (cl *Cluster) noteShare(from, to int, sb []byte, out string) {
	m := cl.reg.Of(sb)
	h, _ := signer.UnpackHRST(sb)
	cl.tr.Emit(M{"e": "share", "by": from, "c": to, "out": out,
		"p": M{"h": h.Height, "r": h.Round, "s": int(h.Step), "c": m["c"], "t": m["t"]}})
}

func tsIndex(ns int64) int64 {
	d := ns - baseTime.UnixNano()
	return d/int64(time.Second)*3 + d%int64(time.Second)
}

func (cl *Cluster) bootCosigner(id int) {
	n := cl.nodes[id]
	ss, err := signer.LoadOrCreateSignState(n.cpath)
	must(err)
	c := cl.keys.NewCosigner(id, &ss, "")
	n.mu.Lock()
	n.cos = c
	n.mu.Unlock()
}

// boot (re)starts a node from its files.
func (cl *Cluster) boot(id int) *cNode {
	n := cl.nodes[id]
	if n == nil {
		d := filepath.Join(cl.dir, fmt.Sprintf("n%d", id))
		must(os.MkdirAll(d, 0755))
		n = &cNode{id: id, cpath: filepath.Join(d, "share.json"), vpath: filepath.Join(d, "priv.json"), store: cl.pool.take()}
		cl.nodes[id] = n
	}
	atomic.AddInt32(&n.inc, 1)
	cl.bootCosigner(id)
	vs, err := signer.LoadOrCreateSignState(n.vpath)
	must(err)
	if n.vw == nil {
		n.vw, n.cw = NewWatch(n.vpath), NewWatch(n.cpath)
	}
	inc := atomic.LoadInt32(&n.inc)
	peers := []signer.Cosigner{}
	for i := 1; i <= cl.keys.N; i++ {
		if i != id {
			peers = append(peers, &link{cl, id, inc, i})
		}
	}
	n.val = signer.NewThresholdValidator(&signer.ThresholdValidatorOpt{
		Pubkey: cl.keys.Pub, Threshold: cl.keys.T, SignState: vs, Cosigner: &link{cl, id, inc, id}, Peers: peers,
		RaftStore: n.store, Logger: tmlog.NewNopLogger(),
	})
	n.store.SetThresholdValidator(n.val)
	n.mu.Lock()
	n.gets, n.rounds = map[string]map[int]int{}, map[string]int{}
	n.mu.Unlock()
	return n
}

// sigOf interns a signature and tells for which known payload it is valid.
func (cl *Cluster) sigID(sig []byte) string { return cl.reg.ID("G", sig) }

func (cl *Cluster) learnSig(p Payload, sig []byte) {
	cl.mu.Lock()
	defer cl.mu.Unlock()
	for _, k := range cl.known {
		if string(k.sig) == string(sig) {
			return
		}
	}
	cl.known = append(cl.known, known{p, append([]byte{}, sig...), cl.sigID(sig)})
}

func (cl *Cluster) vfile(id int) M {
	n := cl.nodes[id]
	f := readState(n.vpath)
	m := f.J(cl.reg)
	m["sig"] = cl.sigID(f.Sig)
	m["sigok"] = len(f.SB) == 0 || cl.keys.Pub.VerifySignature(f.SB, f.Sig)
	return m
}

func (cl *Cluster) cfile(id int) M { return readState(cl.nodes[id].cpath).J(cl.reg) }

var crashFaults = map[string]bool{"crashget": true, "crashgot": true, "crashsign": true, "crashsigned": true}

// good faults leave a cosigner able to take part
func able(f string) bool { return f == "" || f == "slow" }

type pendingReq struct {
	id   int
	req  CReq
	ch   chan M
	gate *gate
	end  chan struct{}
}

// request performs one sign request and returns its "ret" event.
func (cl *Cluster) request(id int, q CReq) M {
	n := cl.nodes[q.C]
	val := n.val
	p := q.P
	ev := M{"e": "ret", "id": id, "c": q.C, "out": "err", "sig": "", "empty": true, "valid": false, "same": true, "sp": p.J(), "ms": 0, "late": false}
	t0 := time.Now()
	var err error
	var sig []byte
	pan := guard(func() {
		if p.S == stepPropose {
			v := p.Proposal()
			w := *v
			err = val.SignProposal(p.chain(), v)
			sig = v.Signature
			if err == nil {
				ev["valid"] = cl.keys.Pub.VerifySignature(tm.ProposalSignBytes(p.chain(), v), sig)
				ts := v.Timestamp
				v.Signature, v.Timestamp = w.Signature, w.Timestamp
				ev["same"] = v.String() == w.String() && ts.Equal(w.Timestamp)
			}
		} else {
			v := p.Vote()
			w := *v
			err = val.SignVote(p.chain(), v)
			sig = v.Signature
			if err == nil {
				ev["valid"] = cl.keys.Pub.VerifySignature(tm.VoteSignBytes(p.chain(), v), sig)
				ts := v.Timestamp
				v.Signature, v.Timestamp = w.Signature, w.Timestamp
				ev["same"] = v.String() == w.String() && ts.Equal(w.Timestamp)
			}
		}
	})
	ev["ms"] = time.Since(t0).Milliseconds()
	ev["late"] = time.Since(t0) > stuck*2/3
	if pan != nil {
		ev["out"] = "panic"
		ev["why"] = fmt.Sprint(pan)
		return ev
	}
	if err == nil {
		ev["out"] = "ok"
		if ev["valid"] == true {
			cl.learnSig(p, sig)
		}
	} else {
		ev["why"] = err.Error()
	}
	ev["sig"] = cl.sigID(sig)
	ev["empty"] = len(sig) == 0
	return ev
}

func (cl *Cluster) call(q CReq, calm bool) *pendingReq {
	cl.reg.Learn(q.P)
	cl.mu.Lock()
	cl.nreq++
	id := cl.nreq
	cl.mu.Unlock()
	avail, hurt := 0, false
	for i := 1; i <= cl.keys.N; i++ {
		f := q.Faults[i]
		if i != q.C && able(f) {
			avail++
		}
		if i == q.C && f != "" {
			hurt = true
		}
		// a cosigner that promises to take part and then does not
		if f != "" && f != "slow" && f != "down" && f != "geterr" && f != "hang" {
			hurt = true
		}
	}
	cl.tr.Emit(M{"e": "call", "id": id, "c": q.C, "p": q.P.J(), "avail": avail, "hurt": hurt, "calm": calm, "store": !q.Break})
	pr := &pendingReq{id: id, req: q, ch: make(chan M, 1)}
	crash := make(chan struct{})
	rk := rkey(q.C, q.P.Key())
	cl.fmu.Lock()
	if len(q.Faults) > 0 || cl.fault[rk] == nil {
		cl.fault[rk] = q.Faults
	}
	cl.crash[fmt.Sprint(rk, "#", id)] = crash
	cl.fmu.Unlock()
	go func() {
		done := make(chan M, 1)
		go func() { done <- cl.request(id, q) }()
		select {
		case ev := <-done:
			pr.ch <- ev
		case <-time.After(endless):
			atomic.StoreInt32(&gaveUp, 1)
			pr.ch <- M{"e": "ret", "id": id, "c": q.C, "out": "none", "sig": "", "empty": true, "valid": false, "same": true,
				"sp": q.P.J(), "ms": 0, "late": true}
		case <-crash:
			pr.ch <- M{"e": "ret", "id": id, "c": q.C, "out": "crash", "sig": "", "empty": true, "valid": false, "same": true,
				"sp": q.P.J(), "ms": 0, "late": false}
		}
	}()
	return pr
}

// settle waits for requests and emits their ends in the order in which they come.
func (cl *Cluster) settle(prs []*pendingReq) []M {
	var wg sync.WaitGroup
	res := make([]M, len(prs))
	died := map[int]bool{}
	for i, pr := range prs {
		wg.Add(1)
		go func(i int, pr *pendingReq) {
			defer wg.Done()
			ev := <-pr.ch
			cl.emu.Lock()
			defer cl.emu.Unlock()
			ev["f"] = cl.vfile(pr.req.C)
			if ev["e"] == "lss" {
				ev["cf"] = cl.cfile(pr.req.C)
			}
			res[i] = ev
			cl.tr.Emit(ev)
		}(i, pr)
	}
	wg.Wait()
	for i, pr := range prs {
		cl.fmu.Lock()
		rk := rkey(pr.req.C, pr.req.P.Key())
		delete(cl.fault, rk)
		if g := cl.gates[rk]; g != nil && g == pr.gate {
			delete(cl.gates, rk)
		}
		ck := fmt.Sprint(rk, "#", pr.id)
		if _, alive := cl.crash[ck]; !alive && res[i]["e"] == "ret" { // killed, perhaps just after it had replied
			died[pr.req.C] = true
		}
		delete(cl.crash, ck)
		cl.fmu.Unlock()
		if res[i]["out"] == "crash" {
			died[pr.req.C] = true
		}
		if res[i]["out"] == "panic" {
			died[pr.req.C] = true
		}
	}
	for c := range died {
		if prs[0].gate == nil {
			cl.restart(c)
		}
	}
	return res
}

func (cl *Cluster) restart(c int) {
	n := cl.boot(c)
	cl.tr.Emit(M{"e": "restart", "c": c, "f": cl.vfile(c), "cf": cl.cfile(c), "torn": n.vw.Torn() + n.cw.Torn()})
}

// notify hands node c a signature, as the raft log would.
func (cl *Cluster) notify(c int, k known) M {
	n := cl.nodes[c]
	ssc := signer.SignStateConsensus{Height: k.p.H, Round: k.p.R, Step: int8(k.p.S), Signature: k.sig, SignBytes: k.p.SignBytes()}
	pan := guard(func() {
		_ = n.val.SaveLastSignedState(ssc)
		n.mu.Lock()
		cos := n.cos
		n.mu.Unlock()
		_ = cos.SaveLastSignedState(ssc)
	})
	return M{"e": "lss", "c": c, "p": k.p.J(), "sig": k.id, "f": cl.vfile(c), "cf": cl.cfile(c),
		"out": map[bool]string{true: "ok", false: "panic"}[pan == nil]}
}

func (cl *Cluster) pick(sel int) (known, bool) {
	cl.mu.Lock()
	defer cl.mu.Unlock()
	if len(cl.known) == 0 {
		return known{}, false
	}
	return cl.known[len(cl.known)-1-sel%len(cl.known)], true
}

func toI(x interface{}) int64 {
	switch v := x.(type) {
	case int:
		return int64(v)
	case int8:
		return int64(v)
	case int64:
		return v
	}
	panic("HARNESS: not a number")
}

// sigFor makes a cluster signature for p, as if some other coordinator had obtained it.
func (cl *Cluster) sigFor(p Payload) known {
	cl.mu.Lock()
	for _, k := range cl.known {
		if string(k.p.SignBytes()) == string(p.SignBytes()) {
			cl.mu.Unlock()
			return k
		}
	}
	cl.mu.Unlock()
	cl.reg.Learn(p)
	sig, err := cl.keys.Priv.Sign(p.SignBytes())
	must(err)
	cl.learnSig(p, sig)
	return known{p, sig, cl.sigID(sig)}
}

func (cl *Cluster) step(op COp) {
	switch op.Op {
	case "req":
		if op.Req.Lss {
			cl.synthetic(op.Req.C, op.Req.P)
			return
		}
		if op.Req.Break {
			cl.broken(op.Req)
			return
		}
		cl.settle([]*pendingReq{cl.call(op.Req, true)})
	case "lss":
		if k, ok := cl.pick(op.Sel); ok {
			cl.tr.Emit(cl.notify(op.C, k))
		}
	case "hear": // of this signature, if there is one
		cl.mu.Lock()
		known := append([]known{}, cl.known...)
		cl.mu.Unlock()
		for _, k := range known {
			if string(k.p.SignBytes()) == string(op.Req.P.SignBytes()) {
				cl.tr.Emit(cl.notify(op.C, k))
				break
			}
		}
	case "restart":
		cl.abandon(op.C)
		cl.restart(op.C)
	case "open":
		cl.openReq(op)
	case "go", "save":
		cl.passGate(op)
	case "par":
		prs := []*pendingReq{}
		twins := true
		for _, q := range op.Par {
			if q.Lss || len(q.Faults) > 0 || q.C != op.Par[0].C || string(q.P.SignBytes()) != string(op.Par[0].P.SignBytes()) {
				twins = false
			}
			if q.Lss {
				k, ok := cl.pick(op.Sel)
				if !ok {
					continue
				}
				cl.mu.Lock()
				cl.nreq++
				id := cl.nreq
				cl.mu.Unlock()
				cl.tr.Emit(M{"e": "lsscall", "id": id, "c": q.C, "p": k.p.J(), "sig": k.id})
				pr := &pendingReq{id: id, req: CReq{C: q.C, P: k.p}, ch: make(chan M, 1)}
				go func(c int) {
					ev := cl.notify(c, k)
					ev["id"] = id
					pr.ch <- ev
				}(q.C)
				prs = append(prs, pr)
				continue
			}
			prs = append(prs, cl.call(q, false))
		}
		res := cl.settle(prs)
		if twins && len(res) > 1 {
			outs, sigs := []string{}, []string{}
			prompt := true
			for _, r := range res {
				if ms, ok := r["ms"].(int64); r["out"] == "ok" && ok && ms > 600 {
					prompt = false
				}
				outs = append(outs, r["out"].(string))
				sigs = append(sigs, r["sig"].(string))
			}
			cl.tr.Emit(M{"e": "twins", "c": op.Par[0].C, "p": op.Par[0].P.J(), "outs": outs, "sigs": sigs, "prompt": prompt})
		}
	default:
		panic("HARNESS: op " + op.Op)
	}
	for _, n := range cl.nodes {
		if t := n.vw.Torn() + n.cw.Torn(); t != "" {
			cl.tr.Emit(M{"e": "torn", "c": n.id, "how": t})
		}
	}
}

// openReq starts a request that stops at its gates.
func (cl *Cluster) openReq(op COp) {
	g := &gate{ask: make(chan struct{}), reply: make(chan struct{})}
	rk := rkey(op.Req.C, op.Req.P.Key())
	cl.fmu.Lock()
	if cl.gates[rk] == nil {
		cl.gates[rk] = g
	}
	cl.fmu.Unlock()
	pr := cl.call(op.Req, false)
	pr.gate, pr.end = g, make(chan struct{})
	cl.open[op.Tag] = pr
	cl.ended.Add(1)
	go func() {
		defer cl.ended.Done()
		defer close(pr.end)
		cl.settle([]*pendingReq{pr})
	}()
	cl.rest(pr, 0)
}

// rest waits until a request has ended or has come to a gate.
func (cl *Cluster) rest(pr *pendingReq, before int32) {
	for i := 0; i < 30; i++ {
		select {
		case <-pr.end:
			return
		default:
		}
		if atomic.LoadInt32(&pr.gate.at) > before+1 {
			time.Sleep(2 * time.Millisecond)
			return
		}
		time.Sleep(time.Millisecond)
	}
}

func (cl *Cluster) passGate(op COp) {
	pr := cl.open[op.Tag]
	if pr == nil {
		return
	}
	n := atomic.LoadInt32(&pr.gate.at)
	pr.gate.pass(op.Op == "go")
	cl.rest(pr, n)
}

// abandon kills a node that has requests under way.
func (cl *Cluster) abandon(c int) {
	n := cl.nodes[c]
	busy := false
	for tag, pr := range cl.open {
		if pr.req.C != c {
			continue
		}
		select {
		case <-pr.end:
			delete(cl.open, tag)
		default:
			busy = true
		}
	}
	if !busy {
		return
	}
	time.Sleep(15 * time.Millisecond) // whatever is past its last gate comes to its end
	atomic.AddInt32(&n.inc, 1)
	cl.fmu.Lock()
	for key, ch := range cl.crash {
		if strings.HasPrefix(key, fmt.Sprint(c)+" ") {
			close(ch)
			delete(cl.crash, key)
		}
	}
	cl.fmu.Unlock()
	for tag, pr := range cl.open {
		if pr.req.C == c {
			<-pr.end
			pr.gate.pass(true)
			pr.gate.pass(false)
			delete(cl.open, tag)
		}
	}
}

// drain lets everything that is stopped go on to its end.
func (cl *Cluster) drain() {
	for _, pr := range cl.open {
		pr.gate.pass(true)
		pr.gate.pass(false)
	}
	cl.ended.Wait()
}

// synthetic hands out a signature that another coordinator could have obtained, if the cosigners could have given it.
func (cl *Cluster) synthetic(c int, p Payload) {
	cl.reg.Learn(p)
	h := p.Key()
	cl.mu.Lock()
	known := false
	for _, k := range cl.known {
		kh := k.p.Key()
		if kh.Height == h.Height && kh.Round == h.Round && kh.Step == h.Step {
			known = known || string(k.p.SignBytes()) == string(p.SignBytes())
			if string(k.p.SignBytes()) != string(p.SignBytes()) && cl.reg.Of(k.p.SignBytes())["c"] != cl.reg.Of(p.SignBytes())["c"] {
				cl.mu.Unlock()
				return
			}
		}
	}
	cl.mu.Unlock()
	if !known {
		for i := 1; i <= cl.keys.N; i++ {
			f := cl.cfile(i)
			m := [3]int64{toI(f["h"]), toI(f["r"]), toI(f["s"])}
			w := [3]int64{h.Height, h.Round, int64(h.Step)}
			if m == w && f["c"] == cl.reg.Of(p.SignBytes())["c"] {
				continue
			}
			if !(m[0] < w[0] || m[0] == w[0] && (m[1] < w[1] || m[1] == w[1] && m[2] < w[2])) {
				return
			}
		}
	}
	k := cl.sigFor(p)
	for tag, pr := range cl.open {
		select {
		case <-pr.end:
			delete(cl.open, tag)
		default:
		}
	}
	cl.emu.Lock()
	defer cl.emu.Unlock()
	for i := 1; i <= cl.keys.N; i++ {
		if i != c {
			cl.tr.Emit(cl.notify(i, k))
		}
	}
	if len(cl.open) == 0 {
		cl.tr.Emit(cl.notify(c, k))
		return
	}
	cl.mu.Lock()
	cl.nreq++
	id := cl.nreq
	cl.mu.Unlock()
	cl.tr.Emit(M{"e": "lsscall", "id": id, "c": c, "p": k.p.J(), "sig": k.id})
	ev := cl.notify(c, k)
	ev["id"] = id
	cl.tr.Emit(ev)
}

// broken asks while the coordinator's state cannot be stored.
func (cl *Cluster) broken(q CReq) {
	n := cl.nodes[q.C]
	must(os.Rename(n.vpath, n.vpath+".gone"))
	must(os.MkdirAll(filepath.Join(n.vpath, "x"), 0755))
	pr := cl.call(q, true)
	ev := <-pr.ch
	cl.fmu.Lock()
	delete(cl.crash, fmt.Sprint(rkey(q.C, q.P.Key()), "#", pr.id))
	delete(cl.fault, rkey(q.C, q.P.Key()))
	cl.fmu.Unlock()
	ev["f"] = M{"h": -1, "r": 0, "s": 0, "c": "broken", "t": 0, "sig": "", "sigok": true}
	cl.tr.Emit(ev)
	must(os.RemoveAll(n.vpath))
	must(os.Rename(n.vpath+".gone", n.vpath))
	n.vw.Torn()
	cl.restart(q.C)
}

func (cl *Cluster) Run(s CScript) {
	cl.tr.Emit(M{"e": "reset", "n": cl.keys.N, "t": cl.keys.T})
	for i := 1; i <= cl.keys.N; i++ {
		cl.boot(i)
	}
	for _, op := range s.Ops {
		if atomic.LoadInt32(&gaveUp) != 0 {
			break
		}
		cl.step(op)
	}
	cl.drain()
	close(cl.stop)
	time.Sleep(5 * time.Millisecond)
	for _, n := range cl.nodes {
		atomic.AddInt32(&n.inc, 1)
		cl.pool.give(n.store)
		n.cw.Close()
		n.vw.Close()
	}
}

func NewCluster(n, t int, tr *Tracer, pool *storePool, dir string) *Cluster {
	return &Cluster{keys: NewKeys(n, t), other: NewKeys(2, 2), reg: NewRegistry(), tr: tr, dir: dir, pool: pool,
		nodes: map[int]*cNode{}, stop: make(chan struct{}), fault: map[string]map[int]string{},
		crash: map[string]chan struct{}{}, gates: map[string]*gate{}, open: map[int]*pendingReq{}, last: map[int]*signer.CosignerSignResponse{}}
}

// ---------------------------------------------------------------- generation

var badShares = []string{"rand32", "zero32", "short", "long", "high32", "empty", "foreign", "badeph", "noeph", "stale", "lost",
	"signerr", "noparts", "badparts"}
var absences = []string{"down", "geterr", "hang", "slow", "down", "geterr"}
var crashes = []string{"crashget", "crashgot", "crashsign", "crashsigned", "kill"}

type clGen struct {
	r    *mrand.Rand
	n, t int
	cur  Payload   // the most advanced payload asked for
	past []Payload // asked for
}

func (g *clGen) faults(c int, kind string) map[int]string {
	f := map[int]string{}
	r := g.r
	switch kind {
	case "none":
	case "bad":
		for i := 0; i < 1+r.Intn(2); i++ {
			f[1+r.Intn(g.n)] = badShares[r.Intn(len(badShares))]
		}
	case "absent": // of the others, any t-1 or fewer remain
		for i := 1; i <= g.n; i++ {
			if i != c && r.Intn(2) == 0 {
				f[i] = absences[r.Intn(len(absences))]
			}
		}
	case "crash":
		f[1+r.Intn(g.n)] = crashes[r.Intn(len(crashes))]
	}
	return f
}

func (g *clGen) fresh() Payload {
	r := g.r
	p := g.cur
	switch r.Intn(4) {
	case 0:
		p.R++
		p.S = 1 + r.Intn(3)
	case 1:
		if p.S < 3 {
			p.S++
		} else {
			p.H++
			p.R, p.S = 0, 1+r.Intn(3)
		}
	default:
		p.H += int64(1 + r.Intn(2))
		p.R, p.S = 0, 1+r.Intn(3)
	}
	q := randPayload(r, p.H)
	q.R, q.S = p.R, p.S
	if q.S == stepPropose && q.Block == "" {
		q.Block = "A"
	}
	return q
}

func (g *clGen) add(p Payload) Payload {
	if lessP(g.cur, p) {
		g.cur = p
	}
	g.past = append(g.past, p)
	return p
}

func (g *clGen) old() Payload {
	if len(g.past) == 0 {
		return g.fresh()
	}
	n := len(g.past)
	if n > 14 {
		n = 14
	}
	return g.past[len(g.past)-1-g.r.Intn(n)]
}

// focus: "" everything; safety bad avail once stale conc crash
func genCluster(r *mrand.Rand, n, t, length int, focus string) CScript {
	if focus == "big" {
		focus = "avail"
	}
	g := &clGen{r: r, n: n, t: t, cur: Payload{H: 1, R: 0, S: 0}}
	s := CScript{N: n, T: t}
	main := 1 + r.Intn(n)
	node := func() int {
		if (focus == "stale" || focus == "once") && r.Intn(4) > 0 {
			return main
		}
		return 1 + r.Intn(n)
	}
	for len(s.Ops) < length {
		x := r.Intn(100)
		c := node()
		kind := "none"
		switch focus {
		case "bad":
			if r.Intn(2) == 0 {
				kind = "bad"
			}
		case "avail":
			kind = "absent"
			if r.Intn(4) == 0 {
				kind = "none"
			}
		case "crash":
			if r.Intn(3) == 0 {
				kind = "crash"
			}
		case "", "safety":
			kind = []string{"none", "none", "none", "bad", "absent", "crash"}[r.Intn(6)]
		}
		fresh := 45
		switch focus {
		case "avail":
			fresh = 90
		case "stale":
			fresh = 35
		case "safety", "once":
			fresh = 20
		}
		switch {
		case focus == "conc" && x < 60:
			s.Ops = append(s.Ops, g.par(c))
		case focus != "conc" && focus != "avail" && x >= 94:
			s.Ops = append(s.Ops, g.par(c))
		case x < fresh:
			p := g.add(g.fresh())
			s.Ops = append(s.Ops, COp{Op: "req", Req: CReq{C: c, P: p, Faults: g.faults(c, kind)}})
			if focus == "stale" && r.Intn(3) > 0 {
				break
			}
			if r.Intn(3) == 0 { // tell the others
				for i := 1; i <= n; i++ {
					if r.Intn(3) > 0 {
						s.Ops = append(s.Ops, COp{Op: "lss", C: i})
					}
				}
			}
		case x < fresh+20:
			p := g.old()
			if r.Intn(2) == 0 {
				p = g.add(vary(r, p))
			}
			s.Ops = append(s.Ops, COp{Op: "req", Req: CReq{C: c, P: p, Faults: g.faults(c, kind)}})
		case x < fresh+32:
			p := g.cur
			if p.S == 0 {
				continue
			}
			if len(g.past) > 0 {
				p = g.past[len(g.past)-1]
			}
			if r.Intn(2) == 0 {
				p = g.add(vary(r, p))
			}
			s.Ops = append(s.Ops, COp{Op: "req", Req: CReq{C: c, P: p, Faults: g.faults(c, kind)}})
		case x < fresh+40:
			s.Ops = append(s.Ops, COp{Op: "lss", C: c, Sel: r.Intn(3) * r.Intn(3)})
		case x < fresh+46:
			s.Ops = append(s.Ops, COp{Op: "restart", C: c})
		case x < fresh+48 && focus != "avail":
			s.Ops = append(s.Ops, COp{Op: "req", Req: CReq{C: c, P: g.add(g.fresh()), Break: true}})
		}
	}
	return s
}

func (g *clGen) par(c int) COp {
	r := g.r
	k := 2 + r.Intn(3)
	op := COp{Op: "par"}
	base := g.add(g.fresh())
	mode := r.Intn(5)
	for i := 0; i < k; i++ {
		q := CReq{C: c, P: base}
		if i > 0 {
			switch mode {
			case 0: // identical
			case 1: // differing
				q.P = g.add(vary(r, base))
			case 2: // at different nodes
				q.C = 1 + r.Intn(g.n)
				if r.Intn(2) == 0 {
					q.P = g.add(vary(r, base))
				}
			case 3: // timestamps only
				if q.P.S != stepPropose {
					q.P.T += int64(i)
				}
			case 4:
				if r.Intn(2) == 0 {
					q.Lss = true
				} else {
					q.P = g.old()
				}
			}
		}
		op.Par = append(op.Par, q)
	}
	return op
}

func clusterMain(c cosConf) {
	tr := NewTracer(c.Out)
	defer tr.Close()
	shapes := [][2]int{{3, 2}, {3, 2}, {2, 2}, {5, 3}, {4, 3}, {3, 3}}
	if c.Focus == "big" {
		shapes = [][2]int{{7, 4}, {13, 12}, {10, 6}, {16, 9}, {9, 7}, {21, 11}}
	}
	start := time.Now()
	scripts := []CScript{}
	if c.Scripts != "" {
		f, err := os.Open(c.Scripts)
		must(err)
		sc := bufio.NewScanner(f)
		sc.Buffer(make([]byte, 1<<20), 1<<26)
		for sc.Scan() {
			var s CScript
			must(json.Unmarshal(sc.Bytes(), &s))
			scripts = append(scripts, s)
		}
		f.Close()
	}
	for i := 0; i < c.Count; i++ {
		sh := shapes[i%len(shapes)]
		scripts = append(scripts, genCluster(rng(c.Seed, int64(i)), sh[0], sh[1], c.Length, c.Focus))
	}
	rsaKey(map[bool]int{true: 21, false: 5}[c.Focus == "big"])
	workers := c.Workers
	if workers > len(scripts) {
		workers = len(scripts)
	}
	maxN := 2
	for _, s := range scripts {
		if s.N > maxN {
			maxN = s.N
		}
	}
	pool := newStorePool(workers * maxN)
	ran := parallel(tr, workers, len(scripts), func() bool { return time.Since(start).Seconds() > c.Budget || atomic.LoadInt32(&gaveUp) != 0 }, func(i int, t *Tracer) {
		dir := scratch("cl")
		// the directory stays until the process has ended: requests of killed nodes may still be on their way
		NewCluster(scripts[i].N, scripts[i].T, t, pool, dir).Run(scripts[i])
	})
	fmt.Printf("{\"scripts\":%d,\"events\":%d}\n", ran, tr.n)
}

package main

// Connections to chain nodes (played by the harness) and the guarded validator behind them.

import (
	"bufio"
	"encoding/json"
	"errors"
	"fmt"
	mrand "math/rand"
	"net"
	"os"
	"regexp"
	"sync"
	"sync/atomic"
	"time"

	"github.com/strangelove-ventures/horcrux/signer"
	"github.com/tendermint/tendermint/crypto"
	tmCryptoEd25519 "github.com/tendermint/tendermint/crypto/ed25519"
	tmCryptoEncoding "github.com/tendermint/tendermint/crypto/encoding"
	tmlog "github.com/tendermint/tendermint/libs/log"
	"github.com/tendermint/tendermint/libs/protoio"
	tmP2pConn "github.com/tendermint/tendermint/p2p/conn"
	tmProtoPrivval "github.com/tendermint/tendermint/proto/tendermint/privval"
	tmProto "github.com/tendermint/tendermint/proto/tendermint/types"
	tm "github.com/tendermint/tendermint/types"
)

// ---------------------------------------------------------------- fake chain nodes

// chainNode plays a chain node: the signer connects to it, it sends requests.
type chainNode struct {
	name string
	ln   net.Listener
	mu   sync.Mutex
	conn net.Conn
	gen  int
	stop bool
	on   func(ev string, gen int, m *tmProtoPrivval.Message)
}

func newChainNode(name string, on func(ev string, gen int, m *tmProtoPrivval.Message)) *chainNode {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	n := &chainNode{name: name, ln: ln, on: on}
	go n.serve()
	return n
}

func (n *chainNode) addr() string { return "tcp://" + n.ln.Addr().String() }

func (n *chainNode) serve() {
	for {
		raw, err := n.ln.Accept()
		if err != nil {
			return
		}
		n.mu.Lock()
		stop := n.stop
		n.mu.Unlock()
		if stop {
			raw.Close()
			continue
		}
		raw.SetDeadline(time.Now().Add(10 * time.Second))
		sc, err := tmP2pConn.MakeSecretConnection(raw, tmCryptoEd25519.GenPrivKey())
		if err != nil {
			raw.Close()
			continue
		}
		raw.SetDeadline(time.Time{})
		n.mu.Lock()
		n.gen++
		gen := n.gen
		n.conn = sc
		n.mu.Unlock()
		n.on("up", gen, nil)
		for {
			var m tmProtoPrivval.Message
			if _, err := protoio.NewDelimitedReader(sc, 1<<20).ReadMsg(&m); err != nil {
				break
			}
			n.on("msg", gen, &m)
		}
		sc.Close()
		n.on("down", gen, nil)
	}
}

func (n *chainNode) send(m *tmProtoPrivval.Message) { n.sendAll([]*tmProtoPrivval.Message{m}, "") }

// sendAll sends messages at once, or in small pieces.
func (n *chainNode) sendAll(ms []*tmProtoPrivval.Message, how string) {
	n.mu.Lock()
	c := n.conn
	n.mu.Unlock()
	if c == nil {
		return
	}
	all := []byte{}
	for _, m := range ms {
		b, err := protoio.MarshalDelimited(m)
		must(err)
		all = append(all, b...)
	}
	if how != "pieces" {
		c.Write(all)
		return
	}
	for i, k := 0, 1; i < len(all); i, k = i+k, k*2+1 {
		if _, err := c.Write(all[i:min(i+k, len(all))]); err != nil {
			return
		}
		time.Sleep(time.Millisecond)
	}
}

func (n *chainNode) current() net.Conn {
	n.mu.Lock()
	defer n.mu.Unlock()
	return n.conn
}

func (n *chainNode) end() {
	n.mu.Lock()
	n.stop = true
	c := n.conn
	n.mu.Unlock()
	if c != nil {
		c.Close()
	}
}

// ---------------------------------------------------------------- world

type sessWorld struct {
	tr    *Tracer
	reg   *Registry
	mu    sync.Mutex // guards the fields below and the order of events
	pend  map[string]int
	up    map[string]bool
	gen   map[string]int // generation of the connection declared to be up
	dead  map[string]int // generations up to which connections were declared gone
	done  bool
	chain string
	// the stand-in for the validator
	pub    crypto.PubKey
	priv   tmCryptoEd25519.PrivKey
	gated  bool
	decide chan string
	quit   chan struct{}
	calls  int32
	keys   map[string]bool
	r      *mrand.Rand
	nodes  map[string]*chainNode
	frac   int // percent of calls that fail when not gated
	real   bool
	moved  bool
}

func pkey(m M) string { return fmt.Sprintf("%v@%v", m["c"], m["t"]) }

func (w *sessWorld) ofVote(v *tmProto.Vote) string {
	p := "unknown"
	guard(func() { p = pkey(w.reg.Of(tm.VoteSignBytes(w.chain, v))) })
	return p
}

func (w *sessWorld) ofProposal(v *tmProto.Proposal) string {
	p := "unknown"
	guard(func() { p = pkey(w.reg.Of(tm.ProposalSignBytes(w.chain, v))) })
	return p
}

// stand-in validator
func (w *sessWorld) inside(k, p, chain string, good func() string) (string, error) {
	w.tr.Emit(M{"e": "enter", "k": k, "p": p, "chain": chain == w.chain})
	out := "ok"
	if w.gated {
		select {
		case out = <-w.decide:
		case <-w.quit:
		}
	} else {
		w.mu.Lock()
		x, z := w.r.Intn(100), w.r.Intn(10)
		w.mu.Unlock()
		if x < w.frac {
			out = "err"
		}
		if z == 0 {
			time.Sleep(time.Duration(50+x) * time.Microsecond)
		}
	}
	i := atomic.AddInt32(&w.calls, 1)
	if out == "err" {
		tok := fmt.Sprintf("#%d#", i)
		w.tr.Emit(M{"e": "exit", "k": k, "p": p, "out": "err", "tok": tok})
		return tok, errors.New("validator refuses " + tok)
	}
	tok := good()
	w.tr.Emit(M{"e": "exit", "k": k, "p": p, "out": "ok", "tok": tok})
	return tok, nil
}

func (w *sessWorld) GetPubKey() (crypto.PubKey, error) {
	var pk crypto.PubKey
	_, err := w.inside("pubkey", "pk", w.chain, func() string {
		pk = tmCryptoEd25519.GenPrivKey().PubKey()
		return w.reg.ID("K", pk.Bytes())
	})
	return pk, err
}

func (w *sessWorld) SignVote(chain string, v *tmProto.Vote) error {
	_, err := w.inside("vote", w.ofVote(v), chain, func() string {
		sig, err := w.priv.Sign(tm.VoteSignBytes(chain, v))
		must(err)
		v.Signature = sig
		return w.reg.ID("S", sig)
	})
	return err
}

func (w *sessWorld) SignProposal(chain string, v *tmProto.Proposal) error {
	_, err := w.inside("proposal", w.ofProposal(v), chain, func() string {
		sig, err := w.priv.Sign(tm.ProposalSignBytes(chain, v))
		must(err)
		v.Signature = sig
		return w.reg.ID("S", sig)
	})
	return err
}

var tokRe = regexp.MustCompile(`#\d+#`)

func (w *sessWorld) answer(n, k string, p string, errText string, isErr bool, sig []byte, valid bool, tok string) M {
	if isErr {
		tok = tokRe.FindString(errText)
	}
	return M{"e": "recv", "n": n, "k": k, "p": p, "err": isErr, "sig": len(sig) > 0, "valid": valid, "tok": tok}
}

func (w *sessWorld) voteAnswer(n string, v *tmProto.Vote, isErr bool, text string) M {
	if isErr {
		return w.answer(n, "vote", "", text, true, v.Signature, false, "")
	}
	valid := false
	guard(func() { valid = w.pub.VerifySignature(tm.VoteSignBytes(w.chain, v), v.Signature) })
	return w.answer(n, "vote", w.ofVote(v), "", false, v.Signature, valid, w.reg.ID("S", v.Signature))
}

func (w *sessWorld) proposalAnswer(n string, v *tmProto.Proposal, isErr bool, text string) M {
	if isErr {
		return w.answer(n, "proposal", "", text, true, v.Signature, false, "")
	}
	valid := false
	guard(func() { valid = w.pub.VerifySignature(tm.ProposalSignBytes(w.chain, v), v.Signature) })
	return w.answer(n, "proposal", w.ofProposal(v), "", false, v.Signature, valid, w.reg.ID("S", v.Signature))
}

func (w *sessWorld) message(n string, m *tmProtoPrivval.Message) M {
	switch x := m.Sum.(type) {
	case *tmProtoPrivval.Message_SignedVoteResponse:
		e := x.SignedVoteResponse.Error
		text := ""
		if e != nil {
			text = e.Description
		}
		return w.voteAnswer(n, &x.SignedVoteResponse.Vote, e != nil, text)
	case *tmProtoPrivval.Message_SignedProposalResponse:
		e := x.SignedProposalResponse.Error
		text := ""
		if e != nil {
			text = e.Description
		}
		return w.proposalAnswer(n, &x.SignedProposalResponse.Proposal, e != nil, text)
	case *tmProtoPrivval.Message_PubKeyResponse:
		if e := x.PubKeyResponse.Error; e != nil {
			return w.answer(n, "pubkey", "", e.Description, true, nil, false, "")
		}
		pk, err := tmCryptoEncoding.PubKeyFromProto(x.PubKeyResponse.PubKey)
		valid := err == nil
		tok := ""
		if valid {
			tok = w.reg.ID("K", pk.Bytes())
			if w.real {
				valid, tok = pk.Equals(w.pub), ""
			}
		}
		return w.answer(n, "pubkey", "pk", "", false, nil, valid, tok)
	case *tmProtoPrivval.Message_PingResponse:
		return w.answer(n, "ping", "", "", false, nil, true, "")
	}
	return w.answer(n, "odd", "", "", false, nil, false, "")
}

// on handles what happens at a fake chain node.
func (w *sessWorld) on(name string) func(string, int, *tmProtoPrivval.Message) {
	return func(ev string, gen int, m *tmProtoPrivval.Message) {
		w.mu.Lock()
		defer w.mu.Unlock()
		if w.done {
			return
		}
		switch ev {
		case "up":
			w.up[name], w.gen[name], w.pend[name] = true, gen, 0
			w.tr.Emit(M{"e": "up", "n": name})
		case "msg":
			if gen <= w.dead[name] {
				return
			}
			e := w.message(name, m)
			if e["k"] != "odd" {
				w.pend[name]--
			}
			w.tr.Emit(e)
		case "down":
			if gen > w.dead[name] { // not broken by the script
				w.tr.Emit(M{"e": "dropped", "n": name})
				w.gone(name)
			}
		}
	}
}

func (w *sessWorld) gone(name string) {
	w.up[name] = false
	w.dead[name] = w.gen[name]
	w.pend[name] = 0
	w.tr.Emit(M{"e": "gone", "n": name})
}

func (w *sessWorld) waitFor(d time.Duration, f func() bool) bool {
	for t := time.Now(); time.Since(t) < d; {
		w.mu.Lock()
		ok := f()
		w.mu.Unlock()
		if ok {
			return true
		}
		time.Sleep(300 * time.Microsecond)
	}
	return false
}

// ---------------------------------------------------------------- scripts

type SOp struct {
	Op  string  `json:"op"` // send glue down frame hold exit settle
	N   string  `json:"n"`
	K   string  `json:"k"`
	P   Payload `json:"p"`
	Bad string  `json:"bad"`
	How string  `json:"how"`
	Out string  `json:"out"`
	Ks  []SOp   `json:"ks"`
	Ms  int     `json:"ms"`
}

type SScript struct {
	Mode  string // conn, direct, real
	Nodes []string
	Gated bool
	Frac  int
	Ops   []SOp
	Seed  int64
}

var badVotes = []string{"nil", "type0", "type9", "type32", "hashlen", "parthash"}
var badProposals = []string{"nil", "hashlen", "parthash"}
var frames = []string{"garbage", "huge", "trunc", "invalid", "big", "half"}
var odds = []string{"empty", "pong", "pubkeyresp", "signedvote", "signedprop"}

func spoilID(b *tmProto.BlockID, how string) {
	switch how {
	case "hashlen":
		b.Hash = []byte{1, 2, 3}
	case "parthash":
		b.Hash = h32("x")
		b.PartSetHeader.Total = 1
		b.PartSetHeader.Hash = []byte{1, 2, 3, 4, 5, 6, 7}
	}
}

func (p Payload) voteMsg(bad string) *tmProtoPrivval.Message {
	v := p.Vote()
	v.ValidatorAddress = h32("val")[:20]
	switch bad {
	case "nil":
		v = nil
	case "type0":
		v.Type = 0
	case "type9":
		v.Type = 9
	case "type32":
		v.Type = 32
	default:
		spoilID(&v.BlockID, bad)
	}
	return &tmProtoPrivval.Message{Sum: &tmProtoPrivval.Message_SignVoteRequest{
		SignVoteRequest: &tmProtoPrivval.SignVoteRequest{Vote: v, ChainId: p.chain()}}}
}

func (p Payload) proposalMsg(bad string) *tmProtoPrivval.Message {
	v := p.Proposal()
	if bad == "nil" {
		v = nil
	} else {
		spoilID(&v.BlockID, bad)
	}
	return &tmProtoPrivval.Message{Sum: &tmProtoPrivval.Message_SignProposalRequest{
		SignProposalRequest: &tmProtoPrivval.SignProposalRequest{Proposal: v, ChainId: p.chain()}}}
}

func oddMsg(how string) *tmProtoPrivval.Message {
	switch how {
	case "pong":
		return &tmProtoPrivval.Message{Sum: &tmProtoPrivval.Message_PingResponse{PingResponse: &tmProtoPrivval.PingResponse{}}}
	case "pubkeyresp":
		return &tmProtoPrivval.Message{Sum: &tmProtoPrivval.Message_PubKeyResponse{PubKeyResponse: &tmProtoPrivval.PubKeyResponse{
			Error: &tmProtoPrivval.RemoteSignerError{Description: "x"}}}}
	case "signedvote":
		return &tmProtoPrivval.Message{Sum: &tmProtoPrivval.Message_SignedVoteResponse{SignedVoteResponse: &tmProtoPrivval.SignedVoteResponse{
			Vote: *Payload{H: 5, S: 2}.Vote()}}}
	case "signedprop":
		return &tmProtoPrivval.Message{Sum: &tmProtoPrivval.Message_SignedProposalResponse{SignedProposalResponse: &tmProtoPrivval.SignedProposalResponse{
			Proposal: *Payload{H: 5, S: 1}.Proposal()}}}
	}
	return &tmProtoPrivval.Message{}
}

func frameBytes(how string, r *mrand.Rand) []byte {
	switch how {
	case "huge": // a length beyond any limit
		return []byte{0xff, 0xff, 0xff, 0xff, 0x7f, 1, 2, 3}
	case "trunc":
		return []byte{0x20, 1, 2, 3}
	case "invalid":
		return []byte{4, 0xff, 0xff, 0xff, 0xff}
	case "big": // above the size accepted
		b := append([]byte{0x80, 0x80, 0x04}, make([]byte, 1<<16)...)
		return b
	case "half": // half of a request
		m := Payload{H: 3, S: 2, Block: "A"}.voteMsg("")
		b, err := protoio.MarshalDelimited(m)
		must(err)
		return b[:len(b)/2]
	}
	b := make([]byte, 1+r.Intn(60))
	r.Read(b)
	return b
}

func (w *sessWorld) sendOp(op SOp, val tm.PrivValidator) {
	if m := w.begin(&op); val != nil { // a direct call
		go w.direct(op, val)
	} else {
		w.nodes[op.N].sendAll([]*tmProtoPrivval.Message{m}, op.How)
	}
}

// begin notes that something is sent, and makes the message.
func (w *sessWorld) begin(op *SOp) *tmProtoPrivval.Message {
	w.mu.Lock()
	bad := op.Bad != ""
	if op.K == "vote" || op.K == "proposal" {
		op.P.S = map[string]int{"vote": 2 + int(op.P.T)%2, "proposal": 1}[op.K]
		if !bad {
			w.reg.Learn(op.P)
		}
	}
	p := "pk"
	switch op.K {
	case "vote", "proposal":
		p = pkey(op.P.J())
		if bad {
			p = "bad " + p
		}
	case "ping", "odd":
		p = ""
	}
	if op.K != "odd" {
		w.pend[op.N]++
	}
	fresh := w.real && !bad && op.K != "odd"
	if fresh && op.K != "ping" && op.K != "pubkey" {
		w.moved = true
	}
	w.tr.Emit(M{"e": "send", "n": op.N, "k": op.K, "p": p, "bad": bad, "fresh": fresh && (op.K == "vote" || op.K == "proposal")})
	w.mu.Unlock()
	var m *tmProtoPrivval.Message
	switch op.K {
	case "vote":
		m = op.P.voteMsg(op.Bad)
	case "proposal":
		m = op.P.proposalMsg(op.Bad)
	case "pubkey":
		m = &tmProtoPrivval.Message{Sum: &tmProtoPrivval.Message_PubKeyRequest{PubKeyRequest: &tmProtoPrivval.PubKeyRequest{ChainId: chainID}}}
	case "ping":
		m = &tmProtoPrivval.Message{Sum: &tmProtoPrivval.Message_PingRequest{PingRequest: &tmProtoPrivval.PingRequest{}}}
	default:
		m = oddMsg(op.How)
	}
	return m
}

func (w *sessWorld) direct(op SOp, val tm.PrivValidator) {
	var e M
	switch op.K {
	case "vote":
		v := op.P.Vote()
		err := val.SignVote(w.chain, v)
		e = w.voteAnswer(op.N, v, err != nil, fmt.Sprint(err))
	case "proposal":
		v := op.P.Proposal()
		err := val.SignProposal(w.chain, v)
		e = w.proposalAnswer(op.N, v, err != nil, fmt.Sprint(err))
	default:
		pk, err := val.GetPubKey()
		if err != nil {
			e = w.answer(op.N, "pubkey", "", err.Error(), true, nil, false, "")
		} else {
			e = w.answer(op.N, "pubkey", "pk", "", false, nil, true, w.reg.ID("K", pk.Bytes()))
		}
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.done {
		return
	}
	w.pend[op.N]--
	w.tr.Emit(e)
}

func runSession(s SScript, tr *Tracer, pool *storePool, dir string) {
	w := &sessWorld{tr: tr, reg: NewRegistry(), pend: map[string]int{}, up: map[string]bool{}, gen: map[string]int{}, dead: map[string]int{},
		chain: chainID, gated: s.Gated, decide: make(chan string), quit: make(chan struct{}), keys: map[string]bool{},
		r: rng(s.Seed, 77), nodes: map[string]*chainNode{}, frac: s.Frac, real: s.Mode == "real"}
	tr.Emit(M{"e": "reset"})
	w.priv = tmCryptoEd25519.GenPrivKey()
	w.pub = w.priv.PubKey()
	var val tm.PrivValidator = &signer.PvGuard{PrivValidator: w}
	var cl *Cluster
	if w.real {
		cl = NewCluster(2, 2, MemTracer(&nullWriter{}), pool, dir)
		cl.boot(1)
		cl.boot(2)
		w.pub = cl.keys.Pub
		val = &signer.PvGuard{PrivValidator: cl.nodes[1].val}
	}
	slow := 10 * time.Second
	svcs := []*signer.ReconnRemoteSigner{}
	if s.Mode == "direct" {
		for _, n := range s.Nodes {
			w.up[n] = true
			tr.Emit(M{"e": "up", "n": n})
		}
	} else {
		for _, n := range s.Nodes {
			w.mu.Lock()
			w.nodes[n] = newChainNode(n, w.on(n))
			w.mu.Unlock()
			rs := signer.NewReconnRemoteSigner(w.nodes[n].addr(), tmlog.NewNopLogger(), chainID, val, net.Dialer{Timeout: 5 * time.Second})
			must(rs.Start())
			svcs = append(svcs, rs)
		}
	}
	lost := func(n string, d time.Duration) bool {
		if w.waitFor(d, func() bool { return w.up[n] }) {
			return false
		}
		return true
	}
	var direct tm.PrivValidator
	if s.Mode == "direct" {
		direct = val
	}
	marks := func() {
		if w.real {
			w.mu.Lock()
			mv := w.moved
			w.moved = false
			w.mu.Unlock()
			tr.Emit(M{"e": "marks", "moved": mv, "m": []M{readState(cl.nodes[1].vpath).J(w.reg), readState(cl.nodes[1].cpath).J(w.reg),
				readState(cl.nodes[2].cpath).J(w.reg)}})
		}
	}
	stuck := false
	settle := func() {
		for _, n := range s.Nodes {
			n := n
			if !w.waitFor(slow, func() bool { return w.pend[n] <= 0 }) && !stuck {
				stuck = true
				w.mu.Lock()
				tr.Emit(M{"e": "silent", "n": n})
				w.mu.Unlock()
			}
		}
	}
	for _, n := range s.Nodes {
		if s.Mode != "direct" && lost(n, slow) {
			tr.Emit(M{"e": "lost", "n": n})
			stuck = true
		}
	}
	marks()
	for _, op := range s.Ops {
		if stuck {
			break
		}
		switch op.Op {
		case "send":
			if s.Mode != "direct" {
				d := slow
				if s.Gated {
					d = 30 * time.Millisecond
				}
				if lost(op.N, d) {
					if !s.Gated {
						tr.Emit(M{"e": "lost", "n": op.N})
						stuck = true
					}
					break
				}
			} else if !w.waitFor(5*time.Millisecond, func() bool { return w.pend[op.N] == 0 }) {
				break
			}
			w.sendOp(op, direct)
			if s.Gated {
				time.Sleep(500 * time.Microsecond)
			}
		case "down", "frame":
			if lost(op.N, map[bool]time.Duration{true: 10 * time.Millisecond, false: slow}[s.Gated]) {
				break
			}
			w.mu.Lock()
			if !w.up[op.N] {
				w.mu.Unlock()
				break
			}
			c := w.nodes[op.N].current() // the one declared up: the next is only accepted after this one's end was reported
			w.gone(op.N)
			w.mu.Unlock()
			if op.Op == "frame" {
				w.mu.Lock()
				b := frameBytes(op.How, w.r)
				w.mu.Unlock()
				c.Write(b)
				time.Sleep(2 * time.Millisecond)
			}
			c.Close()
			if s.Gated {
				time.Sleep(3 * time.Millisecond)
			}
		case "glue":
			// several requests in one piece
			if lost(op.N, map[bool]time.Duration{true: 30 * time.Millisecond, false: slow}[s.Gated]) {
				break
			}
			ms := []*tmProtoPrivval.Message{}
			for _, x := range op.Ks {
				x.N = op.N
				ms = append(ms, w.begin(&x))
			}
			w.nodes[op.N].sendAll(ms, op.How)
		case "hold":
			// the validator takes its time
			time.Sleep(time.Duration(op.Ms) * time.Millisecond)
		case "exit":
			select {
			case w.decide <- op.Out:
			case <-time.After(40 * time.Millisecond):
			}
			time.Sleep(500 * time.Microsecond)
		case "settle":
			settle()
			marks()
		default:
			panic("HARNESS: op " + op.Op)
		}
	}
	close(w.quit)
	for _, n := range s.Nodes {
		if s.Mode != "direct" && !stuck && lost(n, slow) {
			tr.Emit(M{"e": "lost", "n": n})
			stuck = true
		}
	}
	if !stuck {
		settle()
		marks()
	}
	w.mu.Lock()
	w.done = true
	w.mu.Unlock()
	for _, rs := range svcs {
		rs.Stop()
	}
	for _, n := range w.nodes {
		n.end()
	}
	if cl != nil {
		close(cl.stop)
		for _, n := range cl.nodes {
			cl.pool.give(n.store)
			n.cw.Close()
			n.vw.Close()
		}
	}
}

type nullWriter struct{}

func (*nullWriter) Write(b []byte) (int, error) { return len(b), nil }

// ---------------------------------------------------------------- generation

func genSession(r *mrand.Rand, seed int64, mode string, length int) SScript {
	s := SScript{Mode: mode, Seed: seed, Frac: 25}
	k := 1 + r.Intn(4)
	if mode == "direct" {
		k = 2 + r.Intn(7)
	}
	for i := 0; i < k; i++ {
		s.Nodes = append(s.Nodes, fmt.Sprint(i+1))
	}
	h, t := int64(1), int64(0)
	fresh := func() Payload {
		t++
		if r.Intn(3) == 0 {
			h++
		}
		p := randPayload(r, h)
		p.T = t
		p.Chain = ""
		if mode == "real" {
			h++
			p = randPayload(r, h)
			p.Chain, p.T = "", t
		}
		if p.Block == "" {
			p.Block = "A"
		}
		return p
	}
	for len(s.Ops) < length {
		n := s.Nodes[r.Intn(k)]
		x := r.Intn(100)
		switch {
		case mode == "direct":
			s.Ops = append(s.Ops, SOp{Op: "send", N: n, K: []string{"vote", "vote", "proposal", "pubkey"}[r.Intn(4)], P: fresh()})
			if r.Intn(6) == 0 {
				s.Ops = append(s.Ops, SOp{Op: "settle"})
			}
		case x < 45:
			s.Ops = append(s.Ops, SOp{Op: "send", N: n, K: []string{"vote", "vote", "proposal"}[r.Intn(3)], P: fresh()})
			if mode == "real" {
				s.Ops = append(s.Ops, SOp{Op: "settle"})
			}
		case x < 60:
			how := []string{"", "pieces"}[r.Intn(2)]
			if r.Intn(3) > 0 {
				s.Ops = append(s.Ops, SOp{Op: "send", N: n, K: []string{"ping", "pubkey"}[r.Intn(2)], How: how})
				break
			}
			op := SOp{Op: "glue", N: n, How: how}
			for j := 2 + r.Intn(3); j > 0; j-- {
				k := []string{"ping", "pubkey", "vote", "proposal"}[r.Intn(map[bool]int{true: 2, false: 4}[mode == "real"])]
				x := SOp{Op: "send", K: k}
				if k == "vote" || k == "proposal" {
					x.P = fresh()
				}
				op.Ks = append(op.Ks, x)
			}
			s.Ops = append(s.Ops, op)
		case x < 78:
			op := SOp{Op: "send", N: n, K: "vote", P: fresh(), Bad: badVotes[r.Intn(len(badVotes))]}
			if r.Intn(3) == 0 {
				op.K, op.Bad = "proposal", badProposals[r.Intn(len(badProposals))]
			}
			s.Ops = append(s.Ops, op)
			if mode == "real" {
				s.Ops = append(s.Ops, SOp{Op: "settle"})
			}
		case x < 84:
			s.Ops = append(s.Ops, SOp{Op: "send", N: n, K: "odd", How: odds[r.Intn(len(odds))]})
		case x < 90:
			s.Ops = append(s.Ops, SOp{Op: "settle"})
		case x < 94:
			s.Ops = append(s.Ops, SOp{Op: "down", N: n})
		default:
			s.Ops = append(s.Ops, SOp{Op: "frame", N: n, How: frames[r.Intn(len(frames))]})
		}
	}
	return s
}

func sessionMain(c cosConf) {
	tr := NewTracer(c.Out)
	defer tr.Close()
	start := time.Now()
	scripts := []SScript{}
	if c.Scripts != "" {
		f, err := os.Open(c.Scripts)
		must(err)
		sc := bufio.NewScanner(f)
		sc.Buffer(make([]byte, 1<<20), 1<<26)
		for sc.Scan() {
			var s SScript
			must(json.Unmarshal(sc.Bytes(), &s))
			scripts = append(scripts, s)
		}
		f.Close()
	}
	mode := c.Focus
	if mode == "" {
		mode = "conn"
	}
	for i := 0; i < c.Count; i++ {
		scripts = append(scripts, genSession(rng(c.Seed, int64(i)), c.Seed*1000+int64(i), mode, c.Length))
	}
	workers := c.Workers
	if workers > len(scripts) {
		workers = len(scripts)
	}
	var pool *storePool
	for _, s := range scripts {
		if s.Mode == "real" && pool == nil {
			rsaKey(3)
			pool = newStorePool(workers * 2)
		}
	}
	ran := parallel(tr, workers, len(scripts), func() bool { return time.Since(start).Seconds() > c.Budget }, func(i int, t *Tracer) {
		runSession(scripts[i], t, pool, scratch("ss"))
	})
	fmt.Printf("{\"scripts\":%d,\"events\":%d}\n", ran, tr.n)
}

package main

// Drives real LocalCosigners with scripts of operations and records what they did.

import (
	"bufio"
	"crypto"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"math/big"
	mrand "math/rand"
	"os"
	"path/filepath"
	"sort"
	"sync"
	"time"

	"github.com/strangelove-ventures/horcrux/signer"
	tmJson "github.com/tendermint/tendermint/libs/json"
	tsed25519 "gitlab.com/polychainlabs/threshold-ed25519/pkg"
)

type Key4 struct{ H, R, S, T int64 }

func (k Key4) J() []int64 { return []int64{k.H, k.R, k.S, k.T} }
func (k Key4) HRST() signer.HRSTKey {
	return signer.HRSTKey{Height: k.H, Round: k.R, Step: int8(k.S), Timestamp: tsOf(k.T).UnixNano()}
}
func keyOf(p Payload) Key4 { return Key4{p.H, p.R, int64(p.S), p.T} }

type PartSpec struct {
	Src int    `json:"src"`
	Mut string `json:"mut"` // "" is an honest part
}

// Op is one step of a script.
type Op struct {
	Op    string     `json:"op"` // get sign lss restart breakstore batch
	C     int        `json:"c"`
	P     Payload    `json:"p"`
	Parts []PartSpec `json:"parts"`
	Ops   []Op       `json:"ops"`
	KT    *Key4      `json:"kt"`  // request key different from that of the payload
	Bad   string     `json:"bad"` // malformed sign bytes variant
}

type Script struct {
	N, T int
	Ops  []Op
}

type cosNode struct {
	id    int
	c     signer.Cosigner
	local *signer.LocalCosigner
	ss    *signer.SignState
	path  string
	watch *Watch
	dead  bool
}

type CosEngine struct {
	keys   *Keys
	reg    *Registry
	tr     *Tracer
	nodes  map[int]*cosNode
	dir    string
	remote bool // asked over the network
	boots  int
	busy   bool // several operations at once

	mu    sync.Mutex
	poly  map[string]map[int]*big.Int                   // nonce id -> destination -> dealt scalar
	pubs  map[string][]byte                             // nonce id -> public key
	given map[string]map[int][]givenT                   // c/key -> source -> parts given
	deals map[string]signer.CosignerEphemeralSecretPart // src/key/dest -> latest part
}

type givenT struct {
	id     string
	pub    []byte
	scalar *big.Int
}

func NewCosEngine(keys *Keys, tr *Tracer, dir string) *CosEngine {
	e := &CosEngine{keys: keys, reg: NewRegistry(), tr: tr, nodes: map[int]*cosNode{}, dir: dir,
		poly: map[string]map[int]*big.Int{}, pubs: map[string][]byte{}, given: map[string]map[int][]givenT{},
		deals: map[string]signer.CosignerEphemeralSecretPart{}}
	return e
}

func (e *CosEngine) boot(id int) *cosNode {
	n := e.nodes[id]
	if n == nil {
		d := filepath.Join(e.dir, fmt.Sprintf("c%d", id))
		must(os.MkdirAll(d, 0755))
		n = &cosNode{id: id, path: filepath.Join(d, "share.json")}
		e.nodes[id] = n
		ss, err := signer.LoadOrCreateSignState(n.path)
		must(err)
		n.ss = &ss
		n.watch = NewWatch(n.path)
	} else {
		ss, err := signer.LoadSignState(n.path)
		if err != nil {
			n.dead = true
			return n
		}
		n.ss = &ss
	}
	n.local = e.keys.NewCosigner(id, n.ss, "")
	n.c = n.local
	if e.remote {
		e.behindNetwork(n)
	}
	return n
}

func (e *CosEngine) Close() {
	for _, n := range e.nodes {
		n.watch.Close()
	}
}

func (e *CosEngine) mem(n *cosNode) M {
	if n.dead {
		return M{"h": -1, "r": 0, "s": 0, "c": "dead", "t": 0}
	}
	m := e.reg.Of(n.ss.SignBytes)
	return M{"h": n.ss.Height, "r": n.ss.Round, "s": int(n.ss.Step), "c": m["c"], "t": m["t"]}
}

func guard(f func()) (p interface{}) {
	defer func() { p = recover() }()
	f()
	return nil
}

// get asks a cosigner for its parts and describes the answer.
func (e *CosEngine) get(id int, k Key4) M {
	n := e.nodes[id]
	ev := M{"e": "get", "c": id, "k": k.J(), "out": "err", "id": "", "consistent": true, "private": true, "complete": true, "hidden": true}
	if n.dead {
		return ev
	}
	var res *signer.CosignerEphemeralSecretPartsResponse
	var err error
	if p := guard(func() { res, err = n.c.GetEphemeralSecretParts(k.HRST()) }); p != nil {
		ev["out"] = "panic"
		return ev
	}
	if err != nil || res == nil {
		return ev
	}
	ev["out"] = "ok"
	ids := map[string]bool{}
	pts := map[int]*big.Int{}
	dests := map[int]bool{}
	for _, part := range res.EncryptedSecrets {
		nid := e.reg.ID("N", part.SourceEphemeralSecretPublicKey)
		ids[nid] = true
		dests[part.DestinationID] = true
		e.mu.Lock()
		e.pubs[nid] = part.SourceEphemeralSecretPublicKey
		e.deals[fmt.Sprint(id, k, part.DestinationID)] = part
		e.mu.Unlock()
		for d := 1; d <= e.keys.N; d++ {
			plain, err := rsa.DecryptOAEP(sha256.New(), nil, e.keys.RSA[d-1], part.EncryptedSharePart, nil)
			if (err == nil) != (d == part.DestinationID) {
				ev["private"] = false
			}
			if err == nil {
				pts[d] = leToBig(plain)
			}
		}
		if part.SourceID != id || part.DestinationID == id {
			ev["complete"] = false
		}
	}
	if len(dests) != e.keys.N-1 || len(res.EncryptedSecrets) != e.keys.N-1 {
		ev["complete"] = false
	}
	if len(ids) == 1 {
		for nid := range ids {
			ev["id"] = nid
			e.mu.Lock()
			e.poly[nid] = pts
			pub := e.pubs[nid]
			e.mu.Unlock()
			for k := 1; k < e.keys.T; k++ {
				for _, few := range runsOf(pts, k) {
					if string(tsed25519.ScalarMultiplyBase(bigToLe(interpolate(few, 0)))) == string(pub) {
						ev["hidden"] = false
					}
				}
			}
			if len(pts) >= e.keys.T {
				sec := bigToLe(interpolate(first(pts, e.keys.T), 0))
				if string(tsed25519.ScalarMultiplyBase(sec)) != string(pub) {
					ev["consistent"] = false
				}
				// every point lies on the polynomial
				for d, y := range pts {
					if interpolate(first(pts, e.keys.T), d).Cmp(new(big.Int).Mod(y, orderL)) != 0 {
						ev["consistent"] = false
					}
				}
			}
		}
	} else {
		ev["id"] = "mixed"
	}
	return ev
}

// runsOf are the ways to take k points whose numbers follow one another.
func runsOf(pts map[int]*big.Int, k int) []map[int]*big.Int {
	ks := []int{}
	for i := range pts {
		ks = append(ks, i)
	}
	sort.Ints(ks)
	out := []map[int]*big.Int{}
	for i := 0; i+k <= len(ks); i++ {
		m := map[int]*big.Int{}
		for _, x := range ks[i : i+k] {
			m[x] = pts[x]
		}
		out = append(out, m)
	}
	return out
}

func first(pts map[int]*big.Int, t int) map[int]*big.Int {
	ks := []int{}
	for k := range pts {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	out := map[int]*big.Int{}
	for _, k := range ks {
		if len(out) < t {
			out[k] = pts[k]
		}
	}
	return out
}

// mutate spoils an authentic part in one way.
func (e *CosEngine) mutate(p signer.CosignerEphemeralSecretPart, mut string, dest int) signer.CosignerEphemeralSecretPart {
	flip := func(b []byte, i int) []byte { c := append([]byte{}, b...); c[i%len(c)] ^= 1; return c }
	other := p.SourceID%e.keys.N + 1
	sign := func(q signer.CosignerEphemeralSecretPart, by int) []byte {
		d := signer.CosignerEphemeralSecretPart{SourceID: q.SourceID,
			SourceEphemeralSecretPublicKey: q.SourceEphemeralSecretPublicKey, EncryptedSharePart: q.EncryptedSharePart}
		b, err := tmJson.Marshal(d)
		must(err)
		dg := sha256.Sum256(b)
		s, err := rsa.SignPSS(rand.Reader, e.keys.RSA[by-1], crypto.SHA256, dg[:], nil)
		must(err)
		return s
	}
	enc := func(plain []byte, to int) []byte {
		c, err := rsa.EncryptOAEP(sha256.New(), rand.Reader, e.keys.RSAPubs[to-1], plain, nil)
		must(err)
		return c
	}
	evil := make([]byte, 32)
	rand.Read(evil)
	evil[31] = 0
	switch mut {
	case "nosig":
		p.SourceSig = nil
	case "emptysig":
		p.SourceSig = []byte{}
	case "sigflip":
		p.SourceSig = flip(p.SourceSig, 17)
	case "sigother": // signed by somebody else
		p.SourceSig = sign(p, other)
	case "sigdest": // signed by the receiver
		if dest != p.SourceID {
			p.SourceSig = sign(p, dest)
		}
	case "srcunknown":
		p.SourceID = e.keys.N + 7
	case "srczero":
		p.SourceID = 0
	case "srcneg":
		p.SourceID = -1
	case "srcswap":
		for i := 1; i <= e.keys.N; i++ {
			if i != p.SourceID && i != dest {
				p.SourceID = i
				return p
			}
		}
		p.SourceID = dest
	case "srcdest":
		p.SourceID = dest
	case "pubflip":
		p.SourceEphemeralSecretPublicKey = flip(p.SourceEphemeralSecretPublicKey, 3)
	case "pubevil":
		p.SourceEphemeralSecretPublicKey = tsed25519.ScalarMultiplyBase(evil)
	case "pubnil":
		p.SourceEphemeralSecretPublicKey = nil
	case "encflip":
		p.EncryptedSharePart = flip(p.EncryptedSharePart, 40)
	case "encnil":
		p.EncryptedSharePart = nil
	case "encevil": // another share for the receiver
		p.EncryptedSharePart = enc(evil, dest)
	case "encother": // really made by the source, but for somebody else
		to := dest%e.keys.N + 1
		p.EncryptedSharePart = enc(evil, to)
		p.SourceSig = sign(p, p.SourceID)
	case "plain": // not encrypted at all
		p.EncryptedSharePart = evil
		p.SourceSig = sign(p, p.SourceID)
	default:
		panic("HARNESS: mutation " + mut)
	}
	return p
}

var mutations = []string{"nosig", "emptysig", "sigflip", "sigother", "sigdest", "srcunknown", "srczero", "srcneg", "srcswap",
	"srcdest", "pubflip", "pubevil", "pubnil", "encflip", "encnil", "encevil", "encother", "plain"}

// prepare builds the request, asking the sources for their parts (emitting those events).
type signReq struct {
	op    Op
	k     Key4
	req   signer.CosignerSetEphemeralSecretPartsAndSignRequest
	parts []M
	wf    bool
	plus  []givenT
	srcs  []int
}

func (e *CosEngine) prepare(op Op) *signReq {
	e.reg.Learn(op.P)
	k := keyOf(op.P)
	if op.KT != nil {
		k = *op.KT
	}
	r := &signReq{op: op, k: k, wf: op.Bad == "", parts: []M{}}
	sb := op.P.SignBytes()
	if op.Bad != "" {
		sb = malformed(op.P, op.Bad)
	}
	r.req = signer.CosignerSetEphemeralSecretPartsAndSignRequest{HRST: k.HRST(), SignBytes: sb}
	valid := true
	for _, ps := range op.Parts {
		e.tr.Emit(e.get(ps.Src, k))
		e.mu.Lock()
		part, ok := e.deals[fmt.Sprint(ps.Src, k, op.C)]
		e.mu.Unlock()
		if !ok {
			continue
		}
		id := e.reg.ID("N", part.SourceEphemeralSecretPublicKey)
		honest := part
		if ps.Mut != "" {
			part = e.mutate(part, ps.Mut, op.C)
			valid = false
		}
		r.req.EncryptedSecrets = append(r.req.EncryptedSecrets, part)
		r.parts = append(r.parts, M{"src": ps.Src, "valid": ps.Mut == "", "id": id})
		if valid {
			plain, err := rsa.DecryptOAEP(sha256.New(), nil, e.keys.RSA[op.C-1], honest.EncryptedSharePart, nil)
			if err == nil {
				r.plus = append(r.plus, givenT{id, honest.SourceEphemeralSecretPublicKey, leToBig(plain)})
				r.srcs = append(r.srcs, ps.Src)
			}
		}
	}
	return r
}

func (e *CosEngine) noteGiven(r *signReq) {
	e.mu.Lock()
	defer e.mu.Unlock()
	gk := fmt.Sprint(r.op.C, r.k)
	if e.given[gk] == nil {
		e.given[gk] = map[int][]givenT{}
	}
	for i, g := range r.plus {
		have := false
		for _, x := range e.given[gk][r.srcs[i]] {
			have = have || x.id == g.id
		}
		if !have {
			e.given[gk][r.srcs[i]] = append(e.given[gk][r.srcs[i]], g)
		}
	}
}

func (e *CosEngine) do(r *signReq) (out string, res *signer.CosignerSignResponse) {
	n := e.nodes[r.op.C]
	if n.dead {
		return "err", nil
	}
	var err error
	if p := guard(func() { res, err = n.c.SetEphemeralSecretPartsAndSign(r.req) }); p != nil {
		return "panic", nil
	}
	if err != nil || res == nil {
		return "err", nil
	}
	return "share", res
}

// describe turns an answer into an event.
func (e *CosEngine) describe(r *signReq, out string, res *signer.CosignerSignResponse, f FileObs) M {
	ev := M{"e": "sign", "c": r.op.C, "k": r.k.J(), "p": r.op.P.J(), "wf": r.wf, "parts": r.parts, "store": true,
		"out": out, "share": "", "eph": "", "cand": []M{}, "f": f.J(e.reg)}
	if out != "share" {
		return ev
	}
	ev["share"] = e.reg.ID("S", res.Signature)
	if len(res.Signature) == 0 {
		ev["share"] = "empty"
	}
	ev["eph"] = e.reg.ID("E", res.EphemeralPublic)
	if len(res.EphemeralPublic) != 32 || len(res.Signature) != 32 {
		return ev
	}
	k := nonceShare(res.Signature, e.keys.Shares[r.op.C-1], e.keys.Pub, res.EphemeralPublic, r.req.SignBytes)
	// all ways to choose at most one part from each source, of those given at the key of the payload
	e.mu.Lock()
	given := e.given[fmt.Sprint(r.op.C, keyOf(r.op.P))]
	srcs := []int{}
	for s := range given {
		srcs = append(srcs, s)
	}
	e.mu.Unlock()
	sort.Ints(srcs)
	combos := [][]givenT{nil}
	for _, s := range srcs {
		e.mu.Lock()
		opts := append([]givenT{}, given[s]...)
		e.mu.Unlock()
		if len(opts) > 4 {
			opts = opts[len(opts)-4:]
		}
		next := [][]givenT{}
		for _, c := range combos {
			next = append(next, c)
			for _, o := range opts {
				next = append(next, append(append([]givenT{}, c...), o))
			}
		}
		combos = next
		if len(combos) > 200 {
			combos = combos[len(combos)-200:]
		}
	}
	cands := []M{}
	for _, c := range combos {
		pubs := [][]byte{}
		ids := []string{}
		sum := new(big.Int)
		for _, g := range c {
			pubs = append(pubs, g.pub)
			ids = append(ids, g.id)
			sum.Add(sum, g.scalar)
		}
		own := residual(res.EphemeralPublic, pubs)
		ownID := "none"
		kk := "unk"
		if string(own) != string(identity) {
			ownID = e.reg.ID("N", own)
			e.mu.Lock()
			pts := e.poly[ownID]
			e.mu.Unlock()
			if len(pts) >= e.keys.T {
				sum.Add(sum, interpolate(first(pts, e.keys.T), r.op.C))
				sum.Mod(sum, orderL)
				kk = "no"
				if sum.Cmp(k) == 0 {
					kk = "yes"
				}
			}
		}
		cands = append(cands, M{"g": ids, "own": ownID, "k": kk})
	}
	ev["cand"] = cands
	return ev
}

func (e *CosEngine) lss(op Op) M {
	e.reg.Learn(op.P)
	n := e.nodes[op.C]
	ev := M{"e": "lss", "c": op.C, "p": op.P.J(), "out": "err"}
	if n.dead {
		return ev
	}
	sb := op.P.SignBytes()
	sig, err := e.keys.Priv.Sign(sb)
	must(err)
	p := guard(func() {
		err = n.local.SaveLastSignedState(signer.SignStateConsensus{Height: op.P.H, Round: op.P.R, Step: int8(op.P.S),
			Signature: sig, SignBytes: sb})
	})
	if p != nil {
		ev["out"] = "panic"
	} else if err == nil {
		ev["out"] = "ok"
	}
	return ev
}

func (e *CosEngine) finish(ev M, id int) M {
	n := e.nodes[id]
	ev["f"] = readState(n.path).J(e.reg)
	ev["m"] = e.mem(n)
	ev["torn"] = n.watch.Torn()
	return ev
}

func (e *CosEngine) step(op Op) {
	switch op.Op {
	case "get":
		k := keyOf(op.P)
		if op.KT != nil {
			k = *op.KT
		}
		e.tr.Emit(e.get(op.C, k))
	case "sign":
		r := e.prepare(op)
		e.noteGiven(r)
		out, res := e.do(r)
		f := readState(e.nodes[op.C].path)
		e.tr.Emit(e.finish(e.describe(r, out, res, f), op.C))
	case "lss":
		e.tr.Emit(e.finish(e.lss(op), op.C))
	case "restart":
		n := e.boot(op.C)
		e.tr.Emit(e.finish(M{"e": "restart", "c": op.C, "out": map[bool]string{true: "dead", false: "ok"}[n.dead]}, op.C))
	case "batch":
		e.batch(op)
	case "breakstore":
		e.breakstore(op)
	default:
		panic("HARNESS: op " + op.Op)
	}
}

func (e *CosEngine) batch(op Op) {
	n := len(op.Ops)
	evs := make([]M, n)
	reqs := make([]*signReq, n)
	for i, o := range op.Ops {
		o.C = op.C
		op.Ops[i] = o
		if o.Op == "sign" {
			reqs[i] = e.prepare(o)
			e.noteGiven(reqs[i])
		}
	}
	type rr struct {
		out string
		res *signer.CosignerSignResponse
		f   FileObs
	}
	rs := make([]rr, n)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i := range op.Ops {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-start
			switch op.Ops[i].Op {
			case "sign":
				out, res := e.do(reqs[i])
				rs[i] = rr{out, res, readState(e.nodes[op.C].path)}
			case "lss":
				evs[i] = e.lss(op.Ops[i])
			case "get":
				evs[i] = e.get(op.C, keyOf(op.Ops[i].P))
			}
		}(i)
	}
	e.busy = true
	close(start)
	wg.Wait()
	e.busy = false
	for i := range op.Ops {
		if op.Ops[i].Op == "sign" {
			evs[i] = e.describe(reqs[i], rs[i].out, rs[i].res, rs[i].f)
		}
	}
	e.tr.Emit(e.finish(M{"e": "batch", "c": op.C, "ops": evs, "out": "ok"}, op.C))
}

// breakstore makes the state impossible to store and asks for a share; the cosigner is not used afterwards.
func (e *CosEngine) breakstore(op Op) {
	n := e.nodes[op.C]
	r := e.prepare(op)
	e.noteGiven(r)
	dir := filepath.Dir(n.path)
	switch op.Bad2() {
	case "nodir":
		must(os.Rename(dir, dir+".gone"))
	default: // the file cannot be replaced
		must(os.Rename(n.path, n.path+".gone"))
		must(os.MkdirAll(filepath.Join(n.path, "x"), 0755))
	}
	out, res := e.do(r)
	ev := e.describe(r, out, res, FileObs{Err: "broken"})
	ev["store"] = false
	e.tr.Emit(e.brokenEvent(ev))
	// repair, as an operator would, and restart from what was stored
	switch op.Bad2() {
	case "nodir":
		os.RemoveAll(dir)
		must(os.Rename(dir+".gone", dir))
	default:
		must(os.RemoveAll(n.path))
		must(os.Rename(n.path+".gone", n.path))
	}
	n.watch.Torn()
	e.boot(op.C)
	e.tr.Emit(e.finish(M{"e": "restart", "c": op.C, "out": "ok"}, op.C))
}

func (e *CosEngine) brokenEvent(ev M) M {
	ev["f"] = M{"h": -1, "r": 0, "s": 0, "c": "broken", "t": 0}
	ev["m"] = ev["f"]
	ev["torn"] = ""
	return ev
}

func (op Op) Bad2() string {
	if op.P.T%2 == 0 {
		return "nodir"
	}
	return "isdir"
}

func (e *CosEngine) Run(s Script) {
	e.tr.Emit(M{"e": "reset", "n": e.keys.N, "t": e.keys.T})
	for i := 1; i <= e.keys.N; i++ {
		e.boot(i)
	}
	for _, op := range s.Ops {
		e.step(op)
	}
}

// ---------------------------------------------------------------- generation

var blockNames = []string{"", "A", "B", "A"}

type cosGen struct {
	r    *mrand.Rand
	n, t int
	cur  map[int]Payload // per cosigner, near its watermark
}

func (g *cosGen) others(c int) []int {
	o := []int{}
	for i := 1; i <= g.n; i++ {
		if i != c {
			o = append(o, i)
		}
	}
	g.r.Shuffle(len(o), func(i, j int) { o[i], o[j] = o[j], o[i] })
	return o
}

func (g *cosGen) parts(c int) []PartSpec {
	k := g.t - 1
	if g.r.Intn(6) == 0 {
		k = g.r.Intn(g.n)
	}
	ps := []PartSpec{}
	for _, s := range g.others(c)[:k] {
		ps = append(ps, PartSpec{Src: s})
	}
	return ps
}

func randPayload(r *mrand.Rand, h int64) Payload {
	p := Payload{H: h, R: int64(r.Intn(2)), S: 1 + r.Intn(3), Block: blockNames[r.Intn(len(blockNames))], T: int64(r.Intn(9))}
	if p.S == stepPropose {
		if p.Block == "" {
			p.Block = "A"
		}
		p.Pol = int32(r.Intn(2)) - 1
	}
	return p
}

// vary changes one aspect of a payload
func vary(r *mrand.Rand, p Payload) Payload {
	switch r.Intn(14) {
	case 0:
		p.H++
	case 1:
		p.H--
	case 2:
		p.R++
	case 3:
		if p.R > 0 {
			p.R--
		} else {
			p.R = 1
		}
	case 4:
		p.S = p.S%3 + 1
	case 5:
		if p.S == stepPropose || r.Intn(3) > 0 {
			p.Block = map[string]string{"A": "B", "B": "A", "": "A"}[p.Block]
		} else {
			p.Block = ""
		}
	case 6:
		if p.Block != "" {
			p.PTot = 3 - p.PTot%3
		}
	case 7:
		if p.Block != "" {
			p.PHash = map[string]string{"": "x", "x": ""}[p.PHash]
		}
	case 8:
		if p.S == stepPropose {
			p.Pol++
		} else {
			p.T += 3
		}
	case 9:
		p.Chain = map[string]string{"": "chain-2", "chain-2": ""}[p.Chain]
	case 10, 11:
		p.T++
	case 12:
		p.T += 3
	case 13: // the same again
	}
	if p.S == stepPropose && p.Block == "" {
		p.Block = "A"
	}
	if p.H < 1 {
		p.H = 1
	}
	return p
}

func (g *cosGen) next(c int) Payload {
	p, ok := g.cur[c]
	if !ok {
		p = randPayload(g.r, 1+int64(g.r.Intn(3)))
	} else {
		x := g.r.Intn(10)
		switch {
		case x < 7:
			p = vary(g.r, p)
		case x == 7:
			p = vary(g.r, vary(g.r, p))
		case x == 8:
			p = randPayload(g.r, p.H+1)
		default:
			p = randPayload(g.r, max64(1, p.H-int64(g.r.Intn(2))))
		}
	}
	if q, ok := g.cur[c]; !ok || lessP(q, p) {
		g.cur[c] = p
	}
	return p
}

func max64(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

func lessP(a, b Payload) bool {
	if a.H != b.H {
		return a.H < b.H
	}
	if a.R != b.R {
		return a.R < b.R
	}
	return a.S < b.S
}

// focus: "" everything; "parts" bad parts; "conc" concurrent batches; "nonce"; "store"
func genScript(r *mrand.Rand, n, t, length int, focus string) Script {
	g := &cosGen{r: r, n: n, t: t, cur: map[int]Payload{}}
	s := Script{N: n, T: t}
	active := 1 + r.Intn(n)
	if focus == "conc" {
		active = 1
	}
	for len(s.Ops) < length {
		c := 1 + r.Intn(active)
		x := r.Intn(100)
		switch {
		case focus == "conc" && x < 70:
			s.Ops = append(s.Ops, g.batch(c))
		case focus == "parts" && x < 50 && t > 1:
			p := g.next(c)
			ps := g.parts(c)
			if len(ps) == 0 {
				continue
			}
			i := r.Intn(len(ps))
			ps[i].Mut = mutations[r.Intn(len(mutations))]
			s.Ops = append(s.Ops, Op{Op: "sign", C: c, P: p, Parts: ps})
			if r.Intn(2) == 0 { // and then honestly
				for j := range ps {
					ps = append([]PartSpec{}, ps...)
					ps[j].Mut = ""
				}
				s.Ops = append(s.Ops, Op{Op: "sign", C: c, P: p, Parts: ps})
			}
		case focus == "malformed" && x < 60:
			p := g.next(c)
			op := Op{Op: "sign", C: c, P: p, Parts: g.parts(c)}
			switch r.Intn(4) {
			case 0, 1:
				op.Bad = malformedKinds[r.Intn(len(malformedKinds))]
			case 2: // the request key is nonsense
				k := oddKeys[r.Intn(len(oddKeys))]
				op.KT = &k
				if r.Intn(2) == 0 {
					s.Ops = append(s.Ops, Op{Op: "get", C: c, P: p, KT: &k})
				}
			case 3:
				if len(op.Parts) > 0 {
					op.Parts[0].Mut = mutations[r.Intn(len(mutations))]
				}
			}
			s.Ops = append(s.Ops, op)
			if r.Intn(2) == 0 { // and then a good one
				s.Ops = append(s.Ops, Op{Op: "get", C: c, P: p}, Op{Op: "sign", C: c, P: p, Parts: g.parts(c)})
			}
		case focus == "nonce" && x < 40:
			p := g.next(c)
			if r.Intn(3) == 0 {
				p = g.cur[c]
			}
			s.Ops = append(s.Ops, Op{Op: "get", C: c, P: p})
		case focus == "store" && x < 25:
			s.Ops = append(s.Ops, Op{Op: "breakstore", C: c, P: g.next(c), Parts: g.parts(c)})
		case x < 60:
			p := g.next(c)
			op := Op{Op: "sign", C: c, P: p, Parts: g.parts(c)}
			if r.Intn(10) < 6 {
				s.Ops = append(s.Ops, Op{Op: "get", C: c, P: p})
			}
			if r.Intn(25) == 0 {
				k := keyOf(vary(r, p))
				op.KT = &k
			}
			s.Ops = append(s.Ops, op)
		case x < 68:
			s.Ops = append(s.Ops, Op{Op: "get", C: c, P: g.next(c)})
		case x < 80:
			p := g.next(c)
			if r.Intn(3) == 0 {
				p = g.cur[c]
			}
			s.Ops = append(s.Ops, Op{Op: "lss", C: c, P: p})
		case x < 90:
			// the same bytes again
			if p, ok := g.cur[c]; ok {
				s.Ops = append(s.Ops, Op{Op: "sign", C: c, P: p, Parts: g.parts(c)})
			}
		default:
			s.Ops = append(s.Ops, Op{Op: "restart", C: c})
		}
	}
	return s
}

func (g *cosGen) batch(c int) Op {
	r := g.r
	k := 2 + r.Intn(3)
	b := Op{Op: "batch", C: c}
	base := g.next(c)
	if r.Intn(2) == 0 {
		base = randPayload(r, base.H+1)
		g.cur[c] = base
	}
	mode := r.Intn(4)
	for i := 0; i < k; i++ {
		p := base
		if i > 0 {
			p = vary(r, base)
		}
		switch {
		case mode == 0 && i == k-1:
			b.Ops = append(b.Ops, Op{Op: "lss", C: c, P: p})
		case mode == 1:
			b.Ops = append(b.Ops, Op{Op: "get", C: c, P: p})
		case mode == 2 && r.Intn(2) == 0:
			b.Ops = append(b.Ops, Op{Op: "lss", C: c, P: p})
		default:
			b.Ops = append(b.Ops, Op{Op: "sign", C: c, P: p, Parts: g.parts(c)})
		}
		if lessP(g.cur[c], p) {
			g.cur[c] = p
		}
	}
	return b
}

// ---------------------------------------------------------------- commands

type cosConf struct {
	Seed    int64
	Count   int
	Length  int
	Focus   string
	Out     string
	Scripts string // file of scripts to replay, one JSON document per line
	Budget  float64
	Workers int
	Remote  bool
}

func cosMain(c cosConf) {
	tr := NewTracer(c.Out)
	defer tr.Close()
	shapes := [][2]int{{3, 2}, {2, 2}, {4, 3}, {3, 3}, {5, 3}, {3, 2}}
	start := time.Now()
	scripts := []Script{}
	if c.Scripts != "" {
		f, err := os.Open(c.Scripts)
		must(err)
		sc := bufio.NewScanner(f)
		sc.Buffer(make([]byte, 1<<20), 1<<26)
		for sc.Scan() {
			var s Script
			must(json.Unmarshal(sc.Bytes(), &s))
			scripts = append(scripts, s)
		}
		f.Close()
	}
	for i := 0; i < c.Count; i++ {
		sh := shapes[i%len(shapes)]
		scripts = append(scripts, genScript(rng(c.Seed, int64(i)), sh[0], sh[1], c.Length, c.Focus))
	}
	rsaKey(5)
	ran := parallel(tr, 8, len(scripts), func() bool { return time.Since(start).Seconds() > c.Budget }, func(i int, t *Tracer) {
		dir := scratch("cos")
		e := NewCosEngine(NewKeys(scripts[i].N, scripts[i].T), t, dir)
		e.remote = c.Remote
		e.Run(scripts[i])
		e.Close()
		os.RemoveAll(dir)
	})
	fmt.Printf("{\"scripts\":%d,\"events\":%d}\n", ran, tr.n)
}

var malformedKinds = []string{"empty", "trunc", "zeros", "ff", "type0", "type9", "type32", "biglen", "len0", "text"}

var oddKeys = []Key4{{0, 0, 0, 0}, {-1, 0, 1, 0}, {1, -1, 2, 0}, {1, 0, 0, 0}, {1, 0, 99, 1}, {1, 0, -7, 1}, {1 << 30, 1 << 29, 3, 2}}

// malformed sign bytes
func malformed(p Payload, how string) []byte {
	b := p.SignBytes()
	switch how {
	case "empty":
		return nil
	case "trunc":
		return b[:len(b)/2]
	case "zeros":
		return make([]byte, len(b))
	case "ff":
		c := make([]byte, len(b))
		for i := range c {
			c[i] = 0xff
		}
		return c
	case "type0", "type9", "type32":
		// the type is the first field
		if p.S == stepPropose {
			return append([]byte{}, mustProposalBytes(p.Proposal(), p.chain(), how)...)
		}
		v := p.Vote()
		q := append([]byte{}, mustVoteBytes(v, p.chain(), how)...)
		return q
	case "len0":
		return []byte{0}
	case "text":
		return []byte("sign this please, it is a perfectly good vote")
	case "biglen":
		return append([]byte{0xff, 0xff, 0xff, 0xff, 0x7f}, b...)
	}
	return b
}

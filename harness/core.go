package main

// Shared pieces of the harness: payloads, keys, group arithmetic, tracing.
// Everything here uses only the exported interface of the signer package.

import (
	"bufio"
	"bytes"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	mrand "math/rand"
	"os"
	"path/filepath"
	"sync"
	"syscall"
	"time"
	"unsafe"

	"github.com/strangelove-ventures/horcrux/signer"
	tmCryptoEd25519 "github.com/tendermint/tendermint/crypto/ed25519"
	tmProto "github.com/tendermint/tendermint/proto/tendermint/types"
	tm "github.com/tendermint/tendermint/types"
	tsed25519 "gitlab.com/polychainlabs/threshold-ed25519/pkg"
)

type M map[string]interface{}

// ---------------------------------------------------------------- tracing

type Tracer struct {
	mu sync.Mutex
	f  *os.File
	w  *bufio.Writer
	n  int
}

// MemTracer collects events in memory.
func MemTracer(b io.Writer) *Tracer { return &Tracer{w: bufio.NewWriter(b)} }

// parallel runs jobs 0..n-1 on several cores; each gets its own trace, and traces are joined in order.
func parallel(tr *Tracer, workers, n int, stop func() bool, job func(i int, t *Tracer)) (ran int) {
	bufs := make([]*bytes.Buffer, n)
	cnt := make([]int, n)
	var wg sync.WaitGroup
	next := make(chan int)
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range next {
				b := &bytes.Buffer{}
				t := MemTracer(b)
				job(i, t)
				must(t.w.Flush())
				bufs[i], cnt[i] = b, t.n
			}
		}()
	}
	for i := 0; i < n && !stop(); i++ {
		next <- i
		ran++
	}
	close(next)
	wg.Wait()
	for i := range bufs {
		if bufs[i] != nil {
			tr.w.Write(bufs[i].Bytes())
			tr.n += cnt[i]
		}
	}
	return ran
}

func NewTracer(path string) *Tracer {
	f, err := os.Create(path)
	must(err)
	return &Tracer{f: f, w: bufio.NewWriterSize(f, 1<<20)}
}

func (t *Tracer) Emit(m M) {
	t.mu.Lock()
	defer t.mu.Unlock()
	b, err := json.Marshal(m)
	must(err)
	t.w.Write(b)
	t.w.WriteByte('\n')
	t.n++
}

func (t *Tracer) Flush() {
	t.mu.Lock()
	defer t.mu.Unlock()
	must(t.w.Flush())
}

func (t *Tracer) Close() { t.Flush(); must(t.f.Close()) }

func must(err error) {
	if err != nil {
		panic("HARNESS: " + err.Error())
	}
}

// ---------------------------------------------------------------- payloads

const (
	stepPropose   = 1
	stepPrevote   = 2
	stepPrecommit = 3
)

// Payload is a vote or proposal in terms of its fields.
// S is the step: 1 proposal, 2 prevote, 3 precommit.
type Payload struct {
	H     int64  `json:"h"`
	R     int64  `json:"r"`
	S     int    `json:"s"`
	Block string `json:"block"` // "" is nil
	PTot  uint32 `json:"ptot"`  // part set total, 0 is 1
	PHash string `json:"phash"` // part set hash variant
	Pol   int32  `json:"pol"`
	Chain string `json:"chain"`
	T     int64  `json:"t"` // index of the timestamp
}

const chainID = "chain-1"

// baseTime has sub-second precision so that timestamps with equal seconds differ too
var baseTime = time.Date(2023, 3, 1, 12, 0, 0, 123456789, time.UTC)

// consecutive indexes alternate between differing by 1ns and by larger steps
func tsOf(i int64) time.Time {
	return baseTime.Add(time.Duration(i%3)*time.Nanosecond + time.Duration(i/3)*time.Second)
}

func h32(s string) []byte { x := sha256.Sum256([]byte(s)); return x[:] }

func (p Payload) chain() string {
	if p.Chain == "" {
		return chainID
	}
	return p.Chain
}

// Content identifies all fields but the timestamp.
func (p Payload) Content() string {
	q := p
	if q.S != stepPropose {
		q.Pol = 0
	}
	if q.PTot == 0 {
		q.PTot = 1
	}
	if q.Block == "" {
		q.PTot, q.PHash = 0, ""
	}
	return fmt.Sprintf("%d/%d/%d:%s:%d:%s:%d:%s", q.H, q.R, q.S, q.Block, q.PTot, q.PHash, q.Pol, q.chain())
}

func (p Payload) blockID() tmProto.BlockID {
	if p.Block == "" {
		return tmProto.BlockID{}
	}
	tot := p.PTot
	if tot == 0 {
		tot = 1
	}
	return tmProto.BlockID{
		Hash:          h32("block" + p.Block),
		PartSetHeader: tmProto.PartSetHeader{Total: tot, Hash: h32("parts" + p.Block + p.PHash)},
	}
}

func (p Payload) Vote() *tmProto.Vote {
	ty := tmProto.PrevoteType
	if p.S == stepPrecommit {
		ty = tmProto.PrecommitType
	}
	return &tmProto.Vote{Type: ty, Height: p.H, Round: int32(p.R), BlockID: p.blockID(), Timestamp: tsOf(p.T)}
}

func (p Payload) Proposal() *tmProto.Proposal {
	return &tmProto.Proposal{Type: tmProto.ProposalType, Height: p.H, Round: int32(p.R), PolRound: p.Pol,
		BlockID: p.blockID(), Timestamp: tsOf(p.T)}
}

func (p Payload) SignBytes() []byte {
	if p.S == stepPropose {
		return tm.ProposalSignBytes(p.chain(), p.Proposal())
	}
	return tm.VoteSignBytes(p.chain(), p.Vote())
}

func (p Payload) Key() signer.HRSTKey {
	return signer.HRSTKey{Height: p.H, Round: p.R, Step: int8(p.S), Timestamp: tsOf(p.T).UnixNano()}
}

// J is the form in which traces mention a payload.
func (p Payload) J() M {
	return M{"h": p.H, "r": p.R, "s": p.S, "c": p.Content(), "t": p.T}
}

// Registry maps sign bytes back to what they stand for.
type Registry struct {
	mu  sync.Mutex
	ids map[string]string
	by  map[string]M
	n   map[string]int
}

func NewRegistry() *Registry {
	return &Registry{ids: map[string]string{}, by: map[string]M{}, n: map[string]int{}}
}

func (g *Registry) Learn(p Payload) {
	g.mu.Lock()
	defer g.mu.Unlock()
	g.by[string(p.SignBytes())] = M{"c": p.Content(), "t": p.T}
}

// Of returns content and timestamp of known sign bytes.
func (g *Registry) Of(b []byte) M {
	g.mu.Lock()
	defer g.mu.Unlock()
	if len(b) == 0 {
		return M{"c": "", "t": 0}
	}
	if m, ok := g.by[string(b)]; ok {
		return m
	}
	return M{"c": "unknown", "t": 0}
}

// ID interns a byte string under a class letter.
func (g *Registry) ID(class string, b []byte) string {
	if len(b) == 0 {
		return ""
	}
	g.mu.Lock()
	defer g.mu.Unlock()
	k := class + string(b)
	if id, ok := g.ids[k]; ok {
		return id
	}
	g.n[class]++
	id := fmt.Sprintf("%s%d", class, g.n[class])
	g.ids[k] = id
	return id
}

// ---------------------------------------------------------------- keys

type Keys struct {
	N, T    int
	Priv    tmCryptoEd25519.PrivKey
	Pub     tmCryptoEd25519.PubKey
	Shares  [][]byte
	RSA     []*rsa.PrivateKey
	RSAPubs []*rsa.PublicKey
}

var (
	rsaPool   []*rsa.PrivateKey
	rsaPoolMu sync.Mutex
)

// 1024 bit keys: large enough for OAEP and PSS with SHA-256, fast to make
func rsaKey(i int) *rsa.PrivateKey {
	rsaPoolMu.Lock()
	defer rsaPoolMu.Unlock()
	for len(rsaPool) <= i {
		k, err := rsa.GenerateKey(rand.Reader, 1024)
		must(err)
		rsaPool = append(rsaPool, k)
	}
	return rsaPool[i]
}

func NewKeys(n, t int) *Keys {
	k := &Keys{N: n, T: t, Priv: tmCryptoEd25519.GenPrivKey()}
	k.Pub = k.Priv.PubKey().(tmCryptoEd25519.PubKey)
	for _, s := range tsed25519.DealShares(tsed25519.ExpandSecret(k.Priv[:32]), uint8(t), uint8(n)) {
		k.Shares = append(k.Shares, s)
	}
	for i := 0; i < n; i++ {
		r := rsaKey(i)
		k.RSA = append(k.RSA, r)
		k.RSAPubs = append(k.RSAPubs, &r.PublicKey)
	}
	return k
}

func (k *Keys) CosignerKey(id int) signer.CosignerKey {
	return signer.CosignerKey{PubKey: k.Pub, ShareKey: k.Shares[id-1], ID: id, RSAKey: *k.RSA[id-1], CosignerKeys: k.RSAPubs}
}

// NewCosigner makes cosigner id with its own copy of everything, as a process would have it.
func (k *Keys) NewCosigner(id int, ss *signer.SignState, address string) *signer.LocalCosigner {
	peers := []signer.CosignerPeer{}
	for i := 1; i <= k.N; i++ {
		peers = append(peers, signer.CosignerPeer{ID: i, PublicKey: *k.RSAPubs[i-1]})
	}
	return signer.NewLocalCosigner(signer.LocalCosignerConfig{
		CosignerKey: k.CosignerKey(id), SignState: ss, RsaKey: *k.RSA[id-1], Peers: peers,
		Address: address, Total: uint8(k.N), Threshold: uint8(k.T),
	})
}

// ---------------------------------------------------------------- arithmetic

var orderL, _ = new(big.Int).SetString("7237005577332262213973186563042994240857116359379907606001950938285454250989", 10)

func leToBig(b []byte) *big.Int {
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return new(big.Int).SetBytes(r)
}

func bigToLe(x *big.Int) []byte {
	b := new(big.Int).Mod(x, orderL).Bytes()
	out := make([]byte, 32)
	for i := range b {
		out[len(b)-1-i] = b[i]
	}
	return out
}

// interpolate the polynomial through the points at x
func interpolate(pts map[int]*big.Int, x int) *big.Int {
	sum := new(big.Int)
	for i, yi := range pts {
		num, den := big.NewInt(1), big.NewInt(1)
		for j := range pts {
			if j != i {
				num.Mul(num, big.NewInt(int64(x-j)))
				num.Mod(num, orderL)
				den.Mul(den, big.NewInt(int64(i-j)))
				den.Mod(den, orderL)
			}
		}
		t := new(big.Int).Mul(yi, num)
		t.Mul(t, new(big.Int).ModInverse(den, orderL))
		sum.Add(sum, t)
	}
	return sum.Mod(sum, orderL)
}

func negPoint(b []byte) []byte {
	out := append([]byte{}, b...)
	out[31] ^= 0x80
	return out
}

var identity = func() []byte { b := make([]byte, 32); b[0] = 1; return b }()

// residual is eph minus the given points
func residual(eph []byte, given [][]byte) []byte {
	els := []tsed25519.Element{eph}
	for _, g := range given {
		if len(g) != 32 {
			return nil
		}
		els = append(els, negPoint(g))
	}
	return tsed25519.AddElements(els)
}

// nonceShare recovers the share of the nonce from a partial signature
func nonceShare(share, keyShare, pub, eph, msg []byte) *big.Int {
	h := sha512.New()
	h.Write(eph)
	h.Write(pub)
	h.Write(msg)
	c := leToBig(h.Sum(nil))
	k := new(big.Int).Mul(c, leToBig(keyShare))
	k.Sub(leToBig(share), k)
	return k.Mod(k, orderL)
}

// ---------------------------------------------------------------- state files

type FileObs struct {
	H, R int64
	S    int
	SB   []byte
	Sig  []byte
	Eph  []byte
	Err  string
}

func readState(path string) FileObs {
	b, err := os.ReadFile(path)
	if err != nil {
		return FileObs{Err: "missing"}
	}
	var x struct {
		Height          json.RawMessage `json:"height"`
		Round           json.RawMessage `json:"round"`
		Step            json.RawMessage `json:"step"`
		EphemeralPublic []byte          `json:"ephemeral_public"`
		Signature       []byte          `json:"signature"`
		SignBytes       string          `json:"signbytes"`
	}
	if err := json.Unmarshal(b, &x); err != nil {
		return FileObs{Err: "corrupt"}
	}
	num := func(r json.RawMessage) int64 {
		var n json.Number
		var s string
		if json.Unmarshal(r, &s) == nil {
			n = json.Number(s)
		} else {
			n = json.Number(string(r))
		}
		v, _ := n.Int64()
		return v
	}
	sb, _ := hex.DecodeString(x.SignBytes)
	return FileObs{H: num(x.Height), R: num(x.Round), S: int(num(x.Step)), SB: sb, Sig: x.Signature, Eph: x.EphemeralPublic}
}

func (f FileObs) J(g *Registry) M {
	if f.Err != "" {
		return M{"h": -1, "r": 0, "s": 0, "c": f.Err, "t": 0}
	}
	m := g.Of(f.SB)
	return M{"h": f.H, "r": f.R, "s": f.S, "c": m["c"], "t": m["t"]}
}

// Watch observes a file: it must only ever change by being replaced with a complete new file.
// All watches share one inotify instance, of which there are few.
type Watch struct {
	dir, name string
	wd        int
	torn      string
}

const (
	inModify  = 0x2
	inCreate  = 0x100
	inDelete  = 0x200
	inMovedFr = 0x40
	inMovedTo = 0x80
)

var (
	watchMu  sync.Mutex
	watchFd  = -1
	watchers = map[int]map[*Watch]bool{}
)

func NewWatch(path string) *Watch {
	watchMu.Lock()
	defer watchMu.Unlock()
	if watchFd < 0 {
		fd, err := syscall.InotifyInit1(syscall.IN_NONBLOCK | syscall.IN_CLOEXEC)
		must(err)
		watchFd = fd
	}
	w := &Watch{dir: filepath.Dir(path), name: filepath.Base(path)}
	drainWatches()
	wd, err := syscall.InotifyAddWatch(watchFd, w.dir, inModify|inCreate|inDelete|inMovedFr|inMovedTo)
	must(err)
	w.wd = wd
	if watchers[wd] == nil {
		watchers[wd] = map[*Watch]bool{}
	}
	watchers[wd][w] = true
	return w
}

func drainWatches() {
	buf := make([]byte, 1<<16)
	for {
		n, err := syscall.Read(watchFd, buf)
		if n <= 0 || err != nil {
			return
		}
		for off := 0; off+syscall.SizeofInotifyEvent <= n; {
			ev := (*syscall.InotifyEvent)(unsafe.Pointer(&buf[off]))
			name := string(bytes.TrimRight(buf[off+syscall.SizeofInotifyEvent:off+syscall.SizeofInotifyEvent+int(ev.Len)], "\x00"))
			off += syscall.SizeofInotifyEvent + int(ev.Len)
			for w := range watchers[int(ev.Wd)] {
				if name != w.name {
					continue
				}
				switch {
				case ev.Mask&inModify != 0:
					w.torn = "modified in place"
				case ev.Mask&inCreate != 0:
					w.torn = "created empty"
				case ev.Mask&inDelete != 0, ev.Mask&inMovedFr != 0:
					w.torn = "removed"
				}
			}
		}
	}
}

// Torn tells how the file was changed in place since the last call, "" if it was not.
func (w *Watch) Torn() string {
	watchMu.Lock()
	defer watchMu.Unlock()
	drainWatches()
	t := w.torn
	w.torn = ""
	return t
}

func (w *Watch) Close() {
	watchMu.Lock()
	defer watchMu.Unlock()
	delete(watchers[w.wd], w)
	if len(watchers[w.wd]) == 0 {
		delete(watchers, w.wd)
		syscall.InotifyRmWatch(watchFd, uint32(w.wd))
	}
}

// ---------------------------------------------------------------- misc

func clonePriv(k *rsa.PrivateKey) *rsa.PrivateKey { c := *k; return &c }

func rng(seed int64, stream int64) *mrand.Rand {
	return mrand.New(mrand.NewSource(seed*1000003 + stream))
}

func scratch(name string) string {
	d, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), name)
	must(err)
	return d
}

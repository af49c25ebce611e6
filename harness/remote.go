package main

// A cosigner reached over the network: the client against a recording server with faults, and the whole way to a real cosigner.

import (
	"context"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	mrand "math/rand"
	"net"
	"os"
	"path/filepath"
	"sort"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/strangelove-ventures/horcrux/signer"
	proto "github.com/strangelove-ventures/horcrux/signer/proto"
	tmlog "github.com/tendermint/tendermint/libs/log"
	"google.golang.org/grpc"
)

type ROp struct {
	Op   string `json:"op"`   // get, sign
	Fate string `json:"fate"` // ok, refuse, hang, late, lost, down, garbage, close, silent, gone
	Val  int    `json:"val"`  // which values the request has
	With int    `json:"with"` // so many others at the same time
}

type RScript struct {
	Ops []ROp `json:"ops"`
}

func short(b []byte) string {
	if len(b) == 0 {
		return ""
	}
	x := sha256.Sum256(b)
	return fmt.Sprintf("%d:%s", len(b), hex.EncodeToString(x[:6]))
}

type wireReq struct {
	k     signer.HRSTKey
	parts []signer.CosignerEphemeralSecretPart
	bytes []byte
}

func partJ(src, dst int64, pub, enc, sig []byte) string {
	return fmt.Sprintf("%d>%d %s %s %s", src, dst, short(pub), short(enc), short(sig))
}

func (q wireReq) J(op string) M {
	ps := []string{}
	for _, p := range q.parts {
		ps = append(ps, partJ(int64(p.SourceID), int64(p.DestinationID), p.SourceEphemeralSecretPublicKey, p.EncryptedSharePart, p.SourceSig))
	}
	return M{"op": op, "h": fmt.Sprint(q.k.Height), "r": fmt.Sprint(q.k.Round), "s": int(q.k.Step), "t": fmt.Sprint(q.k.Timestamp), "parts": ps, "bytes": short(q.bytes)}
}

func hrstJ(op string, k *proto.HRST, ps []*proto.EphemeralSecretPart, b []byte) M {
	parts := []string{}
	for _, p := range ps {
		parts = append(parts, partJ(int64(p.GetSourceID()), int64(p.GetDestinationID()), p.GetSourceEphemeralSecretPublicKey(), p.GetEncryptedSharePart(), p.GetSourceSig()))
	}
	return M{"op": op, "h": fmt.Sprint(k.GetHeight()), "r": fmt.Sprint(k.GetRound()), "s": int(k.GetStep()), "t": fmt.Sprint(k.GetTimestamp()), "parts": parts, "bytes": short(b)}
}

func randBytes(r *mrand.Rand, val int) []byte {
	n := []int{32, 0, 1, 64, 256, 5000}[(val+r.Intn(3))%6]
	b := make([]byte, n)
	r.Read(b)
	return b
}

func randPart(r *mrand.Rand, val int) signer.CosignerEphemeralSecretPart {
	ids := []int{1, 2, 3, 7, 255, 0, -1, math.MaxInt32, math.MinInt32}
	return signer.CosignerEphemeralSecretPart{SourceID: ids[r.Intn(len(ids))], DestinationID: ids[r.Intn(len(ids))],
		SourceEphemeralSecretPublicKey: randBytes(r, val), EncryptedSharePart: randBytes(r, val+1), SourceSig: randBytes(r, val+2)}
}

// some values of a request; the timestamp is always another
func wireValues(r *mrand.Rand, op string, val int) wireReq {
	big := []int64{1, 2, 0, 1000000, 1 << 33, math.MaxInt64, math.MinInt64, -1, 255, 256, math.MaxInt32, math.MaxInt32 + 1}
	steps := []int8{1, 2, 3, 0, -1, 127, -128, 9}
	q := wireReq{k: signer.HRSTKey{Height: big[(val+r.Intn(2))%len(big)], Round: big[(val*5+1+r.Intn(3))%len(big)], Step: steps[val%len(steps)],
		Timestamp: r.Int63() - r.Int63()}}
	if op == "sign" {
		q.bytes = randBytes(r, val)
		for i := 0; i < (val+1)%5; i++ {
			q.parts = append(q.parts, randPart(r, val+i))
		}
	}
	return q
}

// recorder is a cosigner's network interface that answers as it is told.
type recorder struct {
	proto.UnimplementedCosignerGRPCServer
	mu   sync.Mutex
	fate string
	r    *mrand.Rand
	came []M
	gave map[string]string // by request
	stop chan struct{}
}

func reqKey(m M) string { b, _ := json.Marshal(m); return string(b) }

func (s *recorder) take(req M) (string, int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.came = append(s.came, req)
	return s.fate, s.r.Intn(5)
}

func (s *recorder) answer(req M, gave string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.gave[reqKey(req)] = gave
}

func (s *recorder) await(ctx context.Context, fate string) error {
	switch fate {
	case "hang":
		<-s.stop
		return errors.New("too late")
	case "late":
		select {
		case <-time.After(5 * time.Second):
		case <-s.stop:
		}
	}
	return nil
}

func (s *recorder) GetEphemeralSecretParts(ctx context.Context, req *proto.CosignerGRPCGetEphemeralSecretPartsRequest) (*proto.CosignerGRPCGetEphemeralSecretPartsResponse, error) {
	m := hrstJ("get", req.GetHrst(), nil, nil)
	fate, n := s.take(m)
	if err := s.await(ctx, fate); err != nil {
		return nil, err
	}
	if fate == "refuse" {
		s.answer(m, "error")
		return nil, errors.New("no parts for you")
	}
	res := &proto.CosignerGRPCGetEphemeralSecretPartsResponse{}
	said := []string{}
	s.mu.Lock()
	for i := 0; i <= n; i++ {
		p := randPart(s.r, i)
		res.EncryptedSecrets = append(res.EncryptedSecrets, &proto.EphemeralSecretPart{SourceID: int32(p.SourceID), DestinationID: int32(p.DestinationID),
			SourceEphemeralSecretPublicKey: p.SourceEphemeralSecretPublicKey, EncryptedSharePart: p.EncryptedSharePart, SourceSig: p.SourceSig})
		said = append(said, partJ(int64(p.SourceID), int64(p.DestinationID), p.SourceEphemeralSecretPublicKey, p.EncryptedSharePart, p.SourceSig))
	}
	s.mu.Unlock()
	s.answer(m, fmt.Sprint(said))
	return res, nil
}

func (s *recorder) SetEphemeralSecretPartsAndSign(ctx context.Context, req *proto.CosignerGRPCSetEphemeralSecretPartsAndSignRequest) (*proto.CosignerGRPCSetEphemeralSecretPartsAndSignResponse, error) {
	m := hrstJ("sign", req.GetHrst(), req.GetEncryptedSecrets(), req.GetSignBytes())
	fate, _ := s.take(m)
	if err := s.await(ctx, fate); err != nil {
		return nil, err
	}
	if fate == "refuse" {
		s.answer(m, "error")
		return nil, errors.New("no share for you")
	}
	s.mu.Lock()
	eph, sig := make([]byte, 32), make([]byte, 32)
	s.r.Read(eph)
	s.r.Read(sig)
	s.mu.Unlock()
	s.answer(m, short(eph)+" "+short(sig))
	return &proto.CosignerGRPCSetEphemeralSecretPartsAndSignResponse{EphemeralPublic: eph, Timestamp: time.Now().UnixNano(), Signature: sig}, nil
}

type unable struct {
	proto.UnimplementedCosignerGRPCServer
}

func callRemote(c signer.Cosigner, op string, q wireReq) string {
	if op == "get" {
		res, err := c.GetEphemeralSecretParts(q.k)
		if err != nil {
			return "error"
		}
		said := []string{}
		if res != nil {
			for _, p := range res.EncryptedSecrets {
				said = append(said, partJ(int64(p.SourceID), int64(p.DestinationID), p.SourceEphemeralSecretPublicKey, p.EncryptedSharePart, p.SourceSig))
			}
		}
		return fmt.Sprint(said)
	}
	res, err := c.SetEphemeralSecretPartsAndSign(signer.CosignerSetEphemeralSecretPartsAndSignRequest{EncryptedSecrets: q.parts, HRST: q.k, SignBytes: q.bytes})
	if err != nil {
		return "error"
	}
	if res == nil {
		return " "
	}
	return short(res.EphemeralPublic) + " " + short(res.Signature)
}

func runRemote(s RScript, tr *Tracer, r *mrand.Rand) {
	// a peer that accepts connections only to do something else
	odd, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	defer odd.Close()
	var oddMu sync.Mutex
	oddFate := ""
	go func() {
		for {
			c, err := odd.Accept()
			if err != nil {
				return
			}
			oddMu.Lock()
			f := oddFate
			oddMu.Unlock()
			switch f {
			case "close":
				c.Close()
			case "garbage":
				c.Write([]byte("HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n"))
				defer c.Close()
			default:
				defer c.Close()
			}
		}
	}()
	bare := grpc.NewServer()
	proto.RegisterCosignerGRPCServer(bare, unable{})
	bln, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	go bare.Serve(bln)
	defer bare.Stop()
	// a port nobody listens on, and nobody else gets
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
	must(err)
	defer syscall.Close(fd)
	must(syscall.Bind(fd, &syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}}))
	sa, err := syscall.Getsockname(fd)
	must(err)
	downAddr := fmt.Sprintf("127.0.0.1:%d", sa.(*syscall.SockaddrInet4).Port)

	for _, op := range s.Ops {
		if noAnswer.Load() { // enough is known
			return
		}
		runAsk(op, tr, r, downAddr, odd.Addr().String(), bln.Addr().String(), func(f string) {
			oddMu.Lock()
			oddFate = f
			oddMu.Unlock()
		})
	}
}

// noAnswer is set once a caller was not told anything.
var noAnswer atomic.Bool

// runAsk makes a request, or several at once, of a cosigner that is there for this only.
func runAsk(op ROp, tr *Tracer, r *mrand.Rand, downAddr, oddAddr, bareAddr string, setOdd func(string)) {
	rec := &recorder{r: mrand.New(mrand.NewSource(r.Int63())), gave: map[string]string{}, stop: make(chan struct{})}
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	gs := grpc.NewServer()
	proto.RegisterCosignerGRPCServer(gs, rec)
	go gs.Serve(ln)
	defer gs.Stop()
	defer close(rec.stop)
	good := signer.NewRemoteCosigner(3, "tcp://"+ln.Addr().String())
	c := good
	reached := true
	switch op.Fate {
	case "down":
		c, reached = signer.NewRemoteCosigner(3, "tcp://"+downAddr), false
	case "garbage", "close", "silent":
		setOdd(op.Fate)
		c, reached = signer.NewRemoteCosigner(3, "tcp://"+oddAddr), false
	case "gone":
		c, reached = signer.NewRemoteCosigner(3, "tcp://"+bareAddr), false
	}
	rec.mu.Lock()
	rec.fate, rec.came = op.Fate, nil
	rec.mu.Unlock()
	n := 1 + op.With
	qs, sent, got, took := make([]wireReq, n), make([]M, n), make([]string, n), make([]int64, n)
	var wg sync.WaitGroup
	for i := range qs {
		o := op.Op
		if i%2 == 1 {
			o = map[string]string{"get": "sign", "sign": "get"}[o]
		}
		qs[i] = wireValues(r, o, op.Val+i)
		sent[i] = qs[i].J(o)
		wg.Add(1)
		go func(i int, o string) {
			defer wg.Done()
			t0 := time.Now()
			said := make(chan string, 1)
			go func() {
				v := "panic"
				guard(func() { v = callRemote(c, o, qs[i]) })
				said <- v
			}()
			select {
			case got[i] = <-said:
			case <-time.After(25 * time.Second):
				got[i] = "nothing"
				noAnswer.Store(true)
			}
			took[i] = time.Since(t0).Milliseconds()
		}(i, o)
	}
	wg.Wait()
	rec.mu.Lock()
	byReq := map[string][]M{}
	for _, m := range rec.came {
		byReq[reqKey(m)] = append(byReq[reqKey(m)], m)
	}
	for i := range qs {
		k := reqKey(sent[i])
		came := byReq[k]
		if n == 1 { // whatever came is what this request became
			came = rec.came
		}
		if came == nil {
			came = []M{}
		}
		gave := "none"
		if len(came) > 0 {
			if g, ok := rec.gave[reqKey(came[len(came)-1])]; ok {
				gave = g
			}
		}
		tr.Emit(M{"e": "ask", "fate": op.Fate, "reached": reached, "sent": sent[i], "came": came, "gave": gave, "got": got[i], "ms": took[i],
			"who": fmt.Sprint(c.GetID(), " ", c.GetAddress() != "")})
	}
	rec.mu.Unlock()
}

// ---------------------------------------------------------------- the whole way to a real cosigner

// serve gives a cosigner its network interface, as a process of its own has it.
func serve(local *signer.LocalCosigner, id int, dir string) *signer.RemoteCosigner {
	must(os.MkdirAll(dir, 0o700))
	addr := fmt.Sprintf("tcp://127.0.0.1:%d", freePort())
	st := signer.NewRaftStore(fmt.Sprint(id), dir, addr, time.Second, tmlog.NewNopLogger(), local, nil)
	must(st.Start())
	for i := 0; ; i++ {
		c, err := net.Dial("tcp", addr[6:])
		if err == nil {
			c.Close()
			break
		}
		if i > 3000 {
			must(err)
		}
		time.Sleep(10 * time.Millisecond)
	}
	return signer.NewRemoteCosigner(id, addr)
}

// both is a cosigner that is asked sometimes directly and sometimes over the network.
type both struct {
	local  signer.Cosigner
	remote signer.Cosigner
	e      *CosEngine
	id     int
	mu     sync.Mutex
	r      *mrand.Rand
}

func (b *both) dice(n int) int { b.mu.Lock(); defer b.mu.Unlock(); return b.r.Intn(n) }

func (b *both) GetID() int         { return b.local.GetID() }
func (b *both) GetAddress() string { return b.local.GetAddress() }

func partsSaid(res *signer.CosignerEphemeralSecretPartsResponse, err error) string {
	if err != nil {
		return "error"
	}
	out := []string{}
	if res != nil {
		for _, p := range res.EncryptedSecrets {
			out = append(out, fmt.Sprintf("%d>%d %s %d %d", p.SourceID, p.DestinationID, short(p.SourceEphemeralSecretPublicKey), len(p.EncryptedSharePart), len(p.SourceSig)))
		}
	}
	sort.Strings(out)
	return fmt.Sprint(out)
}

func (b *both) GetEphemeralSecretParts(k signer.HRSTKey) (*signer.CosignerEphemeralSecretPartsResponse, error) {
	x := b.dice(4)
	if b.e.busy && x == 1 {
		x = 2
	}
	switch x {
	case 0:
		return b.local.GetEphemeralSecretParts(k)
	case 1: // asked both ways, the same is said
		r1, err1 := b.remote.GetEphemeralSecretParts(k)
		r2, err2 := b.local.GetEphemeralSecretParts(k)
		x, y := partsSaid(r1, err1), partsSaid(r2, err2)
		b.e.tr.Emit(M{"e": "pair", "c": b.id, "remote": x, "direct": y})
		return r1, err1
	}
	return b.remote.GetEphemeralSecretParts(k)
}

func (b *both) SetEphemeralSecretPartsAndSign(q signer.CosignerSetEphemeralSecretPartsAndSignRequest) (*signer.CosignerSignResponse, error) {
	if b.dice(5) == 0 {
		return b.local.SetEphemeralSecretPartsAndSign(q)
	}
	return b.remote.SetEphemeralSecretPartsAndSign(q)
}

func (e *CosEngine) behindNetwork(n *cosNode) {
	e.boots++
	e.mu.Lock()
	defer e.mu.Unlock()
	n.c = &both{local: n.local, remote: serve(n.local, n.id, filepath.Join(e.dir, fmt.Sprintf("raft%d-%d", n.id, e.boots))), e: e, id: n.id,
		r: mrand.New(mrand.NewSource(int64(e.boots*100 + n.id)))}
}

// runPairs asks a real cosigner things with large values both ways; what it says has to be the same.
func runPairs(tr *Tracer, r *mrand.Rand) {
	dir := scratch("pairs")
	defer os.RemoveAll(dir)
	keys := NewKeys(2, 2)
	cs := []*signer.LocalCosigner{}
	for id := 1; id <= 2; id++ {
		ss, err := signer.LoadOrCreateSignState(filepath.Join(dir, fmt.Sprintf("s%d.json", id)))
		must(err)
		cs = append(cs, keys.NewCosigner(id, &ss, ""))
	}
	var ways [2]signer.Cosigner
	ways[0], ways[1] = serve(cs[0], 1, filepath.Join(dir, "raft")), cs[0]
	hs := []int64{1, 7, 255, 256, math.MaxInt32, math.MaxInt32 + 1, 1 << 33, 1<<33 + 1, 1 << 53, math.MaxInt64 - 1}
	for _, h := range hs {
		for _, round := range []int64{0, int64(r.Intn(1000)), math.MaxInt32} {
			p := randPayload(r, h)
			p.R, p.T = round, r.Int63n(100000000)
			flip := r.Intn(2)
			emit := func(op string, said [2]string) {
				if flip == 1 {
					said[0], said[1] = said[1], said[0]
				}
				tr.Emit(M{"e": "pair", "c": 1, "op": op, "at": fmt.Sprint(h, "/", round, "/", p.S), "remote": said[0], "direct": said[1]})
			}
			var said [2]string
			if r.Intn(2) == 0 {
				for j := 0; j < 2; j++ {
					guard(func() { said[j] = partsSaid(ways[j^flip].GetEphemeralSecretParts(p.Key())) })
				}
				emit("get", said)
			}
			// keys that are next to each other are not the same
			if r.Intn(3) == 0 {
				k := p.Key()
				for j := 0; j < 2; j++ {
					q := k
					if j^flip == 1 {
						q.Timestamp++
					}
					guard(func() { said[j] = partsSaid(ways[0].GetEphemeralSecretParts(q)) })
				}
				tr.Emit(M{"e": "apart", "c": 1, "one": said[0], "other": said[1]})
			}
			parts := []signer.CosignerEphemeralSecretPart{}
			res, err := cs[1].GetEphemeralSecretParts(p.Key())
			must(err)
			for _, x := range res.EncryptedSecrets {
				if x.DestinationID == 1 {
					parts = append(parts, x)
				}
			}
			q := signer.CosignerSetEphemeralSecretPartsAndSignRequest{EncryptedSecrets: parts, HRST: p.Key(), SignBytes: p.SignBytes()}
			switch r.Intn(8) { // refused both ways
			case 0:
				q.EncryptedSecrets[0].SourceSig = nil
			case 1:
				q.SignBytes = append([]byte{}, q.SignBytes[:len(q.SignBytes)/2]...)
			case 2:
				q.EncryptedSecrets[0].SourceID = 1 << 20
			}
			for j := 0; j < 2; j++ {
				guard(func() {
					res, err := ways[j^flip].SetEphemeralSecretPartsAndSign(q)
					said[j] = "error"
					if err == nil {
						said[j] = short(res.EphemeralPublic) + " " + short(res.Signature)
					}
				})
			}
			emit("sign", said)
		}
	}
}

func remoteMain(c cosConf) {
	tr := NewTracer(c.Out)
	defer tr.Close()
	start := time.Now()
	scripts := []RScript{}
	readLines(c.Scripts, func(b []byte) {
		var s RScript
		must(json.Unmarshal(b, &s))
		scripts = append(scripts, s)
	})
	fates := []string{"ok", "ok", "ok", "ok", "refuse", "refuse", "hang", "late", "down", "garbage", "close", "silent", "gone"}
	for i := 0; i < c.Count; i++ {
		r := rng(c.Seed, int64(i)+7777)
		s := RScript{}
		slow := 0
		for len(s.Ops) < c.Length {
			o := ROp{Op: []string{"get", "sign"}[r.Intn(2)], Fate: fates[r.Intn(len(fates))], Val: r.Intn(60)}
			if o.Fate == "hang" || o.Fate == "late" || o.Fate == "silent" {
				if slow++; slow > 2 {
					continue
				}
			}
			if r.Intn(4) == 0 {
				o.With = 1 + r.Intn(6)
			}
			s.Ops = append(s.Ops, o)
		}
		scripts = append(scripts, s)
	}
	ran := parallel(tr, c.Workers, len(scripts), func() bool { return time.Since(start).Seconds() > c.Budget || noAnswer.Load() }, func(i int, t *Tracer) {
		t.Emit(M{"e": "reset"})
		if c.Focus == "pairs" {
			runPairs(t, rng(c.Seed, int64(i)))
			return
		}
		runRemote(scripts[i], t, rng(c.Seed, int64(i)))
	})
	fmt.Printf("{\"scripts\":%d,\"events\":%d}\n", ran, tr.n)
}

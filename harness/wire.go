package main

// A signer's process on the network of the cosigners: malformed requests to it, malformed answers to what it asks.

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	mrand "math/rand"
	"net"
	"os"
	"path/filepath"
	"sync"
	"time"

	"github.com/strangelove-ventures/horcrux/signer"
	proto "github.com/strangelove-ventures/horcrux/signer/proto"
	tmlog "github.com/tendermint/tendermint/libs/log"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials/insecure"
	pb "google.golang.org/protobuf/proto"
)

type WOp struct {
	Op   string `json:"op"` // msg, own, good
	What string `json:"what"`
	How  string `json:"how"`
}

type WScript struct {
	Ops []WOp `json:"ops"`
}

// raw bytes on the wire
type rawCodec struct{}

func (rawCodec) Marshal(v interface{}) ([]byte, error) { return *(v.(*[]byte)), nil }
func (rawCodec) Unmarshal(b []byte, v interface{}) error {
	*(v.(*[]byte)) = append([]byte{}, b...)
	return nil
}
func (rawCodec) Name() string       { return "proto" }
func wireBytes(m pb.Message) []byte { b, err := pb.Marshal(m); must(err); return b }

const wireService = "/proto.CosignerGRPC/"

var wireMethods = map[string]string{"sign": "SignBlock", "share": "SetEphemeralSecretPartsAndSign", "get": "GetEphemeralSecretParts",
	"transfer": "TransferLeadership", "unknown": "Explode"}

type wireWorld struct {
	tr     *Tracer
	r      *mrand.Rand
	keys   *Keys
	dir    string
	other  *signer.LocalCosigner
	conn   *grpc.ClientConn
	next   int64
	shaken bool // leadership may have been given away

	mu        sync.Mutex
	what, how string // how the other cosigner's answers are malformed
}

func (w *wireWorld) rnd(n int) int { w.mu.Lock(); defer w.mu.Unlock(); return w.r.Intn(n) }

func (w *wireWorld) junk() []byte {
	switch w.rnd(4) {
	case 0: // an unknown wire type
		return []byte{0x0f, 0xff, 0xff, 0xff}
	case 1: // a field that is longer than the message
		return []byte{0x0a, 0xff, 0xff, 0xff, 0xff, 0x0f, 1, 2, 3}
	case 2: // a number that does not end
		return []byte{0x08, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}
	}
	b := make([]byte, 200)
	for i := range b {
		b[i] = 0xff
	}
	return b
}

func (w *wireWorld) bytes(n int) []byte {
	w.mu.Lock()
	defer w.mu.Unlock()
	b := make([]byte, n)
	w.r.Read(b)
	return b
}

// a part that is nothing
func (w *wireWorld) badPart(ids bool) *proto.EphemeralSecretPart {
	some := []int32{0, -1, 1, 2, 3, math.MaxInt32, math.MinInt32, 255, 256}
	n := []int{0, 1, 31, 32, 33, 255, 256, 257, 5000}
	p := &proto.EphemeralSecretPart{SourceID: 2, DestinationID: 1, SourceEphemeralSecretPublicKey: w.bytes(n[w.rnd(len(n))]),
		EncryptedSharePart: w.bytes(n[w.rnd(len(n))]), SourceSig: w.bytes(n[w.rnd(len(n))])}
	if !ids {
		p.SourceID, p.DestinationID = some[w.rnd(len(some))], some[w.rnd(len(some))]
	}
	return p
}

// the other cosigner's side
func (w *wireWorld) handler(_ interface{}, st grpc.ServerStream) error {
	method, _ := grpc.MethodFromServerStream(st)
	var in []byte
	if err := st.RecvMsg(&in); err != nil {
		return err
	}
	w.mu.Lock()
	what, how := w.what, w.how
	w.mu.Unlock()
	say := func(m pb.Message) error { b := wireBytes(m); return st.SendMsg(&b) }
	if how == "junk" && method == wireService+wireMethods[what] {
		b := w.junk()
		return st.SendMsg(&b)
	}
	switch method {
	case wireService + "GetEphemeralSecretParts":
		var q proto.CosignerGRPCGetEphemeralSecretPartsRequest
		must(pb.Unmarshal(in, &q))
		res, err := w.other.GetEphemeralSecretParts(signer.HRSTKeyFromProto(q.GetHrst()))
		if err != nil {
			return err
		}
		out := &proto.CosignerGRPCGetEphemeralSecretPartsResponse{}
		for _, p := range res.EncryptedSecrets {
			out.EncryptedSecrets = append(out.EncryptedSecrets, &proto.EphemeralSecretPart{SourceID: int32(p.SourceID), DestinationID: int32(p.DestinationID),
				SourceEphemeralSecretPublicKey: p.SourceEphemeralSecretPublicKey, EncryptedSharePart: p.EncryptedSharePart, SourceSig: p.SourceSig})
		}
		if what == "get" {
			switch how {
			case "nothing":
				out = &proto.CosignerGRPCGetEphemeralSecretPartsResponse{}
			case "emptypart":
				out.EncryptedSecrets = []*proto.EphemeralSecretPart{{}}
			case "badpart":
				out.EncryptedSecrets = []*proto.EphemeralSecretPart{w.badPart(true)}
			case "noids":
				for _, p := range out.EncryptedSecrets {
					x := w.badPart(false)
					p.SourceID, p.DestinationID = x.SourceID, x.DestinationID
				}
			case "manyparts":
				for i := 0; i < 300; i++ {
					out.EncryptedSecrets = append(out.EncryptedSecrets, w.badPart(i%2 == 0))
				}
			}
		}
		return say(out)
	case wireService + "SetEphemeralSecretPartsAndSign":
		var q proto.CosignerGRPCSetEphemeralSecretPartsAndSignRequest
		must(pb.Unmarshal(in, &q))
		out := &proto.CosignerGRPCSetEphemeralSecretPartsAndSignResponse{}
		parts := []signer.CosignerEphemeralSecretPart{}
		for _, p := range q.GetEncryptedSecrets() {
			parts = append(parts, signer.CosignerEphemeralSecretPart{SourceID: int(p.GetSourceID()), DestinationID: int(p.GetDestinationID()),
				SourceEphemeralSecretPublicKey: p.GetSourceEphemeralSecretPublicKey(), EncryptedSharePart: p.GetEncryptedSharePart(), SourceSig: p.GetSourceSig()})
		}
		res, err := w.other.SetEphemeralSecretPartsAndSign(signer.CosignerSetEphemeralSecretPartsAndSignRequest{EncryptedSecrets: parts,
			HRST: signer.HRSTKeyFromProto(q.GetHrst()), SignBytes: q.GetSignBytes()})
		if err == nil {
			out.EphemeralPublic, out.Signature, out.Timestamp = res.EphemeralPublic, res.Signature, res.Timestamp.UnixNano()
		} else if what != "share" {
			return err
		}
		if what == "share" {
			switch how {
			case "nothing":
				out = &proto.CosignerGRPCSetEphemeralSecretPartsAndSignResponse{}
			case "nosig":
				out.Signature = nil
			case "shortsig":
				out.Signature = w.bytes(1 + w.rnd(31))
			case "longsig":
				out.Signature = w.bytes([]int{33, 64, 65, 1000}[w.rnd(4)])
			case "badsig":
				out.Signature = w.bytes(32)
				if w.rnd(2) == 0 {
					out.Signature = make([]byte, 32)
				}
			case "badpublic":
				out.EphemeralPublic = w.bytes([]int{0, 1, 31, 32, 64}[w.rnd(5)])
			}
		}
		return say(out)
	}
	return errors.New("no such thing")
}

func (w *wireWorld) fresh() Payload {
	w.next++
	return Payload{H: w.next, R: int64(w.rnd(2)), S: 1 + w.rnd(3), Block: "A", T: w.next}
}

// something nobody has asked for, and that lies ahead of all that will be asked
func (w *wireWorld) far() Payload {
	p := w.fresh()
	p.H += 1000000 + int64(w.rnd(1000))
	return p
}

func (w *wireWorld) signMsg(p Payload) *proto.CosignerGRPCSignBlockRequest {
	k := p.Key()
	return &proto.CosignerGRPCSignBlockRequest{ChainID: chainID,
		Block: &proto.Block{Height: k.Height, Round: k.Round, Step: int32(k.Step), SignBytes: p.SignBytes(), Timestamp: k.Timestamp}}
}

func (w *wireWorld) request(what, how string) []byte {
	p := w.far()
	k := p.Key()
	if how == "junk" {
		return w.junk()
	}
	if how == "nothing" {
		return nil
	}
	bad := func() []byte { return malformed(p, malformedKinds[1+w.rnd(len(malformedKinds)-1)]) }
	switch what {
	case "sign":
		q := w.signMsg(p)
		b := q.Block
		switch how {
		case "noblock":
			q.Block = nil
		case "nobytes":
			b.SignBytes = nil
		case "badbytes":
			b.SignBytes = bad()
		case "height":
			b.Height += []int64{-1, 1, 1 << 40, -b.Height, -2 * b.Height, math.MaxInt64 - b.Height}[w.rnd(6)]
		case "round":
			b.Round += []int64{1, 7, -100, 1 << 40, math.MaxInt64 - b.Round}[w.rnd(5)]
		case "step":
			b.Step = []int32{0, 4, -1, 77, b.Step%3 + 1}[w.rnd(5)]
		case "time":
			b.Timestamp += []int64{1, -1, 1 << 50, -b.Timestamp}[w.rnd(4)]
		case "zero":
			q.Block = &proto.Block{SignBytes: b.SignBytes}
		}
		return wireBytes(q)
	case "share":
		q := &proto.CosignerGRPCSetEphemeralSecretPartsAndSignRequest{
			Hrst: &proto.HRST{Height: k.Height, Round: k.Round, Step: int32(k.Step), Timestamp: k.Timestamp}, SignBytes: p.SignBytes()}
		for _, x := range w.partsFor(p) {
			q.EncryptedSecrets = append(q.EncryptedSecrets, x)
		}
		switch how {
		case "nohrst":
			q.Hrst, q.EncryptedSecrets = nil, nil
		case "nobytes":
			q.SignBytes = nil
		case "badbytes":
			q.SignBytes = bad()
		case "emptypart":
			q.EncryptedSecrets = []*proto.EphemeralSecretPart{{}}
		case "badpart":
			q.EncryptedSecrets = []*proto.EphemeralSecretPart{w.badPart(w.rnd(2) == 0)}
		case "manyparts":
			for i := 0; i < 300; i++ {
				q.EncryptedSecrets = append(q.EncryptedSecrets, w.badPart(i%2 == 0))
			}
		}
		return wireBytes(q)
	case "get":
		odd := []*proto.HRST{{Height: -1}, {Height: math.MaxInt64, Round: math.MaxInt64, Step: math.MaxInt32, Timestamp: math.MinInt64}, {Step: 300},
			{Height: math.MinInt64, Round: -5, Step: -5}, {}}
		return wireBytes(&proto.CosignerGRPCGetEphemeralSecretPartsRequest{Hrst: odd[w.rnd(len(odd))]})
	case "transfer":
		odd := []string{"99", "-1", "1.5", "nobody", "0", string(make([]byte, 3000)), "1 ", "2"}
		return wireBytes(&proto.CosignerGRPCTransferLeadershipRequest{LeaderID: odd[w.rnd(len(odd))]})
	}
	return wireBytes(w.signMsg(p))
}

// what the other cosigner gives for a block
func (w *wireWorld) partsFor(p Payload) []*proto.EphemeralSecretPart {
	res, err := w.other.GetEphemeralSecretParts(p.Key())
	must(err)
	out := []*proto.EphemeralSecretPart{}
	for _, x := range res.EncryptedSecrets {
		if x.DestinationID == 1 {
			out = append(out, &proto.EphemeralSecretPart{SourceID: int32(x.SourceID), DestinationID: int32(x.DestinationID),
				SourceEphemeralSecretPublicKey: x.SourceEphemeralSecretPublicKey, EncryptedSharePart: x.EncryptedSharePart, SourceSig: x.SourceSig})
		}
	}
	return out
}

func (w *wireWorld) marks() string {
	out := ""
	for _, f := range []string{"share.json", "priv.json"} {
		o := readState(filepath.Join(w.dir, f))
		out += fmt.Sprint(o.Err, " ", o.H, " ", o.R, " ", o.S, "; ")
	}
	return out
}

func (w *wireWorld) call(what string, b []byte) ([]byte, error) {
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	var out []byte
	err := w.conn.Invoke(ctx, wireService+wireMethods[what], &b, &out, grpc.ForceCodec(rawCodec{}))
	return out, err
}

// ask has a fresh block signed.
func (w *wireWorld) ask(p Payload) (string, bool) {
	b, err := w.call("sign", wireBytes(w.signMsg(p)))
	if err != nil {
		return "err", false
	}
	var res proto.CosignerGRPCSignBlockResponse
	if pb.Unmarshal(b, &res) != nil {
		return "err", false
	}
	return "ok", w.keys.Pub.VerifySignature(p.SignBytes(), res.Signature)
}

func (w *wireWorld) step(op WOp) {
	switch op.Op {
	case "msg":
		before := w.marks()
		_, err := w.call(op.What, w.request(op.What, op.How))
		out := "ok"
		if err != nil {
			out = "err"
		}
		w.shaken = w.shaken || op.What == "transfer"
		w.tr.Emit(M{"e": "msg", "what": op.What, "how": op.How, "out": out, "moved": w.marks() != before})
	case "own":
		w.mu.Lock()
		w.what, w.how = op.What, op.How
		w.mu.Unlock()
		out, valid := w.ask(w.fresh())
		w.mu.Lock()
		w.what, w.how = "", ""
		w.mu.Unlock()
		w.tr.Emit(M{"e": "own", "what": op.What, "how": op.How, "out": out, "valid": valid})
	case "good":
		out, valid := w.ask(w.fresh())
		for t := time.Now(); w.shaken && out != "ok" && time.Since(t) < 20*time.Second; {
			time.Sleep(100 * time.Millisecond)
			out, valid = w.ask(w.fresh())
		}
		w.shaken = false
		w.tr.Emit(M{"e": "good", "out": out, "valid": valid})
	}
}

func runWire(s WScript, keys *Keys, tr *Tracer, r *mrand.Rand) {
	dir := scratch("wire")
	defer os.RemoveAll(dir)
	w := &wireWorld{tr: tr, r: r, keys: keys, dir: dir}
	state := func(f string) *signer.SignState {
		ss, err := signer.LoadOrCreateSignState(filepath.Join(dir, f))
		must(err)
		return &ss
	}
	w.other = keys.NewCosigner(2, state("other.json"), "")
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	gs := grpc.NewServer(grpc.ForceServerCodec(rawCodec{}), grpc.UnknownServiceHandler(w.handler))
	go gs.Serve(ln)
	defer gs.Stop()

	local := keys.NewCosigner(1, state("share.json"), "")
	port := freePort()
	addr := fmt.Sprintf("tcp://127.0.0.1:%d", port)
	raftDir := filepath.Join(dir, "raft")
	must(os.MkdirAll(raftDir, 0o700))
	st := signer.NewRaftStore("1", raftDir, addr, time.Second, tmlog.NewNopLogger(), local, nil)
	val := signer.NewThresholdValidator(&signer.ThresholdValidatorOpt{Pubkey: keys.Pub, Threshold: 2, SignState: *state("priv.json"), Cosigner: local,
		Peers: []signer.Cosigner{signer.NewRemoteCosigner(2, "tcp://"+ln.Addr().String())}, RaftStore: st, Logger: tmlog.NewNopLogger()})
	st.SetThresholdValidator(val)
	must(st.Start())
	w.conn, err = grpc.Dial(fmt.Sprintf("127.0.0.1:%d", port), grpc.WithTransportCredentials(insecure.NewCredentials()))
	must(err)
	defer w.conn.Close()
	for i := 0; ; i++ {
		if out, _ := w.ask(w.fresh()); out == "ok" {
			break
		}
		if i > 600 {
			panic("HARNESS: the signer does not start")
		}
		time.Sleep(100 * time.Millisecond)
	}
	w.tr.Emit(M{"e": "reset"})
	for _, op := range s.Ops {
		w.step(op)
	}
}

func wireMain(c cosConf) {
	tr := NewTracer(c.Out)
	defer tr.Close()
	start := time.Now()
	keys := NewKeys(2, 2)
	scripts := []WScript{}
	readLines(c.Scripts, func(b []byte) {
		var s WScript
		must(json.Unmarshal(b, &s))
		scripts = append(scripts, s)
	})
	ran := parallel(tr, c.Workers, len(scripts), func() bool { return time.Since(start).Seconds() > c.Budget }, func(i int, t *Tracer) {
		runWire(scripts[i], keys, t, rng(c.Seed, int64(i)))
	})
	fmt.Printf("{\"scripts\":%d,\"events\":%d}\n", ran, tr.n)
}

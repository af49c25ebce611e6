package main

// A member of a cluster as a process of its own: what `horcrux cosigner start` sets up, with its store and its calls to cosigners open to the harness.
// Requests come as JSON lines on the standard input, answers go to the standard output.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sync"
	"time"

	"github.com/strangelove-ventures/horcrux/signer"
	tmlog "github.com/tendermint/tendermint/libs/log"
)

type nodeConf struct {
	Home  string   `json:"home"`
	ID    int      `json:"id"`
	T     int      `json:"t"`
	Addrs []string `json:"addrs"` // of members 1, 2, ...
}

type nodeAsk struct {
	ID  int      `json:"id"`
	Op  string   `json:"op"`
	K   string   `json:"k"`
	V   string   `json:"v"`
	N   int      `json:"n"`
	P   *Payload `json:"p"`
	Key []string `json:"keys"`
}

type nodeSaid struct {
	ID   int               `json:"id"`
	Err  string            `json:"err"`
	V    string            `json:"v"`
	Vals map[string]string `json:"vals"`
	Sig  []byte            `json:"sig"`
	T    int64             `json:"t"` // the timestamp returned
	Rnd  int               `json:"rnd"`
	Oks  int               `json:"oks"`
}

// rounds counts the signing rounds this member begins, by the calls it makes.
type rounds struct {
	signer.Cosigner
	mu *sync.Mutex
	n  *int
}

func (c rounds) GetEphemeralSecretParts(k signer.HRSTKey) (*signer.CosignerEphemeralSecretPartsResponse, error) {
	c.mu.Lock()
	*c.n++
	c.mu.Unlock()
	return c.Cosigner.GetEphemeralSecretParts(k)
}

func (c rounds) SetEphemeralSecretPartsAndSign(q signer.CosignerSetEphemeralSecretPartsAndSignRequest) (*signer.CosignerSignResponse, error) {
	c.mu.Lock()
	*c.n++
	c.mu.Unlock()
	return c.Cosigner.SetEphemeralSecretPartsAndSign(q)
}

func nodeMain(path string) {
	b, err := os.ReadFile(path)
	must(err)
	var c nodeConf
	must(json.Unmarshal(b, &c))
	key, err := signer.LoadCosignerKey(filepath.Join(c.Home, "share.json"))
	must(err)
	st := filepath.Join(c.Home, "state")
	pvState, err := signer.LoadOrCreateSignState(filepath.Join(st, chainID+"_priv_validator_state.json"))
	must(err)
	shareState, err := signer.LoadSignState(filepath.Join(st, chainID+"_share_sign_state.json"))
	must(err)
	var mu sync.Mutex
	calls := 0
	remotes, wrapped := []signer.Cosigner{}, []signer.Cosigner{}
	peers := []signer.CosignerPeer{{ID: key.ID, PublicKey: key.RSAKey.PublicKey}}
	for k := 1; k < len(c.Addrs); k++ {
		i := (c.ID - 1 + k) % len(c.Addrs) // the order in a configuration does not matter
		a := c.Addrs[i]
		r := signer.NewRemoteCosigner(i+1, a)
		remotes = append(remotes, r)
		wrapped = append(wrapped, rounds{r, &mu, &calls})
		peers = append(peers, signer.CosignerPeer{ID: i + 1, PublicKey: *key.CosignerKeys[i]})
	}
	local := signer.NewLocalCosigner(signer.LocalCosignerConfig{CosignerKey: key, SignState: &shareState, RsaKey: key.RSAKey, Address: c.Addrs[c.ID-1],
		Peers: peers, Total: uint8(len(c.Addrs)), Threshold: uint8(c.T)})
	raftDir := filepath.Join(c.Home, "raft")
	must(os.MkdirAll(raftDir, 0o700))
	logger := tmlog.NewNopLogger()
	store := signer.NewRaftStore(fmt.Sprint(key.ID), raftDir, c.Addrs[c.ID-1], 10*time.Second, logger, local, remotes)
	val := signer.NewThresholdValidator(&signer.ThresholdValidatorOpt{Pubkey: key.PubKey, Threshold: c.T, SignState: pvState,
		Cosigner: rounds{local, &mu, &calls}, Peers: wrapped, RaftStore: store, Logger: logger})
	store.SetThresholdValidator(val)
	must(store.Start())

	var outMu sync.Mutex
	out := bufio.NewWriter(os.Stdout)
	reply := func(s nodeSaid) {
		b, err := json.Marshal(s)
		must(err)
		outMu.Lock()
		defer outMu.Unlock()
		out.Write(append(b, '\n'))
		out.Flush()
	}
	note := func(err error) string {
		if err == nil {
			return ""
		}
		return "error: " + err.Error()
	}
	in := bufio.NewScanner(os.Stdin)
	in.Buffer(make([]byte, 1<<16), 1<<24)
	for in.Scan() {
		var q nodeAsk
		must(json.Unmarshal(in.Bytes(), &q))
		go func() {
			s := nodeSaid{ID: q.ID}
			defer func() {
				if p := recover(); p != nil {
					s.Err = fmt.Sprint("panic: ", p)
				}
				reply(s)
			}()
			switch q.Op {
			case "set":
				s.Err = note(store.Set(q.K, q.V))
			case "del":
				s.Err = note(store.Delete(q.K))
			case "get":
				v, err := store.Get(q.K)
				s.V, s.Err = v, note(err)
			case "dump":
				s.Vals = map[string]string{}
				for _, k := range q.Key {
					s.Vals[k], _ = store.Get(k)
				}
			case "bulk":
				// each key gets N values, one after the other
				var wg sync.WaitGroup
				var bm sync.Mutex
				for _, k := range q.Key {
					wg.Add(1)
					go func(k string) {
						defer wg.Done()
						for i := 1; i <= q.N; i++ {
							v := fmt.Sprint(q.V, "-", i)
							if i == q.N {
								v = q.V
							}
							write := func() error { return store.Set(k, v) }
							if q.V == "" {
								write = func() error { return store.Delete(k) }
							}
							if err := write(); err != nil {
								bm.Lock()
								s.Err = note(err)
								bm.Unlock()
								return
							}
							bm.Lock()
							s.Oks++
							bm.Unlock()
						}
					}(k)
				}
				wg.Wait()
			case "rounds":
				mu.Lock()
				s.Rnd = calls
				mu.Unlock()
			case "sign":
				p := *q.P
				var sig []byte
				var ts time.Time
				var err error
				if p.S == stepPropose {
					v := p.Proposal()
					err = val.SignProposal(p.chain(), v)
					sig, ts = v.Signature, v.Timestamp
				} else {
					v := p.Vote()
					err = val.SignVote(p.chain(), v)
					sig, ts = v.Signature, v.Timestamp
				}
				s.Err, s.Sig, s.T = note(err), sig, ts.UnixNano()
			default:
				s.Err = "HARNESS: unknown " + q.Op
			}
		}()
	}
}

package main

// Starting signers on home directories that lack something.

import (
	"bytes"
	"encoding/json"
	"fmt"
	mrand "math/rand"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync/atomic"
	"time"

	"github.com/strangelove-ventures/horcrux/signer"
	tmCryptoEd25519 "github.com/tendermint/tendermint/crypto/ed25519"
)

type BOp struct {
	Op   string `json:"op"`   // set, start
	What string `json:"what"` // cfg, key, share, pv
	How  string `json:"how"`
}

type BScript struct {
	Mode string `json:"mode"` // cosigner, single
	How  string `json:"how"`  // flag, home
	Ops  []BOp  `json:"ops"`
}

var (
	cfgBad   = []string{"garbage", "tabs", "nochain", "nocosigner", "dup", "zeropeer", "highpeer", "manypeers", "threshold", "timeout", "badnode", "otherkeys", "list"}
	cfgBad1  = []string{"garbage", "tabs", "nochain", "nonodes", "badnode", "list"}
	keyBad   = []string{"half", "empty", "text", "norsa", "badrsa", "badpub", "badpubs", "dir", "idtype", "trailing", "null"}
	keyBad1  = []string{"half", "empty", "text", "dir"}
	shareBad = []string{"half", "empty", "text", "dir", "types", "array", "noheight", "binary", "trailing"}
)

type bootWorld struct {
	mode      string
	dir, home string
	env       []string
	flags     []string
	ln        net.Listener
	dials     int32
	addr      string
	p2p       string
	key       []byte
	tr        *Tracer
	fate      map[string]string
	p         *proc
}

func (w *bootWorld) path(what string) string {
	switch what {
	case "cfg":
		return filepath.Join(w.home, "config.yaml")
	case "key":
		if w.mode == "single" {
			return filepath.Join(w.home, "priv_validator_key.json")
		}
		return filepath.Join(w.home, "share.json")
	case "share":
		return filepath.Join(w.home, "state", chainID+"_share_sign_state.json")
	default:
		return filepath.Join(w.home, "state", chainID+"_priv_validator_state.json")
	}
}

func (w *bootWorld) config(how string) []byte {
	chain, thr, shares, timeout, node := chainID, 2, 3, "1000ms", w.addr
	peers := []string{"2", "3"}
	nodes, cos := true, w.mode == "cosigner"
	switch how {
	case "garbage":
		return []byte("chain-id: [unclosed\n  - {{{\n")
	case "tabs":
		return []byte("\t\tchain-id:\tx\n\t: y\n")
	case "list":
		return []byte("- chain-id\n- cosigner\n")
	case "nochain":
		chain = ""
	case "nocosigner":
		cos = false
	case "dup":
		peers = []string{"2", "2"}
	case "zeropeer":
		peers = []string{"0", "3"}
	case "highpeer":
		peers = []string{"2", "4"}
	case "manypeers":
		peers, shares = []string{"2", "3"}, 2
		peers[1] = "1"
	case "threshold":
		thr = 4
	case "timeout":
		timeout = "soon"
	case "badnode":
		node = "://" + w.ln.Addr().String()
	case "otherkeys": // more shares than the key knows
		peers, shares = []string{"2", "5"}, 5
	case "nonodes":
		nodes = false
	}
	b := &bytes.Buffer{}
	fmt.Fprintf(b, "home-dir: %s\nchain-id: %q\n", w.home, chain)
	if cos {
		fmt.Fprintf(b, "cosigner:\n  threshold: %d\n  shares: %d\n  p2p-listen: %s\n  peers:\n", thr, shares, w.p2p)
		for i, p := range peers {
			fmt.Fprintf(b, "  - share-id: %s\n    p2p-addr: tcp://127.0.0.9:%d\n", p, i+1)
		}
		fmt.Fprintf(b, "  rpc-timeout: %s\n", timeout)
	}
	if nodes {
		fmt.Fprintf(b, "chain-nodes:\n- priv-val-addr: %s\n", node)
		if how == "badnode" { // a good one beside it
			fmt.Fprintf(b, "- priv-val-addr: %s\n", w.addr)
		}
	}
	return b.Bytes()
}

func jsonEdit(b []byte, f func(m map[string]json.RawMessage)) []byte {
	m := map[string]json.RawMessage{}
	must(json.Unmarshal(b, &m))
	f(m)
	out, err := json.Marshal(m)
	must(err)
	return out
}

func (w *bootWorld) set(what, how string) {
	f := w.path(what)
	must(os.RemoveAll(f))
	fate := "bad"
	var good []byte
	switch what {
	case "cfg":
		good = w.config(how)
	case "key":
		good = w.key
	default:
		good = stateJSON("cos", 7, 1, 2, nil, nil)
	}
	switch how {
	case "ok":
		fate = "ok"
		writeFile(f, good)
	case "missing":
		fate = "missing"
	case "nostatedir":
		fate = "missing"
		must(os.RemoveAll(filepath.Dir(f)))
		w.fate["pv"] = "missing"
	case "half":
		writeFile(f, good[:len(good)/2])
	case "empty":
		writeFile(f, nil)
	case "text":
		writeFile(f, []byte("not what belongs here\n"))
	case "binary":
		writeFile(f, []byte{0, 1, 2, 0xff, '{', '}', 0})
	case "array":
		writeFile(f, []byte("[1,2,3]"))
	case "types":
		writeFile(f, []byte(`{"height":{},"round":"0","step":0}`))
	case "noheight":
		writeFile(f, []byte(`{"height":"seven","round":"0","step":0}`))
	case "dir":
		must(os.MkdirAll(f, 0o700))
	case "trailing":
		writeFile(f, append(append([]byte{}, good...), []byte("}}")...))
	case "null":
		writeFile(f, []byte("null"))
	case "norsa":
		writeFile(f, jsonEdit(good, func(m map[string]json.RawMessage) { delete(m, "rsa_key") }))
	case "badrsa":
		writeFile(f, jsonEdit(good, func(m map[string]json.RawMessage) { m["rsa_key"] = json.RawMessage(`"AAAAAAAA"`) }))
	case "badpub":
		writeFile(f, jsonEdit(good, func(m map[string]json.RawMessage) { m["pub_key"] = json.RawMessage(`"/////w=="`) }))
	case "badpubs":
		writeFile(f, jsonEdit(good, func(m map[string]json.RawMessage) { m["rsa_pubs"] = json.RawMessage(`["AAAA"]`) }))
	case "idtype":
		writeFile(f, jsonEdit(good, func(m map[string]json.RawMessage) { m["id"] = json.RawMessage(`"one"`) }))
	default:
		if what != "cfg" {
			panic("HARNESS: " + how)
		}
		writeFile(f, good)
	}
	w.fate[what] = fate
	w.tr.Emit(M{"e": "home", "cfg": w.fate["cfg"], "key": w.fate["key"], "share": w.fate["share"], "pv": w.fate["pv"], "what": what, "how": how})
}

// look tells what is at a path.
func look(p string) string {
	st, err := os.Lstat(p)
	if err != nil {
		return "missing"
	}
	if st.IsDir() {
		return "dir"
	}
	b, err := os.ReadFile(p)
	if err != nil {
		return "unreadable"
	}
	return "file:" + string(b)
}

// shares tells of all share states there are.
func (w *bootWorld) shares() string {
	fs, _ := filepath.Glob(filepath.Join(w.home, "state", "*share*"))
	s := ""
	for _, f := range fs {
		s += filepath.Base(f) + "=" + look(f) + ";"
	}
	return s
}

func (w *bootWorld) start() {
	before := w.shares()
	atomic.StoreInt32(&w.dials, 0)
	p := spawn(w.dir, w.env, append([]string{binary(), map[string]string{"single": "signer", "cosigner": "cosigner"}[w.mode], "start"}, w.flags...)...)
	good := w.fate["cfg"] == "ok" && w.fate["key"] == "ok" && (w.mode == "single" || w.fate["share"] == "ok")
	lim := time.Now().Add(map[bool]time.Duration{true: 20 * time.Second, false: 45 * time.Second}[good])
	exited := false
	for time.Now().Before(lim) {
		if p.exited(5 * time.Millisecond) {
			exited = true
			break
		}
		if atomic.LoadInt32(&w.dials) > 0 {
			break
		}
	}
	if exited {
		time.Sleep(10 * time.Millisecond) // a connection just made
	} else {
		time.Sleep(50 * time.Millisecond)
		if p.exited(0) {
			exited = true
		} else {
			p.kill()
		}
	}
	said := p.log.tail(1500)
	if i := strings.Index(said, "goroutine "); i >= 0 {
		said = said[:i]
	}
	if len(said) > 200 {
		said = said[len(said)-200:]
	}
	w.tr.Emit(M{"e": "run", "exited": exited, "zero": exited && p.code == 0, "dialled": atomic.LoadInt32(&w.dials) > 0,
		"same": w.shares() == before, "said": said})
}

func runBoot(s BScript, tr *Tracer) {
	w := &bootWorld{mode: s.Mode, dir: scratch("bt"), tr: tr, fate: map[string]string{}}
	defer os.RemoveAll(w.dir)
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	defer ln.Close()
	w.ln, w.addr = ln, "tcp://"+ln.Addr().String()
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			atomic.AddInt32(&w.dials, 1)
			defer c.Close()
		}
	}()
	w.p2p = fmt.Sprintf("tcp://127.0.0.1:%d", freePort())
	w.home = filepath.Join(w.dir, ".horcrux")
	w.env = []string{"HOME=" + w.dir}
	if s.How == "flag" {
		w.home = filepath.Join(w.dir, "h")
		w.env = []string{"HOME=" + filepath.Join(w.dir, "none")}
		w.flags = []string{"--home", w.home}
	}
	must(os.MkdirAll(filepath.Join(w.home, "state"), 0o700))
	if s.Mode == "single" {
		w.key = pvKeyJSON(tmCryptoEd25519.GenPrivKey())
	} else {
		f := filepath.Join(w.dir, "key")
		must(signer.WriteCosignerShareFile(NewKeys(3, 2).CosignerKey(1), f))
		w.key, err = os.ReadFile(f)
		must(err)
		must(os.Remove(f))
	}
	tr.Emit(M{"e": "reset", "mode": s.Mode})
	what := []string{"cfg", "key", "pv"}
	if s.Mode != "single" {
		what = append(what, "share")
	}
	for _, x := range what {
		w.fate[x] = "missing"
	}
	if s.Mode == "single" {
		w.fate["share"] = "missing"
	}
	for _, op := range s.Ops {
		switch op.Op {
		case "set":
			w.set(op.What, op.How)
		case "start":
			w.start()
		default:
			panic("HARNESS: op " + op.Op)
		}
	}
}

func genBoot(r *mrand.Rand, length int) BScript {
	s := BScript{Mode: []string{"cosigner", "cosigner", "single"}[r.Intn(3)], How: []string{"flag", "home"}[r.Intn(2)]}
	one := s.Mode == "single"
	pick := func(what string) string {
		x := r.Intn(100)
		if x < 50 {
			return "ok"
		}
		bad := map[string][]string{"cfg": cfgBad, "key": keyBad, "share": shareBad, "pv": shareBad}[what]
		if one && what == "cfg" {
			bad = cfgBad1
		}
		if one && what == "key" {
			bad = keyBad1
		}
		if x < 65 {
			if what == "share" && r.Intn(3) == 0 {
				return "nostatedir"
			}
			return "missing"
		}
		return bad[r.Intn(len(bad))]
	}
	what := []string{"cfg", "key", "share", "pv"}
	if one {
		what = []string{"cfg", "key"}
	}
	// everything in place except for one or two
	for _, x := range what {
		s.Ops = append(s.Ops, BOp{"set", x, "ok"})
	}
	for len(s.Ops) < length {
		x := what[r.Intn(len(what))]
		if x == "pv" && r.Intn(3) > 0 {
			x = "share"
		}
		s.Ops = append(s.Ops, BOp{"set", x, pick(x)}, BOp{Op: "start"})
		if r.Intn(3) == 0 {
			s.Ops = append(s.Ops, BOp{Op: "start"})
		}
		if r.Intn(2) == 0 {
			s.Ops = append(s.Ops, BOp{"set", x, "ok"})
		}
	}
	return s
}

func bootMain(c cosConf) {
	tr := NewTracer(c.Out)
	defer tr.Close()
	start := time.Now()
	scripts := []BScript{}
	readLines(c.Scripts, func(b []byte) {
		var s BScript
		must(json.Unmarshal(b, &s))
		scripts = append(scripts, s)
	})
	for i := 0; i < c.Count; i++ {
		scripts = append(scripts, genBoot(rng(c.Seed, int64(i)), c.Length))
	}
	rsaKey(3)
	ran := parallel(tr, c.Workers, len(scripts), func() bool { return time.Since(start).Seconds() > c.Budget }, func(i int, t *Tracer) {
		runBoot(scripts[i], t)
	})
	fmt.Printf("{\"scripts\":%d,\"events\":%d}\n", ran, tr.n)
}

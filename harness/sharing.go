package main

// Sharding a validator key with the real command, and what the shares are good for.

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	mrand "math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/strangelove-ventures/horcrux/signer"
	tmCryptoEd25519 "github.com/tendermint/tendermint/crypto/ed25519"
	tsed25519 "gitlab.com/polychainlabs/threshold-ed25519/pkg"
)

type HScript struct {
	T     string `json:"t"`
	N     string `json:"n"`
	Subs  int    `json:"subs"`  // how many sets of each size to try
	Twice bool   `json:"twice"` // shard the same key again
}

type shareFile struct {
	name string
	raw  []byte
	key  signer.CosignerKey
	err  error
}

func makeShares(dir, keyFile, t, n string) (int, string, []shareFile) {
	must(os.MkdirAll(dir, 0o700))
	code, said := command(dir, []string{"HOME=" + dir}, "create-shares", keyFile, "--", t, n)
	fs, _ := filepath.Glob(filepath.Join(dir, "*share*.json"))
	out := []shareFile{}
	for _, f := range fs {
		s := shareFile{name: filepath.Base(f)}
		s.raw, _ = os.ReadFile(f)
		if p := guard(func() { s.key, s.err = signer.LoadCosignerKey(f) }); p != nil {
			s.err = fmt.Errorf("panic: %v", p)
		}
		out = append(out, s)
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].key.ID < out[j].key.ID })
	return code, said, out
}

// holds tells whether one of the forms of a secret is in the file.
func holds(raw, secret []byte) bool {
	for _, s := range []string{string(secret), hex.EncodeToString(secret), strings.ToUpper(hex.EncodeToString(secret)), base64.StdEncoding.EncodeToString(secret)} {
		if bytes.Contains(raw, []byte(s)) {
			return true
		}
	}
	return false
}

// cosignersSign runs the signing protocol among cosigners made from share files, and combines what they give.
func cosignersSign(fs []shareFile, ids []int, t, n int, pub tmCryptoEd25519.PubKey, p Payload, dir string) bool {
	cs := map[int]*signer.LocalCosigner{}
	k := p.Key()
	for _, id := range ids {
		key := fs[id-1].key
		peers := []signer.CosignerPeer{}
		for i, q := range key.CosignerKeys {
			peers = append(peers, signer.CosignerPeer{ID: i + 1, PublicKey: *q})
		}
		ss, err := signer.LoadOrCreateSignState(filepath.Join(dir, fmt.Sprintf("s%d.json", id)))
		must(err)
		cs[id] = signer.NewLocalCosigner(signer.LocalCosignerConfig{CosignerKey: key, SignState: &ss, RsaKey: key.RSAKey, Peers: peers,
			Total: uint8(n), Threshold: uint8(t)})
		defer os.Remove(filepath.Join(dir, fmt.Sprintf("s%d.json", id)))
	}
	given := map[int][]signer.CosignerEphemeralSecretPart{}
	for _, id := range ids {
		r, err := cs[id].GetEphemeralSecretParts(k)
		if err != nil {
			return false
		}
		for _, part := range r.EncryptedSecrets {
			given[part.DestinationID] = append(given[part.DestinationID], part)
		}
	}
	pts := map[int]*big.Int{}
	var eph []byte
	for _, id := range ids {
		r, err := cs[id].SetEphemeralSecretPartsAndSign(signer.CosignerSetEphemeralSecretPartsAndSignRequest{
			EncryptedSecrets: given[id], HRST: k, SignBytes: p.SignBytes()})
		if err != nil {
			return false
		}
		eph = r.EphemeralPublic
		pts[id] = leToBig(r.Signature)
	}
	s := bigToLe(interpolate(pts, 0))
	return pub.VerifySignature(p.SignBytes(), append(append([]byte{}, eph...), s...))
}

func subsets(n, k int, r *mrand.Rand, limit int) [][]int {
	out, seen := [][]int{}, map[string]bool{}
	if k <= 0 {
		return out
	}
	// the first and the last ones, then random ones
	for try := 0; try < limit*4 && len(out) < limit; try++ {
		ids := r.Perm(n)[:k]
		if try == 0 {
			for i := range ids {
				ids[i] = i
			}
		} else if try == 1 {
			for i := range ids {
				ids[i] = n - k + i
			}
		}
		sort.Ints(ids)
		for i := range ids {
			ids[i]++
		}
		key := fmt.Sprint(ids)
		if !seen[key] {
			seen[key] = true
			out = append(out, ids)
		}
	}
	return out
}

func runSharing(s HScript, tr *Tracer, r *mrand.Rand) {
	dir := scratch("sh")
	defer os.RemoveAll(dir)
	priv := tmCryptoEd25519.GenPrivKey()
	pub := priv.PubKey().(tmCryptoEd25519.PubKey)
	secret := tsed25519.ExpandSecret(priv[:32])
	keyFile := filepath.Join(dir, "priv_validator_key.json")
	writeFile(keyFile, pvKeyJSON(priv))
	code, said, fs := makeShares(filepath.Join(dir, "a"), keyFile, s.T, s.N)
	num := func(x string) int64 {
		v, ok := new(big.Int).SetString(x, 10)
		if !ok || v.BitLen() > 30 {
			return -1
		}
		return v.Int64()
	}
	t, n := num(s.T), num(s.N)
	tr.Emit(M{"e": "deal", "t": t, "n": n, "ok": code == 0, "files": len(fs), "said": said[:min(len(said), 200)], "argv": []string{s.T, s.N}})
	if code != 0 {
		return
	}
	loaded := true
	for i, f := range fs {
		// sets of share files are for ids 1..n, in this order
		ev := M{"e": "share", "pos": i + 1, "ok": f.err == nil, "id": f.key.ID, "pub": false, "len": len(f.key.ShareKey), "pubs": len(f.key.CosignerKeys),
			"rsa": false, "rt": false, "leak": false}
		if f.err != nil {
			loaded = false
			tr.Emit(ev)
			continue
		}
		ev["pub"] = f.key.PubKey != nil && f.key.PubKey.Equals(pub)
		ok := true
		for _, g := range fs {
			if g.err != nil || f.key.ID < 1 || f.key.ID > len(g.key.CosignerKeys) || !f.key.RSAKey.PublicKey.Equal(g.key.CosignerKeys[f.key.ID-1]) {
				ok = false
			}
			if g.name != f.name && g.err == nil && (g.key.RSAKey.Equal(&f.key.RSAKey) || holds(f.raw, g.key.ShareKey) && t > 1) {
				ev["leak"] = true
			}
		}
		ev["rsa"] = ok && f.key.RSAKey.Validate() == nil
		if holds(f.raw, priv[:32]) || t > 1 && holds(f.raw, secret) {
			ev["leak"] = true
		}
		// written again and read again it is the same
		again := filepath.Join(dir, "again.json")
		guard(func() {
			if signer.WriteCosignerShareFile(f.key, again) != nil {
				return
			}
			b, _ := os.ReadFile(again)
			k, err := signer.LoadCosignerKey(again)
			same := err == nil && bytes.Equal(b, f.raw) && k.ID == f.key.ID && bytes.Equal(k.ShareKey, f.key.ShareKey) && k.PubKey.Equals(f.key.PubKey) &&
				k.RSAKey.Equal(&f.key.RSAKey) && len(k.CosignerKeys) == len(f.key.CosignerKeys)
			for i := range k.CosignerKeys {
				same = same && k.CosignerKeys[i].Equal(f.key.CosignerKeys[i])
			}
			ev["rt"] = same
		})
		tr.Emit(ev)
	}
	if !loaded || int64(len(fs)) != n || t < 1 || t > n {
		return
	}
	for i, f := range fs {
		if f.key.ID != i+1 {
			return
		}
	}
	opens := func(fs []shareFile, ids []int) bool {
		pts := map[int]*big.Int{}
		for _, id := range ids {
			pts[id] = leToBig(fs[id-1].key.ShareKey)
		}
		x := bigToLe(interpolate(pts, 0))
		return bytes.Equal(tsed25519.ScalarMultiplyBase(x), pub[:])
	}
	try := func(size int, sign int) {
		for i, ids := range subsets(int(n), size, r, s.Subs) {
			p := randPayload(r, 1+int64(i))
			p.Chain = ""
			ev := M{"e": "set", "ids": ids, "opens": opens(fs, ids), "asked": i < sign && n > 1, "signs": false}
			if i < sign && n > 1 {
				guard(func() { ev["signs"] = cosignersSign(fs, ids, int(t), int(n), pub, p, dir) })
			}
			tr.Emit(ev)
		}
	}
	// signing with 4096 bit keys takes its time
	try(int(t), 2)
	try(int(t)-1, 1)
	if n > t {
		try(int(n), 1)
		try(int(t)+1, 0)
	}
	if t > 2 {
		try(int(t)-2, 0)
	}
	if s.Twice {
		_, _, gs := makeShares(filepath.Join(dir, "b"), keyFile, s.T, s.N)
		same := len(gs) != len(fs)
		for i := range gs {
			if i < len(fs) && t > 1 && bytes.Equal(gs[i].key.ShareKey, fs[i].key.ShareKey) || i < len(fs) && gs[i].key.RSAKey.Equal(&fs[i].key.RSAKey) {
				same = true
			}
		}
		tr.Emit(M{"e": "again", "same": same})
	}
}

func sharingMain(c cosConf) {
	tr := NewTracer(c.Out)
	defer tr.Close()
	start := time.Now()
	scripts := []HScript{}
	readLines(c.Scripts, func(b []byte) {
		var s HScript
		must(json.Unmarshal(b, &s))
		scripts = append(scripts, s)
	})
	ran := parallel(tr, c.Workers, len(scripts), func() bool { return time.Since(start).Seconds() > c.Budget }, func(i int, t *Tracer) {
		t.Emit(M{"e": "reset"})
		runSharing(scripts[i], t, rng(c.Seed, int64(i)))
	})
	fmt.Printf("{\"scripts\":%d,\"events\":%d}\n", ran, tr.n)
}

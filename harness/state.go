package main

// Many threads that save to one sign state at the same time.

import (
	"fmt"
	mrand "math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sync"
	"time"

	"github.com/strangelove-ventures/horcrux/signer"
	tmlog "github.com/tendermint/tendermint/libs/log"
)

type stateTarget struct {
	save func(signer.SignStateConsensus) error
	hold func() func()
}

func stateMain(c cosConf) {
	tr := NewTracer(c.Out)
	defer tr.Close()
	start := time.Now()
	keys := NewKeys(2, 2)
	kinds := []string{"state", "pv", "cos", "ini"}
	ran := parallel(tr, c.Workers, c.Count, func() bool { return time.Since(start).Seconds() > c.Budget }, func(i int, t *Tracer) {
		stateRun(kinds[i%len(kinds)], keys, t, rng(c.Seed, int64(i)), c.Length)
	})
	fmt.Printf("{\"scripts\":%d,\"events\":%d}\n", ran, tr.n)
}

func stateRun(kind string, keys *Keys, tr *Tracer, r *mrand.Rand, storms int) {
	tr.Emit(M{"e": "reset", "kind": kind})
	dir := scratch("state")
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "state.json")
	_, err := signer.LoadOrCreateSignState(path)
	must(err)
	at := func() []int64 {
		o := readState(path)
		if o.Err != "" {
			return []int64{-1, 0, 0}
		}
		return []int64{o.H, o.R, int64(o.S)}
	}
	open := func() (stateTarget, []int64) {
		ss, err := signer.LoadSignState(path)
		if err != nil {
			return stateTarget{}, []int64{-1, 0, 0}
		}
		k := []int64{ss.Height, ss.Round, int64(ss.Step)}
		switch kind {
		case "state":
			mu := &sync.Mutex{}
			s := &ss
			return stateTarget{save: func(x signer.SignStateConsensus) error { return s.Save(x, mu) },
				hold: func() func() { mu.Lock(); return mu.Unlock }}, k
		case "cos":
			cos := keys.NewCosigner(1, &ss, "")
			return stateTarget{save: cos.SaveLastSignedState}, k
		}
		val := signer.NewThresholdValidator(&signer.ThresholdValidatorOpt{Pubkey: keys.Pub, Threshold: keys.T, SignState: ss, Logger: tmlog.NewNopLogger()})
		if kind == "ini" {
			return stateTarget{save: val.SaveLastSignedStateInitiated}, k
		}
		return stateTarget{save: val.SaveLastSignedState}, k
	}
	target, _ := open()
	top := Payload{}
	for n := 0; n < storms; n++ {
		if kind != "ini" && n > 0 && r.Intn(3) == 0 {
			var k []int64
			target, k = open()
			tr.Emit(M{"e": "load", "k": k, "file": at()})
			if target.save == nil {
				return
			}
		}
		threads := []int{2, 4, 8, 24, 64}[r.Intn(5)]
		ps := make([]Payload, threads)
		span := 1 + r.Intn(threads)
		for i := range ps {
			ps[i] = top
			switch r.Intn(8) {
			case 0, 1, 2, 3:
				ps[i].H += int64(r.Intn(span + 1))
			case 4, 5:
				ps[i].R += int64(r.Intn(span + 1))
			case 6:
				ps[i].H -= int64(r.Intn(2))
			}
			if ps[i].H < 0 {
				ps[i].H = 0
			}
			ps[i].S = 1 + r.Intn(3)
			ps[i].Block = "A"
		}
		oks := make([]bool, threads)
		stop, watched := make(chan bool), make(chan bool)
		var seen [][]int64
		go func() {
			defer close(watched)
			for {
				select {
				case <-stop:
					return
				default:
				}
				k := at()
				if len(seen) == 0 || fmt.Sprint(seen[len(seen)-1]) != fmt.Sprint(k) {
					seen = append(seen, k)
				}
				runtime.Gosched()
			}
		}()
		var let func()
		if target.hold != nil && r.Intn(4) > 0 {
			let = target.hold()
		}
		var wg sync.WaitGroup
		gate := make(chan bool)
		for i := range ps {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				<-gate
				p := ps[i]
				oks[i] = target.save(signer.SignStateConsensus{Height: p.H, Round: p.R, Step: int8(p.S), Signature: []byte("sig"), SignBytes: []byte("bytes")}) == nil
			}(i)
		}
		time.Sleep(time.Millisecond)
		close(gate)
		if let != nil {
			time.Sleep(time.Duration(2+r.Intn(4)) * time.Millisecond)
			let()
		}
		wg.Wait()
		close(stop)
		<-watched
		ops := []M{}
		for i, p := range ps {
			ops = append(ops, M{"k": []int64{p.H, p.R, int64(p.S)}, "ok": oks[i]})
			if oks[i] && below(top, p) {
				top = p
			}
		}
		file := at()
		if kind == "ini" {
			file, seen = []int64{}, nil
		}
		for _, k := range seen {
			tr.Emit(M{"e": "seen", "k": k})
		}
		tr.Emit(M{"e": "storm", "ops": ops, "file": file})
	}
}

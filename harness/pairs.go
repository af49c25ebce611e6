package main

// The binary as a cosigner, asked over two connections while what it is asked takes seconds.

import (
	"fmt"
	"time"

	tmProtoPrivval "github.com/tendermint/tendermint/proto/tendermint/privval"
)

func (m *member) put(second bool, p Payload) (chan *tmProtoPrivval.Message, time.Time) {
	chain, reps := m.chain, m.reps
	if second {
		chain, reps = m.chain2, m.reps2
	}
	for len(reps) > 0 {
		<-reps
	}
	t := time.Now()
	chain.send(&tmProtoPrivval.Message{Sum: &tmProtoPrivval.Message_SignVoteRequest{
		SignVoteRequest: &tmProtoPrivval.SignVoteRequest{Vote: p.Vote(), ChainId: p.chain()}}})
	return reps, t
}

func waitReply(reps chan *tmProtoPrivval.Message) (time.Time, bool) {
	select {
	case <-reps:
		return time.Now(), true
	case <-time.After(60 * time.Second):
		return time.Now(), false
	}
}

func pairsMain(c cosConf) {
	tr := NewTracer(c.Out)
	defer tr.Close()
	keys := NewKeys(3, 3)
	e := newEnsemble(keys, true)
	defer e.close()
	tr.Emit(M{"e": "reset"})
	ran := 0
	defer func() { fmt.Printf("{\"scripts\":1,\"events\":%d,\"pairs\":%d}\n", tr.n, ran) }()
	for i := 1; i <= keys.N; i++ {
		e.start(i)
	}
	for i := 1; i <= keys.N; i++ {
		if !e.ready(i, 40*time.Second) {
			return
		}
		for _, up := range []chan int{e.m(i).up, e.m(i).up2} {
			select {
			case <-up:
			case <-time.After(30 * time.Second):
				return
			}
		}
	}
	h := int64(1)
	next := func() Payload { h++; return Payload{H: h, S: stepPrevote, Block: "A", Chain: chainID} }
	for try := 0; try < c.Count; try++ {
		l, _ := e.calm(20 * time.Second)
		if l == 0 {
			continue
		}
		held := l%keys.N + 1
		e.pause(held, true) // all are needed: what is asked now takes until it is given up
		m := e.m(l)
		one := func() time.Duration {
			reps, t := m.put(false, next())
			at, ok := waitReply(reps)
			if !ok {
				return 0
			}
			return at.Sub(t)
		}
		d := one()
		p, q := next(), next()
		reps, _ := m.put(false, p)
		time.Sleep(300 * time.Millisecond)
		reps2, _ := m.put(true, q)
		at1, ok1 := waitReply(reps)
		at2, ok2 := waitReply(reps2)
		d2 := one()
		if d2 < d {
			d = d2
		}
		l2, _ := e.calm(0)
		e.pause(held, false)
		if !ok1 || !ok2 || d < 2*time.Second || l2 != l {
			continue
		}
		gap := at2.Sub(at1)
		ran++
		tr.Emit(M{"e": "pair", "apart": 2*gap >= d, "gap": gap.Milliseconds(), "one": d.Milliseconds()})
	}
}

package main

// Clusters of real processes that are killed, stopped for a while, started again and asked to hand over.

import (
	"bufio"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strconv"
	"sync"
	"syscall"
	"time"

	raftadmin "github.com/Jille/raftadmin/proto"
	"github.com/strangelove-ventures/horcrux/signer"
	proto "github.com/strangelove-ventures/horcrux/signer/proto"
	tmProtoPrivval "github.com/tendermint/tendermint/proto/tendermint/privval"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials/insecure"
)

type member struct {
	id     int
	home   string
	real   bool // the horcrux binary; else a process of the harness
	addr   string
	p      *proc
	since  time.Time // when it was last stopped
	paused bool
	in     io.WriteCloser
	mu     sync.Mutex
	wait   map[int]chan nodeSaid
	next   int
	chain  *chainNode
	up     chan int
	reps   chan *tmProtoPrivval.Message
	chain2 *chainNode
	up2    chan int
	reps2  chan *tmProtoPrivval.Message
	conn   *grpc.ClientConn
}

type ensemble struct {
	keys *Keys
	dir  string
	ms   []*member
}

func (e *ensemble) m(i int) *member { return e.ms[i-1] }

func newEnsemble(keys *Keys, real bool) *ensemble {
	e := &ensemble{keys: keys, dir: scratch("en")}
	addrs := []string{}
	for i := 1; i <= keys.N; i++ {
		addrs = append(addrs, fmt.Sprintf("tcp://127.0.0.1:%d", freePort()))
	}
	for i := 1; i <= keys.N; i++ {
		m := &member{id: i, home: filepath.Join(e.dir, fmt.Sprint("n", i)), real: real, addr: addrs[i-1], wait: map[int]chan nodeSaid{},
			up: make(chan int, 100), reps: make(chan *tmProtoPrivval.Message, 100)}
		must(os.MkdirAll(filepath.Join(m.home, "state"), 0o700))
		must(signer.WriteCosignerShareFile(keys.CosignerKey(i), filepath.Join(m.home, "share.json")))
		writeFile(m.stateFile("share_sign"), stateJSON("cos", 0, 0, 0, nil, nil))
		writeFile(m.stateFile("priv_validator"), stateJSON("cos", 0, 0, 0, nil, nil))
		if real {
			node := func(name string, up chan int, reps chan *tmProtoPrivval.Message) *chainNode {
				return newChainNode(name, func(ev string, gen int, msg *tmProtoPrivval.Message) {
					switch ev {
					case "up":
						up <- gen
					case "msg":
						reps <- msg
					}
				})
			}
			m.up2, m.reps2 = make(chan int, 100), make(chan *tmProtoPrivval.Message, 100)
			m.chain = node(fmt.Sprint(i), m.up, m.reps)
			m.chain2 = node(fmt.Sprint(i, "b"), m.up2, m.reps2)
			c := fmt.Sprintf("home-dir: %s\nchain-id: %s\ncosigner:\n  threshold: %d\n  shares: %d\n  p2p-listen: %s\n  peers:\n", m.home, chainID, keys.T, keys.N, m.addr)
			for k := 1; k < len(addrs); k++ {
				j := (i - 1 + k) % len(addrs) // the order does not matter
				c += fmt.Sprintf("  - share-id: %d\n    p2p-addr: %s\n", j+1, addrs[j])
			}
			c += fmt.Sprintf("  rpc-timeout: 1000ms\nchain-nodes:\n- priv-val-addr: %s\n- priv-val-addr: %s\n", m.chain.addr(), m.chain2.addr())
			writeFile(filepath.Join(m.home, "config.yaml"), []byte(c))
		} else {
			b, err := json.Marshal(nodeConf{m.home, i, keys.T, addrs})
			must(err)
			writeFile(filepath.Join(m.home, "node.json"), b)
		}
		e.ms = append(e.ms, m)
	}
	return e
}

func (m *member) stateFile(what string) string {
	return filepath.Join(m.home, "state", chainID+"_"+what+"_state.json")
}

func (e *ensemble) close() {
	for _, m := range e.ms {
		e.kill(m.id)
		if m.chain != nil {
			m.chain.end()
			m.chain.ln.Close()
			m.chain2.end()
			m.chain2.ln.Close()
		}
	}
	os.RemoveAll(e.dir)
}

func (e *ensemble) start(i int) {
	m := e.m(i)
	if m.p != nil {
		return
	}
	m.paused = false
	if m.real {
		for len(m.up) > 0 {
			<-m.up
		}
		m.p = spawn(m.home, []string{"HOME=" + m.home}, binary(), "cosigner", "start", "--home", m.home)
	} else {
		exe, err := os.Executable()
		must(err)
		m.p, m.in = spawnTalking(m.home, exe, m.hear, "node", filepath.Join(m.home, "node.json"))
	}
}

func (m *member) hear(r io.Reader) {
	sc := bufio.NewScanner(r)
	sc.Buffer(make([]byte, 1<<16), 1<<24)
	for sc.Scan() {
		var s nodeSaid
		if json.Unmarshal(sc.Bytes(), &s) != nil {
			continue
		}
		m.mu.Lock()
		ch := m.wait[s.ID]
		delete(m.wait, s.ID)
		m.mu.Unlock()
		if ch != nil {
			ch <- s
		}
	}
}

var errNoAnswer = errors.New("no answer")

// ask puts a question to a member that is a process of the harness.
func (m *member) ask(q nodeAsk, d time.Duration) (nodeSaid, error) {
	p := m.p
	if p == nil {
		return nodeSaid{}, errNoAnswer
	}
	m.mu.Lock()
	m.next++
	q.ID = m.next
	ch := make(chan nodeSaid, 1)
	m.wait[q.ID] = ch
	m.mu.Unlock()
	b, err := json.Marshal(q)
	must(err)
	if _, err := m.in.Write(append(b, '\n')); err != nil {
		return nodeSaid{}, errNoAnswer
	}
	select {
	case s := <-ch:
		return s, nil
	case <-p.done:
	case <-time.After(d):
	}
	return nodeSaid{}, errNoAnswer
}

func (e *ensemble) kill(i int) {
	m := e.m(i)
	if m.p == nil {
		return
	}
	m.p.kill()
	m.p, m.since = nil, time.Now()
	if m.in != nil {
		m.in.Close()
	}
	if m.conn != nil {
		m.conn.Close()
		m.conn = nil
	}
}

func (e *ensemble) pause(i int, on bool) {
	m := e.m(i)
	if m.p == nil || m.paused == on {
		return
	}
	m.paused = on
	m.p.cmd.Process.Signal(map[bool]os.Signal{true: syscall.SIGSTOP, false: syscall.SIGCONT}[on])
}

func (m *member) alive() bool { return m.p != nil && !m.paused }

func (e *ensemble) alive() []int {
	out := []int{}
	for _, m := range e.ms {
		if m.alive() {
			out = append(out, m.id)
		}
	}
	return out
}

func (m *member) grpc() *grpc.ClientConn {
	if m.conn == nil {
		c, err := grpc.Dial(m.addr[6:], grpc.WithTransportCredentials(insecure.NewCredentials()), grpc.WithBackoffMaxDelay(100*time.Millisecond))
		must(err)
		m.conn = c
	}
	return m.conn
}

func ctxFor(d time.Duration) (context.Context, context.CancelFunc) {
	return context.WithTimeout(context.Background(), d)
}

type raftView struct {
	snap                uint64
	ok                  bool
	state               string
	term, applied, last uint64
	leader              string
}

// view asks a member for its part in the consensus.
func (m *member) view() raftView {
	if !m.alive() {
		return raftView{}
	}
	ctx, cancel := ctxFor(time.Second)
	defer cancel()
	c := raftadmin.NewRaftAdminClient(m.grpc())
	st, err := c.Stats(ctx, &raftadmin.StatsRequest{})
	if err != nil {
		return raftView{}
	}
	l, err := c.Leader(ctx, &raftadmin.LeaderRequest{})
	if err != nil {
		return raftView{}
	}
	num := func(k string) uint64 { v, _ := strconv.ParseUint(st.GetStats()[k], 10, 64); return v }
	last := num("last_log_index")
	if sn := num("last_snapshot_index"); sn > last {
		last = sn
	}
	return raftView{ok: true, snap: num("last_snapshot_index"), state: st.GetStats()["state"], term: num("term"), applied: num("applied_index"), last: last, leader: l.GetAddress()}
}

// leader gives the member that all that are alive take for their leader, and the term; 0 if they do not agree.
func (e *ensemble) leader() (int, uint64) {
	lead, term := 0, uint64(0)
	vs := []raftView{}
	for _, i := range e.alive() {
		v := e.m(i).view()
		if !v.ok {
			return 0, 0
		}
		if v.state == "Leader" {
			if lead != 0 {
				return 0, 0
			}
			lead, term = i, v.term
		}
		vs = append(vs, v)
	}
	if lead == 0 {
		return 0, 0
	}
	for _, v := range vs {
		if v.leader != e.m(lead).addr[6:] || v.term != term {
			return 0, 0
		}
	}
	return lead, term
}

// calm waits until there is a leader that all agree on.
func (e *ensemble) calm(d time.Duration) (int, uint64) {
	lim := time.Now().Add(d)
	for {
		if l, t := e.leader(); l != 0 {
			return l, t
		}
		if time.Now().After(lim) {
			return 0, 0
		}
		time.Sleep(50 * time.Millisecond)
	}
}

// ready waits until a started member answers.
func (e *ensemble) ready(i int, d time.Duration) bool {
	lim := time.Now().Add(d)
	for time.Now().Before(lim) {
		if e.m(i).view().ok {
			return true
		}
		if e.m(i).p == nil || e.m(i).p.exited(30*time.Millisecond) {
			return false
		}
	}
	return false
}

// level waits until all that are alive have applied everything.
func (e *ensemble) level(d time.Duration) bool {
	lim := time.Now().Add(d)
	for time.Now().Before(lim) {
		ok := true
		var at uint64
		for _, i := range e.alive() {
			v := e.m(i).view()
			if !v.ok || v.applied != v.last || (at != 0 && v.last != at) {
				ok = false
				break
			}
			at = v.last
		}
		if ok {
			return true
		}
		time.Sleep(30 * time.Millisecond)
	}
	return false
}

func (e *ensemble) snapshot(i int) string {
	ctx, cancel := ctxFor(20 * time.Second)
	defer cancel()
	c := raftadmin.NewRaftAdminClient(e.m(i).grpc())
	f, err := c.Snapshot(ctx, &raftadmin.SnapshotRequest{})
	if err != nil {
		return err.Error()
	}
	r, err := c.Await(ctx, f)
	if err != nil {
		return err.Error()
	}
	return r.GetError()
}

// transfer asks a member, as the operator's command does, to hand the leadership over.
func (e *ensemble) transfer(at int, to string) error {
	ctx, cancel := ctxFor(5 * time.Second)
	defer cancel()
	_, err := proto.NewCosignerGRPCClient(e.m(at).grpc()).TransferLeadership(ctx, &proto.CosignerGRPCTransferLeadershipRequest{LeaderID: to})
	return err
}

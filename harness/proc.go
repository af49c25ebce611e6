package main

// Real processes: the horcrux binary on scratch home directories, with chain nodes played by the harness.

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	tmCryptoEd25519 "github.com/tendermint/tendermint/crypto/ed25519"
	tmjson "github.com/tendermint/tendermint/libs/json"
	"github.com/tendermint/tendermint/privval"
)

func binary() string {
	b := os.Getenv("VERIF_HORCRUX")
	if b == "" {
		panic("HARNESS: VERIF_HORCRUX is not set")
	}
	return b
}

type lockedBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *lockedBuf) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.b.Len() > 1<<20 {
		l.b.Reset()
	}
	return l.b.Write(p)
}

func (l *lockedBuf) tail(n int) string {
	l.mu.Lock()
	defer l.mu.Unlock()
	s := l.b.String()
	if len(s) > n {
		s = s[len(s)-n:]
	}
	return s
}

// proc is a process started by the harness.
type proc struct {
	cmd  *exec.Cmd
	log  *lockedBuf
	done chan struct{}
	code int
}

func spawn(dir string, env []string, argv ...string) *proc {
	p := &proc{cmd: exec.Command(argv[0], argv[1:]...), log: &lockedBuf{}, done: make(chan struct{})}
	p.cmd.Dir = dir
	p.cmd.Env = append([]string{"PATH=" + os.Getenv("PATH")}, env...)
	p.cmd.Stdout, p.cmd.Stderr = p.log, p.log
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	must(p.cmd.Start())
	go func() {
		p.cmd.Wait()
		p.code = p.cmd.ProcessState.ExitCode()
		close(p.done)
	}()
	return p
}

// spawnTalking is spawn for a process that is talked to.
func spawnTalking(dir, exe string, hear func(io.Reader), args ...string) (*proc, io.WriteCloser) {
	p := &proc{cmd: exec.Command(exe, args...), log: &lockedBuf{}, done: make(chan struct{})}
	p.cmd.Dir = dir
	p.cmd.Stderr = p.log
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	in, err := p.cmd.StdinPipe()
	must(err)
	out, err := p.cmd.StdoutPipe()
	must(err)
	must(p.cmd.Start())
	go func() {
		hear(out)
		p.cmd.Wait()
		p.code = p.cmd.ProcessState.ExitCode()
		close(p.done)
	}()
	return p, in
}

func (p *proc) exited(d time.Duration) bool {
	select {
	case <-p.done:
		return true
	case <-time.After(d):
		return false
	}
}

func (p *proc) kill() {
	p.cmd.Process.Signal(syscall.SIGKILL)
	<-p.done
}

// terminate asks the process to stop, and insists.
func (p *proc) terminate() {
	p.cmd.Process.Signal(syscall.SIGTERM)
	if !p.exited(3 * time.Second) {
		p.kill()
	}
}

// command runs a horcrux command to its end.
func command(dir string, env []string, args ...string) (int, string) {
	p := spawn(dir, env, append([]string{binary()}, args...)...)
	if !p.exited(60 * time.Second) {
		p.kill()
		return -1, p.log.tail(2000)
	}
	return p.code, p.log.tail(2000)
}

var ports = int32(os.Getpid() * 37 % 18000)

// freePort gives a port below those the system hands out by itself.
func freePort() int {
	for {
		p := 10000 + int(atomic.AddInt32(&ports, 1))%20000
		ln, err := net.Listen("tcp", fmt.Sprintf(":%d", p))
		if err == nil {
			ln.Close()
			return p
		}
	}
}

func writeFile(path string, b []byte) {
	must(os.MkdirAll(filepath.Dir(path), 0o700))
	must(os.WriteFile(path, b, 0o600))
}

func pvKeyJSON(priv tmCryptoEd25519.PrivKey) []byte {
	b, err := tmjson.MarshalIndent(privval.FilePVKey{Address: priv.PubKey().Address(), PubKey: priv.PubKey(), PrivKey: priv}, "", "  ")
	must(err)
	return b
}

// stateJSON is a sign state in one of the forms they have on disk.
func stateJSON(form string, h, r int64, s int, sb, sig []byte) []byte {
	if form == "pv" {
		b, err := tmjson.MarshalIndent(privval.FilePVLastSignState{Height: h, Round: int32(r), Step: int8(s), SignBytes: sb, Signature: sig}, "", "  ")
		must(err)
		return b
	}
	m := M{"height": fmt.Sprint(h), "round": fmt.Sprint(r), "step": s}
	if sb != nil {
		m["signbytes"] = strings.ToUpper(hex.EncodeToString(sb))
		m["signature"] = base64.StdEncoding.EncodeToString(sig)
	}
	b, err := json.MarshalIndent(m, "", "  ")
	must(err)
	return b
}

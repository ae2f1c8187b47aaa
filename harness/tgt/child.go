package tgt

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"net"
	"net/rpc"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/mon"

	"github.com/gostor/gotgt/pkg/scsi"
)

// Child is a running target process.
type Child struct {
	Spec    Spec
	Dir     string
	cmd     *exec.Cmd
	stdin   interface{ Close() error }
	rpc     *rpc.Client
	Stderr  string // file
	done    chan struct{}
	err     error
	Stopped atomic.Bool
	RaceLog string
}

// Bin and RaceBin are the binaries used for children.
var Bin, RaceBin string

var portMu sync.Mutex
var usedPorts = map[int]bool{}
var portRng = rand.New(rand.NewSource(time.Now().UnixNano() ^ int64(os.Getpid())<<20))

// FreePort picks a port below the ephemeral range on which nothing listens.
func FreePort() int {
	portMu.Lock()
	defer portMu.Unlock()
	for {
		p := 12000 + portRng.Intn(18000)
		if usedPorts[p] {
			continue
		}
		l, err := net.Listen("tcp", fmt.Sprintf(":%d", p))
		if err != nil {
			continue
		}
		l.Close()
		usedPorts[p] = true
		return p
	}
}

// Addr is the portal address children are reached at.
func (sp *Spec) Addr() string { return fmt.Sprintf("127.0.0.1:%d", sp.Port) }

type InitError struct{ Msg string }

func (e *InitError) Error() string { return e.Msg }

// Start runs a child; race selects the race-detector build.
func Start(sp Spec, dir string, race bool) (*Child, error) {
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return nil, err
	}
	c := &Child{Spec: sp, Dir: dir, done: make(chan struct{})}
	c.Spec.RPC = filepath.Join(dir, "rpc.sock")
	os.Remove(c.Spec.RPC)
	bin := Bin
	if race {
		bin = RaceBin
	}
	args := append(append([]string{}, sp.Wrap...), bin, "serve")
	c.cmd = exec.Command(args[0], args[1:]...)
	c.Stderr = filepath.Join(dir, "stderr")
	c.RaceLog = filepath.Join(dir, "race")
	c.cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 history_size=3 log_path="+c.RaceLog, "GOTRACEBACK=all")
	ef, err := os.Create(c.Stderr)
	if err != nil {
		return nil, err
	}
	c.cmd.Stderr = ef
	in, err := c.cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := c.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := c.cmd.Start(); err != nil {
		return nil, err
	}
	ef.Close()
	c.stdin = in
	if err := json.NewEncoder(in).Encode(&c.Spec); err != nil {
		c.cmd.Process.Kill()
		return nil, err
	}
	ready := make(chan string, 1)
	go func() {
		sc := bufio.NewScanner(out)
		for sc.Scan() {
			l := sc.Text()
			if l == "READY" || strings.HasPrefix(l, "INITERR") {
				select {
				case ready <- l:
				default:
				}
			}
		}
		c.err = c.cmd.Wait()
		close(c.done)
		select {
		case ready <- "EXIT":
		default:
		}
	}()
	select {
	case l := <-ready:
		if l != "READY" {
			c.cmd.Process.Kill()
			return nil, &InitError{l + " " + c.StderrTail(1500)}
		}
	case <-time.After(120 * time.Second):
		c.cmd.Process.Kill()
		return nil, fmt.Errorf("child did not get ready")
	}
	conn, err := net.Dial("unix", c.Spec.RPC)
	if err != nil {
		c.cmd.Process.Kill()
		return nil, err
	}
	c.rpc = rpc.NewClient(conn)
	return c, nil
}

func (c *Child) StderrTail(n int) string {
	b, _ := os.ReadFile(c.Stderr)
	if i := bytes.Index(b, []byte("panic:")); i >= 0 {
		b = b[i:]
		if len(b) > n {
			b = b[:n]
		}
	} else if i := bytes.Index(b, []byte("fatal error:")); i >= 0 {
		b = b[i:]
		if len(b) > n {
			b = b[:n]
		}
	} else if len(b) > n {
		b = b[len(b)-n:]
	}
	return string(b)
}

// Alive reports whether the process still runs.
func (c *Child) Alive() bool {
	select {
	case <-c.done:
		return false
	default:
		return true
	}
}

// Crashed waits a moment for the exit to be noticed and tells whether the child died on its own.
func (c *Child) Crashed(wait time.Duration) bool {
	if c.Stopped.Load() {
		return false
	}
	select {
	case <-c.done:
		return !c.Stopped.Load()
	case <-time.After(wait):
		return false
	}
}
func (c *Child) Pid() int { return c.cmd.Process.Pid }

func (c *Child) Stop() {
	if c.Stopped.Swap(true) {
		return
	}
	c.rpc.Close()
	c.stdin.Close()
	select {
	case <-c.done:
	case <-time.After(5 * time.Second):
		c.cmd.Process.Kill()
		<-c.done
	}
}

// Races returns the race detector's report blocks.
func (c *Child) Races() []string {
	ms, _ := filepath.Glob(c.RaceLog + ".*")
	var out []string
	for _, m := range ms {
		b, _ := os.ReadFile(m)
		for _, blk := range strings.Split(string(b), "==================") {
			if strings.Contains(blk, "WARNING: DATA RACE") {
				out = append(out, blk)
			}
		}
	}
	return out
}

func (c *Child) call(m string, a, r interface{}) error { return c.callFor(60*time.Second, m, a, r) }

func (c *Child) callFor(d time.Duration, m string, a, r interface{}) error {
	call := c.rpc.Go("Ctl."+m, a, r, make(chan *rpc.Call, 1))
	select {
	case <-call.Done:
		return call.Error
	case <-time.After(d):
		return fmt.Errorf("control call %s timed out", m)
	}
}

// Must-style wrappers: control failures mean the child died; callers notice through Crashed.
func (c *Child) Events(since int64, clear bool) []mon.Event {
	var r []mon.Event
	c.call("Events", EventsArgs{since, clear}, &r)
	return r
}
func (c *Child) Seq() int64     { var r int64; c.call("Seq", Void{}, &r); return r }
func (c *Child) SetDrop(b bool) { var r Void; c.call("SetDrop", b, &r) }
func (c *Child) Counts() map[string]int64 {
	var r map[string]int64
	c.call("Counts", Void{}, &r)
	return r
}
func (c *Child) AddFault(f mon.Fault) int { var r int; c.call("AddFault", f, &r); return r }
func (c *Child) ClearFaults()             { var r Void; c.call("ClearFaults", Void{}, &r) }
func (c *Child) FaultHits(id int) int     { var r int; c.call("FaultHits", id, &r); return r }
func (c *Child) Release(g string)         { var r Void; c.call("Release", g, &r) }
func (c *Child) ResetGate(g string)       { var r Void; c.call("ResetGate", g, &r) }
func (c *Child) AtGate(g string) int      { var r int; c.call("AtGate", g, &r); return r }
func (c *Child) Peek(dev string, off int64, n int) []byte {
	var r []byte
	c.call("Peek", PeekArgs{Dev: dev, Off: off, N: n}, &r)
	return r
}
func (c *Child) PeekStable(dev string, off int64, n int) []byte {
	var r []byte
	c.call("Peek", PeekArgs{Dev: dev, Off: off, N: n, Stable: true}, &r)
	return r
}
func (c *Child) Poke(dev string, off int64, b []byte) {
	var r Void
	c.call("Poke", PeekArgs{Dev: dev, Off: off, Data: b}, &r)
}
func (c *Child) Crash(dev string) { var r Void; c.call("Crash", dev, &r) }
func (c *Child) SetSize(dev string, n int64) {
	var r Void
	c.call("SetSize", PeekArgs{Dev: dev, Off: n}, &r)
}
func (c *Child) Pages(dev string) []int64 { var r []int64; c.call("Pages", dev, &r); return r }
func (c *Child) Resize(n uint64) error    { var r Void; return c.call("Resize", n, &r) }
func (c *Child) Stats() (scsi.Stats, error) {
	var r scsi.Stats
	err := c.call("Stats", Void{}, &r)
	return r, err
}
func (c *Child) HoldStats() int             { var r int; c.call("HoldStats", Void{}, &r); return r }
func (c *Child) HeldStats(i int) scsi.Stats { var r scsi.Stats; c.call("HeldStats", i, &r); return r }
func (c *Child) NewTarget(n string) error   { var r Void; return c.call("NewTarget", n, &r) }
func (c *Child) Proc() (ProcInfo, error) {
	var r ProcInfo
	err := c.call("Proc", Void{}, &r)
	return r, err
}
func (c *Child) MemPeak() int   { var r int; c.call("MemPeak", Void{}, &r); return r }
func (c *Child) Stacks() string { var r string; c.call("Stacks", Void{}, &r); return r }
func (c *Child) Targets() (string, error) {
	var r string
	err := c.call("Targets", Void{}, &r)
	return r, err
}
func (c *Child) CloseDrv() error                       { var r Void; return c.call("CloseDrv", Void{}, &r) }
func (c *Child) Call(m string, a, r interface{}) error { return c.call(m, a, r) }

// CallHeld is for a call that is held for as long as the check wants.
func (c *Child) CallHeld(m string, a, r interface{}) error {
	return c.callFor(10*time.Minute, m, a, r)
}

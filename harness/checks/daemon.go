package checks

import (
	"bytes"
	"context"
	"fmt"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"verif/ck"
	"verif/ini"
	"verif/tgt"

	"github.com/gostor/gotgt/pkg/config"
)

// daemon is the real gotgt program serving a configuration directory.
type daemon struct {
	cmd  *exec.Cmd
	dir  string
	port int
	api  string
	mu   sync.Mutex
	out  bytes.Buffer
	done chan struct{}
	err  error
}

func (d *daemon) Write(p []byte) (int, error) {
	d.mu.Lock()
	defer d.mu.Unlock()
	if d.out.Len() > 1<<20 {
		d.out.Reset()
	}
	return d.out.Write(p)
}
func (d *daemon) output() string {
	d.mu.Lock()
	defer d.mu.Unlock()
	s := d.out.String()
	if len(s) > 3000 {
		s = s[len(s)-3000:]
	}
	return s
}
func (d *daemon) addr() string { return fmt.Sprintf("127.0.0.1:%d", d.port) }

// runDaemon starts gotgt daemon on the configuration directory.
func runDaemon(dir string, port int, api string, args ...string) (*daemon, error) {
	return runDaemonFD(dir, port, api, nil, args...)
}

// runDaemonFD hands it sockets the way a service manager does; the API host is then among the arguments.
func runDaemonFD(dir string, port int, api string, fds []*os.File, args ...string) (*daemon, error) {
	d := &daemon{dir: dir, port: port, api: api, done: make(chan struct{})}
	level := []string{"error", "info", "warn", "debug", "fatal", "panic"}[port%6]
	all := append([]string{"daemon", "--port", fmt.Sprint(port), "--log", level}, args...)
	if api != "" && fds == nil {
		all = append(all, "--host", "tcp://"+api)
	}
	d.cmd = exec.Command(os.Getenv("VERIF_GOTGT"), all...)
	d.cmd.Env = append(os.Environ(), "GOSTOR_CONFIG="+dir)
	if fds != nil {
		d.cmd = exec.Command("/bin/sh", append([]string{"-c", `LISTEN_PID=$$; export LISTEN_PID; exec "$0" "$@"`, os.Getenv("VERIF_GOTGT")}, all...)...)
		d.cmd.Env = append(os.Environ(), "GOSTOR_CONFIG="+dir, fmt.Sprintf("LISTEN_FDS=%d", len(fds)))
		d.cmd.ExtraFiles = fds
	}
	d.cmd.Stdout, d.cmd.Stderr = d, d
	d.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL, Setpgid: true}
	if err := d.cmd.Start(); err != nil {
		return nil, err
	}
	go func() { d.err = d.cmd.Wait(); close(d.done) }()
	return d, nil
}

func (d *daemon) exited() bool {
	select {
	case <-d.done:
		return true
	default:
		return false
	}
}

// up waits until both ports answer, the program ends, or the time is over.
func (d *daemon) up(t time.Duration) bool {
	end := time.Now().Add(t)
	for time.Now().Before(end) && !d.exited() {
		ok := true
		for _, a := range []string{d.api, d.addr()} {
			if a == "" {
				continue
			}
			c, err := net.DialTimeout("tcp", a, time.Second)
			if err != nil {
				ok = false
				break
			}
			c.Close()
		}
		if ok && !d.exited() {
			return true
		}
		time.Sleep(5 * time.Millisecond)
	}
	return false
}

func (d *daemon) code() int {
	if d.cmd.ProcessState == nil {
		return -1000
	}
	return d.cmd.ProcessState.ExitCode()
}

func (d *daemon) kill() {
	d.cmd.Process.Kill()
	<-d.done
}

// term asks the program to end and gives its exit status.
func (d *daemon) term(t time.Duration) (int, bool) {
	d.cmd.Process.Signal(syscall.SIGTERM)
	select {
	case <-d.done:
		return d.code(), true
	case <-time.After(t):
		d.kill()
		return -1, false
	}
}

// dead reports a daemon that ended by itself.
func (d *daemon) dead(r *ck.Run, cas, doing string) bool {
	select {
	case <-d.done:
	case <-time.After(200 * time.Millisecond):
		return false
	}
	r.Violate("daemon-died:"+firstWord(doing), cas, d.output(), "the daemon ended by itself with status %d (%s): %s", d.code(), doing, oneLine(d.output()))
	return true
}

// startDaemon saves the configuration and brings the daemon up with it; fresh ports are tried when others hold them.
func startDaemon(r *ck.Run, cas string, dir string, cfg func(port int) *config.Config, args ...string) *daemon {
	last := ""
	for try := 0; try < 3; try++ {
		port := tgt.FreePort()
		if err := cfg(port).Save(filepath.Join(dir, config.ConfigFileName)); err != nil {
			r.Violate("save-failed", cas, nil, "a configuration cannot be saved: %v", err)
			return nil
		}
		api := fmt.Sprintf("127.0.0.1:%d", tgt.FreePort())
		var fds []*os.File
		if len(args) > 1 && strings.HasPrefix(args[1], "fd://") { // the second of the sockets it is started with
			var err error
			if fds, err = passedSockets("127.0.0.1:0", api); err != nil {
				continue
			}
		}
		d, err := runDaemonFD(dir, port, api, fds, args...)
		for _, f := range fds {
			f.Close()
		}
		if err != nil {
			r.Inconclusive("cannot run gotgt: %v", err)
			return nil
		}
		if d.up(2 * ini.Watchdog) {
			return d
		}
		last = d.output()
		ended := d.exited()
		d.kill()
		if ended && strings.Contains(last, "address already in use") {
			continue
		}
		r.Violate("daemon-not-up", cas, last, "the daemon does not come up with a valid configuration (ended: %v, status %d): %s", ended, d.code(), oneLine(last))
		return nil
	}
	r.Inconclusive("cannot start the daemon: %s", oneLine(last))
	return nil
}

// passedSockets listens on the addresses and gives the sockets.
func passedSockets(addrs ...string) (fds []*os.File, err error) {
	for _, a := range addrs {
		l, e := net.Listen("tcp", a)
		if e != nil {
			return nil, e
		}
		f, e := l.(*net.TCPListener).File()
		l.Close()
		if e != nil {
			return nil, e
		}
		fds = append(fds, f)
	}
	return fds, nil
}

// cli runs a gotgt command against the daemon.
func cli(api string, args ...string) (out string, code int, err error) {
	ctx, cancel := context.WithTimeout(context.Background(), 2*ini.Watchdog)
	defer cancel()
	c := exec.CommandContext(ctx, os.Getenv("VERIF_GOTGT"), append(args, "--host", "tcp://"+api)...)
	var b bytes.Buffer
	c.Stdout, c.Stderr = &b, &b
	e := c.Run()
	if ctx.Err() != nil {
		return b.String(), -1, fmt.Errorf("did not end in %v", 2*ini.Watchdog)
	}
	if e != nil && c.ProcessState == nil {
		return b.String(), -1, e
	}
	return b.String(), c.ProcessState.ExitCode(), nil
}

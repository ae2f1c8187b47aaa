// Package tgt runs the real target in a child process (serve) and controls it from the checker.
package tgt

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/rpc"
	"os"
	"os/signal"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"time"

	"verif/mon"

	"github.com/gostor/gotgt/pkg/apiserver"
	"github.com/gostor/gotgt/pkg/config"
	"github.com/gostor/gotgt/pkg/port/iscsit"
	"github.com/gostor/gotgt/pkg/scsi"
	_ "github.com/gostor/gotgt/pkg/scsi/backingstore"
	"github.com/gostor/gotgt/pkg/scsi/backingstore/remote"
	log "github.com/sirupsen/logrus"
)

// Spec is what a child serves.
type Spec struct {
	Port       int
	Config     config.Config
	Stats      bool
	NoORWrite  bool
	NoPR       bool
	NoMultip   bool
	ClusterIP  string
	BlockHosts bool
	API        string // "127.0.0.1:port" or ""
	Rem        []RemSpec
	RPC        string // unix socket path
	LogLevel   string
	LateTgts   []string // targets added only on request
	PokeInit   map[string]int64
	Wrap       []string // command to run the child under
	FSize      int64    // RLIMIT_FSIZE of the child, 0 none
	NFile      int64    // RLIMIT_NOFILE of the child, 0 none
}

// RemSpec is a LUN on a remote backing store (library use).
type RemSpec struct {
	Target   string
	LUN      uint64
	DeviceID uint64
	Name     string
	Size     int64
	Shift    uint
	Thin     bool
}

type Ctl struct {
	drv  scsi.SCSITargetDriver
	cfg  *config.Config
	snap []scsi.Stats
	mu   sync.Mutex
}

type Void struct{}
type PeekArgs struct {
	Dev    string
	Off    int64
	N      int
	Stable bool
	Data   []byte
}
type EventsArgs struct {
	Since int64
	Clear bool
}
type ProcInfo struct {
	FDs, Sockets, Goroutines int
	HeapMB, RSSMB            int
}

func (c *Ctl) Events(a EventsArgs, r *[]mon.Event) error {
	*r = mon.H.Events(a.Since, a.Clear)
	return nil
}
func (c *Ctl) Seq(a Void, r *int64) error               { *r = mon.H.Seq(); return nil }
func (c *Ctl) SetDrop(a bool, r *Void) error            { mon.H.SetDrop(a); return nil }
func (c *Ctl) Counts(a Void, r *map[string]int64) error { *r = mon.H.Counts(); return nil }
func (c *Ctl) AddFault(f mon.Fault, r *int) error       { *r = mon.H.AddFault(f); return nil }
func (c *Ctl) ClearFaults(a Void, r *Void) error        { mon.H.ClearFaults(); return nil }
func (c *Ctl) FaultHits(id int, r *int) error           { *r = mon.H.FaultHits(id); return nil }
func (c *Ctl) Release(g string, r *Void) error          { mon.H.Release(g); return nil }
func (c *Ctl) ResetGate(g string, r *Void) error        { mon.H.ResetGate(g); return nil }
func (c *Ctl) AtGate(g string, r *int) error            { *r = mon.H.AtGate(g); return nil }
func (c *Ctl) Peek(a PeekArgs, r *[]byte) error {
	m := mon.H.Get(a.Dev, 0)
	if a.Stable {
		*r = m.PeekStable(a.Off, a.N)
	} else {
		*r = m.Peek(a.Off, a.N)
	}
	return nil
}
func (c *Ctl) Poke(a PeekArgs, r *Void) error { mon.H.Get(a.Dev, 0).Poke(a.Off, a.Data); return nil }
func (c *Ctl) Crash(dev string, r *Void) error {
	mon.H.Get(dev, 0).Crash()
	return nil
}
func (c *Ctl) SetSize(a PeekArgs, r *Void) error  { mon.H.Get(a.Dev, 0).SetSize(a.Off); return nil }
func (c *Ctl) Pages(dev string, r *[]int64) error { *r = mon.H.Get(dev, 0).Pages(); return nil }
func (c *Ctl) Resize(n uint64, r *Void) error     { return c.drv.Resize(n) }
func (c *Ctl) Stats(a Void, r *scsi.Stats) error  { *r = c.drv.Stats(); return nil }
func (c *Ctl) HoldStats(a Void, r *int) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.snap = append(c.snap, c.drv.Stats())
	*r = len(c.snap) - 1
	return nil
}
func (c *Ctl) HeldStats(i int, r *scsi.Stats) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	*r = c.snap[i]
	return nil
}
func (c *Ctl) NewTarget(name string, r *Void) error { return c.drv.NewTarget(name, c.cfg) }
func (c *Ctl) AddStorage(b config.BackendStorage, r *Void) error {
	if strings.HasPrefix(b.Path, "RemBs:") && remote.Size == 0 {
		remote.Size = 1 << 20
	}
	return scsi.AddBackendStorage(b)
}
func (c *Ctl) DelStorage(id uint64, r *Void) error { scsi.DelBackendStorage(id); return nil }
func (c *Ctl) AddLUN(m scsi.LUNMapping, r *Void) error {
	err := scsi.AddLUNMapping(m)
	c.drv.RereadTargetLUNMap()
	return err
}
func (c *Ctl) DelLUN(m scsi.LUNMapping, r *Void) error {
	scsi.DelLUNMapping(m)
	c.drv.RereadTargetLUNMap()
	return nil
}

// PortalArg names a portal of a target.
type PortalArg struct {
	Target string
	TPGT   uint16
	Portal string
}

// NoPortals is the error of AddPortal when the driver has no such operation.
const NoPortals = "the driver has no way to add portals"

// AddPortal and HasPortal are for embedders of the iSCSI driver.
func (c *Ctl) AddPortal(a PortalArg, r *Void) error {
	if d, ok := c.drv.(interface {
		AddiSCSIPortal(string, uint16, string) error
	}); ok {
		return d.AddiSCSIPortal(a.Target, a.TPGT, a.Portal)
	}
	return errors.New(NoPortals)
}
func (c *Ctl) HasPortal(a PortalArg, r *bool) error {
	if d, ok := c.drv.(interface {
		HasPortal(string, uint16, string) bool
	}); ok {
		*r = d.HasPortal(a.Target, a.TPGT, a.Portal)
	}
	return nil
}

// AddRemote adds a LUN on a remote backing store of the default size while the target runs.
func (c *Ctl) AddRemote(rm RemSpec, r *Void) error {
	m := mon.H.Get(rm.Name, rm.Size)
	err := scsi.InitSCSILUMapEx(&config.BackendStorage{DeviceID: rm.DeviceID, Path: "RemBs:" + rm.Target, Online: true,
		BlockShift: rm.Shift, ThinProvisioning: rm.Thin}, rm.Target, rm.LUN, &mon.RemoteStore{M: m})
	c.drv.RereadTargetLUNMap()
	return err
}
func (c *Ctl) GetLU(m scsi.LUNMapping, r *bool) error {
	*r = scsi.GetLU(m.TargetName, m.LUN) != nil
	return nil
}
func (c *Ctl) CloseDrv(a Void, r *Void) error { return c.drv.Close() }
func (c *Ctl) Proc(a Void, r *ProcInfo) error {
	ents, _ := os.ReadDir("/proc/self/fd")
	for _, e := range ents {
		r.FDs++
		if l, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasPrefix(l, "socket:") {
			r.Sockets++
		}
	}
	r.Goroutines = runtime.NumGoroutine()
	runtime.GC()
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	r.HeapMB = int(ms.HeapAlloc >> 20)
	return nil
}
func (c *Ctl) MemPeak(a Void, r *int) error {
	// HWM in MB
	b, _ := os.ReadFile("/proc/self/status")
	for _, l := range strings.Split(string(b), "\n") {
		var v int
		if n, _ := fmt.Sscanf(l, "VmHWM: %d kB", &v); n == 1 {
			*r = v / 1024
		}
	}
	return nil
}
func (c *Ctl) Stacks(a Void, r *string) error {
	b := make([]byte, 1<<20)
	*r = string(b[:runtime.Stack(b, true)])
	return nil
}
func (c *Ctl) Targets(a Void, r *string) error {
	l, err := scsi.NewSCSITargetService().GetTargetList()
	if err != nil {
		return err
	}
	b, err := json.Marshal(l)
	*r = string(b)
	return err
}

// Serve is the child's main: reads the Spec from stdin.
func Serve() {
	var sp Spec
	dec := json.NewDecoder(os.Stdin)
	if err := dec.Decode(&sp); err != nil {
		fmt.Fprintln(os.Stderr, "SPEC", err)
		os.Exit(9)
	}
	go func() { // die with the parent
		io.Copy(io.Discard, os.Stdin)
		os.Exit(0)
	}()
	signal.Ignore(syscall.SIGPIPE, syscall.SIGXFSZ)
	if sp.FSize > 0 {
		syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(sp.FSize), Max: uint64(sp.FSize)})
	}
	if sp.NFile > 0 {
		syscall.Setrlimit(syscall.RLIMIT_NOFILE, &syscall.Rlimit{Cur: uint64(sp.NFile), Max: uint64(sp.NFile)})
	}
	log.SetLevel(log.FatalLevel)
	switch sp.LogLevel {
	case "debug":
		log.SetLevel(log.DebugLevel)
	case "info":
		log.SetLevel(log.InfoLevel)
	case "error":
		log.SetLevel(log.ErrorLevel)
	}
	iscsit.EnableStats = sp.Stats
	scsi.EnableORWrite16 = !sp.NoORWrite
	scsi.EnablePersistentReservation = !sp.NoPR
	scsi.EnableMultipath = !sp.NoMultip
	cfg := &sp.Config
	if err := scsi.InitSCSILUMap(cfg); err != nil {
		fmt.Println("INITERR", err)
		os.Exit(8)
	}
	for _, rm := range sp.Rem {
		remote.Size = uint64(rm.Size)
		m := mon.H.Get(rm.Name, rm.Size)
		err := scsi.InitSCSILUMapEx(&config.BackendStorage{DeviceID: rm.DeviceID, Path: "RemBs:" + rm.Target, Online: true,
			BlockShift: rm.Shift, ThinProvisioning: rm.Thin}, rm.Target, rm.LUN, &mon.RemoteStore{M: m})
		if err != nil {
			fmt.Println("INITERR", err)
			os.Exit(8)
		}
	}
	svc := scsi.NewSCSITargetService()
	drv, err := scsi.NewTargetDriver("iscsi", svc)
	if err != nil {
		fmt.Println("INITERR", err)
		os.Exit(8)
	}
	late := map[string]bool{}
	for _, n := range sp.LateTgts {
		late[n] = true
	}
	names := []string{}
	for n := range cfg.ISCSITargets {
		if !late[n] {
			names = append(names, n)
		}
	}
	// a fixed order, so that runs with one seed are alike
	for i := range names {
		for j := i + 1; j < len(names); j++ {
			if names[j] < names[i] {
				names[i], names[j] = names[j], names[i]
			}
		}
	}
	for _, n := range names {
		if err := drv.NewTarget(n, cfg); err != nil {
			fmt.Println("INITERR", err)
			os.Exit(8)
		}
	}
	if sp.ClusterIP != "" {
		drv.SetClusterIP(sp.ClusterIP)
	}
	if sp.BlockHosts {
		drv.EnableBlockMultipleHostLogin()
	}
	go drv.Run(sp.Port)
	if sp.API != "" {
		s, err := apiserver.New(&apiserver.Config{Addrs: []apiserver.Addr{{Proto: "tcp", Addr: sp.API}}})
		if err != nil {
			fmt.Println("INITERR", err)
			os.Exit(8)
		}
		s.InitRouters()
		w := make(chan error, 1)
		go s.Wait(w)
	}
	srv := rpc.NewServer()
	srv.RegisterName("Ctl", &Ctl{drv: drv, cfg: cfg})
	l, err := net.Listen("unix", sp.RPC)
	if err != nil {
		fmt.Println("INITERR", err)
		os.Exit(8)
	}
	go srv.Accept(l)
	if !waitPort(fmt.Sprintf("127.0.0.1:%d", sp.Port), 20*time.Second, sp.BlockHosts) {
		fmt.Println("INITERR not listening")
		os.Exit(8)
	}
	if sp.API != "" {
		for i := 0; i < 200; i++ {
			if r, err := http.Get("http://" + sp.API + "/_ping"); err == nil {
				r.Body.Close()
				break
			}
			time.Sleep(20 * time.Millisecond)
		}
	}
	fmt.Println("READY")
	select {}
}

// waitPort waits until something listens, without connecting to it (a connection is an event for the target).
func waitPort(addr string, d time.Duration, _ bool) bool {
	_, p, _ := net.SplitHostPort(addr)
	var port int
	fmt.Sscan(p, &port)
	want := fmt.Sprintf(":%04X", port)
	end := time.Now().Add(d)
	for time.Now().Before(end) {
		for _, f := range []string{"/proc/net/tcp6", "/proc/net/tcp"} {
			b, _ := os.ReadFile(f)
			for _, l := range strings.Split(string(b), "\n") {
				fs := strings.Fields(l)
				if len(fs) > 3 && strings.HasSuffix(fs[1], want) && fs[3] == "0A" {
					return true
				}
			}
		}
		time.Sleep(5 * time.Millisecond)
	}
	return false
}

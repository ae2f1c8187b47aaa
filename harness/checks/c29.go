package checks

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"verif/ck"
	"verif/ini"

	"github.com/gostor/gotgt/pkg/config"
)

func init() { All["C29"] = Check{Run: c29, Level: "exploration", Min: 20000} }

func c29(r *ck.Run) {
	r.Rule("the real gotgt daemon over scratch files, in lives of some tenths of a second that end by SIGTERM, SIGINT or SIGKILL while several sessions write, one holds reservations, others are stuck in the middle of a PDU, a login, a write or an answer, and HTTP clients keep connections open; some are ended while they start. Each must end (with status 0 unless killed), come up again on the same ports, show no reservation of the life before, and every block must hold the last write that was answered or one that was sent and not answered, over iSCSI and in the file; sizes of the files and the configuration file unchanged. Distinct by (signal, block size, what was in progress, what the block held)")
	r.Assume("a block whose write was not answered may hold the old or the new content; a signal during the start may end the daemon with any status; the operating system keeps what a killed process has written")
	r.Each(r.Q(56, 500), 7, func(i int) { c29Episode(r, i) })
}

// c29dev is one file and what each of its blocks may hold.
type c29dev struct {
	path   string
	blocks int
	last   []uint32 // the write last answered
	maybe  []uint32 // one that was sent and not answered, or 0
}

// c29block is the content of block b of write id.
func c29block(dev int, b int, id uint32, bs int) []byte {
	out := make([]byte, bs)
	x := uint64(id)<<32 ^ uint64(b)<<8 ^ uint64(dev) ^ 0x9e3779b97f4a7c15
	for o := 0; o < bs; o += 8 {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		binary.LittleEndian.PutUint64(out[o:], x)
	}
	binary.BigEndian.PutUint32(out, id)
	return out
}

type c29w struct {
	r    *ck.Run
	cas  string
	bs   int
	devs []*c29dev
	port int
	next uint32
	mu   sync.Mutex
	over atomic.Bool
}

func (w *c29w) bad(sig string, det interface{}, f string, a ...interface{}) {
	if !w.over.Swap(true) {
		w.r.Violate(sig, w.cas, det, f, a...)
	}
}

// check compares what was read from block b0 on with what may be there, and settles it.
func (w *c29w) check(di, b0 int, got []byte, where, why string) bool {
	d := w.devs[di]
	w.mu.Lock()
	defer w.mu.Unlock()
	for k := 0; k*w.bs < len(got); k++ {
		b := b0 + k
		g := got[k*w.bs : (k+1)*w.bs]
		switch {
		case bytes.Equal(g, c29block(di, b, d.last[b], w.bs)):
			if d.maybe[b] != 0 {
				w.r.Add("unanswered_writes_without_effect", 1)
				w.r.Eval("old " + why)
			} else {
				w.r.Eval("")
			}
		case d.maybe[b] != 0 && bytes.Equal(g, c29block(di, b, d.maybe[b], w.bs)):
			d.last[b] = d.maybe[b]
			w.r.Add("unanswered_writes_with_effect", 1)
			w.r.Eval("new " + why)
		default:
			id := binary.BigEndian.Uint32(g)
			w.bad("lost:"+why, map[string]interface{}{"device": di, "block": b, "file": d.path}, "after the daemon ended (%s) block %d of device %d (%s) holds something of write %d, the last one answered was %d, unanswered %d", why, b, di, where, id, d.last[b], d.maybe[b])
			return false
		}
		d.maybe[b] = 0
	}
	return true
}

func (w *c29w) opts(n string) ini.LoginOpts {
	return ini.LoginOpts{Addr: fmt.Sprintf("127.0.0.1:%d", w.port), Target: TN(0), Initiator: "iqn.2020-01.verif:" + n, ISID: [6]byte{0x80, 0x29, 0, 0, 0, n[len(n)-1]}}
}

func (w *c29w) login(o ini.LoginOpts, d *daemon) *ini.Conn {
	c, err := ini.Login(o)
	if err != nil {
		if !d.dead(w.r, w.cas, "login") {
			w.bad("login", d.output(), "a login to a daemon that is up failed: %v", err)
		}
		return nil
	}
	return c
}

func c29Episode(r *ck.Run, i int) {
	rng := r.Rng("ep", i)
	cas := fmt.Sprint(i)
	shift := uint(9 + i%4)
	w := &c29w{r: r, cas: cas, bs: 1 << shift, next: 1}
	dir := r.SubDir("c29")
	cfg := &config.Config{ISCSITargets: map[string]config.ISCSITarget{}}
	luns := map[string]uint64{}
	nd := 2 + rng.Intn(2)
	for k := 0; k < nd; k++ {
		d := &c29dev{path: filepath.Join(dir, fmt.Sprintf("disk%d.img", k)), blocks: 40 + rng.Intn(300)}
		d.last, d.maybe = make([]uint32, d.blocks), make([]uint32, d.blocks)
		var b bytes.Buffer
		for j := range d.last {
			d.last[j] = 1
			b.Write(c29block(k, j, 1, w.bs))
		}
		if err := os.WriteFile(d.path, b.Bytes(), 0600); err != nil {
			r.Inconclusive("%v", err)
			return
		}
		w.devs = append(w.devs, d)
		cfg.Storages = append(cfg.Storages, config.BackendStorage{DeviceID: uint64(500 + k), Path: "file:" + d.path, Online: true, BlockShift: shift, ThinProvisioning: rng.Intn(2) == 0})
		luns[fmt.Sprint(k)] = uint64(500 + k)
	}
	cfg.ISCSITargets[TN(0)] = config.ISCSITarget{TPGTs: map[string][]uint64{"1": {0}}, LUNs: luns}
	conf := func(port int) *config.Config {
		cfg.ISCSIPortals = []config.ISCSIPortalInfo{{ID: 0, Portal: fmt.Sprintf("127.0.0.1:%d", port)}}
		return cfg
	}
	args := []string{}
	if rng.Intn(3) == 0 {
		args = append(args, "--block-multiple-hosts")
	}
	d := startDaemon(r, cas, dir, conf, args...)
	if d == nil {
		return
	}
	cf := filepath.Join(dir, config.ConfigFileName)
	lives := 3 + rng.Intn(3)
	why := "start"
	for life := 0; life < lives && !w.over.Load(); life++ {
		w.port = d.port
		saved, _ := os.ReadFile(cf)
		if why = w.life(rng, d, life, why); why == "" {
			d.kill()
			return
		}
		for k, x := range w.devs {
			b, err := os.ReadFile(x.path)
			if err != nil || len(b) != x.blocks*w.bs {
				w.bad("file-size", nil, "after the daemon ended (%s) the file of device %d has %d bytes, it had %d (%v)", why, k, len(b), x.blocks*w.bs, err)
				return
			}
			if rng.Intn(2) == 0 && !w.check(k, 0, b, "in the file", why) {
				return
			}
		}
		if now, _ := os.ReadFile(cf); !bytes.Equal(now, saved) {
			w.bad("config-changed", nil, "the configuration file is another one after the daemon ran")
			return
		}
		// once more with the same ports; sometimes one that is ended while it starts comes first
		if rng.Intn(4) == 0 {
			e, err := runDaemon(dir, d.port, d.api, args...)
			if err == nil {
				time.Sleep(time.Duration(rng.Intn(30000)) * time.Microsecond)
				if _, ended := e.term(2 * ini.Watchdog); !ended {
					w.bad("no-end-at-start", e.output(), "a daemon asked to end while it starts does not end")
					return
				}
				r.Eval("ended at start")
				r.Add("ended_at_start", 1)
			}
		}
		var n *daemon
		for try := 0; ; try++ {
			var err error
			if n, err = runDaemon(dir, d.port, d.api, args...); err != nil {
				r.Inconclusive("cannot run gotgt: %v", err)
				return
			}
			if n.up(2 * ini.Watchdog) {
				break
			}
			out, ended := n.output(), n.exited()
			n.kill()
			if ended && strings.Contains(out, "address already in use") {
				if c29taken(d.addr(), d.api) { // somebody else has it now
					if n = startDaemon(r, cas, dir, conf, args...); n == nil {
						return
					}
					r.Add("moved", 1)
					break
				}
				if try < 3 {
					continue
				}
			}
			w.bad("not-up-again", out, "the daemon does not come up again after %s (ended: %v, status %d): %s", why, ended, n.code(), oneLine(out))
			return
		}
		d = n
		r.Add("restarts", 1)
	}
	w.port = d.port
	if !w.over.Load() {
		w.readAll(d, why)
	}
	d.kill()
}

// c29taken tells whether somebody listens on one of the addresses.
func c29taken(addrs ...string) bool {
	for _, a := range addrs {
		if c, err := net.Dial("tcp", a); err == nil {
			c.Close()
			return true
		}
	}
	return false
}

// readAll reads every device over iSCSI and looks for what a life before may have left.
func (w *c29w) readAll(d *daemon, why string) bool {
	c := w.login(w.opts("reader"), d)
	if c == nil {
		return false
	}
	defer c.Close()
	for k, x := range w.devs {
		for b := 0; b < x.blocks; {
			n := min(x.blocks-b, 1+1<<17/w.bs)
			t := c.Submit(ini.ReadCmd(ini.LUN(k), ini.READ10, uint64(b), uint32(n), w.bs, 0))
			if err := t.Wait(); err != nil || t.Status != 0 {
				if !d.dead(w.r, w.cas, "reading") {
					w.bad("read-failed", tail(c.Trace(), 8), "a read after %s ended with %v, %s", why, err, t.Outcome())
				}
				return false
			}
			if !w.check(k, b, t.Data, "over iSCSI", why) {
				return false
			}
			b += n
		}
		t := c.Submit(ini.InCmd(ini.LUN(k), []byte{ini.PRIN, 0, 0, 0, 0, 0, 0, 1, 0, 0}, 256))
		if err := t.Wait(); err != nil || t.Status != 0 || len(t.Data) != 8 || be64(t.Data) != 0 {
			w.bad("registrations-left", tail(c.Trace(), 6), "after %s READ KEYS of a daemon just started ended with %v, %s and %x", why, err, t.Outcome(), t.Data)
			return false
		}
	}
	return true
}

// life is one life of the daemon; the result says how it ended, "" if something is wrong.
func (w *c29w) life(rng *rand.Rand, d *daemon, life int, why string) string {
	r := w.r
	if !w.readAll(d, why) {
		return ""
	}
	var open []interface{ Close() error }
	defer func() {
		for _, c := range open {
			c.Close()
		}
	}()
	var busy []string
	// one that holds reservations
	if rng.Intn(2) == 0 {
		c := w.login(w.opts("holder"), d)
		if c == nil {
			return ""
		}
		defer c.Close()
		k := len(w.devs) - 1 // nobody writes there then
		p := make([]byte, 24)
		p[15] = 9
		ts := []*ini.Task{c.Submit(ini.OutCmd(ini.LUN(k), []byte{ini.PROUT, 0, 0, 0, 0, 0, 0, 0, 24, 0}, p))}
		q := make([]byte, 24)
		q[7] = 9
		if rng.Intn(2) == 0 {
			ts = append(ts, c.Submit(ini.OutCmd(ini.LUN(k), []byte{ini.PROUT, 1, byte(1 + 2*rng.Intn(2)), 0, 0, 0, 0, 0, 24, 0}, q)))
		}
		for _, t := range ts {
			if err := t.Wait(); err != nil || t.Status != 0 {
				w.bad("holder", tail(c.Trace(), 6), "after %s a reservation ended with %v, %s", why, err, t.Outcome())
				return ""
			}
		}
		busy = append(busy, "holder")
	}
	// some that are stuck
	for k := rng.Intn(3); k > 0; k-- {
		kind := []string{"half-pdu", "half-login", "no-data", "no-reading", "http-idle", "http-half", "http-body"}[rng.Intn(7)]
		busy = append(busy, kind)
		switch kind {
		case "half-login", "http-idle", "http-half", "http-body":
			a := d.api
			if kind == "half-login" {
				a = d.addr()
			}
			nc, err := net.Dial("tcp", a)
			if err != nil {
				continue
			}
			open = append(open, nc)
			switch kind {
			case "half-login":
				o := w.opts("half")
				b := ini.LoginPDU(&o, 1, 3, true, 7, []ini.KV{{K: "InitiatorName", V: "x"}}).Bytes()
				nc.Write(b[:rng.Intn(len(b))])
			case "http-half":
				nc.Write([]byte("GET /target/list HTTP/1.1\r\nHost: x\r\n"))
			case "http-body":
				nc.Write([]byte("POST /target/create HTTP/1.1\r\nHost: x\r\nContent-Type: application/json\r\nContent-Length: 100\r\n\r\n{\"Name\":"))
			}
		default:
			c := w.login(w.opts(fmt.Sprint("stuck", k)), d)
			if c == nil {
				return ""
			}
			defer c.Close()
			switch kind {
			case "half-pdu":
				c.SendBytes(make([]byte, 1+rng.Intn(47)))
			case "no-data":
				cm := ini.WriteCmd(ini.LUN(0), ini.WRITE10, 0, 8, make([]byte, 8*w.bs), 0)
				cm.Hold, cm.Imm = true, 0
				c.Submit(cm)
			case "no-reading":
				c.PauseReading()
				for j := 0; j < 60; j++ {
					c.Submit(ini.ReadCmd(ini.LUN(0), ini.READ10, 0, uint32(w.devs[0].blocks), w.bs, 0))
				}
			}
		}
	}
	// the writers: each has its own part of each device
	const writers = 3
	target := int64(20 + rng.Intn(150))
	var done atomic.Int64
	var sigged atomic.Bool
	var wg sync.WaitGroup
	reached := make(chan bool)
	var once sync.Once
	devs := len(w.devs)
	for _, b := range busy {
		if b == "holder" {
			devs--
		}
	}
	seeds := [writers]int64{}
	for j := range seeds {
		seeds[j] = rng.Int63()
	}
	for j := 0; j < writers; j++ {
		c := w.login(w.opts(fmt.Sprint("writer", j)), d)
		if c == nil {
			once.Do(func() { close(reached) })
			sigged.Store(true)
			return ""
		}
		j := j
		wg.Add(1)
		go func() {
			defer wg.Done()
			w.writer(c, j, writers, devs, rand.New(rand.NewSource(seeds[j])), &sigged, func() {
				if done.Add(1) == target {
					once.Do(func() { close(reached) })
				}
			})
		}()
	}
	select {
	case <-reached:
	case <-d.done:
		d.dead(r, w.cas, "writing")
		wg.Wait()
		return ""
	case <-time.After(2 * ini.Watchdog): // writers that do not get on say so themselves
	}
	sig := []syscall.Signal{syscall.SIGTERM, syscall.SIGINT, syscall.SIGKILL}[(life+rng.Intn(2))%3]
	name := map[syscall.Signal]string{syscall.SIGTERM: "SIGTERM", syscall.SIGINT: "SIGINT", syscall.SIGKILL: "SIGKILL"}[sig]
	sigged.Store(true)
	d.cmd.Process.Signal(sig)
	if rng.Intn(6) == 0 {
		d.cmd.Process.Signal(sig)
	}
	select {
	case <-d.done:
	case <-time.After(2 * ini.Watchdog):
		w.bad("no-end", d.output(), "the daemon does not end after %s with %v in progress", name, busy)
		d.kill()
		wg.Wait()
		return ""
	}
	wg.Wait()
	if code := d.code(); sig != syscall.SIGKILL && code != 0 {
		w.bad("end-status", d.output(), "the daemon asked to end by %s with %v in progress ended with status %d: %s", name, busy, code, oneLine(d.output()))
		return ""
	}
	if w.over.Load() {
		return ""
	}
	r.Add("lives_ended_by_"+name, 1)
	r.Add("writes_answered", done.Load())
	sort.Strings(busy)
	r.Eval(fmt.Sprint(name, w.bs, busy))
	r.Sample(fmt.Sprintf("%s after %d answered writes to %d files of %d-byte blocks with %v in progress; before: %s", name, done.Load(), len(w.devs), w.bs, busy, why))
	return name
}

// writer writes to its parts of the devices until the daemon is gone.
func (w *c29w) writer(c *ini.Conn, j, of, devs int, rng *rand.Rand, sigged *atomic.Bool, answered func()) {
	defer c.Close()
	type wr struct {
		t      *ini.Task
		dev    int
		b0, n  int
		id     uint32
		status bool
	}
	var out []*wr
	settle := func(x *wr) {
		d := w.devs[x.dev]
		w.mu.Lock()
		for b := x.b0; b < x.b0+x.n; b++ {
			if x.t.Done() && x.t.Err == nil && x.t.Status == 0 {
				d.last[b], d.maybe[b] = x.id, 0
			}
		}
		w.mu.Unlock()
	}
	for !sigged.Load() || len(out) > 0 {
		for len(out) < 5 && !sigged.Load() {
			k := rng.Intn(devs)
			d := w.devs[k]
			part := d.blocks / of
			lo := part * j
			n := 1 + rng.Intn(min(part, 1<<16/w.bs))
			b0 := lo + rng.Intn(part-n+1)
			free := true
			for _, o := range out {
				if o.dev == k && o.b0 < b0+n && b0 < o.b0+o.n {
					free = false
				}
			}
			if !free {
				break
			}
			w.mu.Lock()
			w.next++
			id := w.next
			w.mu.Unlock()
			var data []byte
			for b := b0; b < b0+n; b++ {
				data = append(data, c29block(k, b, id, w.bs)...)
			}
			op := []byte{ini.WRITE10, ini.WRITE16, ini.WRITE12, ini.WRVER10, ini.WRITE6}[rng.Intn(5)]
			if op == ini.WRITE6 && n > 255 {
				op = ini.WRITE10
			}
			cm := ini.WriteCmd(ini.LUN(k), op, uint64(b0), uint32(n), data, 0)
			cm.Imm = []int{-1, 0, 100}[rng.Intn(3)]
			w.mu.Lock()
			for b := b0; b < b0+n; b++ {
				d.maybe[b] = id
			}
			w.mu.Unlock()
			out = append(out, &wr{t: c.Submit(cm), dev: k, b0: b0, n: n, id: id})
		}
		if len(out) == 0 {
			continue
		}
		x := out[0]
		out = out[1:]
		err := x.t.Wait()
		settle(x)
		if err != nil || x.t.Status != 0 {
			if !sigged.Load() {
				w.bad("write-failed", tail(c.Trace(), 10), "a write of a daemon that runs ended with %v, %s", err, x.t.Outcome())
			}
			c.WaitClosed(ini.Watchdog)
			for _, y := range out { // answered all the same
				settle(y)
			}
			return
		}
		answered()
	}
}

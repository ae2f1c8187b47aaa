package checks

import (
	"encoding/binary"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"regexp"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/ck"
	"verif/ini"
	"verif/tgt"

	"github.com/gostor/gotgt/pkg/config"
	"github.com/gostor/gotgt/pkg/scsi"
)

func init() { All["C18"] = Check{Run: c18, Level: "exploration", Min: 4000} }

func c18(r *ck.Run) {
	ini.Watchdog = 60 * time.Second // the race detector is slow
	r.Rule("the target built with the Go race detector, on lock-free slow stores (no lock of the harness orders its goroutines) and on files: sessions doing I/O on shared LUNs, reservations, persistent reservations, task management, text and ping; sessions logging in and out, dropping, resetting, failing to log in and taking over each other's ISID; discovery; hostile bytes; HTTP and in-process listing; statistics; resize; devices and LUNs added and removed; targets created; shutdown, all at once. A race report with a gotgt frame, a crash, a hang or an unanswered request is a violation; distinct by pairs of kinds of operation seen in progress at the same time")
	r.Assume("the race detector sees races between accesses that happen in the run and are not ordered by other synchronisation (the Go runtime orders a socket write before later socket reads), so it may miss races but reports no false ones")
	kinds := []string{"mixed", "churn", "lunmap", "stats", "targets", "shutdown", "reserve", "mixed-file"}
	r.Each(r.Q(len(kinds), 8*len(kinds)), 3, func(i int) { c18Episode(r, i, kinds[i%len(kinds)]) })
	r.Sample(map[string]interface{}{"episode kinds": kinds, "operations": "see observed"})
}

type c18w struct {
	r     *ck.Run
	ch    *tgt.Child
	cas   string
	kind  string
	stop  atomic.Bool
	down  atomic.Bool // the listener has been closed
	lunsv atomic.Bool // LUNs come and go
	cur   [64]atomic.Int32
	names []string
	nmu   sync.Mutex
}

// op marks what worker k is doing, and counts the pairs of operations seen together.
func (w *c18w) op(k int, name string) {
	id := -1
	w.nmu.Lock()
	for j, n := range w.names {
		if n == name {
			id = j
		}
	}
	if id < 0 {
		w.names = append(w.names, name)
		id = len(w.names) - 1
	}
	names := append([]string{}, w.names...)
	w.nmu.Unlock()
	w.cur[k].Store(int32(id + 1))
	w.r.Add("op_"+strings.ReplaceAll(name, " ", "_"), 1)
	for j := range w.cur {
		if o := w.cur[j].Load(); j != k && o > 0 && int(o) <= len(names) {
			a, b := name, names[o-1]
			if a > b {
				a, b = b, a
			}
			w.r.Eval(a + "|" + b)
		}
	}
}

func c18Episode(r *ck.Run, i int, kind string) {
	rng := r.Rng("ep", i)
	cas := fmt.Sprint(i)
	api := fmt.Sprintf("127.0.0.1:%d", tgt.FreePort())
	sp := spec1()
	sp.API, sp.Stats = api, true
	for d := uint64(1); d <= 3; d++ {
		path := fmt.Sprintf("lag:%d:%d", 1<<20, []int{0, 300, 1500}[rng.Intn(3)])
		if kind == "mixed-file" {
			f := r.SubDir("f") + "/disk"
			if mkfile(f, 1<<20) != nil {
				r.Inconclusive("cannot make a file")
				return
			}
			path = "file:" + f
		}
		sp.Config.Storages = append(sp.Config.Storages, config.BackendStorage{DeviceID: d, Path: path, Online: true, ThinProvisioning: true, BlockShift: 9})
	}
	sp.Config.ISCSITargets[TN(0)] = config.ISCSITarget{TPGTs: map[string][]uint64{"1": {0}}, LUNs: map[string]uint64{"0": 1, "1": 2, "2": 3}}
	sp.Config.ISCSITargets[TN(1)] = config.ISCSITarget{TPGTs: map[string][]uint64{"1": {0}}, LUNs: map[string]uint64{"0": 2, "1": 3}}
	for n := 2; n < 40; n++ {
		sp.Config.ISCSITargets[TN(n)] = config.ISCSITarget{TPGTs: map[string][]uint64{"1": {0}, "2": {0}}, LUNs: map[string]uint64{"0": 1}}
		sp.LateTgts = append(sp.LateTgts, TN(n))
	}
	ch := start(r, cas, sp, true)
	if ch == nil {
		return
	}
	defer ch.Stop()
	w := &c18w{r: r, ch: ch, cas: cas, kind: kind}
	n := map[string]int{} // workers
	for _, k := range []string{"io", "io", "io", "taker", "taker", "churn", "churn", "mgmt", "list"} {
		n[k]++
	}
	switch kind {
	case "churn":
		n["churn"], n["taker"], n["disco"], n["io"] = 5, 4, 2, 1
	case "lunmap":
		n["lunmap"], n["mgmt"], n["resv"] = 3, 2, 2
		w.lunsv.Store(true)
	case "stats":
		n["stats"], n["io"] = 3, 5
	case "targets":
		n["newtgt"], n["disco"], n["list"], n["inproc"], n["lunmap"] = 1, 3, 3, 2, 2
	case "shutdown":
		n["disco"], n["hostile"] = 1, 1
	case "reserve":
		n["resv"], n["taker"], n["io"] = 5, 3, 2
	default:
		n["lunmap"], n["stats"], n["disco"], n["hostile"], n["resv"], n["inproc"] = 1, 1, 1, 1, 1, 1
		w.lunsv.Store(true)
	}
	var wg sync.WaitGroup
	id := 0
	var keys []string
	for k := range n {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		for j := 0; j < n[k]; j++ {
			id++
			me, role, wr := id, k, rand.New(rand.NewSource(rng.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer w.cur[me].Store(0)
				defer func() {
					if p := recover(); p != nil {
						r.Inconclusive("harness panic in worker %s: %v", role, p)
					}
				}()
				w.work(me, role, wr)
			}()
		}
	}
	d := time.Duration(r.Q(7, 20)) * time.Second
	if kind == "shutdown" {
		time.Sleep(d / 3)
		w.down.Store(true)
		w.op(0, "close-driver")
		ch.CloseDrv()
		w.cur[0].Store(0)
		time.Sleep(d / 3)
	} else {
		time.Sleep(d)
	}
	w.stop.Store(true)
	done := make(chan bool)
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(3 * ini.Watchdog):
		r.Violate("hung:"+kind, cas, short(ch.Stacks(), 20000), "the workers did not come to an end: something is blocked")
		return
	}
	if !dead(r, ch, cas, "concurrent use, "+kind) && kind != "shutdown" {
		if err := progress(ch, 40); err != nil && !dead(r, ch, cas, "after concurrent use") {
			r.Violate("stuck-after:"+kind, cas, short(ch.Stacks(), 20000), "after the concurrent use a fresh session is not served: %v", err)
		}
		c18Mgmt(r, ch, cas, api)
	}
	ch.Stop()
	c18Races(r, ch, cas, kind)
	r.Add("episodes", 1)
}

// c18Mgmt asks every management interface once more: none may be blocked for good.
func c18Mgmt(r *ck.Run, ch *tgt.Child, cas, api string) {
	cl := http.Client{Timeout: ini.Watchdog, Transport: &http.Transport{}}
	defer cl.CloseIdleConnections()
	if resp, err := cl.Get("http://" + api + "/target/list"); err != nil {
		r.Violate("stuck-api", cas, short(ch.Stacks(), 20000), "the management API does not answer after the concurrent use: %v", err)
	} else {
		resp.Body.Close()
	}
	for _, f := range []struct {
		n string
		f func() error
	}{{"Stats", func() error { _, e := ch.Stats(); return e }}, {"Resize", func() error { return ch.Resize(1 << 20) }}, {"list", func() error { _, e := ch.Targets(); return e }},
		{"lun", func() error { return ch.Call("DelLUN", scsi.LUNMapping{TargetName: TN(0), LUN: 77}, &tgt.Void{}) }}} {
		if err := f.f(); err != nil && strings.Contains(err.Error(), "timed out") {
			r.Violate("stuck-mgmt:"+f.n, cas, short(ch.Stacks(), 20000), "%s does not return after the concurrent use", f.n)
		}
	}
}

var raceFrame = regexp.MustCompile(`(?m)^  (\S+)\(\)\n\s+(\S+?)(?::\d+)? `)

// c18Races judges the race detector's reports.
func c18Races(r *ck.Run, ch *tgt.Child, cas, kind string) {
	for _, blk := range ch.Races() {
		// the two accesses come before the goroutines' creation
		acc := blk
		if i := strings.Index(acc, "\nGoroutine "); i >= 0 {
			acc = acc[:i]
		}
		var site []string
		for _, part := range strings.Split(acc, "\n\n") {
			f := ""
			for _, m := range raceFrame.FindAllStringSubmatch(part, -1) {
				if strings.Contains(m[1], "gostor/gotgt") {
					f = m[1][strings.LastIndex(m[1], "/")+1:]
					break
				}
			}
			if f != "" {
				site = append(site, f)
			}
		}
		if len(site) == 0 {
			r.Add("race_reports_outside_gotgt", 1)
			continue
		}
		sort.Strings(site)
		r.Violate("race:"+strings.Join(site, "--"), cas, map[string]interface{}{"kind": kind, "report": short(blk, 8000)}, "data race between %s", strings.Join(site, " and "))
	}
}

func (w *c18w) login(k int, o ini.LoginOpts, may bool) *ini.Conn {
	o.Addr = w.ch.Spec.Addr()
	c, err := ini.Login(o)
	if err == nil {
		w.r.Add("sessions", 1)
		return c
	}
	if may || w.down.Load() || dead(w.r, w.ch, w.cas, "login") {
		return nil
	}
	w.r.Violate("login-failed", w.cas, short(w.ch.Stacks(), 8000), "a well-formed login failed during concurrent use: %v", err)
	w.stop.Store(true)
	return nil
}

func (w *c18w) work(k int, role string, rng *rand.Rand) {
	ch := w.ch
	isid := [6]byte{0x80, 0x18, 0, 0, 0, byte(k)}
	switch role {
	case "io", "resv":
		for gen := 0; !w.stop.Load(); gen++ {
			if w.down.Load() && gen > 0 {
				return
			}
			c := w.login(k, ini.LoginOpts{Target: TN(rng.Intn(2)), ISID: isid, Initiator: fmt.Sprintf("iqn.2020-01.verif:w%d", k), Security: gen%2 == 1}, false)
			if c == nil {
				return
			}
			s := &Sess{Conn: c, r: w.r, ch: ch, cas: w.cas}
			w.io(k, s, rng, 60+rng.Intn(200), role == "resv", 1+rng.Intn(12))
			switch rng.Intn(3) {
			case 0:
				c.Logout()
			case 1:
				c.Reset()
				continue
			}
			c.Close()
		}
	case "taker": // sessions that take over each other
		for !w.stop.Load() && !w.down.Load() {
			w.op(k, "take over")
			c := w.login(k, ini.LoginOpts{Target: TN(0), ISID: [6]byte{0x80, 0x18, 1, 0, 0, byte(k % 2)}, Initiator: "iqn.2020-01.verif:taker"}, true)
			if c == nil {
				continue
			}
			s := &Sess{Conn: c, r: w.r, ch: ch, cas: w.cas, bad: true}
			w.io(k, s, rng, 2+rng.Intn(20), rng.Intn(3) == 0, 4)
			if rng.Intn(3) == 0 {
				c.Logout()
			}
			c.Close()
		}
	case "churn":
		for gen := 0; !w.stop.Load() && !w.down.Load(); gen++ {
			o := ini.LoginOpts{Target: TN(rng.Intn(2)), ISID: [6]byte{0x80, 0x18, 2, byte(gen >> 8), byte(gen), byte(k)}, Initiator: fmt.Sprintf("iqn.2020-01.verif:c%d", k)}
			switch rng.Intn(8) {
			case 0:
				w.op(k, "failing login")
				o.Target = "iqn.2020-01.verif:none"
				w.login(k, o, true)
			case 1:
				w.op(k, "half login")
				o.Addr = ch.Spec.Addr()
				if rc, err := dialRaw(o); err == nil {
					rc.login(lreq{csg: 0, nsg: 1, t: true, kv: []ini.KV{{"InitiatorName", o.Initiator}, {"TargetName", o.Target}, {"SessionType", "Normal"}, {"AuthMethod", "None"}}})
					rc.close()
				}
			default:
				w.op(k, "log in and out")
				c := w.login(k, o, false)
				if c == nil {
					return
				}
				var t *ini.Task
				if rng.Intn(2) == 0 {
					t = c.Submit(ini.WriteCmd(ini.LUN(rng.Intn(2)), ini.WRITE10, uint64(rng.Intn(100)), 16, make([]byte, 8192), 0))
				}
				switch rng.Intn(4) {
				case 0:
					if t != nil {
						t.Wait()
					}
					c.Logout()
					c.Close()
				case 1:
					c.Reset()
				default:
					c.Close()
				}
			}
		}
	case "disco":
		for !w.stop.Load() && !w.down.Load() {
			w.op(k, "discovery")
			c := w.login(k, ini.LoginOpts{Discovery: true, ISID: isid, Initiator: fmt.Sprintf("iqn.2020-01.verif:d%d", k)}, false)
			if c == nil {
				return
			}
			for j := 0; j < 4; j++ {
				if _, _, err := c.TextAll([]ini.KV{{"SendTargets", "All"}}, false); err != nil {
					(&Sess{Conn: c, r: w.r, ch: ch, cas: w.cas}).failed(err, "SendTargets")
					w.stop.Store(true)
					break
				}
			}
			if rng.Intn(2) == 0 {
				c.Logout()
			}
			c.Close()
		}
	case "hostile":
		for !w.stop.Load() && !w.down.Load() {
			w.op(k, "hostile bytes")
			if rng.Intn(2) == 0 {
				if nc, err := ini.Dial(ini.LoginOpts{Addr: ch.Spec.Addr()}); err == nil {
					nc.Write(fill(rng, rng.Intn(300)))
					nc.Close()
				}
				continue
			}
			c := w.login(k, ini.LoginOpts{Target: TN(0), ISID: isid, Initiator: "iqn.2020-01.verif:h"}, false)
			if c == nil {
				return
			}
			for j := 0; j < 4; j++ {
				p := &ini.PDU{}
				rng.Read(p.H[:])
				p.H[0] = []byte{1, 2, 4, 5, 0x10, 0x1f, 0x41, 0x43}[rng.Intn(8)]
				p.H[4], p.H[5], p.H[6], p.H[7] = 0, 0, 0, 0
				c.SendRaw(p)
			}
			c.Nop(nil, true)
			c.Close()
		}
	case "list":
		cl := http.Client{Timeout: ini.Watchdog, Transport: &http.Transport{DisableKeepAlives: rng.Intn(2) == 0}}
		for !w.stop.Load() {
			w.op(k, "http list")
			resp, err := cl.Get("http://" + ch.Spec.API + []string{"/target/list", "/target/list", "/_ping", "/v1/target/list", "/nothing"}[rng.Intn(5)])
			if err != nil {
				if !dead(w.r, ch, w.cas, "http list") {
					w.r.Violate("api-unanswered", w.cas, short(ch.Stacks(), 8000), "the management API did not answer during concurrent use: %v", err)
				}
				w.stop.Store(true)
				return
			}
			io.Copy(io.Discard, resp.Body)
			resp.Body.Close()
		}
	case "inproc":
		for !w.stop.Load() {
			w.op(k, "list")
			ch.Targets()
		}
	case "stats":
		for !w.stop.Load() {
			w.op(k, "stats")
			if rng.Intn(2) == 0 {
				ch.Stats()
			} else if i := ch.HoldStats(); rng.Intn(2) == 0 {
				ch.HeldStats(i)
			}
		}
	case "mgmt":
		for !w.stop.Load() {
			switch rng.Intn(4) {
			case 0:
				w.op(k, "resize")
				ch.Resize(uint64(1<<20 - 512*rng.Intn(8)))
			case 1:
				w.op(k, "reread")
				ch.Call("DelLUN", scsi.LUNMapping{TargetName: TN(0), LUN: 99}, &tgt.Void{})
			case 2:
				w.op(k, "list")
				ch.Targets()
			default:
				w.op(k, "stats")
				ch.Stats()
			}
			time.Sleep(time.Duration(rng.Intn(3000)) * time.Microsecond)
		}
	case "lunmap":
		for gen := 0; !w.stop.Load(); gen++ {
			id := uint64(100 + 1000*k + gen)
			w.op(k, "add storage")
			ch.Call("AddStorage", config.BackendStorage{DeviceID: id, Path: "lag:65536:200", Online: true, ThinProvisioning: true, BlockShift: 9}, &tgt.Void{})
			m := scsi.LUNMapping{TargetName: TN(rng.Intn(2)), LUN: uint64(3 + rng.Intn(3)), DeviceID: id}
			if rng.Intn(3) == 0 { // a target that is still to come, or never does
				m.TargetName = TN(2 + rng.Intn(400))
				m.LUN = 0
			}
			if rng.Intn(4) == 0 {
				w.op(k, "add remote LUN")
				ch.Call("AddRemote", tgt.RemSpec{Target: TN(rng.Intn(2)), LUN: 6, DeviceID: id + 500, Name: "rem", Size: 1 << 20, Shift: 9}, &tgt.Void{})
			}
			if rng.Intn(2) == 0 {
				var b bool
				w.op(k, "portals")
				ch.Call("AddPortal", tgt.PortalArg{Target: m.TargetName, TPGT: 1, Portal: fmt.Sprintf("127.0.0.%d:%d", 2+rng.Intn(200), 1000+gen%60000)}, &tgt.Void{})
				ch.Call("HasPortal", tgt.PortalArg{Target: m.TargetName, TPGT: 1, Portal: "127.0.0.1:1"}, &b)
				ch.Call("GetLU", m, &b)
			}
			w.op(k, "add LUN")
			ch.Call("AddLUN", m, &tgt.Void{})
			time.Sleep(time.Duration(rng.Intn(4000)) * time.Microsecond)
			w.op(k, "delete LUN")
			ch.Call("DelLUN", m, &tgt.Void{})
			w.op(k, "delete storage")
			ch.Call("DelStorage", id, &tgt.Void{})
		}
	case "newtgt":
		for n := 2; n < 40 && !w.stop.Load(); n++ {
			w.op(k, "new target")
			ch.NewTarget(TN(n))
			if c := w.login(k, ini.LoginOpts{Target: TN(n), ISID: isid, Initiator: "iqn.2020-01.verif:n"}, false); c != nil {
				c.Do(ini.NoData(ini.LUN(0), make([]byte, 6)))
				c.Close()
			}
			time.Sleep(time.Duration(rng.Intn(60)) * time.Millisecond)
		}
	}
}

// io issues n requests with up to depth outstanding.
func (w *c18w) io(k int, s *Sess, rng *rand.Rand, n int, resv bool, depth int) {
	luns := 2
	if w.lunsv.Load() {
		luns = 7
	}
	key := uint64(0x1000 + k)
	var open []*ini.Task
	reap := func(max int) bool {
		for len(open) > max {
			j := rng.Intn(len(open))
			if err := open[j].Wait(); err != nil {
				if !s.bad { // a session others may take over just ends
					s.failed(err, "request during concurrent use ("+opName(open[j].Cmd.CDB[0])+")")
					w.stop.Store(true)
				}
				return false
			}
			open = append(open[:j], open[j+1:]...)
		}
		return true
	}
	for j := 0; j < n && !w.stop.Load(); j++ {
		lun := ini.LUN(rng.Intn(luns))
		lba := uint64(rng.Intn(200))
		if resv || rng.Intn(6) == 0 {
			lun = ini.LUN(2) // the reserved one
			if s.Opts.Target == TN(1) {
				lun = ini.LUN(1)
			}
		}
		q := rng.Intn(24)
		if resv && rng.Intn(2) == 0 {
			q = 24 + rng.Intn(4)
		}
		var c ini.Cmd
		switch {
		case q < 5:
			w.op(k, "read")
			c = ini.ReadCmd(lun, []byte{ini.READ6, ini.READ10, ini.READ12, ini.READ16}[rng.Intn(4)], lba, uint32(1+rng.Intn(64)), 512, 0)
		case q < 10:
			w.op(k, "write")
			nb := 1 + rng.Intn(64)
			op := []byte{ini.WRITE6, ini.WRITE10, ini.WRITE12, ini.WRITE16, ini.WRVER10, ini.ORWRITE}[rng.Intn(6)]
			c = ini.WriteCmd(lun, op, lba, uint32(nb), fill(rng, nb*512), 0)
			if rng.Intn(2) == 0 {
				c.Imm = rng.Intn(nb * 512)
			}
		case q < 12:
			w.op(k, "verify/sync")
			c = ini.NoData(lun, ini.RW([]byte{ini.VERIFY10, ini.SYNC10, ini.SYNC16, ini.PREFETCH}[rng.Intn(4)], lba, 8, 0))
		case q == 12:
			w.op(k, "unmap")
			ul := unmapList(umRange{lba, 4}, umRange{lba + 5, 1})
			c = ini.OutCmd(lun, unmapCDB(len(ul)), ul)
		case q == 13:
			w.op(k, "write same")
			c = ini.WriteCmd(lun, ini.WRSAME16, lba, 8, fill(rng, 512), 0)
		case q < 18:
			w.op(k, "parameter data")
			pc := paramCmds()
			x := pc[rng.Intn(len(pc))]
			c = ini.InCmd(lun, x.with(min(x.max(), 512)), 512)
		case q == 18:
			w.op(k, "ping")
			s.NopAsync(fill(rng, rng.Intn(64)), rng.Intn(2) == 0)
			continue
		case q == 19:
			w.op(k, "text")
			s.Text([]ini.KV{{"SendTargets", ""}}, false)
			continue
		case q == 20 || q == 21:
			w.op(k, "task management")
			ref := uint32(0xdead)
			if len(open) > 0 {
				ref = open[rng.Intn(len(open))].ITT
			}
			fn := byte(1 + rng.Intn(8))
			if len(open) > 0 || fn == 1 {
				fn = []byte{1, 3, 4, 6}[rng.Intn(4)]
			}
			if fn == 1 || fn == 2 || fn == 5 {
				if !reap(0) { // what would be aborted has no answer
					return
				}
			}
			s.TMF(fn, lun, ref, 0, rng.Intn(2) == 0)
			continue
		case q == 22:
			w.op(k, "unknown opcode")
			c = ini.NoData(lun, []byte{0xff, 0, 0, 0, 0, 0})
		case q == 23:
			w.op(k, "mode select")
			c = ini.NoData(lun, []byte{ini.MODESEL6, 0x10, 0, 0, 0, 0})
		case q == 24:
			w.op(k, "reserve")
			c = ini.NoData(lun, []byte{[]byte{ini.RESERVE6, ini.RELEASE6}[rng.Intn(2)], 0, 0, 0, 0, 0})
		case q == 25 || q == 26:
			w.op(k, "persistent reserve out")
			sa := []byte{0, 1, 2, 3, 4, 5, 6, 6, 1}[rng.Intn(9)]
			p := make([]byte, 24)
			if sa != 6 {
				binary.BigEndian.PutUint64(p, key)
			}
			binary.BigEndian.PutUint64(p[8:], []uint64{key, key, 0x1000 + uint64(rng.Intn(12)), 0}[rng.Intn(4)])
			cdb := []byte{ini.PROUT, sa, []byte{1, 3, 5, 6, 7, 8}[rng.Intn(6)], 0, 0, 0, 0, 0, 24, 0}
			c = ini.WriteCmd(lun, 0, 0, 0, p, 0)
			c.CDB = cdb
		default:
			w.op(k, "persistent reserve in")
			c = ini.InCmd(lun, []byte{ini.PRIN, byte(rng.Intn(4)), 0, 0, 0, 0, 0, 1, 0, 0}, 256)
		}
		open = append(open, s.Submit(c))
		if !reap(depth) {
			return
		}
	}
	reap(0)
}

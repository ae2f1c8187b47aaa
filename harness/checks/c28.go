package checks

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/ck"
	"verif/ini"
	"verif/mon"
	"verif/tgt"

	"github.com/gostor/gotgt/pkg/config"
	"github.com/gostor/gotgt/pkg/scsi"
)

func init() { All["C28"] = Check{Run: c28, Level: "exploration", Min: 1500} }

func c28(r *ck.Run) {
	r.Rule("one to four parties are stuck at the same time: a command held at a gate inside the store (read, write, sync, advise or unmap call), an initiator that does not read the data it asked for, a write that waits for its data, half a PDU, half a login, a connection that says nothing, half an HTTP request, a storage whose store takes long to open, a login that replaces a stuck session. Meanwhile sessions on the same LUN, other LUNs and another target read, write, synchronize, unmap, verify, reserve, register, ask, abort, reset units, log in and out and take their own nexus over, and the embedder lists targets, reads statistics, maps and unmaps LUNs, adds storage and a target, resizes and lists over HTTP: everything must be done while the stuck ones are still stuck (seen at the gate afterwards). Then the stuck ones go on and must get what they asked for. Distinct by (kind of stall, operation)")
	r.Assume("an operation counts as held up when it is not done within the watchdog of the initiator (12 s) although nothing it asks for is held")
	r.Each(r.Q(120, 1500), 6, func(i int) { c28Episode(r, i) })
}

// c28w is one world: TN(0) with LUN 0 (thin), 1, 2 (read-only pattern) and one
// LUN 10+j for each bystander; TN(1) with LUN 0 and LUN 3, which is LUN 1 of TN(0).
type c28w struct {
	r      *ck.Run
	ch     *tgt.Child
	cas    string
	bs     int
	stalls []*c28stall
	kinds  string
	mu     sync.Mutex
	over   bool
	hc     *http.Client
	pat    []byte
}

// c28stall is something stuck.
type c28stall struct {
	kind    string
	still   func() bool // whether it is stuck, as far as can be seen
	release func()
	finish  func() bool // what the stuck party gets in the end
	opts    *ini.LoginOpts
	frees   bool // a login of the same nexus need not wait
	gone    bool // its session has been replaced
}

func (w *c28w) bad(sig string, det interface{}, f string, a ...interface{}) {
	w.mu.Lock()
	first := !w.over
	w.over = true
	w.mu.Unlock()
	if first && !dead(w.r, w.ch, w.cas, sig) {
		w.r.Violate(sig, w.cas, map[string]interface{}{"detail": det, "stuck": w.kinds, "stacks": short(w.ch.Stacks(), 6000)}, f, a...)
	}
}
func (w *c28w) ended() bool { w.mu.Lock(); defer w.mu.Unlock(); return w.over }

// held reports an operation that was not served.
func (w *c28w) held(op string, s *Sess, err error) {
	var tr []string
	if s != nil {
		tr = tail(s.Trace(), 10)
	}
	w.bad("held-up:"+firstWord(op), tr, "%s was not served while [%s] stuck: %v", op, w.kinds, err)
}

// cmd does a command on a bystander's session.
func (w *c28w) cmd(s *Sess, c ini.Cmd, op string) (*ini.Task, bool) {
	t := s.Submit(c)
	if err := t.Wait(); err != nil {
		w.held(op, s, err)
		return t, false
	}
	return t, true
}

func (w *c28w) login(o ini.LoginOpts, op string) *Sess {
	if o.Addr == "" {
		o.Addr = w.ch.Spec.Addr()
	}
	if o.Target == "" && !o.Discovery {
		o.Target = TN(0)
	}
	c, err := ini.Login(o)
	if err != nil {
		w.held(op, nil, err)
		return nil
	}
	return &Sess{Conn: c, r: w.r, ch: w.ch, cas: w.cas}
}

// call runs something of the embedder with the watchdog.
func (w *c28w) call(op string, f func() error) bool {
	done := make(chan error, 1)
	go func() { done <- f() }()
	select {
	case err := <-done:
		if err != nil && !w.ended() {
			w.bad("call-failed:"+firstWord(op), nil, "%s failed while [%s] stuck: %v", op, w.kinds, err)
			return false
		}
		return true
	case <-time.After(ini.Watchdog):
		w.held(op, nil, fmt.Errorf("not done within %v", ini.Watchdog))
		return false
	}
}

func c28ISID(a, b int) [6]byte { return [6]byte{0x80, 0x28, 0, byte(a), byte(b >> 8), byte(b)} }

func c28Episode(r *ck.Run, i int) {
	rng := r.Rng("ep", i)
	cas := fmt.Sprint(i)
	shift := uint(9 + 3*(i%2))
	const by = 3
	size := int64(2 << 20)
	dv := func(id uint64, n string, thin bool) Dev {
		return Dev{ID: id, Name: n, Size: size, Shift: shift, Thin: thin}
	}
	devs := []Dev{dv(1, "a", true), dv(2, "b", i%3 == 0), dv(3, "c", false)}
	sp := spec1(devs...)
	t0 := sp.Config.ISCSITargets[TN(0)]
	for j := 0; j < by; j++ {
		d := dv(uint64(10+j), fmt.Sprint("own", j), false)
		sp.Config.Storages = append(sp.Config.Storages, d.storage())
		t0.LUNs[fmt.Sprint(10+j)] = d.ID
	}
	for k := 0; k < 4; k++ {
		d := dv(uint64(20+k), fmt.Sprint("stuck", k), false)
		sp.Config.Storages = append(sp.Config.Storages, d.storage())
		t0.LUNs[fmt.Sprint(20+k)] = d.ID
	}
	d := dv(4, "d", false)
	sp.Config.Storages = append(sp.Config.Storages, d.storage())
	sp.Config.ISCSITargets[TN(1)] = config.ISCSITarget{TPGTs: map[string][]uint64{"1": {0}}, LUNs: map[string]uint64{"0": 4, "3": 2}}
	sp.Config.ISCSITargets[TN(2)] = config.ISCSITarget{TPGTs: map[string][]uint64{"1": {0}}, LUNs: map[string]uint64{"0": 4}}
	sp.LateTgts = []string{TN(2)}
	sp.Stats = i%2 == 0
	sp.API = fmt.Sprintf("127.0.0.1:%d", tgt.FreePort())
	ch := start(r, cas, sp, false)
	if ch == nil {
		return
	}
	defer ch.Stop()
	w := &c28w{r: r, ch: ch, cas: cas, bs: 1 << shift, pat: fill(rng, int(size))}
	w.hc = &http.Client{Timeout: ini.Watchdog, Transport: &http.Transport{DisableKeepAlives: true}}
	ch.Poke("c", 0, w.pat)

	// the bystanders are there before, or come when the others are stuck already
	sess := make([]*Sess, by)
	for j := range sess {
		if rng.Intn(3) > 0 {
			if sess[j] = login(r, ch, cas, w.byOpts(j)); sess[j] == nil {
				return
			}
		}
	}
	all := []string{"read", "write", "sync", "advise", "unmap", "no-reading", "no-data", "half-pdu", "half-login", "silent", "http", "open"}
	n := 1 + rng.Intn(4)
	var kinds []string
	for k := 0; k < n; k++ {
		kind := all[(i+k*5)%len(all)]
		if k > 0 && rng.Intn(3) == 0 {
			kind = all[rng.Intn(len(all))]
		}
		st := w.stall(k, kind, rng)
		if st == nil {
			w.free()
			return
		}
		w.stalls = append(w.stalls, st)
		kinds = append(kinds, kind)
	}
	// a login that replaces a session stuck in the store waits for that, and must not keep others waiting
	type waiting struct {
		st *c28stall
		ch chan error
		c  *ini.Conn
	}
	var replacing []*waiting
	for _, st := range w.stalls {
		if st.opts != nil && rng.Intn(4) == 0 {
			x := &waiting{st: st, ch: make(chan error, 1)}
			st.gone = true
			o := *st.opts
			kinds = append(kinds, "replacing-"+st.kind)
			go func() {
				c, err := ini.Login(o)
				for try := 0; err != nil && try < 3; try++ { // the initiator gives up while the old session is stuck
					c, err = ini.Login(o)
				}
				x.c = c
				x.ch <- err
			}()
			replacing = append(replacing, x)
		}
	}
	w.kinds = strings.Join(kinds, ", ")
	for _, x := range replacing {
		if x.st.frees { // nothing but the initiator keeps the old session
			select {
			case err := <-x.ch:
				if err != nil {
					w.bad("replace-failed", nil, "a login that replaces a session stuck by its initiator (%s) failed: %v", x.st.kind, err)
				}
				x.ch <- err
				r.Eval("replaced-" + x.st.kind)
			case <-time.After(3 * ini.Watchdog):
				w.bad("held-up:replacing-login", nil, "a login that replaces a session stuck by its initiator (%s) got no answer", x.st.kind)
			}
		}
	}

	var wg sync.WaitGroup
	seeds := make([]int64, by+1)
	for j := range seeds {
		seeds[j] = rng.Int63()
	}
	ops := 14 + rng.Intn(16)
	for j := 0; j < by; j++ {
		j := j
		wg.Add(1)
		go func() {
			defer wg.Done()
			w.bystander(j, sess[j], rand.New(rand.NewSource(seeds[j])), ops)
		}()
	}
	wg.Add(1)
	go func() {
		defer wg.Done()
		w.embedder(rand.New(rand.NewSource(seeds[by])), ops/2)
	}()
	wg.Wait()
	held := true
	for _, st := range w.stalls {
		if !st.gone && !st.still() {
			held = false
			if !w.ended() {
				w.bad("not-stuck:"+st.kind, nil, "the stall %q did not last: what was held is done", st.kind)
			}
		}
	}
	if held {
		r.Add("stalls_held", int64(len(w.stalls)))
	}
	if rng.Intn(4) == 0 && !w.ended() { // the listener closes all the same
		w.call("Close", ch.CloseDrv)
		r.Eval("close")
	}
	w.free()
	if w.ended() {
		return
	}
	for _, x := range replacing {
		select {
		case err := <-x.ch:
			if err != nil && rng != nil && !strings.Contains(err.Error(), "refused") {
				w.bad("replace-failed", nil, "the login that replaces a stuck session (%s) failed after the stall: %v", x.st.kind, err)
			} else if x.c != nil {
				x.c.Close()
			}
		case <-time.After(4 * ini.Watchdog):
			w.bad("replace-hung", nil, "the login that replaces a stuck session (%s) got no answer after the stall", x.st.kind)
		}
		r.Add("replacing_logins", 1)
	}
	for _, st := range w.stalls {
		if !st.gone && !st.finish() {
			return
		}
	}
	r.Add("stalls_ended_well", int64(len(w.stalls)))
}

// free ends all stalls.
func (w *c28w) free() {
	for _, st := range w.stalls {
		st.release()
	}
}

// stall makes party k stuck.
func (w *c28w) stall(k int, kind string, rng *rand.Rand) *c28stall {
	r, ch, cas, bs := w.r, w.ch, w.cas, w.bs
	o := ini.LoginOpts{Addr: ch.Spec.Addr(), Target: TN(0), Initiator: fmt.Sprintf("iqn.2020-01.verif:stuck%d", k), ISID: c28ISID(1, k)}
	base := uint64(32 * k) // its blocks on every device
	nb := uint32(1 + rng.Intn(16))
	l := rng.Intn(2)
	dev := []string{"a", "b"}[l]
	if kind == "unmap" {
		l, dev = 0, "a"
	}
	L := ini.LUN(l)
	switch kind {
	case "read", "write", "sync", "advise", "unmap":
		s := login(r, ch, cas, o)
		if s == nil {
			return nil
		}
		data := fill(rng, int(nb)*bs)
		var cm ini.Cmd
		var want []byte
		wrote := false
		switch kind {
		case "read":
			switch rng.Intn(4) {
			case 0:
				cm = ini.NoData(L, ini.RW(ini.VERIFY10, base, nb, 0))
				cm = ini.OutCmd(L, ini.RW([]byte{ini.VERIFY10, ini.VERIFY16}[rng.Intn(2)], base, nb, 2), make([]byte, len(data)))
			case 1:
				cm, wrote = ini.WriteCmd(L, ini.ORWRITE, base, nb, data, 0), true
			default:
				cm, want = ini.ReadCmd(L, []byte{ini.READ6, ini.READ10, ini.READ12, ini.READ16}[rng.Intn(4)], base, nb, bs, 0), make([]byte, len(data))
			}
		case "write":
			cm, wrote = ini.WriteCmd(L, []byte{ini.WRITE6, ini.WRITE10, ini.WRITE12, ini.WRITE16, ini.WRVER10, ini.ORWRITE}[rng.Intn(6)], base, nb, data, 0), true
		case "sync":
			if rng.Intn(2) == 0 {
				cm = ini.NoData(L, ini.RW([]byte{ini.SYNC10, ini.SYNC16}[rng.Intn(2)], base, nb, 0))
			} else {
				cm, wrote = ini.WriteCmd(L, []byte{ini.WRITE10, ini.WRITE12, ini.WRITE16}[rng.Intn(3)], base, nb, data, 8), true
			}
		case "advise":
			cm = ini.NoData(L, ini.RW([]byte{ini.PREFETCH, ini.PREFETCH16}[rng.Intn(2)], base, nb, 0))
		case "unmap":
			p := unmapList(umRange{base, nb})
			cm = ini.OutCmd(L, unmapCDB(len(p)), p)
		}
		if kind != "unmap" && rng.Intn(4) == 0 { // a LUN of its own, which it has reserved
			L, dev = ini.LUN(20+k), fmt.Sprint("stuck", k)
			copy(cm.LUN[:], L[:])
			var t *ini.Task
			if rng.Intn(2) == 0 {
				t = s.Submit(ini.NoData(L, []byte{0x16, 0, 0, 0, 0, 0}))
			} else {
				p := make([]byte, 24)
				p[15] = 7
				if t = s.Submit(ini.OutCmd(L, []byte{0x5f, 0, 0, 0, 0, 0, 0, 0, 24, 0}, p)); t.Wait() == nil && t.Status == 0 {
					p[7], p[15] = 7, 0
					t = s.Submit(ini.OutCmd(L, []byte{0x5f, 1, 3, 0, 0, 0, 0, 0, 24, 0}, p))
				}
			}
			if !s.wait(t, "RESERVE") {
				return nil
			}
			r.Add("stalls_of_a_holder", 1)
		}
		g := fmt.Sprint("g", k)
		f := mon.Fault{Dev: dev, Kind: kind, Mode: "gate", Gate: g, Count: 1, Off: int64(base) * int64(bs), Len: int64(nb) * int64(bs)}
		if kind == "unmap" {
			f.Off, f.Len = 0, 0
		}
		ch.AddFault(f)
		t := s.Submit(cm)
		for end := time.Now().Add(ini.Watchdog); ch.AtGate(g) == 0; time.Sleep(time.Millisecond) {
			if t.Done() || time.Now().After(end) { // this command needs no such call
				r.Add("no_stall", 1)
				if !t.Done() {
					s.wait(t, "command")
				}
				return &c28stall{kind: kind + "(none)", still: func() bool { return true }, release: func() { s.Close() }, finish: func() bool { return true }}
			}
		}
		after := []*ini.Task{s.Submit(ini.NoData(L, make([]byte, 6))), s.Submit(ini.ReadCmd(L, ini.READ10, base, nb, bs, 0))}
		var once sync.Once
		return &c28stall{kind: kind, opts: &o,
			still:   func() bool { return !t.Done() && !after[0].Done() || after[0].Done() && !t.Done() },
			release: func() { once.Do(func() { ch.Release(g) }) },
			finish: func() bool {
				defer s.Close()
				for _, x := range append([]*ini.Task{t}, after...) {
					if !s.wait(x, "command that was stuck") {
						return false
					}
					if x.Status != 0 {
						r.Violate("stuck-failed:"+kind, cas, tail(s.Trace(), 10), "a command held in the store's %s call ended with %s", kind, x.Outcome())
						return false
					}
				}
				if want != nil && !bytes.Equal(t.Data, want) {
					r.Violate("stuck-data", cas, nil, "a read held in the store returned other data, from byte %d", diffAt(t.Data, want))
				}
				if wrote && !bytes.Equal(after[1].Data, data) {
					r.Violate("stuck-data", cas, nil, "a write held in the store's %s call: the read after it returns other data, from byte %d", kind, diffAt(after[1].Data, data))
				}
				return true
			}}
	case "open": // a storage that takes long to open
		g, name := fmt.Sprint("g", k), fmt.Sprint("late", k)
		ch.AddFault(mon.Fault{Dev: name, Kind: "open", Mode: "gate", Gate: g, Count: 1})
		done := make(chan error, 1)
		id := uint64(700 + k)
		b := config.BackendStorage{DeviceID: id, Path: fmt.Sprintf("mon:%s:%d", name, 1<<20), Online: true, BlockShift: 9}
		var over atomic.Bool
		go func() {
			err := ch.CallHeld("AddStorage", b, &tgt.Void{})
			over.Store(true)
			done <- err
		}()
		for end := time.Now().Add(ini.Watchdog); ch.AtGate(g) == 0; time.Sleep(time.Millisecond) {
			if time.Now().After(end) {
				w.held("AddStorage", nil, fmt.Errorf("the storage was not opened within %v", ini.Watchdog))
				return nil
			}
		}
		var once sync.Once
		return &c28stall{kind: kind, still: func() bool { return !over.Load() }, release: func() { once.Do(func() { ch.Release(g) }) },
			finish: func() bool {
				select {
				case err := <-done:
					if err != nil {
						r.Violate("stuck-failed:open", cas, nil, "adding a storage that took long to open failed: %v", err)
						return false
					}
				case <-time.After(ini.Watchdog):
					r.Violate("stuck-failed:open", cas, short(ch.Stacks(), 6000), "adding a storage is not done when its store has been opened")
					return false
				}
				if err := ch.Call("AddLUN", scsi.LUNMapping{TargetName: TN(0), LUN: uint64(40 + k), DeviceID: id}, &tgt.Void{}); err != nil {
					r.Violate("stuck-failed:open", cas, nil, "a storage that took long to open cannot be mapped: %v", err)
					return false
				}
				return true
			}}
	case "no-reading":
		o.MRDSL = uint32([]int{0, 8192, 65536}[rng.Intn(3)])
		s := login(r, ch, cas, o)
		if s == nil {
			return nil
		}
		s.PauseReading()
		const cmds = 40
		n := uint32(1 << 20 / bs)
		var ts []*ini.Task
		for j := 0; j < cmds; j++ {
			ts = append(ts, s.Submit(ini.ReadCmd(ini.LUN(2), ini.READ10, uint64(j%2)*uint64(n), n, bs, 0)))
		}
		reads := func() int {
			n := 0
			for _, e := range ch.Events(0, false) {
				if e.Dev == "c" && e.Kind == "read" && e.Len == 1<<20 {
					n++
				}
			}
			return n
		}
		end := time.Now().Add(ini.Watchdog)
		for last, same := -1, 0; same < 5; time.Sleep(10 * time.Millisecond) { // until the server is stuck in sending
			x := reads()
			if x == 0 && time.Now().After(end) {
				var ks []string
				for _, st := range w.stalls {
					ks = append(ks, st.kind)
				}
				w.kinds = strings.Join(ks, ", ")
				w.held("read before the stall", s, fmt.Errorf("no READ of an initiator on its own LUN was begun within %v", ini.Watchdog))
				s.ResumeReading()
				s.Close()
				return nil
			}
			if x == last && x > 0 {
				same++
			} else {
				last, same = x, 0
			}
		}
		r.Max("reads_before_stuck", int64(reads()))
		var once sync.Once
		return &c28stall{kind: kind, opts: &o, frees: true,
			still:   func() bool { return reads() < cmds },
			release: func() { once.Do(func() { s.ResumeReading() }) },
			finish: func() bool {
				defer s.Close()
				for j, t := range ts {
					if !s.wait(t, "READ whose data was not read") {
						return false
					}
					off := j % 2 << 20
					if t.Status != 0 || !bytes.Equal(t.Data, w.pat[off:off+1<<20]) {
						r.Violate("stuck-data", cas, tail(s.Trace(), 6), "read %d of an initiator that paused ended with %s, data differs at %d", j, t.Outcome(), diffAt(t.Data, w.pat[off:off+1<<20]))
						return false
					}
				}
				return true
			}}
	case "no-data":
		s := login(r, ch, cas, o)
		if s == nil {
			return nil
		}
		data := fill(rng, int(nb)*bs)
		cm := ini.WriteCmd(L, ini.WRITE10, base, nb, data, 0)
		cm.Hold, cm.Imm = true, rng.Intn(len(data))
		t := s.Submit(cm)
		q, ok := t.NextR2T(ini.Watchdog)
		if !ok {
			s.failed(fmt.Errorf("no R2T"), "WRITE without its data")
			return nil
		}
		var once sync.Once
		return &c28stall{kind: kind, opts: &o, frees: true,
			still:   func() bool { return !t.Done() },
			release: func() { once.Do(func() { t.Answer(q, 0) }) },
			finish: func() bool {
				defer s.Close()
				if !s.wait(t, "WRITE whose data came late") {
					return false
				}
				rd, ok := s.cmd(ini.ReadCmd(L, ini.READ10, base, nb, bs, 0), "READ(10)")
				if ok && (t.Status != 0 || rd.Status != 0 || !bytes.Equal(rd.Data, data)) {
					r.Violate("stuck-data", cas, tail(s.Trace(), 10), "a write whose data came late ended with %s, then the read %s differs at %d", t.Outcome(), rd.Outcome(), diffAt(rd.Data, data))
				}
				return ok
			}}
	case "half-pdu", "half-login", "silent":
		c, err := dialRaw(o)
		if err != nil {
			w.held("connect", nil, err)
			return nil
		}
		kv := []ini.KV{{K: "InitiatorName", V: o.Initiator}, {K: "TargetName", V: o.Target}, {K: "SessionType", V: "Normal"}}
		lq := lreq{csg: 1, nsg: 3, t: true, kv: kv}
		st := &c28stall{kind: kind, still: func() bool { return true }}
		var rest []byte
		var want *ini.PDU
		switch kind {
		case "half-pdu":
			if p, err := c.login(lq); err != nil || p.Op() != ini.OpLoginResp || p.H[36] != 0 {
				w.held("login", nil, fmt.Errorf("%v %v", p, err))
				return nil
			}
			data := fill(rng, int(nb)*bs)
			if nb > 4 && bs > 512 { // immediate data within what is taken without negotiation
				nb = 4
				data = data[:int(nb)*bs]
			}
			want = c.scsi(L, ini.RW(ini.WRITE10, base, nb, 0), 0x20, uint32(len(data)), data)
			b := want.Bytes()
			cut := []int{1, 20, 47, 48, 49, 48 + len(data)/2, len(b) - 1}[rng.Intn(7)]
			c.nc.Write(b[:cut])
			rest = b[cut:]
			st.opts, st.frees = &o, true
		case "half-login":
			switch rng.Intn(3) {
			case 0:
				if p, err := c.login(lreq{csg: 0, nsg: 1, t: true, kv: kv}); err != nil || p.H[36] != 0 {
					w.held("login", nil, fmt.Errorf("%v %v", p, err))
					return nil
				}
				lq.kv = nil
			case 1:
				if p, err := c.login(lreq{csg: 1, nsg: 0, kv: kv}); err != nil || p.H[36] != 0 {
					w.held("login", nil, fmt.Errorf("%v %v", p, err))
					return nil
				}
				lq.kv = nil
			default:
				b := ini.LoginPDU(&c.o, 1, 3, true, c.itt, kv).Bytes()
				cut := 1 + rng.Intn(len(b)-1)
				c.nc.Write(b[:cut])
				rest = b[cut:]
			}
		}
		var once sync.Once
		st.release = func() {
			once.Do(func() {
				if rest != nil {
					c.nc.Write(rest)
				}
			})
		}
		st.finish = func() bool {
			defer c.close()
			if kind == "half-pdu" {
				p, err := c.recv(ini.Watchdog)
				if err != nil || p.Op() != ini.OpResp || p.ITT() != want.ITT() || p.H[3] != 0 {
					w.bad("stuck-unanswered", c.log, "the write whose PDU came in two parts was answered %v (%v)", p, err)
				}
				return true
			}
			var p *ini.PDU
			var err error
			if rest != nil {
				p, err = c.recv(ini.Watchdog)
			} else {
				p, err = c.login(lq)
			}
			if err != nil || p.Op() != ini.OpLoginResp || p.H[36] != 0 || p.H[1]&0x83 != 0x83 {
				w.bad("stuck-login", c.log, "a login that paused was answered %v (%v)", p, err)
			}
			return true
		}
		return st
	case "http":
		nc, err := net.Dial("tcp", ch.Spec.API)
		if err != nil {
			w.held("HTTP connect", nil, err)
			return nil
		}
		q := "GET /target/list HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n"
		cut := 1 + rng.Intn(len(q)-2)
		io.WriteString(nc, q[:cut])
		var once sync.Once
		return &c28stall{kind: kind, still: func() bool { return true },
			release: func() { once.Do(func() { io.WriteString(nc, q[cut:]) }) },
			finish: func() bool {
				defer nc.Close()
				nc.SetReadDeadline(time.Now().Add(ini.Watchdog))
				b, _ := io.ReadAll(nc)
				if !bytes.HasPrefix(b, []byte("HTTP/1.1 200")) {
					w.bad("stuck-http", string(b), "an HTTP request that came in two parts was answered %q", short(string(b), 60))
				}
				return true
			}}
	}
	return nil
}

func (w *c28w) byOpts(j int) ini.LoginOpts {
	return ini.LoginOpts{Addr: w.ch.Spec.Addr(), Target: TN(0), Initiator: fmt.Sprintf("iqn.2020-01.verif:by%d", j), ISID: c28ISID(2, j)}
}

// bystander uses a session while others are stuck.
func (w *c28w) bystander(j int, s *Sess, rng *rand.Rand, ops int) {
	if s == nil {
		if s = w.login(w.byOpts(j), "login"); s == nil {
			return
		}
	}
	defer func() { s.Close() }()
	other := w.login(ini.LoginOpts{Target: TN(1), Initiator: fmt.Sprintf("iqn.2020-01.verif:by%d", j), ISID: c28ISID(2, j)}, "login to another target")
	if other == nil {
		return
	}
	defer other.Close()
	bs := w.bs
	model := map[string][]byte{}
	base := uint64(200 + 32*j) // its blocks on the devices it shares
	own := ini.LUN(10 + j)
	for k := 0; k < ops && !w.ended(); k++ {
		// where
		type place struct {
			s   *Sess
			L   [8]byte
			dev string
		}
		p := []place{{s, ini.LUN(0), "a"}, {s, ini.LUN(1), "b"}, {s, own, fmt.Sprint("own", j)}, {other, ini.LUN(0), "d"}, {other, ini.LUN(3), "b"}}[rng.Intn(5)]
		nb := 1 + rng.Intn(24)
		if model[p.dev] == nil {
			model[p.dev] = make([]byte, 32*bs)
		}
		m := model[p.dev]
		op := ""
		good := func(t *ini.Task, ok bool) bool {
			if ok && t.Status != 0 {
				w.bad("bystander-failed:"+firstWord(op), tail(p.s.Trace(), 8), "%s of a bystander ended with %s while [%s] stuck", op, t.Outcome(), w.kinds)
				return false
			}
			return ok
		}
		switch x := rng.Intn(20); x {
		case 0, 1, 2, 3:
			op = "WRITE"
			d := fill(rng, nb*bs)
			c := []byte{ini.WRITE6, ini.WRITE10, ini.WRITE12, ini.WRITE16, ini.WRVER10, ini.WRVER16}[rng.Intn(6)]
			fl := byte(0)
			if c == ini.WRITE10 || c == ini.WRITE16 {
				fl = byte(8 * rng.Intn(2))
			}
			cm := ini.WriteCmd(p.L, c, base, uint32(nb), d, fl)
			if rng.Intn(2) == 0 {
				cm.Imm = rng.Intn(len(d))
			}
			if !good(w.cmd(p.s, cm, op)) {
				return
			}
			copy(m, d)
		case 4, 5, 6:
			op = "READ"
			t, ok := w.cmd(p.s, ini.ReadCmd(p.L, []byte{ini.READ6, ini.READ10, ini.READ12, ini.READ16}[rng.Intn(4)], base, uint32(nb), bs, 0), op)
			if !good(t, ok) {
				return
			}
			if !bytes.Equal(t.Data, m[:nb*bs]) {
				w.bad("bystander-data", tail(p.s.Trace(), 8), "a read of a bystander differs from byte %d while [%s] stuck", diffAt(t.Data, m[:nb*bs]), w.kinds)
				return
			}
		case 7:
			op = "SYNC"
			if !good(w.cmd(p.s, ini.NoData(p.L, ini.RW([]byte{ini.SYNC10, ini.SYNC16}[rng.Intn(2)], base, uint32(nb), 0)), op)) {
				return
			}
		case 8:
			op = "VERIFY"
			if !good(w.cmd(p.s, ini.OutCmd(p.L, ini.RW([]byte{ini.VERIFY10, ini.VERIFY16}[rng.Intn(2)], base, uint32(nb), 2), m[:nb*bs]), op)) {
				return
			}
		case 9:
			op = "UNMAP"
			if p.dev != "a" {
				continue
			}
			// the store under test leaves the content alone
			l := unmapList(umRange{base, uint32(nb)})
			if !good(w.cmd(p.s, ini.OutCmd(p.L, unmapCDB(len(l)), l), op)) {
				return
			}
		case 10:
			op = "ask"
			cdb := [][]byte{make([]byte, 6), {ini.INQUIRY, 0, 0, 0, 255, 0}, {ini.INQUIRY, 1, 0x83, 0, 255, 0}, {ini.REQSENSE, 0, 0, 0, 255, 0}, {ini.MODESNS6, 0, 0x3f, 0, 255, 0}, {ini.RPTLUNS, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0}, {ini.READCAP10, 0, 0, 0, 0, 0, 0, 0, 0, 0}, {ini.PRIN, 0, 0, 0, 0, 0, 0, 1, 0, 0}}[rng.Intn(8)]
			cm := ini.InCmd(p.L, cdb, 256)
			if cdb[0] == 0 {
				cm = ini.NoData(p.L, cdb)
			}
			op = fmt.Sprintf("ask-%02x", cdb[0])
			if !good(w.cmd(p.s, cm, op)) {
				return
			}
		case 11:
			op = "RESERVE"
			p.s = s
			for _, o := range []byte{ini.RESERVE6, ini.RELEASE6} {
				if !good(w.cmd(s, ini.NoData(own, []byte{o, 0, 0, 0, 0, 0}), op)) {
					return
				}
			}
		case 12:
			op = "PERSISTENT-RESERVE"
			p.s = s
			for _, sa := range []byte{6, 1, 2, 3} { // register, reserve, release, clear
				b := make([]byte, 24)
				if sa == 6 {
					b[15] = byte(1 + j)
				} else {
					b[7] = byte(1 + j)
				}
				typ := byte(3)
				if sa == 6 || sa == 3 {
					typ = 0
				}
				if !good(w.cmd(s, ini.OutCmd(own, []byte{ini.PROUT, sa, typ, 0, 0, 0, 0, 0, 24, 0}, b), op)) {
					return
				}
			}
		case 13, 14:
			op = "TASK-MANAGEMENT"
			fn := []byte{1, 2, 5, 5}[rng.Intn(4)]
			var a *ini.PDU
			var err error
			if a, err = p.s.TMF(fn, p.L, 0x7fffff, 0, rng.Intn(2) == 0); err != nil {
				w.held(op, p.s, err)
				return
			}
			if want := byte(b2i(fn == 1)); a.H[2] != want {
				w.bad("bystander-tmf", tail(p.s.Trace(), 6), "task management function %d of a bystander was answered %d, not %d, while [%s] stuck", fn, a.H[2], want, w.kinds)
				return
			}
		case 15:
			op = "NOP"
			if _, err := p.s.Nop([]byte("ping"), rng.Intn(2) == 0); err != nil {
				w.held(op, p.s, err)
				return
			}
		case 16:
			op = "discovery"
			c := w.login(ini.LoginOpts{Discovery: true, Initiator: fmt.Sprintf("iqn.2020-01.verif:disc%d", j), ISID: c28ISID(3, k)}, op)
			if c == nil {
				return
			}
			kv, _, err := c.TextAll([]ini.KV{{K: "SendTargets", V: "All"}}, false)
			if err != nil || len(kv) < 4 {
				w.held(op, c, fmt.Errorf("%d keys, %v", len(kv), err))
				c.Close()
				return
			}
			c.Close()
		case 17, 18:
			op = "login-logout"
			c := w.login(ini.LoginOpts{Target: TN(rng.Intn(2)), Initiator: fmt.Sprintf("iqn.2020-01.verif:new%d", j), ISID: c28ISID(4, k), Security: rng.Intn(2) == 0}, op)
			if c == nil {
				return
			}
			if _, ok := w.cmd(c, ini.NoData(ini.LUN(0), make([]byte, 6)), op); !ok {
				return
			}
			if rng.Intn(2) == 0 {
				if _, err := c.Logout(); err != nil {
					w.held(op, c, err)
					return
				}
			}
			c.Close()
		default:
			op = "takeover" // of its own session
			n := w.login(w.byOpts(j), op)
			if n == nil {
				return
			}
			s.Close()
			s = n
			p.s = s
			if _, ok := w.cmd(s, ini.NoData(ini.LUN(0), make([]byte, 6)), op); !ok {
				return
			}
		}
		w.r.Add("bystander_operations", 1)
		for _, st := range w.stalls {
			w.r.Eval(st.kind + " " + op)
		}
	}
}

// embedder manages the target while others are stuck.
func (w *c28w) embedder(rng *rand.Rand, ops int) {
	late := false
	for k := 0; k < ops && !w.ended(); k++ {
		op := ""
		ok := true
		switch rng.Intn(8) {
		case 0:
			op = "Stats"
			ok = w.call(op, func() error { _, err := w.ch.Stats(); return err })
		case 1:
			op = "GetTargetList"
			ok = w.call(op, func() error { _, err := w.ch.Targets(); return err })
		case 2, 3:
			op = "AddLUN"
			m := scsi.LUNMapping{TargetName: TN(rng.Intn(2)), LUN: uint64(50 + k), DeviceID: 4}
			var v tgt.Void
			ok = w.call(op, func() error { return w.ch.Call("AddLUN", m, &v) })
			if ok && rng.Intn(2) == 0 {
				op = "DelLUN"
				ok = w.call(op, func() error { return w.ch.Call("DelLUN", m, &v) })
			}
		case 4:
			op = "Resize"
			ok = w.call(op, func() error { return w.ch.Resize(2 << 20) })
		case 5:
			if late {
				continue
			}
			op, late = "NewTarget", true
			ok = w.call(op, func() error { return w.ch.NewTarget(TN(2)) })
			if ok {
				if c := w.login(ini.LoginOpts{Target: TN(2), Initiator: "iqn.2020-01.verif:late", ISID: c28ISID(5, k)}, "login to a new target"); c != nil {
					c.Close()
				}
			}
		case 6:
			op = "AddStorage"
			b := config.BackendStorage{DeviceID: uint64(1000 + k), Path: fmt.Sprintf("mon:x%d:%d", k, 1<<20), Online: true}
			var v tgt.Void
			ok = w.call(op, func() error { return w.ch.Call("AddStorage", b, &v) })
		default:
			op = "HTTP-list"
			ok = w.call(op, func() error {
				resp, err := w.hc.Get("http://" + w.ch.Spec.API + "/target/list")
				if err != nil {
					return err
				}
				defer resp.Body.Close()
				b, _ := io.ReadAll(resp.Body)
				if resp.StatusCode != 200 || !bytes.Contains(b, []byte(TN(1))) {
					return fmt.Errorf("status %d, %s", resp.StatusCode, short(string(b), 100))
				}
				return nil
			})
		}
		if !ok {
			return
		}
		w.r.Add("management_operations", 1)
		for _, st := range w.stalls {
			w.r.Eval(st.kind + " " + op)
		}
	}
}

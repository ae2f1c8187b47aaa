package checks

import (
	"fmt"
	"math/rand"
	"sync"
	"time"

	"verif/ck"
	"verif/ini"
)

func init() { All["C17"] = Check{Run: c17, Level: "exploration", Min: 4000} }

func c17(r *ck.Run) {
	r.Rule("random histories of RESERVE(6), RELEASE(6), accesses of every kind, unrelated and failing commands, logouts, connection closes and resets, reinstatements and dropped connections with a command in progress, LOGICAL UNIT RESETs (with a write of the same or another unit waiting for data), from seven nexuses (same initiator with two ISIDs, same ISID of two initiators, two targets, one device behind two targets) on four LUNs; a model knows the holder of each LUN, the store witnesses that a refused access has no effect; races of several nexuses for one LUN must have exactly one winner. Distinct by (command, holder relation, outcome) and way of ending a session")
	r.Assume("MODE SELECT and MODE SENSE may be refused or not while another nexus holds the LUN; TEST UNIT READY, INQUIRY, REPORT LUNS, REQUEST SENSE and READ CAPACITY take no part", "persistent reservations are not used at the same time")
	r.Each(r.Q(70, 250), 7, func(i int) { c17Episode(r, i) })
	r.Each(r.Q(6, 20), 3, func(i int) { c17Crowd(r, i) })
}

type rsvWorld struct {
	*prWorld
	holder [4]int
	// who may still be holder because its session ended and the target may not have noticed yet
	ghost [4]bool
}

func (w *rsvWorld) rsv(n, l int, release bool) (*ini.Task, bool) {
	op, nm := byte(ini.RESERVE6), "RESERVE"
	if release {
		op, nm = ini.RELEASE6, "RELEASE"
	}
	t, ok := w.sess[n].cmd(ini.NoData(w.lun(l), []byte{op, 0, 0, 0, 0, 0}), nm)
	if ok {
		w.hist[l] = append(w.hist[l], fmt.Sprintf("nexus %d %s -> %s", n, nm, t.Outcome()))
	}
	return t, ok
}

// settle waits until a LUN whose holder's session has ended is free again.
func (w *rsvWorld) settle(l, n int) bool {
	if !w.ghost[l] {
		return true
	}
	end := time.Now().Add(ini.Watchdog)
	for {
		t, ok := w.sess[n].cmd(ini.ReadCmd(w.lun(l), ini.READ10, 0, 1, 512, 0), "READ")
		if !ok {
			return false
		}
		if t.Status == 0 {
			w.ghost[l], w.holder[l] = false, -1
			return true
		}
		if t.Status != 0x18 {
			w.fail(l, "read", "READ ended with %s", t.Outcome())
			return false
		}
		if time.Now().After(end) {
			w.fail(l, "not-freed", "the session holding the LUN has ended, but %d more requests and %v later READ still ends with RESERVATION CONFLICT", 1000, ini.Watchdog)
			return false
		}
		time.Sleep(2 * time.Millisecond)
	}
}

func c17Episode(r *ck.Run, i int) {
	rng := r.Rng("ep", i)
	cas := fmt.Sprint(i)
	pw := c16World(r, cas, i%2 == 0, i%3 == 1)
	if pw == nil {
		return
	}
	w := &rsvWorld{prWorld: pw, holder: [4]int{-1, -1, -1, -1}}
	defer w.stop()
	for k := 0; k < r.Q(260, 500); k++ {
		l := []int{0, 0, 0, 1, 1, 2, 3, 3}[rng.Intn(8)]
		n := w.nexusOf(rng, l)
		if !w.settle(l, n) {
			return
		}
		h := w.holder[l]
		rel := "free"
		if h == n {
			rel = "holder"
		} else if h >= 0 {
			rel = "other"
		}
		switch c := rng.Intn(25); {
		case c == 24:
			fn := []byte{5, 5, 2, 4, 6}[rng.Intn(5)]
			var held *ini.Task // a write of the same session that waits for its data
			hl := l
			if rng.Intn(2) == 0 {
				if l < 3 && w.opts[n].Target == TN(0) && rng.Intn(2) == 0 {
					hl = rng.Intn(3)
				}
				cm := ini.WriteCmd(w.lun(hl), ini.WRITE10, 2, 2, make([]byte, 1024), 0)
				cm.Hold, cm.Imm = true, 0
				held = w.sess[n].Submit(cm)
			}
			p, err := w.sess[n].TMF(fn, w.lun(l), 0xffffffff, 0, rng.Intn(2) == 0)
			if err != nil {
				w.sess[n].failed(err, "task management")
				return
			}
			if held != nil {
				if !w.sess[n].usable("TEST UNIT READY after task management") {
					return
				}
				if !held.Done() { // ended by it or by this
					if _, err := w.sess[n].TMF(1, w.lun(hl), held.ITT, held.CmdSN, false); err != nil {
						w.sess[n].failed(err, "ABORT TASK")
						return
					}
					w.sess[n].Forget(held, "aborted")
				}
			}
			w.hist[l] = append(w.hist[l], fmt.Sprintf("nexus %d task management %d -> %d", n, fn, p.H[2]))
			r.Eval(fmt.Sprint("tmf", fn, rel, p.H[2]))
			if p.H[2] == 0 && fn != 2 && fn != 4 { // a reset ends the reservation
				w.holder[l] = -1
			}
		case c < 7:
			t, ok := w.rsv(n, l, false)
			if !ok {
				return
			}
			r.Eval(fmt.Sprint("reserve", rel, t.Status))
			want := byte(0)
			if h >= 0 && h != n {
				want = 0x18
			}
			if t.Status != want {
				w.fail(l, "reserve:"+rel, "RESERVE by nexus %d while the holder is %d ended with %s", n, h, t.Outcome())
				return
			}
			if want == 0 {
				w.holder[l] = n
			}
		case c < 10:
			if h >= 0 && rng.Intn(3) == 0 {
				n, rel = h, "holder"
			}
			t, ok := w.rsv(n, l, true)
			if !ok {
				return
			}
			r.Eval(fmt.Sprint("release", rel, t.Status))
			if t.Status != 0 && !(rel == "other" && t.Status == 0x18) {
				w.fail(l, "release:"+rel, "RELEASE by nexus %d while the holder is %d ended with %s", n, h, t.Outcome())
				return
			}
			if n == h {
				w.holder[l] = -1
			}
		case c < 19:
			acc := prAccesses(w.lun(l), rng)
			for j := 0; j < 6; j++ {
				if !w.access(rng, l, n, acc[rng.Intn(len(acc))]) {
					return
				}
			}
		case c < 20: // commands that have nothing to do with it
			for j := 0; j < 4; j++ {
				cdb := [][]byte{{ini.STARTSTOP, 0, 0, 0, 1, 0}, {ini.STARTSTOP, 0, 0, 0, 2, 0}, {ini.PREVENT, 0, 0, 0, 1, 0}, {ini.SENDDIAG, 4, 0, 0, 0, 0}, {0xff, 0, 0, 0, 0, 0}, {ini.READ6, 0x1f, 0xff, 0xff, 1, 0}, {ini.PRIN, 0, 0, 0, 0, 0, 0, 0, 0, 0}, {0x56, 0, 0, 0, 0, 0, 0, 0, 0, 0}, {0x57, 0, 0, 0, 0, 0, 0, 0, 0, 0}, {ini.MAINTIN, 0x1f, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}}[rng.Intn(10)]
				t, ok := w.sess[n].cmd(ini.NoData(w.lun(l), cdb), "unrelated command")
				if !ok {
					return
				}
				w.hist[l] = append(w.hist[l], fmt.Sprintf("nexus %d op %02x -> %s", n, cdb[0], t.Outcome()))
				r.Eval(fmt.Sprint("unrelated", cdb[0], rel, t.Status))
			}
		case c < 22:
			if !w.end(rng, l, n) {
				return
			}
		default:
			if !w.race(rng, l) {
				return
			}
		}
	}
	if i < 3 {
		r.Sample(map[string]interface{}{"history": tail(w.hist[0], 15), "holders": w.holder})
	}
	dead(r, w.ch, cas, "reservations")
}

func (w *rsvWorld) access(rng *rand.Rand, l, n int, x prAccess) bool {
	before := w.ch.Seq()
	t, ok := w.sess[n].cmd(x.cmd, x.name)
	if !ok {
		return false
	}
	h := w.holder[l]
	foreign := h >= 0 && h != n
	w.r.Eval(fmt.Sprint("acc", x.name, foreign, h == n, t.Status))
	got := t.Status == 0x18
	open := len(x.name) > 4 && x.name[:4] == "MODE"
	want := foreign && x.cls != 'f'
	if open && foreign && got {
		return true
	}
	if open && foreign {
		want = false
	}
	if got != want || !got && t.Status != 0 {
		w.fail(l, fmt.Sprintf("access:%s-%v", x.name, want), "%s by nexus %d while the holder is %d ended with %s, conflict expected: %v", x.name, n, h, t.Outcome(), want)
		return false
	}
	if got {
		for _, e := range w.ch.Events(before, false) {
			if e.Dev == w.dev[l] && e.Seq > before {
				w.fail(l, "conflict-effect:"+x.name, "%s ended with RESERVATION CONFLICT but the store got %s at %d+%d", x.name, e.Kind, e.Off, e.Len)
				return false
			}
		}
		if len(t.Data) != 0 {
			w.fail(l, "conflict-data", "%s ended with RESERVATION CONFLICT and returned %d bytes", x.name, len(t.Data))
			return false
		}
	}
	return true
}

// end ends the session of a nexus in some way and opens it again.
func (w *rsvWorld) end(rng *rand.Rand, l, n int) bool {
	if h := w.holder[l]; h >= 0 && rng.Intn(2) == 0 {
		n = h
	}
	how := []string{"logout", "close", "reset", "reinstate", "write-open", "logout-late"}[rng.Intn(6)]
	sure := how == "logout" || how == "reinstate" || how == "logout-late"
	for k := range w.hist {
		w.hist[k] = append(w.hist[k], fmt.Sprintf("nexus %d: %s", n, how))
	}
	switch how {
	case "write-open": // the connection goes away while a write waits for its data
		c := ini.WriteCmd(w.lun(l), ini.WRITE10, 100, 4, make([]byte, 2048), 0)
		c.Hold, c.Imm = true, 0
		w.sess[n].Submit(c)
		w.sess[n].Reset()
	case "logout-late":
		w.sess[n].Logout()
		time.Sleep(time.Duration(rng.Intn(3)) * time.Millisecond)
		w.sess[n].Close()
	case "logout":
		w.sess[n].Logout()
		w.sess[n].WaitClosed(ini.Watchdog)
		w.sess[n].Close()
	case "reset":
		w.sess[n].Reset()
	case "close":
		w.sess[n].Close()
	}
	if how != "reinstate" && rng.Intn(2) == 0 && w.holder[l] == n {
		// another nexus gets it before the first is back
		w.ghostAll(n)
		o := w.nexusOf(rng, l)
		if o != n {
			if !w.settle(l, o) {
				return false
			}
			if t, ok := w.rsv(o, l, false); !ok {
				return false
			} else if t.Status != 0 {
				w.fail(l, "reserve-after-end", "RESERVE by nexus %d after the holder's session ended (%s) and reads succeeded again ended with %s", o, how, t.Outcome())
				return false
			}
			w.holder[l] = o
		}
	}
	old := w.sess[n]
	s := login(w.r, w.ch, w.cas, w.opts[n])
	if s == nil {
		return false
	}
	if how == "reinstate" {
		old.Close()
	}
	w.sess[n] = s
	w.r.Eval("end-" + how)
	// the new session has the same nexus: the old one's reservations are gone before it is served
	for k := range w.holder {
		if w.holder[k] == n || w.ghost[k] {
			w.holder[k], w.ghost[k] = -1, false
		}
	}
	_ = sure
	return true
}

// ghostAll marks every LUN the nexus holds.
func (w *rsvWorld) ghostAll(n int) {
	for k := range w.holder {
		if w.holder[k] == n {
			w.ghost[k] = true
		}
	}
}

// c17Crowd: every one of many nexuses holds a LUN of its own, all over the range of LUNs.
func c17Crowd(r *ck.Run, i int) {
	rng := r.Rng("crowd", i)
	cas := fmt.Sprint("crowd ", i)
	const N = 44
	sp := spec1()
	t := sp.Config.ISCSITargets[TN(0)]
	luns := []int{0, 1, 255, 256, 257, 511, 512, 16383}
	seen := map[int]bool{}
	for _, l := range luns {
		seen[l] = true
	}
	for len(luns) < N {
		if l := rng.Intn(16384); !seen[l] {
			seen[l] = true
			luns = append(luns, l)
		}
	}
	rng.Shuffle(N, func(a, b int) { luns[a], luns[b] = luns[b], luns[a] })
	for k, l := range luns {
		sp.Config.Storages = append(sp.Config.Storages, Dev{ID: uint64(100 + k), Name: fmt.Sprint("d", k), Size: 1 << 16, Shift: 9}.storage())
		t.LUNs[fmt.Sprint(l)] = uint64(100 + k)
	}
	ch := start(r, cas, sp, false)
	if ch == nil {
		return
	}
	defer ch.Stop()
	var ss [N]*Sess
	opt := func(k int) ini.LoginOpts {
		return ini.LoginOpts{Initiator: fmt.Sprint("iqn.2020-01.verif:c", rng.Intn(4)), ISID: [6]byte{0x80, byte(rng.Intn(256)), byte(rng.Intn(256)), byte(i), byte(k), byte(k >> 8)}}
	}
	var opts [N]ini.LoginOpts
	defer func() {
		for _, s := range ss {
			if s != nil {
				s.Close()
			}
		}
	}()
	read := func(k, l int) (byte, bool) {
		t, ok := ss[k].cmd(ini.ReadCmd(ini.LUN(luns[l]), ini.READ10, 0, 1, 512, 0), "READ")
		if !ok {
			return 0, false
		}
		if t.Status != 0 && t.Status != 0x18 {
			r.Violate("crowd-read", cas, nil, "READ ended with %s", t.Outcome())
			return 0, false
		}
		return t.Status, true
	}
	reserve := func(k int) bool {
		t, ok := ss[k].cmd(ini.NoData(ini.LUN(luns[k]), []byte{ini.RESERVE6, 0, 0, 0, 0, 0}), "RESERVE")
		if ok && t.Status != 0 {
			r.Violate("crowd-reserve", cas, nil, "RESERVE of LUN %d, which nobody holds, ended with %s", luns[k], t.Outcome())
			return false
		}
		return ok
	}
	for k := range ss {
		opts[k] = opt(k)
		if ss[k] = login(r, ch, cas, opts[k]); ss[k] == nil || !reserve(k) {
			return
		}
	}
	look := func(when string) bool {
		for k := range ss {
			if ss[k] == nil {
				continue
			}
			for l := range ss {
				st, ok := read(k, l)
				if !ok {
					return false
				}
				if ss[l] != nil {
					t, ok := ss[k].cmd(ini.NoData(ini.LUN(luns[l]), []byte{ini.RESERVE6, 0, 0, 0, 0, 0}), "RESERVE")
					if !ok {
						return false
					}
					if (t.Status == 0) != (k == l) || t.Status != 0 && t.Status != 0x18 {
						r.Violate("crowd-second-reserve", cas, nil, "%s: RESERVE of LUN %d by nexus %d ended with %s, the holder is nexus %d", when, luns[l], k, t.Outcome(), l)
						return false
					}
				}
				want := byte(0)
				if l != k && ss[l] != nil {
					want = 0x18
				}
				r.Eval(fmt.Sprint("crowd ", want, when))
				if st != want {
					r.Violate(fmt.Sprintf("crowd-%02x", want), cas, nil, "%s: READ of LUN %d by nexus %d ended with status %02x, held by nexus %d: %v", when, luns[l], k, st, l, ss[l] != nil)
					return false
				}
			}
		}
		return true
	}
	if !look("all hold one") {
		return
	}
	// a third of them ends, each frees its LUN and only that
	for k := range ss {
		if rng.Intn(3) > 0 || k == 0 {
			continue
		}
		switch rng.Intn(3) {
		case 0:
			if _, err := ss[k].Logout(); err != nil {
				ss[k].failed(err, "logout")
				return
			}
		case 1:
			ss[k].Reset()
		case 2: // the session is replaced by a new one, which then ends too
			s := login(r, ch, cas, opts[k])
			if s == nil {
				return
			}
			s.Close()
		}
		ss[k].Close()
		ss[k] = nil
	}
	other := 0
	for l := range ss {
		for end := time.Now().Add(ini.Watchdog); ss[l] == nil; time.Sleep(2 * time.Millisecond) {
			st, ok := read(other, l)
			if !ok {
				return
			}
			if st == 0 {
				break
			}
			if time.Now().After(end) {
				r.Violate("crowd-not-freed", cas, nil, "the session holding LUN %d has ended, READ of another still ends with RESERVATION CONFLICT", luns[l])
				return
			}
		}
	}
	look("a third has ended")
	dead(r, ch, cas, "crowd")
}

// race lets several nexuses reserve at once.
func (w *rsvWorld) race(rng *rand.Rand, l int) bool {
	ns := []int{0, 1, 2, 3, 4}
	if l == 3 {
		ns = []int{5, 6}
	}
	rng.Shuffle(len(ns), func(a, b int) { ns[a], ns[b] = ns[b], ns[a] })
	ns = ns[:2+rng.Intn(len(ns)-1)]
	out := make([]byte, len(ns))
	ok := make([]bool, len(ns))
	var wg sync.WaitGroup
	for k := range ns {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			t, done := w.sess[ns[k]].cmd(ini.NoData(w.lun(l), []byte{ini.RESERVE6, 0, 0, 0, 0, 0}), "RESERVE")
			if done {
				out[k], ok[k] = t.Status, true
			}
		}(k)
	}
	wg.Wait()
	win := []int{}
	for k := range ns {
		if !ok[k] {
			return false
		}
		if out[k] == 0 {
			win = append(win, ns[k])
		} else if out[k] != 0x18 {
			w.fail(l, "race-status", "RESERVE ended with status %02x", out[k])
			return false
		}
	}
	h := w.holder[l]
	w.r.Eval(fmt.Sprint("race", len(ns), h >= 0, len(win)))
	w.hist[l] = append(w.hist[l], fmt.Sprintf("at once: RESERVE by %v, won by %v", ns, win))
	want := 1
	if h >= 0 {
		want = 0
		for _, n := range ns {
			if n == h {
				want = 1
			}
		}
	}
	if len(win) != want || h >= 0 && want == 1 && win[0] != h {
		w.fail(l, "race", "RESERVE sent at once by nexuses %v while the holder was %d succeeded for %v", ns, h, win)
		return false
	}
	if h < 0 {
		w.holder[l] = win[0]
	}
	return true
}

package checks

import (
	"bytes"
	"fmt"
	"math/rand"
	"time"

	"verif/ck"
	"verif/ini"
	"verif/tgt"
)

func init() { All["C08"] = Check{Run: c08, Level: "exploration", Min: 500} }

// hw is a held write: its R2Ts are answered by hand, piece by piece.
type hw struct {
	t    *ini.Task
	name string
	off  int64 // on the medium, -1: does not write the medium
	data []byte
	n    int64 // bytes on the medium
	pend []*ini.PDU
	ans  int // R2Ts answered completely
	cur  ini.R2T
	sol  int64 // bytes solicited
	left bool
	exec bool // all its data has been sent
}

func c08(r *ck.Run) {
	r.Rule("held writes of every data-out form and of 0 to 70 segments under random segment/burst/immediate-data parameters, one to ten in progress at once, their Data-Out PDUs interleaved at random with reads, pings and other commands; after each partial answer a ping proves the target has taken it in, then there must be no response, no store write and no further R2T; R2T offsets, lengths and numbers are monitored, the sum must be the expected length exactly, and after the last byte exactly one execution with the right bytes; a crowd of 120 writes held at once, task tags that agree in parts, Data-Outs naming another LUN, and writes of more than 65536 R2Ts are included; on hand-driven connections writes of up to 4 GiB - 1, the first bursts of which are sent, and commands with the tag of a write that waits for data; distinct by (form, length class in bursts, immediate class, writes in progress, segment class)")
	n := r.Q(91, 320)
	many := []int{300, 66000, 1100}
	r.Each(r.Q(2, 3), 2, func(i int) { c08Many(r, i, many[i]) })
	r.Each(r.Q(4, 12), 2, func(i int) { c08Crowd(r, i) })
	r.Each(r.Q(16, 40), 4, func(i int) { c08Raw(r, i) })
	r.Each(n, 7, func(i int) { c08Episode(r, i) })
}

func c08Episode(r *ck.Run, i int) {
	rng := r.Rng("ep", i)
	cas := fmt.Sprint(i)
	const size = 4 << 20
	shift := []uint{9, 9, 10, 12}[rng.Intn(4)]
	bs := int64(1) << shift
	ch := start(r, cas, spec1(Dev{ID: 1, Name: "a", Size: size, Shift: shift, Thin: true}, Dev{ID: 2, Name: "b", Size: size, Shift: shift}), false)
	if ch == nil {
		return
	}
	defer ch.Stop()
	o := sessVar(rng, i)
	switch i % 5 {
	case 0:
		o.MaxBurst = uint32(512 * (1 + rng.Intn(16)))
		o.FirstB = 512
	case 1:
		o.ImmData = "No"
	case 2:
		o.MaxBurst, o.FirstB = 8192, uint32(512+rng.Intn(7680))
	}
	s := login(r, ch, cas, o)
	if s == nil {
		return
	}
	defer s.Close()
	L := ini.LUN(0)
	m := NewModel(size)
	// regions of writes in progress must not overlap: ten stripes
	const stripes = 10
	mk := func(slot int) *hw {
		w := &hw{off: -1}
		maxBlk := int64(size)/bs/stripes - 1
		want := int64(s.MaxBurst) * int64([]int{0, 1, 1, 2, 3, 5}[rng.Intn(6)])
		if want > 600<<10 {
			want = 600 << 10
		}
		blk := want/bs + int64(rng.Intn(3))
		if blk > maxBlk {
			blk = maxBlk
		}
		base := int64(slot) * (size / bs / stripes)
		l := base + rng.Int63n(size/bs/stripes-blk)
		imm := -1
		switch rng.Intn(4) {
		case 0:
			imm = 0
		case 1:
			imm = rng.Intn(3000)
		}
		var cm ini.Cmd
		switch k := rng.Intn(12); {
		case k < 7:
			op := []byte{ini.WRITE10, ini.WRITE12, ini.WRITE16, ini.WRVER10, ini.WRVER16, ini.WRITE10, ini.WRITE16}[k]
			w.name = opName(op)
			w.data = fill(rng, int(blk*bs))
			w.off, w.n = l*bs, blk*bs
			cm = ini.WriteCmd(L, op, uint64(l), uint32(blk), w.data, 0)
		case k == 7:
			w.name = "WRITE(6)"
			if blk > 255 {
				blk = 255
			}
			if blk == 0 {
				blk = 1
			}
			w.data = fill(rng, int(blk*bs))
			w.off, w.n = l*bs, blk*bs
			cm = ini.WriteCmd(L, ini.WRITE6, uint64(l), uint32(blk), w.data, 0)
		case k == 8:
			w.name = "WRITE_SAME(16)"
			n := int64(1 + rng.Intn(8))
			if n > maxBlk {
				n = maxBlk
			}
			d := fill(rng, int(bs))
			for j := int64(0); j < n; j++ {
				w.data = append(w.data, d...)
			}
			w.off, w.n = base*bs, n*bs
			cdb := ini.RW(ini.WRSAME16, uint64(base), uint32(n), 0)
			cm = ini.OutCmd(L, cdb, d)
		case k == 9:
			w.name = "VERIFY(10)"
			if blk == 0 {
				blk = 1
			}
			d := m.Read(l*bs, int(blk*bs))
			cm = ini.OutCmd(L, ini.RW(ini.VERIFY10, uint64(l), uint32(blk), 2), d)
		case k == 10:
			w.name = "UNMAP"
			d := unmapList(umRange{0, 1}, umRange{2, 3})
			cm = ini.OutCmd(L, unmapCDB(len(d)), d)
		default:
			w.name = "WRITE(10)-refused"
			d := fill(rng, int(bs)*(1+rng.Intn(20)))
			cm = ini.WriteCmd(L, ini.WRITE10, uint64(size/bs)-uint64(len(d))/uint64(bs)+1, uint32(len(d))/uint32(bs), d, 0)
		}
		if rem := int64(cm.EDTL) % int64(s.MaxBurst); rng.Intn(3) == 0 && cm.EDTL > s.MaxBurst && s.ImmOK {
			// leave a byte or a few more than whole bursts to be asked for
			if d := rem - int64(rng.Intn(4)); d >= 0 {
				imm = int(d)
			}
		}
		cm.Hold, cm.Imm = true, imm
		w.t = s.Submit(cm)
		return w
	}
	ping := func(after string) bool {
		p, err := s.Nop(nil, true)
		if err != nil {
			s.failed(err, "NOP-Out between data")
			return false
		}
		_ = p
		return true
	}
	inRange := func(seq int64, w *hw) (n int64) {
		for _, e := range ch.Events(seq, false) {
			if e.Kind == "write" && e.Off < w.off+w.n && w.off < e.Off+int64(e.Len) {
				n += int64(e.Len)
			}
		}
		return
	}
	for round := 0; round < r.Q(8, 16) && !s.bad; round++ {
		k := 1
		if round%2 == 1 {
			k = 2 + rng.Intn(stripes-1)
		}
		seq := ch.Seq()
		var ws []*hw
		for j := 0; j < k; j++ {
			ws = append(ws, mk(j))
			if ws[j].t.Err != nil {
				s.failed(ws[j].t.Err, ws[j].name)
				return
			}
		}
		if !ping("commands") {
			return
		}
		active := append([]*hw{}, ws...)
		for len(active) > 0 {
			j := rng.Intn(len(active))
			w := active[j]
			if len(w.pend) == 0 {
				// the next R2T, or the end
				q, ok := w.t.NextR2T(ini.Watchdog)
				if !ok {
					if !w.t.Done() {
						s.failed(ini.ErrNoResponse, w.name+" waiting for R2T or response")
						return
					}
					active = append(active[:j], active[j+1:]...)
					continue
				}
				w.sol += int64(q.Len)
				w.cur = q
				seg := 0
				if rng.Intn(2) == 0 {
					seg = 4 * (1 + rng.Intn(int(q.Len)/4+1))
					if int(q.Len)/seg > 70 {
						seg = int(q.Len)/70 + 1
					}
				}
				w.pend = w.t.AnswerPDUs(q, seg)
			}
			last := len(w.pend) == 1
			if rng.Intn(6) == 0 || last && rng.Intn(3) == 0 {
				if !c08Quiet(r, s, w, cas, ping, func() int64 { return inRange(seq, w) }) {
					return
				}
			}
			if rng.Intn(10) == 0 { // something else meanwhile
				t, ok := s.cmd(ini.ReadCmd(L, ini.READ10, uint64(size/bs-1), 1, int(bs), 0), "READ(10) while writes wait")
				if !ok {
					return
				}
				if t.Status != 0 || !bytes.Equal(t.Data, m.Read(size-bs, int(bs))) {
					r.Violate("read-disturbed", cas, tail(s.Trace(), 20), "a read while writes wait for data ended with %s or other bytes", t.Outcome())
				}
			}
			s.SendRaw(w.pend[0])
			w.pend = w.pend[1:]
			if last {
				w.ans++
			}
		}
		for _, w := range ws {
			if err := w.t.Wait(); err != nil {
				s.failed(err, w.name+" after all its data")
				return
			}
			tot := w.sol
			imm := w.t.ImmSent()
			refused := w.name == "WRITE(10)-refused"
			if !refused && int64(imm)+tot != int64(w.t.Cmd.EDTL) {
				r.Violate("not-all-solicited", cas, tail(s.Trace(), 20), "%s of %d bytes sent %d with the command and was asked for %d more", w.name, w.t.Cmd.EDTL, imm, tot)
			}
			if refused != (w.t.Status != 0) {
				r.Violate("outcome", cas, tail(s.Trace(), 20), "%s (EDTL %d, in progress %d) ended with %s", w.name, w.t.Cmd.EDTL, k, w.t.Outcome())
				return
			}
			if w.off >= 0 && !refused {
				if got := inRange(seq, w); got != w.n && w.name != "WRITE_SAME(16)" || w.n > 0 && got == 0 {
					r.Violate("not-once", cas, tail(s.Trace(), 20), "%s of %d bytes made store writes of %d bytes in its range", w.name, w.n, got)
				}
				m.Write(w.off, w.data)
				if got := ch.Peek("a", w.off, int(w.n)); !bytes.Equal(got, w.data) {
					r.Violate("misplaced", cas, tail(s.Trace(), 30), "%s of %d bytes at %d (imm %d, %d R2Ts, %d in progress): byte %d on the medium is not the one sent", w.name, w.n, w.off, imm, len(w.t.R2Ts), k, diffAt(got, w.data))
				}
			}
			burst := int64(s.MaxBurst)
			ic := "0"
			if imm > 0 {
				ic = "some"
				if int64(imm) == int64(w.t.Cmd.EDTL) {
					ic = "all"
				}
			}
			r.Eval(fmt.Sprint(w.name, int64(w.t.Cmd.EDTL)/burst, int64(w.t.Cmd.EDTL)%burst == 0, ic, k > 1, k > 5, len(w.t.R2Ts) > 1))
			r.Add("r2ts", int64(len(w.t.R2Ts)))
			if round == 1 && i < 4 {
				r.Sample(map[string]interface{}{"write": w.name, "edtl": w.t.Cmd.EDTL, "immediate": imm, "r2ts": w.t.R2Ts, "in_progress": k})
			}
		}
		// commands that need no data get no R2T: the monitor sees R2Ts without a task
		t, ok := s.cmd(ini.ReadCmd(L, ini.READ10, 0, 2, int(bs), 0), "READ(10)")
		if !ok {
			return
		}
		if len(t.R2Ts) > 0 {
			r.Violate("r2t-for-read", cas, tail(s.Trace(), 10), "an R2T for a read")
		}
	}
	if off, why := compareMedium(ch, "a", m); why != "" && !s.bad {
		r.Violate("medium-differs", cas, nil, "byte %d of the medium %s", off, why)
	}
	for _, p := range s.Strange {
		r.Violate("unexpected-pdu", cas, tail(s.Trace(), 20), "unexpected %s", p)
	}
	s.protocol("C08")
	if !s.bad {
		c08Wild(r, s, ch, cas, rng, m, bs)
	}
	dead(r, ch, cas, "held writes")
}

// c08Quiet: with part of its data missing the write has no response, no effect and at most one R2T open.
func c08Quiet(r *ck.Run, s *Sess, w *hw, cas string, ping func(string) bool, wrote func() int64) bool {
	if !ping("data") {
		return false
	}
	r.Add("quiet_checks", 1)
	if w.t.Done() {
		r.Violate("answered-early", cas, tail(s.Trace(), 20), "%s was answered (%s) before all data it was asked for arrived", w.name, w.t.Outcome())
		return false
	}
	if w.off >= 0 {
		if n := wrote(); n > 0 {
			r.Violate("executed-early", cas, tail(s.Trace(), 20), "%s wrote %d bytes to the store before all its data arrived", w.name, n)
			return false
		}
	}
	if q, ok := w.t.NextR2T(time.Millisecond); ok {
		r.Violate("two-r2ts", cas, tail(s.Trace(), 20), "%s: R2T %+v although %+v is not answered yet (MaxOutstandingR2T is 1)", w.name, q, w.cur)
		return false
	}
	return true
}

// c08Wild answers an R2T with a PDU whose offset or length is not what was
// asked for. The target may end the connection, refuse the command or cope
// with it, but whatever it stores is what the initiator gave for that place.
func c08Wild(r *ck.Run, s *Sess, ch *tgt.Child, cas string, rng *rand.Rand, m *Model, bs int64) {
	L := ini.LUN(0)
	n := 1 + rng.Intn(40)
	d := fill(rng, n*int(bs))
	l := int64(rng.Intn(200))
	cm := ini.WriteCmd(L, ini.WRITE10, uint64(l), uint32(n), d, 0)
	cm.Hold, cm.Imm = true, rng.Intn(2)*rng.Intn(2000)
	t := s.Submit(cm)
	q, ok := t.NextR2T(ini.Watchdog)
	if !ok {
		if !t.Done() {
			s.failed(ini.ErrNoResponse, "WRITE(10) waiting for R2T or response")
			return
		}
		m.Write(l*bs, d)
		return
	}
	how := []string{"later", "earlier", "swapped", "longer", "twice", "gap", "other-lun", "other-lun"}[rng.Intn(8)]
	cut := func(off, n int64) []byte {
		if off > int64(len(d)) {
			off = int64(len(d))
		}
		if off+n > int64(len(d)) {
			n = int64(len(d)) - off
		}
		if n > int64(s.TgtMRDSL) {
			n = int64(s.TgtMRDSL)
		}
		return d[off : off+n]
	}
	off, ln := int64(q.Off), int64(q.Len)
	other := how == "other-lun" || rng.Intn(4) == 0
	pdu := func(dsn uint32, off int64, b []byte, fin bool) {
		p := t.DataOut(q.TTT, dsn, uint32(off), b, fin)
		if other {
			l := ini.LUN(1) // not the LUN of the command
			copy(p.H[8:16], l[:])
		}
		s.SendRaw(p)
	}
	switch how {
	case "other-lun":
		h := ln / 8 * 4
		pdu(0, off, cut(off, h), false)
		pdu(1, off+h, cut(off+h, ln-h), true)
	case "later":
		b := cut(off+4, ln)
		pdu(0, off+4, b, true)
	case "earlier":
		if off < 4 {
			off += 4
		}
		pdu(0, off-4, cut(off-4, ln), true)
	case "swapped":
		h := ln / 8 * 4
		pdu(0, off+h, cut(off+h, ln-h), false)
		pdu(1, off, cut(off, h), true)
	case "longer":
		pdu(0, off, cut(off, ln+512), true)
	case "twice":
		h := ln / 8 * 4
		pdu(0, off, cut(off, h), false)
		pdu(1, off, cut(off, h), false)
		pdu(2, off+h, cut(off+h, ln-h), true)
	case "gap":
		h := ln / 8 * 4
		pdu(0, off, cut(off, h), false)
		pdu(1, off+h+4, cut(off+h+4, ln-h-4), true)
	}
	// whatever is asked for now is given
	for k := 0; k < 5000 && !t.Done() && s.Closed() == nil; k++ {
		q, ok := t.NextR2T(20 * time.Millisecond)
		if !ok {
			if p, err := s.Nop(nil, true); p == nil || err != nil {
				break
			}
			if q, ok = t.NextR2T(time.Millisecond); !ok {
				break // it waits for data it asked for and did not get
			}
		}
		if q.Len == 0 || uint64(q.Off)+uint64(q.Len) > uint64(len(d)) {
			break
		}
		for _, p := range t.AnswerPDUs(q, 0) {
			s.SendRaw(p)
		}
	}
	end := "open"
	if s.Closed() != nil {
		end = "closed"
	}
	if t.Done() && t.Err == nil {
		end = t.Outcome()
	}
	old := m.Read(l*bs, len(d))
	got := ch.Peek("a", l*bs, len(d))
	r.Eval(fmt.Sprint("wild ", how, end, n > 8))
	r.Add("wild_answers", 1)
	for _, e := range ch.Events(0, false) {
		if e.Dev == "b" && e.Kind == "write" {
			r.Violate("other-lun-written", cas, tail(s.Trace(), 15), "a WRITE(10) to LUN 0 whose data came with LUN 1 in the header wrote %d bytes at %d of LUN 1", e.Len, e.Off)
			return
		}
	}
	if end == "GOOD" && !bytes.Equal(got, d) {
		r.Violate("misplaced", cas, tail(s.Trace(), 15), "a WRITE(10) whose R2T for %d bytes at %d was answered out of shape (%s) ended GOOD, but byte %d is not the one sent", q.Len, q.Off, how, diffAt(got, d))
		return
	}
	for j := range got {
		if got[j] != old[j] && got[j] != d[j] {
			r.Violate("misplaced", cas, tail(s.Trace(), 15), "a WRITE(10) whose R2T for %d bytes at %d was answered out of shape (%s) ended %s; byte %d is neither the old one nor the one sent for it", q.Len, q.Off, how, end, j)
			return
		}
	}
}

// c08Crowd holds about as many writes as the window allows, all waiting for
// data, and gives it in any order.
func c08Crowd(r *ck.Run, i int) {
	cas := fmt.Sprint("crowd-", i)
	rng := r.Rng("crowd", i)
	const slots, per = 120, 16
	ch := start(r, cas, spec1(Dev{ID: 1, Name: "a", Size: slots * per * 512, Shift: 9}, Dev{ID: 2, Name: "b", Size: slots * per * 512, Shift: 9}), false)
	if ch == nil {
		return
	}
	defer ch.Stop()
	s := login(r, ch, cas, ini.LoginOpts{MaxBurst: 2048, FirstB: 512, ImmData: []string{"Yes", "No"}[i%2]})
	if s == nil {
		return
	}
	defer s.Close()
	s.TagStyle = i
	ms := []*Model{NewModel(slots * per * 512), NewModel(slots * per * 512)}
	type w struct {
		t    *ini.Task
		data []byte
		lun  int
		off  int64
	}
	for round := 0; round < 2; round++ {
		k := slots - rng.Intn(8)
		var ws []*w
		for j := 0; j < k; j++ {
			n := 2 + rng.Intn(per-2)
			x := &w{data: fill(rng, n*512), lun: rng.Intn(2), off: int64(j*per) * 512}
			cm := ini.WriteCmd(ini.LUN(x.lun), []byte{ini.WRITE10, ini.WRITE16}[j%2], uint64(j*per), uint32(n), x.data, 0)
			cm.Hold = true
			if i%2 == 0 {
				cm.Imm = rng.Intn(512)
			}
			x.t = s.Submit(cm)
			ws = append(ws, x)
		}
		if _, err := s.Nop(nil, true); err != nil {
			s.failed(err, "NOP-Out")
			return
		}
		r.Max("most_writes_waiting", int64(k))
		open := append([]*w{}, ws...)
		for len(open) > 0 {
			j := rng.Intn(len(open))
			if round == 1 && rng.Intn(4) > 0 {
				j = len(open) - 1 // mostly the last first
			}
			x := open[j]
			q, ok := x.t.NextR2T(ini.Watchdog)
			if !ok {
				if !x.t.Done() {
					s.failed(ini.ErrNoResponse, fmt.Sprintf("write %d of %d waiting for R2T or response", j, k))
					return
				}
				open = append(open[:j], open[j+1:]...)
				continue
			}
			x.t.Answer(q, 4*(1+rng.Intn(300)))
		}
		for j, x := range ws {
			if !s.wait(x.t, "write after all its data") {
				return
			}
			if x.t.Status != 0 {
				r.Violate("outcome", cas, tail(s.Trace(), 20), "write %d of %d in progress at once ended with %s", j, k, x.t.Outcome())
				return
			}
			ms[x.lun].Write(x.off, x.data)
			r.Eval(fmt.Sprint("crowd", i%4, len(x.t.R2Ts), j*8/k))
		}
		for j, dev := range []string{"a", "b"} {
			if off, why := compareMedium(ch, dev, ms[j]); why != "" {
				r.Violate("medium-differs", cas, nil, "byte %d of LUN %d %s after %d writes in progress at once", off, j, why, k)
				return
			}
		}
	}
	s.protocol("C08")
	dead(r, ch, cas, "many writes in progress")
}

// c08Many writes n blocks of which every one is asked for by itself.
func c08Many(r *ck.Run, i, n int) {
	cas := fmt.Sprint("many-", n)
	rng := r.Rng("many", i)
	size := (int64(n) + 8) * 512
	ch := start(r, cas, spec1(Dev{ID: 1, Name: "a", Size: size, Shift: 9}), false)
	if ch == nil {
		return
	}
	defer ch.Stop()
	s := login(r, ch, cas, ini.LoginOpts{MaxBurst: 512, FirstB: 512, ImmData: []string{"Yes", "No"}[i%2]})
	if s == nil {
		return
	}
	defer s.Close()
	m := NewModel(size)
	d := fill(rng, n*512)
	l := rng.Intn(8)
	t, ok := s.cmd(ini.WriteCmd(ini.LUN(0), ini.WRITE16, uint64(l), uint32(n), d, 0), "WRITE(16) of many bursts")
	if !ok {
		return
	}
	if t.Status != 0 {
		r.Violate("outcome", cas, tail(s.Trace(), 10), "a write of %d bursts ended with %s", n, t.Outcome())
		return
	}
	m.Write(int64(l)*512, d)
	if len(t.R2Ts) < n-1 {
		r.Violate("burst-exceeded", cas, nil, "%d blocks were asked for with %d R2Ts although MaxBurstLength is 512", n, len(t.R2Ts))
	}
	if off, why := compareMedium(ch, "a", m); why != "" {
		r.Violate("medium-differs", cas, nil, "byte %d of the medium %s after a write of %d bursts", off, why, n)
	}
	r.Eval(fmt.Sprint("many", n))
	r.Max("most_r2ts", int64(len(t.R2Ts)))
	s.protocol("C08")
	dead(r, ch, cas, "a write of many bursts")
}

package checks

import (
	"bytes"
	"fmt"
	"math/rand"

	"verif/ck"
	"verif/ini"
	"verif/mon"
)

func init() { All["C07"] = Check{Run: c07, Level: "exploration", Min: 1000} }

func c07(r *ck.Run) {
	r.Rule("random mixes of SCSI commands, NOP-Out, Text, task management and Data-Out, immediate and numbered, starting at CmdSN/StatSN values including the wrap, with commands sent ahead of their turn, repeated and outside the window; the monitor follows StatSN, ExpCmdSN and MaxCmdSN in every PDU, at rest ExpCmdSN must be the next number, ignored commands must not reach the store, store writes must come in CmdSN order, every ping must be echoed; some sessions begin farther from the wrap than the window is wide and run across it, immediate requests carry the CmdSN of numbered ones still waiting, and one command is answered in more than 65536 PDUs; undefined opcodes, refused writes and requests of wrong connections carry every class of number; a logout is sent with commands before and behind it, after whose response nothing may come; distinct by (PDU kind sequence of length 3, wrap, immediate)")
	n := r.Q(84, 300)
	many := []int{300, 66000, 1100}
	r.Each(r.Q(2, 3), 2, func(i int) { c07Many(r, i, many[i]) })
	r.Each(n, 7, func(i int) { c07Episode(r, i) })
}

func c07Episode(r *ck.Run, i int) {
	rng := r.Rng("ep", i)
	cas := fmt.Sprint(i)
	ch := start(r, cas, spec1(Dev{ID: 1, Name: "a", Size: 1 << 20, Shift: 9}), false)
	if ch == nil {
		return
	}
	defer ch.Stop()
	o := sessVar(rng, i)
	switch i % 4 {
	case 0:
		o.CmdSN = uint32(0) - uint32(rng.Intn(60))
		o.ExpStatSN = uint32(0) - uint32(rng.Intn(60))
	case 1:
		o.CmdSN = 0x80000000 - uint32(rng.Intn(60))
		o.ExpStatSN = 0x80000000 - uint32(rng.Intn(60))
	case 2:
		o.CmdSN = uint32(rng.Intn(2))
		o.ExpStatSN = uint32(rng.Intn(2))
	}
	var far uint32
	if i%4 < 2 && i/4%2 == 1 { // further from the wrap than the window is wide
		far = []uint32{130, 200, 300, 1200}[rng.Intn(4)]
		o.CmdSN -= far
		o.ExpStatSN -= far
	}
	s := login(r, ch, cas, o)
	if s == nil {
		return
	}
	defer s.Close()
	for k := uint32(0); k < far; k++ {
		var err error
		if rng.Intn(2) == 0 {
			_, err = s.Nop(nil, false)
		} else {
			_, err = s.Do(ini.NoData(ini.LUN(0), make([]byte, 6)))
		}
		if err != nil {
			s.failed(err, "request on the way to the wrap")
			return
		}
		if ec, mc := s.Window(); k == far-1 && ini.SerLT(mc, ec) {
			r.Violate("window-closed", cas, tail(s.Trace(), 12), "with nothing outstanding the window is closed: ExpCmdSN %d, MaxCmdSN %d", ec, mc)
			return
		}
	}
	r.Eval(fmt.Sprintf("far %d %d", far, i%4))
	if i%3 == 0 {
		s.Conn.AHS = headerSegs(r.Rng("ahs", i))
	}
	L := ini.LUN(0)
	m := NewModel(1 << 20)
	var hist []byte
	note := func(k byte) {
		hist = append(hist, k)
		if len(hist) > 3 {
			hist = hist[1:]
		}
		r.Eval(fmt.Sprintf("%s %d", hist, i%4))
	}
	write := func(l int, n int, now bool, sn uint32, force bool, hold bool) (*ini.Task, []byte) {
		d := fill(rng, n*512)
		cm := ini.WriteCmd(L, ini.WRITE10, uint64(l), uint32(n), d, 0)
		cm.NowBit, cm.ForceSN, cm.SN, cm.Hold = now, force, sn, hold
		if rng.Intn(2) == 0 {
			cm.Imm = rng.Intn(len(d) + 1)
		}
		return s.Submit(cm), d
	}
	atRest := func() bool {
		p, err := s.Nop(nil, true)
		if err != nil {
			s.failed(err, "NOP-Out (immediate)")
			return false
		}
		if want := s.CmdSN(); p.U32(28) != want {
			r.Violate("expcmdsn-at-rest", cas, tail(s.Trace(), 25), "with nothing outstanding ExpCmdSN is %d, the next command number is %d", p.U32(28), want)
			return false
		}
		return true
	}
	for k := 0; k < r.Q(60, 120); k++ {
		now := rng.Intn(3) == 0
		tag := byte('0')
		if now {
			tag = 'a' - 'A'
		}
		kind := rng.Intn(17)
		if k == 0 {
			kind = 13
		}
		switch kind {
		case 13, 14: // many requests of all kinds in any order, across the wrap at the start
			note('R')
			if !c07Shuffle(r, s, cas, rng, m, false) {
				return
			}
		case 15: // requests that are rejected or refused take a StatSN as well
			note('J')
			if !c07Refused(r, s, cas, rng) {
				return
			}
		case 0, 1: // command
			note('C' | tag&0x20)
			cm := ini.NoData(L, make([]byte, 6))
			cm.NowBit = now
			if t, ok := s.cmd(cm, "TEST UNIT READY"); !ok {
				return
			} else if t.Status != 0 {
				r.Violate("refused", cas, nil, "TEST UNIT READY ended with %s", t.Outcome())
				return
			}
		case 2, 3: // write with data
			note('W' | tag&0x20)
			l, n := rng.Intn(2000), 1+rng.Intn(20)
			t, d := write(l, n, now, 0, false, false)
			if !s.wait(t, "WRITE(10)") {
				return
			}
			if t.Status != 0 {
				r.Violate("refused", cas, tail(s.Trace(), 12), "WRITE(10) ended with %s", t.Outcome())
				return
			}
			m.Write(int64(l)*512, d)
		case 4, 5: // ping
			note('N' | tag&0x20)
			d := fill(rng, []int{0, 1, 3, 4, 48, 511, 512, 1000, 4096, 20000}[rng.Intn(10)])
			if len(d) > int(s.TgtMRDSL) {
				d = d[:s.TgtMRDSL]
			}
			p, err := s.Nop(d, now)
			if err != nil {
				s.failed(err, "NOP-Out")
				return
			}
			if len(d) > int(s.MyMRDSL) {
				// the echo is limited to what the initiator takes
				d = d[:s.MyMRDSL]
				r.Add("pings_cut", 1)
			}
			if p.Op() != ini.OpNopIn || !bytes.Equal(p.Data, d) || p.U32(20) != 0xffffffff {
				r.Violate("nop-echo", cas, tail(s.Trace(), 6), "a NOP-Out with %d bytes was answered by %s with %d bytes", len(d), p, len(p.Data))
			}
		case 6: // text
			note('T' | tag&0x20)
			p, err := s.Text([]ini.KV{{K: "SendTargets", V: ""}}, now)
			if err != nil {
				s.failed(err, "Text")
				return
			}
			if p.Op() != ini.OpTextResp {
				r.Violate("text-answer", cas, nil, "a text request was answered by %s", p)
			}
		case 7: // task management of a task that is gone
			note('M' | tag&0x20)
			if _, err := s.TMF(1, L, 0xfff00000|rng.Uint32()>>16, s.CmdSN()-1, now); err != nil {
				s.failed(err, "task-management")
				return
			}
		case 8: // two commands in the wrong order
			note('O')
			l := rng.Intn(2000)
			a, b := s.TakeCmdSN(), s.TakeCmdSN()
			seq := ch.Seq()
			tb, db := write(l, 2, false, b, true, false)
			ta, da := write(l, 2, false, a, true, false)
			if !s.wait(ta, "WRITE(10) sent after its successor") || !s.wait(tb, "WRITE(10) sent ahead of its turn") {
				return
			}
			full := ta.Cmd.Imm < 0 && tb.Cmd.Imm < 0 || len(ta.R2Ts)+len(tb.R2Ts) == 0
			var first byte
			ws := 0
			for _, e := range ch.Events(seq, false) {
				if e.Kind == "write" {
					ws++
				}
			}
			got := ch.Peek("a", int64(l)*512, 1024)
			switch {
			case bytes.Equal(got, db):
				first = 'a'
			case bytes.Equal(got, da):
				first = 'b'
			}
			if first == 0 || ws != 2 || full && first != 'a' {
				r.Violate("order", cas, tail(s.Trace(), 20), "of two writes numbered %d and %d, sent in reverse order, %d reached the store and the medium is left by %q", a, b, ws, map[byte]string{'a': "the second", 'b': "the first", 0: "neither"}[first])
				return
			}
			m.Write(int64(l)*512, got)
			r.Add("reordered_pairs", 1)
		case 9: // repeated numbers
			note('D')
			seq := ch.Seq()
			sn := s.CmdSN() - uint32(1+rng.Intn(40))
			t, _ := write(rng.Intn(2000), 1+rng.Intn(3), false, sn, true, true)
			if !s.usable("TEST UNIT READY after a repeated CmdSN") {
				return
			}
			if t.Done() || len(t.R2Ts) > 0 || c07Stored(ch.Events(seq, false)) {
				r.Violate("duplicate-served", cas, tail(s.Trace(), 12), "a write with CmdSN %d, already used, was served (next is %d)", sn, s.CmdSN()-1)
				return
			}
			s.Forget(t, "ignored duplicate")
			r.Add("duplicates", 1)
		case 10: // outside the window
			note('X')
			if !atRest() {
				return
			}
			seq := ch.Seq()
			_, max := s.Window()
			sn := max + 1 + uint32(rng.Intn(3))
			if rng.Intn(3) == 0 {
				sn = max + uint32(rng.Intn(1<<30)) + 1
			}
			t, _ := write(rng.Intn(2000), 1+rng.Intn(3), false, sn, true, true)
			if !s.usable("TEST UNIT READY after a CmdSN outside the window") {
				return
			}
			if t.Done() || len(t.R2Ts) > 0 || c07Stored(ch.Events(seq, false)) {
				r.Violate("outside-window-served", cas, tail(s.Trace(), 12), "a write with CmdSN %d outside the window (MaxCmdSN %d) was served", sn, max)
				return
			}
			s.Forget(t, "ignored, outside the window")
			r.Add("outside_window", 1)
		case 11: // unanswered ping and stray data
			note('S')
			p := &ini.PDU{}
			p.H[0], p.H[1] = ini.OpNop|0x40, 0x80
			p.Put32(16, 0xffffffff)
			p.Put32(20, 0xffffffff)
			p.Put32(24, s.CmdSN())
			p.Put32(28, s.ExpStatSN())
			s.SendRaw(p)
		case 12: // a burst of commands, immediate ones in between
			note('P')
			var ts []*ini.Task
			for j := 0; j < 5+rng.Intn(60); j++ {
				cm := ini.NoData(L, make([]byte, 6))
				if rng.Intn(3) == 0 {
					cm = ini.ReadCmd(L, ini.READ10, uint64(rng.Intn(2000)), uint32(rng.Intn(9)), 512, 0)
				}
				cm.NowBit = rng.Intn(5) == 0
				ts = append(ts, s.Submit(cm))
			}
			for _, t := range ts {
				if !s.wait(t, "pipelined command") {
					return
				}
				if t.Status != 0 {
					r.Violate("refused", cas, tail(s.Trace(), 12), "a pipelined command ended with %s", t.Outcome())
					return
				}
			}
			c07Order(r, s, cas, rng)
		}
		if rng.Intn(4) == 0 && !atRest() {
			return
		}
	}
	if !atRest() {
		return
	}
	if off, why := compareMedium(ch, "a", m); why != "" {
		r.Violate("medium-differs", cas, nil, "byte %d of the medium %s", off, why)
	}
	if i%2 == 0 && !c07Shuffle(r, s, cas, rng, m, true) {
		return
	}
	for _, p := range s.Strange {
		r.Violate("unexpected-pdu", cas, tail(s.Trace(), 20), "unexpected %s", p)
	}
	s.protocol("C07")
	r.Add("pdus_followed", int64(s.Stats().In))
	dead(r, ch, cas, "mixed PDUs")
}

// c07Many: reads of n Data-In PDUs among other requests.
func c07Many(r *ck.Run, i, n int) {
	cas := fmt.Sprint("many-", n)
	size := (int64(n) + 8) * 512
	ch := start(r, cas, spec1(Dev{ID: 1, Name: "a", Size: size, Shift: 9}), false)
	if ch == nil {
		return
	}
	defer ch.Stop()
	s := login(r, ch, cas, ini.LoginOpts{MRDSL: 512, ExpStatSN: 0xfffffffe, CmdSN: 0xfffffffd})
	if s == nil {
		return
	}
	defer s.Close()
	L := ini.LUN(0)
	for k := 0; k < 3; k++ {
		var ts []*ini.Task
		var ps []chan *ini.PDU
		for j := 0; j < 6; j++ {
			nb := uint32(1)
			if j%3 == 1 {
				nb = uint32(n)
			}
			ts = append(ts, s.Submit(ini.ReadCmd(L, ini.READ16, uint64(j), nb, 512, 0)))
			ps = append(ps, s.NopAsync(make([]byte, 8), j%2 == 0))
		}
		for j, t := range ts {
			if !s.wait(t, "READ(16) of many segments") {
				return
			}
			if t.Status != 0 {
				r.Violate("refused", cas, tail(s.Trace(), 12), "READ(16) ended with %s", t.Outcome())
				return
			}
			if _, err := ini.WaitPDU(ps[j]); err != nil {
				s.failed(err, "NOP-Out")
				return
			}
		}
		r.Eval(fmt.Sprint("many", n))
	}
	p, err := s.Nop(nil, true)
	if err != nil {
		s.failed(err, "NOP-Out (immediate)")
		return
	}
	if p.U32(28) != s.CmdSN() {
		r.Violate("expcmdsn-at-rest", cas, tail(s.Trace(), 25), "with nothing outstanding ExpCmdSN is %d, the next command number is %d", p.U32(28), s.CmdSN())
	}
	s.protocol("C07")
	dead(r, ch, cas, "reads of many segments")
}

// c07Order: complete writes to one block, pipelined, take effect in the order of their numbers.
func c07Order(r *ck.Run, s *Sess, cas string, rng *rand.Rand) {
	if !s.ImmOK || s.FirstB < 512 || s.TgtMRDSL < 512 {
		return
	}
	const l = 2040
	seq := s.ch.Seq()
	var ts []*ini.Task
	var last []byte
	k := 2 + rng.Intn(10)
	for j := 0; j < k; j++ {
		last = fill(rng, 512)
		ts = append(ts, s.Submit(ini.WriteCmd(ini.LUN(0), ini.WRITE16, l, 1, last, 0)))
	}
	rd := s.Submit(ini.ReadCmd(ini.LUN(0), ini.READ16, l, 1, 512, 0))
	for _, t := range append(ts, rd) {
		if !s.wait(t, "ordered WRITE(16)") {
			return
		}
	}
	n := 0
	for _, e := range s.ch.Events(seq, false) {
		if e.Kind == "write" {
			n++
		}
	}
	r.Eval(fmt.Sprint("order", k))
	if got := s.ch.Peek("a", l*512, 512); !bytes.Equal(got, last) || !bytes.Equal(rd.Data, last) || n != k {
		r.Violate("order", cas, tail(s.Trace(), 25), "%d pipelined writes of one block made %d store writes; the medium does not hold the last one, or a read behind them did not return it", k, n)
	}
	s.ch.Poke("a", l*512, make([]byte, 512))
}

// c07Stored tells whether something was written to the store.
func c07Stored(ev []mon.Event) bool {
	for _, e := range ev {
		if e.Kind == "write" {
			return true
		}
	}
	return false
}

// c07Shuffle sends consecutively numbered requests of all kinds in any order,
// some numbers twice. Each is answered once, the second use of a number is
// ignored, and writes of one block take effect in the order of their numbers.
// With logout, the last of them is a logout.
func c07Shuffle(r *ck.Run, s *Sess, cas string, rng *rand.Rand, m *Model, logout bool) bool {
	const l = 2044
	k := 2 + rng.Intn(20)
	if rng.Intn(2) == 0 {
		k = 2 + rng.Intn(100)
	}
	if rng.Intn(3) == 0 {
		k = 2 + rng.Intn(3)
	}
	if _, err := s.Nop(nil, true); err != nil { // the window is fully open
		s.failed(err, "NOP-Out")
		return false
	}
	seq := s.ch.Seq()
	sns := make([]uint32, k)
	for j := range sns {
		sns[j] = s.TakeCmdSN()
	}
	order := rng.Perm(k)
	switch rng.Intn(4) {
	case 0: // the first one last
		for j, o := range order {
			if o == 0 {
				order[j], order[k-1] = order[k-1], 0
			}
		}
	case 1: // reversed
		for j := range order {
			order[j] = k - 1 - j
		}
	}
	sent := make([]bool, k)
	low := 0 // the first number not sent: what is below has been executed
	type one struct {
		t    *ini.Task
		data []byte
		ch   chan *ini.PDU
		kind int
	}
	reqs := make([]one, k)
	var dups, now, after []*ini.Task
	var dupch, nowch []chan *ini.PDU
	inl := s.ImmOK && s.FirstB >= 512 && s.TgtMRDSL >= 512
	L := ini.LUN(0)
	build := func(sn uint32, kind int) one {
		o := one{kind: kind}
		switch kind {
		case 0:
			cm := ini.NoData(L, make([]byte, 6))
			cm.ForceSN, cm.SN = true, sn
			o.t = s.Submit(cm)
		case 1, 2:
			o.data = fill(rng, 512)
			cm := ini.WriteCmd(L, ini.WRITE10, l, 1, o.data, 0)
			cm.ForceSN, cm.SN, cm.Imm = true, sn, -1
			o.t = s.Submit(cm)
		case 3:
			cm := ini.ReadCmd(L, ini.READ10, uint64(rng.Intn(2000)), uint32(rng.Intn(9)), 512, 0)
			cm.ForceSN, cm.SN = true, sn
			o.t = s.Submit(cm)
		case 4:
			o.data = fill(rng, rng.Intn(200))
			o.ch = s.RequestAt(ini.NopPDU(o.data), sn)
		case 5:
			o.ch = s.RequestAt(ini.TMFPDU(1, L, 0xfff00000|rng.Uint32()>>16, sn-1), sn)
		case 6:
			o.ch = s.RequestAt(ini.TextPDU([]ini.KV{{K: "SendTargets", V: ""}}), sn)
		case 7:
			o.ch = s.RequestAt(ini.LogoutPDU(0, s.Opts.CID), sn)
		}
		return o
	}
	behind := 0
	if logout && rng.Intn(2) == 0 && order[0] != k-1 {
		behind = 1 + rng.Intn(4)
	}
	for n, j := range order {
		if behind > 0 && n == 0 && k > 1 { // before anything else: numbers behind the logout
			for b := 0; b < behind; b++ {
				cm := ini.NoData(L, make([]byte, 6))
				cm.ForceSN, cm.SN = true, s.CmdSN()+uint32(b)
				after = append(after, s.Submit(cm))
			}
		}
		kind := rng.Intn(7)
		if logout && j == k-1 {
			kind = 7
		}
		if (kind == 1 || kind == 2) && !inl {
			kind = 0
		}
		if logout && kind == 3 {
			kind = 0
		}
		reqs[j] = build(sns[j], kind)
		sent[j] = true
		for low < k && sent[low] {
			low++
		}
		if rng.Intn(4) == 0 && !(logout && low == k) {
			// an immediate request with the number of one of them takes the place of none
			if kd := rng.Intn(5); kd > 1 {
				p := ini.NopPDU(nil)
				switch kd {
				case 2:
					p = ini.TextPDU(nil)
				case 3:
					p = ini.TMFPDU(1, L, 0xfff00000|rng.Uint32()>>16, sns[0])
				}
				p.H[0] |= 0x40
				sn := sns[rng.Intn(k)]
				if rng.Intn(2) == 0 {
					sn = s.CmdSN()
				}
				nowch = append(nowch, s.RequestAt(p, sn))
				continue
			}
			cm := ini.NoData(L, make([]byte, 6))
			cm.NowBit, cm.ForceSN, cm.SN = true, true, sns[rng.Intn(k)]
			if rng.Intn(2) == 0 {
				cm.SN = sns[j]
			}
			now = append(now, s.Submit(cm))
		}
		if rng.Intn(3) == 0 && !(logout && low == k) {
			// the same number again, with something else
			d := order[rng.Intn(n+1)]
			o := build(sns[d], []int{1, 1, 0, 4}[rng.Intn(4)])
			if o.t != nil {
				dups = append(dups, o.t)
			} else {
				dupch = append(dupch, o.ch)
			}
		}
	}
	if len(after) > 0 {
		// sent above, but with numbers behind the logout
		defer func() {
			if !s.WaitClosed(ini.Watchdog) {
				s.failed(ini.ErrNoResponse, "the end of a session with requests numbered behind its logout")
			}
			for _, t := range after {
				if t.Done() && t.Err == nil {
					r.Violate("served-after-logout", cas, tail(s.Trace(), 30), "the command with CmdSN %d was answered although CmdSN %d was a logout", t.CmdSN, sns[k-1])
					return
				}
			}
		}()
	}
	what := fmt.Sprintf("%d requests from CmdSN %d sent in the order %v", k, sns[0], order)
	for j := range reqs {
		o := reqs[j]
		if o.t != nil {
			if !s.wait(o.t, "command of "+what) {
				return false
			}
			if o.t.Status != 0 {
				r.Violate("refused", cas, tail(s.Trace(), 25), "%s: the command with CmdSN %d ended with %s", what, sns[j], o.t.Outcome())
				return false
			}
			continue
		}
		p, err := ini.WaitPDU(o.ch)
		if err != nil {
			s.failed(err, what)
			return false
		}
		want := map[int]byte{4: ini.OpNopIn, 5: ini.OpTMFResp, 6: ini.OpTextResp, 7: ini.OpLogoutResp}[o.kind]
		if p.Op() != want || o.kind == 4 && len(o.data) <= int(s.MyMRDSL) && !bytes.Equal(p.Data, o.data) {
			r.Violate("shuffled-answer", cas, tail(s.Trace(), 25), "%s: CmdSN %d was answered by %s", what, sns[j], p)
			return false
		}
	}
	for _, c := range nowch {
		if _, err := ini.WaitPDU(c); err != nil {
			s.failed(err, "immediate request among "+what)
			return false
		}
	}
	for _, t := range now {
		if !s.wait(t, "immediate command among "+what) {
			return false
		}
		if t.Status != 0 {
			r.Violate("refused", cas, tail(s.Trace(), 25), "%s: an immediate command among them ended with %s", what, t.Outcome())
			return false
		}
	}
	if !logout && !s.usable("TEST UNIT READY after shuffled requests") {
		return false
	}
	var last []byte
	writes := 0
	for j := range reqs {
		if reqs[j].kind == 1 || reqs[j].kind == 2 {
			last = reqs[j].data
			writes++
		}
	}
	got := 0
	for _, e := range s.ch.Events(seq, false) {
		if e.Kind == "write" {
			got++
		}
	}
	for _, t := range dups {
		if t.Done() && t.Err == nil || len(t.R2Ts) > 0 {
			r.Violate("duplicate-served", cas, tail(s.Trace(), 30), "%s: the second request with CmdSN %d was served", what, t.CmdSN)
			return false
		}
		s.Forget(t, "ignored duplicate")
	}
	for _, c := range dupch {
		select {
		case p, ok := <-c:
			if ok {
				r.Violate("duplicate-served", cas, tail(s.Trace(), 30), "%s: a second request with the same number was answered by %s", what, p)
				return false
			}
		default:
		}
	}
	if got != writes {
		r.Violate("shuffled-writes", cas, tail(s.Trace(), 30), "%s: %d writes among them made %d store writes", what, writes, got)
		return false
	}
	if last != nil {
		if !bytes.Equal(s.ch.Peek("a", l*512, 512), last) {
			r.Violate("order", cas, tail(s.Trace(), 30), "%s: the block they wrote does not hold the data of the last number", what)
			return false
		}
		m.Write(l*512, last)
	}
	r.Add("shuffled_requests", int64(k))
	r.Add("duplicates", int64(len(dups)+len(dupch)))
	r.Eval(fmt.Sprint("shuffle ", lenClass(k), len(dups)+len(dupch) > 0, sns[0] > sns[k-1], logout))
	return true
}

// c07Refused: what is rejected or refused is answered with a StatSN of its own.
func c07Refused(r *ck.Run, s *Sess, cas string, rng *rand.Rand) bool {
	rejected := func(p *ini.PDU, what string) bool {
		n := len(s.Strange)
		p.Put32(28, s.ExpStatSN())
		s.SendRaw(p)
		if !s.usable("TEST UNIT READY after " + what) {
			return false
		}
		if len(s.Strange) != n+1 || s.Strange[n].Op() != ini.OpReject {
			r.Violate("not-rejected", cas, tail(s.Trace(), 12), "%s was not answered by a Reject", what)
			return false
		}
		s.Strange = s.Strange[:n]
		return true
	}
	what := ""
	switch rng.Intn(5) {
	case 4:
		what = "a login request after the login"
		o := s.Opts
		p := ini.LoginPDU(&o, 1, 3, true, s.NewITT(), []ini.KV{{K: "MaxRecvDataSegmentLength", V: "512"}})
		if rng.Intn(2) == 0 {
			p = ini.LoginPDU(&o, 0, 1, rng.Intn(2) == 0, s.NewITT(), []ini.KV{{K: "InitiatorName", V: o.Initiator}, {K: "TargetName", V: o.Target}})
		}
		p.Put32(24, s.CmdSN())
		if !rejected(p, what) {
			return false
		}
	case 0:
		what = "an unknown opcode"
		p := &ini.PDU{}
		p.H[0], p.H[1] = []byte{0x07, 0x0f, 0x1c, 0x1e, 0x20, 0x21, 0x22, 0x24, 0x25, 0x26, 0x31, 0x32, 0x3e, 0x3f}[rng.Intn(14)], 0x80
		if rng.Intn(2) == 0 { // everything else of a command
			p.H[1] = 0xa1
			p.Data = fill(rng, 512)
			p.Put32(20, 512)
			copy(p.H[32:48], ini.RW(ini.WRITE10, 0, 1, 0))
		}
		p.Put32(16, s.NewITT())
		p.Put32(24, s.CmdSN())
		if !rejected(p, what) {
			return false
		}
	case 1:
		what = "a SNACK"
		p := &ini.PDU{}
		p.H[0], p.H[1] = 0x10, 0x80
		p.Put32(16, s.NewITT())
		p.Put32(20, 0xffffffff)
		if !rejected(p, what) {
			return false
		}
	case 2, 3:
		reason, cid := byte(2), s.Opts.CID
		if rng.Intn(2) == 0 {
			reason, cid = 1, []uint16{cid + 1, cid ^ 1<<uint(rng.Intn(16)), cid ^ 0xffff, cid ^ 0xff00}[rng.Intn(4)]
		}
		what = fmt.Sprintf("a logout with reason %d that closes nothing", reason)
		p, err := s.Ask(ini.LogoutPDU(reason, cid), rng.Intn(2) == 0)
		if err != nil {
			s.failed(err, what)
			return false
		}
		if p.Op() != ini.OpLogoutResp || p.H[2] == 0 {
			r.Violate("logout-refusal", cas, tail(s.Trace(), 12), "%s was answered by %s", what, p)
			return false
		}
		if !s.usable("TEST UNIT READY after " + what) {
			return false
		}
	}
	r.Eval("refused " + what)
	return true
}

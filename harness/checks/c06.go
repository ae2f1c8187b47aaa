package checks

import (
	"bytes"
	"fmt"
	"math/rand"
	"time"

	"verif/ck"
	"verif/ini"
	"verif/mon"
)

func init() { All["C06"] = Check{Run: c06, Level: "exploration", Min: 2000} }

func c06(r *ck.Run) {
	r.Rule("pipelines of up to 40 outstanding commands of every kind (all read and write forms, data-in commands with any allocation and expected length, refused commands, zero lengths) over sessions with every class of MaxRecvDataSegmentLength and MaxBurstLength, slow readers and delayed store calls; the protocol monitor follows each connection PDU by PDU (one response per tag, nothing after it, DataSN, offsets, segment and burst sizes, final and status bits, residuals) and the data of every read is compared with the block contents; expected lengths up to 2^32-1 and reads answered in more than 256 and 65536 Data-Ins are included; every Reject received must carry a header that was sent; distinct by (command, data length class, expected length relation, outcome, segment class)")
	r.Assume("for a data-in command the amount it transfers is its full data, learnt with a large allocation length, cut to the allocation length")
	n := r.Q(56, 200)
	many := []int{300, 66000, 1100}
	r.Each(r.Q(2, 3), 2, func(i int) { c06Many(r, i, many[i]) })
	r.Each(n, 7, func(i int) { c06Episode(r, i) })
	r.Each(r.Q(12, 40), 6, func(i int) { c06Logins(r, i) })
}

// c06Logins looks at the answers to logins in several steps, and to those refused.
func c06Logins(r *ck.Run, i int) {
	cas := fmt.Sprint("login-", i)
	rng := r.Rng("login", i)
	ch := start(r, cas, spec1(Dev{ID: 1, Name: "a", Size: 1 << 20, Shift: 9}), false)
	if ch == nil {
		return
	}
	defer ch.Stop()
	for k := 0; k < 40; k++ {
		o := ini.LoginOpts{Addr: ch.Spec.Addr(), CmdSN: rng.Uint32(), ExpStatSN: rng.Uint32(), ISID: [6]byte{0x80, 6, byte(rng.Int()), 0, 0, byte(k)}, CID: uint16(rng.Uint32())}
		c, err := dialRaw(o)
		if err != nil {
			dead(r, ch, cas, "connect")
			return
		}
		c.itt = rng.Uint32() & 0x7fffffff
		id := []ini.KV{{K: "InitiatorName", V: "iqn.2020-01.verif:" + fmt.Sprint(k)}}
		if rng.Intn(3) == 0 {
			id = append(id, ini.KV{K: "SessionType", V: "Discovery"})
		} else {
			id = append(id, ini.KV{K: "TargetName", V: TN(0)})
		}
		// the steps: each key list in one or several requests, with or without transit
		var qs []lreq
		csg := byte(rng.Intn(2))
		if csg == 0 {
			id = append(id, ini.KV{K: "AuthMethod", V: "None"})
		}
		first := id
		if rng.Intn(2) == 0 {
			raw := ini.EncodeKV(first)
			cut := rng.Intn(len(raw))
			qs = append(qs, lreq{csg: csg, c: true, raw: raw[:cut]})
			first = nil
			qs = append(qs, lreq{csg: csg, raw: raw[cut:]})
		} else {
			qs = append(qs, lreq{csg: csg, kv: first})
		}
		for j := rng.Intn(3); j > 0; j-- {
			qs = append(qs, lreq{csg: csg, raw: []byte{}})
		}
		if csg == 0 {
			qs = append(qs, lreq{csg: 0, nsg: 1, t: true, raw: []byte{}})
		}
		for j := rng.Intn(3); j > 0; j-- {
			qs = append(qs, lreq{csg: 1, kv: []ini.KV{{K: []string{"MaxBurstLength", "FirstBurstLength", "X-verif", "MaxRecvDataSegmentLength"}[rng.Intn(4)], V: "8192"}}})
		}
		qs = append(qs, lreq{csg: 1, nsg: 3, t: true, raw: []byte{}})
		if rng.Intn(3) == 0 { // one that is refused in some step
			q := &qs[rng.Intn(len(qs))]
			switch rng.Intn(4) {
			case 0:
				q.raw, q.kv = nil, []ini.KV{{K: "TargetName", V: "iqn.2020-01.verif:nobody"}, {K: "InitiatorName", V: "x"}}
			case 1:
				q.mod = func(p *ini.PDU) { p.H[3] = 1 }
			case 2:
				q.nsg, q.t = 2, true
			case 3:
				q.mod = func(p *ini.PDU) { p.Put16(14, 77) }
			}
		}
		for _, q := range qs {
			if !q.t { // ignored
				q.nsg = byte(rng.Intn(4))
			}
			a, err := c.login(q)
			if err == errQuiet {
				r.Violate("no-login-answer", cas, c.log, "a login request got no answer")
				return
			}
			if err != nil { // closed
				r.Eval("login-closed")
				break
			}
			if a.Op() == ini.OpReject {
				r.Eval("login-reject")
				break
			}
			r.Eval(fmt.Sprint("login", q.csg, q.nsg, q.t, q.c, a.H[1], a.H[36] != 0))
			r.Add("login_answers", 1)
			if e := ini.LoginShape(a); e != "" {
				r.Violate("login-shape", cas, c.log, "a login request with CSG=%d NSG=%d T=%v C=%v was answered by %s: %s", q.csg, q.nsg, q.t, q.c, a, e)
				return
			}
			if a.ITT() != c.itt {
				r.Violate("login-tag", cas, c.log, "the answer to login request %x has tag %x", c.itt, a.ITT())
				return
			}
			if a.H[36] != 0 {
				break
			}
		}
		c.close()
	}
	dead(r, ch, cas, "logins")
}

// sizesOf: commands returning parameter data, with the position and width of their allocation length.
type inCmd struct {
	name     string
	cdb      []byte
	off, wid int
}

func paramCmds() []inCmd {
	return []inCmd{
		{"INQUIRY", []byte{ini.INQUIRY, 0, 0, 0, 0, 0}, 3, 2},
		{"INQUIRY-00", []byte{ini.INQUIRY, 1, 0, 0, 0, 0}, 3, 2},
		{"INQUIRY-80", []byte{ini.INQUIRY, 1, 0x80, 0, 0, 0}, 3, 2},
		{"INQUIRY-83", []byte{ini.INQUIRY, 1, 0x83, 0, 0, 0}, 3, 2},
		{"INQUIRY-B0", []byte{ini.INQUIRY, 1, 0xb0, 0, 0, 0}, 3, 2},
		{"INQUIRY-B2", []byte{ini.INQUIRY, 1, 0xb2, 0, 0, 0}, 3, 2},
		{"MODE_SENSE(6)", []byte{ini.MODESNS6, 0, 0x3f, 0, 0, 0}, 4, 1},
		{"MODE_SENSE(6)-dbd", []byte{ini.MODESNS6, 8, 0x08, 0, 0, 0}, 4, 1},
		{"MODE_SENSE(10)", []byte{ini.MODESNS10, 0, 0x3f, 0, 0, 0, 0, 0, 0, 0}, 7, 2},
		{"REPORT_LUNS", []byte{ini.RPTLUNS, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, 6, 4},
		{"READ_CAPACITY(16)", append([]byte{ini.SAI16, 0x10}, make([]byte, 14)...), 10, 4},
		{"REPORT_OPCODES", []byte{ini.MAINTIN, 0x0c, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, 6, 4},
		{"PR_IN-keys", []byte{ini.PRIN, 0, 0, 0, 0, 0, 0, 0, 0, 0}, 7, 2},
		{"PR_IN-caps", []byte{ini.PRIN, 2, 0, 0, 0, 0, 0, 0, 0, 0}, 7, 2},
	}
}

func (c inCmd) with(alloc int) []byte {
	b := append([]byte{}, c.cdb...)
	for j := 0; j < c.wid; j++ {
		b[c.off+j] = byte(alloc >> uint(8*(c.wid-1-j)))
	}
	return b
}
func (c inCmd) max() int {
	if c.wid == 1 {
		return 255
	}
	return 4096
}

func c06Episode(r *ck.Run, i int) {
	rng := r.Rng("ep", i)
	cas := fmt.Sprint(i)
	shift := uint(9 + i%4)
	bs := 1 << shift
	const blocks = 1200
	ch := start(r, cas, spec1(Dev{ID: 1, Name: "a", Size: blocks << shift, Shift: shift}, Dev{ID: 2, Name: "b", Size: 1 << 20, Shift: 9}), false)
	if ch == nil {
		return
	}
	defer ch.Stop()
	content := fill(rng, blocks<<shift) // the first 1000 blocks are only read, the others only written
	ch.Poke("a", 0, content)
	o := sessVar(rng, i)
	if i%3 == 0 {
		o.MRDSL, o.OmitMRDSL = uint32([]int{512, 513, 1000, 1022, 4096, 65535, 262144, 16777215}[rng.Intn(8)]), false
	}
	s := login(r, ch, cas, o)
	if s == nil {
		return
	}
	if i%4 == 1 {
		s.Conn.AHS = headerSegs(r.Rng("ahs", i))
	}
	defer s.Close()
	if i%4 == 1 {
		ch.AddFault(mon.Fault{Dev: "a", Kind: "read", Mode: "delay", Arg: int64(rng.Intn(3000)), Off: int64(rng.Intn(100 * bs)), Len: int64(200 * bs)})
	}
	full := map[string][]byte{}
	for _, c := range paramCmds() {
		t, ok := s.cmd(ini.InCmd(ini.LUN(0), c.with(c.max()), uint32(c.max())), c.name)
		if !ok {
			return
		}
		if t.Status != 0 {
			continue
		}
		full[c.name] = append([]byte{}, t.Data...)
	}
	type sent struct {
		t    *ini.Task
		want []byte // nil: not compared
		err  bool   // must fail
		may  bool   // may succeed or fail
		what string
		key  string
	}
	var open []*sent
	judge := func(x *sent) bool {
		if !s.wait(x.t, x.what) {
			return false
		}
		r.Eval(x.key + fmt.Sprint(x.t.Status, s.MyMRDSL < 8192, s.MyMRDSL%4, s.MaxBurst < 65536))
		if x.may && x.t.Status != 0 {
			return true
		}
		if x.err != (x.t.Status != 0) {
			r.Violate("outcome:"+firstWord(x.what), cas, tail(s.Trace(), 20), "%s ended with %s", x.what, x.t.Outcome())
			return false
		}
		if x.want != nil && x.t.Status == 0 && !bytes.Equal(x.t.Data, x.want) {
			r.Violate("data:"+firstWord(x.what), cas, tail(s.Trace(), 20), "%s returned %d bytes that are not the data expected (%d bytes, first difference at %d)", x.what, len(x.t.Data), len(x.want), diffAt(x.t.Data, x.want))
			return false
		}
		return true
	}
	depth := 1 + rng.Intn(40)
	rel := func(e, x int) string {
		switch {
		case e < x:
			return "<"
		case e > x:
			return ">"
		}
		return "="
	}
	pcs := paramCmds()
	for k := 0; k < r.Q(130, 260); k++ {
		x := &sent{}
		lun := ini.LUN(0)
		var cm ini.Cmd
		switch c := rng.Intn(12); {
		case c < 5: // read
			n := rng.Intn(8)
			switch rng.Intn(4) {
			case 0:
				n = 1 + rng.Intn(300)
			case 1:
				n = 1 + rng.Intn(65536/bs+1)
			}
			l := rng.Intn(1000 - n)
			op := []byte{ini.READ6, ini.READ10, ini.READ12, ini.READ16}[rng.Intn(4)]
			if op == ini.READ6 && (n == 0 || n > 256) {
				op = ini.READ10
			}
			cm = ini.ReadCmd(lun, op, uint64(l), uint32(n), bs, 0)
			if n == 256 && op == ini.READ6 {
				cm.CDB[4] = 0
			}
			x.want = content[l*bs : (l+n)*bs]
			switch rng.Intn(7) {
			case 6:
				cm.EDTL = []uint32{0x7fffffff, 0x80000000, 0x80000000 + uint32(n*bs), 0xffffffff, 1 << 30}[rng.Intn(5)]
			case 0:
				cm.EDTL += uint32(1 + rng.Intn(3000))
			case 1:
				cm.EDTL += uint32(512 * rng.Intn(100))
			case 2:
				if n > 0 {
					cm.EDTL = uint32(rng.Intn(n * bs))
					x.may = true
					x.want = x.want[:cm.EDTL]
				}
			}
			if cm.EDTL == 0 {
				cm.Read = rng.Intn(2) == 0
			}
			x.what = fmt.Sprintf("%s lba %d n %d expecting %d", opName(op), l, n, cm.EDTL)
			x.key = fmt.Sprint(op, lenClass(n*bs), rel(int(cm.EDTL), n*bs))
		case c < 7: // write
			n := 1 + rng.Intn(30)
			l := 1000 + rng.Intn(200-n)
			op := []byte{ini.WRITE6, ini.WRITE10, ini.WRITE12, ini.WRITE16, ini.WRVER10, ini.WRVER16}[rng.Intn(6)]
			cm = ini.WriteCmd(lun, op, uint64(l), uint32(n), fill(rng, n*bs), 0)
			if rng.Intn(4) == 0 {
				e := 4 * (1 + rng.Intn(500))
				cm.EDTL += uint32(e)
				cm.Out = append(cm.Out, make([]byte, e)...)
			}
			if rng.Intn(2) == 0 {
				cm.Imm = rng.Intn(len(cm.Out))
			}
			x.what = fmt.Sprintf("%s lba %d n %d expecting %d", opName(op), l, n, cm.EDTL)
			x.key = fmt.Sprint(op, rel(int(cm.EDTL), n*bs), cm.Imm >= 0)
		case c < 10: // parameter data
			p := pcs[rng.Intn(len(pcs))]
			f, ok := full[p.name]
			if !ok {
				continue
			}
			alloc := rng.Intn(p.max() + 1)
			if rng.Intn(2) == 0 {
				alloc = rng.Intn(len(f) + 3)
			}
			if alloc > p.max() {
				alloc = p.max()
			}
			edtl := alloc
			switch rng.Intn(6) {
			case 5:
				edtl = 0
			case 4:
				edtl = []int{0x7fffffff, 0x80000000, 0xffffffff, 0x80000000 + alloc}[rng.Intn(4)]
			case 0:
				edtl = rng.Intn(alloc + 300)
			case 1:
				edtl = alloc + 4*rng.Intn(300)
			}
			x.want = f
			if alloc < len(f) {
				x.want = f[:alloc]
			}
			cm = ini.InCmd(lun, p.with(alloc), uint32(edtl))
			cm.Xfer = int64(len(x.want))
			if edtl < len(x.want) {
				x.want = x.want[:edtl]
				x.may = true
			}
			if p.name[0] == 'P' && alloc < 8 || p.name == "REPORT_LUNS" && alloc < 16 {
				x.may = true // less than the header may be refused
			}
			if p.name[0] == 'P' {
				x.want = nil // the generation is not constant
			}
			if edtl == 0 {
				cm.Read = rng.Intn(2) == 0
			}
			x.what = fmt.Sprintf("%s allocation %d expecting %d of %d", p.name, alloc, edtl, len(f))
			x.key = fmt.Sprint(p.name, rel(alloc, len(f)), rel(edtl, int(cm.Xfer)))
		case c < 11: // nothing to transfer
			cdb := [][]byte{make([]byte, 6), ini.RW(ini.SYNC10, 0, 3, 0), ini.RW(ini.VERIFY10, 5, 4, 0), ini.RW(ini.VERIFY16, 5, 4, 0), ini.RW(ini.PREFETCH, 0, 3, 0), ini.RW(ini.READ10, 7, 0, 0), ini.RW(ini.WRITE10, 7, 0, 0)}[rng.Intn(7)]
			cm = ini.NoData(lun, cdb)
			if rng.Intn(3) == 0 {
				cm.Read, cm.EDTL = true, uint32(rng.Intn(5000))
				if rng.Intn(4) == 0 {
					cm.EDTL = 0x80000000 + uint32(rng.Intn(5000))
				}
				x.may = true // the direction may be refused
			}
			x.what = fmt.Sprintf("%s expecting %d", opName(cdb[0]), cm.EDTL)
			x.key = fmt.Sprint("nd", cdb[0], cm.EDTL > 0)
		default: // refused
			x.err = true
			switch rng.Intn(4) {
			case 0:
				cm = ini.ReadCmd(lun, ini.READ10, blocks-2, 7, bs, 0)
			case 1:
				cm = ini.ReadCmd(lun, []byte{0xc1, 0x0b, 0xf7, 0x44}[rng.Intn(4)], 3, 7, bs, 0)
			case 2:
				cm = ini.ReadCmd(ini.LUN(77), ini.READ16, 1, 3, bs, 0)
			case 3:
				cm = ini.WriteCmd(lun, ini.WRITE16, blocks-1, 2, fill(rng, 2*bs), 0)
			}
			cm.Xfer = -1
			x.what = fmt.Sprintf("refused opcode %02x expecting %d", cm.CDB[0], cm.EDTL)
			x.key = fmt.Sprint("bad", cm.CDB[0])
		}
		cm.Attr = []byte{1, 1, 1, 0, 2, 3}[rng.Intn(6)]
		if rng.Intn(20) == 0 {
			s.PauseReading()
			time.AfterFunc(time.Duration(rng.Intn(20))*time.Millisecond, s.ResumeReading)
		}
		x.t = s.Submit(cm)
		open = append(open, x)
		if rng.Intn(15) == 0 {
			s.NopAsync(fill(rng, rng.Intn(200)), rng.Intn(2) == 0)
		}
		if rng.Intn(40) == 0 && !c07Refused(r, s, cas, rng) {
			return
		}
		for len(open) > depth {
			j := rng.Intn(len(open))
			if !judge(open[j]) {
				return
			}
			open = append(open[:j], open[j+1:]...)
		}
	}
	s.ResumeReading()
	for _, x := range open {
		if !judge(x) {
			return
		}
	}
	for k := 0; k < 3; k++ { // anything late would come before these answers
		if !s.usable("TEST UNIT READY at the end") {
			return
		}
	}
	for _, p := range s.Strange {
		if p.Op() != ini.OpNopIn {
			r.Violate("unexpected-pdu", cas, tail(s.Trace(), 20), "the target sent %s although every request was valid", p)
		}
	}
	s.protocol("C06")
	st := s.Stats()
	r.Add("data_in_pdus", int64(st.DataIn))
	r.Add("responses", int64(st.Resp))
	dead(r, ch, cas, "pipelined commands")
}

var _ = rand.Int

// c06Many reads n segments of 512 bytes with one command.
func c06Many(r *ck.Run, i, n int) {
	cas := fmt.Sprint("many-", n)
	rng := r.Rng("many", i)
	size := (int64(n) + 8) * 512
	ch := start(r, cas, spec1(Dev{ID: 1, Name: "a", Size: size, Shift: 9}), false)
	if ch == nil {
		return
	}
	defer ch.Stop()
	d := fill(rng, int(size))
	ch.Poke("a", 0, d)
	s := login(r, ch, cas, ini.LoginOpts{MRDSL: 512})
	if s == nil {
		return
	}
	defer s.Close()
	l := rng.Intn(8)
	t, ok := s.cmd(ini.ReadCmd(ini.LUN(0), ini.READ16, uint64(l), uint32(n), 512, 0), "READ(16) of many segments")
	if !ok {
		return
	}
	if t.Status != 0 || !bytes.Equal(t.Data, d[l*512:(l+n)*512]) {
		r.Violate("data:READ(16)", cas, tail(s.Trace(), 10), "a read of %d segments ended with %s and %d bytes, first difference at %d", n, t.Outcome(), len(t.Data), diffAt(t.Data, d[l*512:(l+n)*512]))
		return
	}
	if len(t.DIns) < n {
		r.Violate("segment-exceeded", cas, nil, "%d bytes came in %d Data-Ins although MaxRecvDataSegmentLength is 512", n*512, len(t.DIns))
	}
	r.Eval(fmt.Sprint("many", n))
	r.Max("most_data_ins", int64(len(t.DIns)))
	s.protocol("C06")
	dead(r, ch, cas, "a read of many segments")
}

package checks

import (
	"fmt"

	"verif/ck"
	"verif/ini"
	"verif/tgt"
)

// c08Raw holds writes on a hand-driven connection and looks at what a monitor
// that keeps to the rules of an initiator cannot see: expected lengths far
// beyond what any store holds, and a second command with the tag of a write
// that still waits for its data. The second must not get the data of the
// first, nor the first be disturbed by it: it is refused or ends the
// connection.
func c08Raw(r *ck.Run, i int) {
	rng := r.Rng("raw", i)
	cas := fmt.Sprint("raw ", i)
	const size = 1 << 20
	ch := start(r, cas, spec1(Dev{ID: 1, Name: "a", Size: size, Shift: 9}, Dev{ID: 2, Name: "b", Size: size, Shift: 9}), false)
	if ch == nil {
		return
	}
	defer ch.Stop()
	for round := 0; round < 12; round++ {
		o := ini.LoginOpts{Addr: ch.Spec.Addr(), CmdSN: rng.Uint32(), ExpStatSN: rng.Uint32(), ISID: [6]byte{0x80, 8, 8, 8, byte(i), byte(round)},
			MaxBurst: uint32(512 * (1 + rng.Intn(128))), FirstB: 512, ImmData: []string{"Yes", "No"}[rng.Intn(2)]}
		c, err := dialRaw(o)
		if err != nil {
			dead(r, ch, cas, "connect")
			return
		}
		ok := c08RawRound(r, ch, c, cas, rng.Intn(2) == 0, func(n int) int { return rng.Intn(n) })
		c.close()
		if !ok || dead(r, ch, cas, "hand-made writes") {
			return
		}
	}
}

func c08RawRound(r *ck.Run, ch *tgt.Child, c *rawc, cas string, huge bool, pick func(int) int) bool {
	bad := func(sig, f string, a ...interface{}) bool {
		r.Violate(sig, cas, c.log, f, a...)
		return false
	}
	kv := append([]ini.KV{{K: "InitiatorName", V: "iqn.2020-01.verif:raw8"}, {K: "TargetName", V: TN(0)}}, ini.DefaultKeys(&c.o)...)
	p, err := c.login(lreq{csg: 1, nsg: 3, t: true, kv: kv})
	if err != nil || p.Op() != ini.OpLoginResp || p.H[36] != 0 || p.H[1]&0x83 != 0x83 {
		return bad("login-failed", "a valid login was refused")
	}
	burst := int64(c.o.MaxBurst)
	imm := 0
	if c.o.ImmData == "Yes" {
		imm = 4 * pick(128)
	}
	// next returns the next PDU that is not a NOP-In
	next := func(what string) *ini.PDU {
		for {
			p, err := c.recv(ini.Watchdog)
			if err != nil {
				return nil
			}
			if p.Op() != ini.OpNopIn {
				return p
			}
		}
	}
	write := func(lun int, tag uint32, edtl uint32, data []byte, cdb []byte) *ini.PDU {
		q := c.scsi(ini.LUN(lun), cdb, 0x20, edtl, data)
		if tag != 0 {
			q.Put32(16, tag)
		}
		c.o.CmdSN++
		c.send(q)
		return q
	}
	asked := func(q *ini.PDU, tag uint32, off, total int64, what string) bool {
		want := total - off
		if want > burst {
			want = burst
		}
		if q == nil {
			return bad("no-r2t", "%s: no R2T at offset %d", what, off)
		}
		if q.Op() != ini.OpR2T || q.U32(16) != tag {
			return bad("no-r2t", "%s: answered by %s instead of an R2T at offset %d", what, q, off)
		}
		if n := int64(q.U32(44)); int64(q.U32(40)) != off || n < 1 || n > want {
			return bad("r2t-range", "%s: the R2T asks for %d bytes at %d where at most %d at %d are missing (MaxBurstLength %d)", what, n, q.U32(40), want, off, burst)
		}
		return true
	}
	tag := uint32(0x1000)
	if huge {
		edtl := []uint32{0x80000000, 0x80000200, 0xc0000000, 0xfffffe00, 0xffffffff, 0x7fffffff, 0x7ffffe00, 0x10000 << 9}[pick(8)]
		cdb := ini.RW(ini.WRITE16, uint64(pick(100)), edtl>>9, 0)
		write(0, tag, edtl, filled(0x5a, imm), cdb)
		what := fmt.Sprintf("a write of %d bytes", edtl)
		off := int64(imm)
		for k := 0; k < 3; k++ {
			q := next(what)
			if q != nil && q.Op() == ini.OpResp && q.H[3] == 2 {
				r.Add("huge_writes_refused", 1)
				return true
			}
			if !asked(q, tag, off, int64(edtl), what) {
				return false
			}
			n := int64(q.U32(44))
			for n > 0 {
				l := n
				if l > 8192 {
					l = 8192
				}
				d := &ini.PDU{Data: filled(0x5a, int(l))}
				d.H[0] = ini.OpDataOut
				if l == n {
					d.H[1] = 0x80
				}
				d.Put32(16, tag)
				d.Put32(20, q.U32(20))
				d.Put32(28, c.stat)
				d.Put32(40, uint32(off))
				c.send(d)
				off += l
				n -= l
			}
		}
		if q := next(what); !asked(q, tag, off, int64(edtl), what) {
			return false
		}
		// it can still be aborted
		a := c.req(ini.OpTMF, 1, ini.LUN(0), tag, nil)
		c.send(a)
		c.o.CmdSN++
		if q := next("an abort"); q == nil || q.Op() != ini.OpTMFResp || q.H[2] != 0 {
			return bad("not-aborted", "%s that waits for data cannot be aborted: %v", what, q)
		}
		r.Eval(fmt.Sprint("huge ", edtl, imm > 0))
		r.Add("huge_writes", 1)
		return true
	}
	// a held write, another command with its tag, then the data of the first
	n := 2 + pick(8)
	lba := uint64(pick(1000))
	first := filled(byte(1+pick(100)), n*512)
	if imm > n*512-4 {
		imm = n*512 - 4
	}
	seq := ch.Seq()
	before := ch.Peek("a", int64(lba)*512, n*512)
	write(0, tag, uint32(n*512), first[:imm], ini.RW(ini.WRITE10, lba, uint32(n), 0))
	q := next("a write")
	if !asked(q, tag, int64(imm), int64(n*512), "a write") {
		return false
	}
	lun := pick(2)
	kind := []string{"write", "whole write", "read", "test"}[pick(4)]
	if kind == "whole write" && c.o.ImmData != "Yes" {
		kind = "write"
	}
	l2 := uint64(1100 + pick(500))
	switch kind {
	case "write":
		write(lun, tag, 1024, nil, ini.RW(ini.WRITE10, l2, 2, 0))
	case "whole write":
		write(lun, tag, 512, filled(0xe1, 512), ini.RW(ini.WRITE10, l2, 1, 0))
	case "read":
		p := c.scsi(ini.LUN(lun), ini.RW(ini.READ10, l2, 1, 0), 0x40, 512, nil)
		p.Put32(16, tag)
		c.o.CmdSN++
		c.send(p)
	case "test":
		p := c.scsi(ini.LUN(lun), make([]byte, 6), 0, 0, nil)
		p.Put32(16, tag)
		c.o.CmdSN++
		c.send(p)
	}
	what := fmt.Sprintf("a %s to LUN %d with the tag of a write to LUN 0 that waits for data", kind, lun)
	a := next(what)
	r.Eval(fmt.Sprint("tag in use ", kind, lun, imm > 0))
	r.Add("tags_in_use", 1)
	served := a != nil && (a.Op() == ini.OpR2T || a.Op() == ini.OpDataIn || a.Op() == ini.OpResp && a.H[2] == 0 && a.H[3] == 0)
	if served {
		return bad("tag-in-use-served", "%s is served: %s", what, a)
	}
	if a == nil {
		if c.ended == nil {
			return bad("tag-in-use-unanswered", "%s is neither refused nor does it end the connection", what)
		}
	} else {
		off, end := int64(imm), int64(imm)+int64(q.U32(44))
		for {
			d := &ini.PDU{Data: first[off:end]}
			d.H[0], d.H[1] = ini.OpDataOut, 0x80
			d.Put32(16, tag)
			d.Put32(20, q.U32(20))
			d.Put32(28, c.stat)
			d.Put32(40, uint32(off))
			c.send(d)
			if off = end; off == int64(n*512) {
				break
			}
			if q = next("the write"); !asked(q, tag, off, int64(n*512), "a write whose tag another command had as well") {
				return false
			}
			end = off + int64(q.U32(44))
		}
		if a = next("the write"); a == nil || a.Op() != ini.OpResp || a.U32(16) != tag || a.H[2] != 0 || a.H[3] != 0 {
			return bad("first-disturbed", "a write whose tag a refused command had as well, given all its data, ends with %v", a)
		}
	}
	got := ch.Peek("a", int64(lba)*512, n*512)
	if a != nil && string(got) != string(first) || a == nil && string(got) != string(before) {
		return bad("first-misplaced", "a write whose tag another command had as well: byte %d of its blocks is wrong", diffAt(got, first))
	}
	for _, e := range ch.Events(seq, false) {
		if e.Kind == "write" && (e.Dev != "a" || e.Off < int64(lba)*512 || e.Off+int64(e.Len) > int64(lba)*512+int64(n*512)) {
			return bad("tag-in-use-executed", "%s wrote %d bytes at %d of store %s", what, e.Len, e.Off, e.Dev)
		}
	}
	return true
}

package checks

import (
	"fmt"
	"math/rand"

	"verif/ck"
	"verif/ini"
	"verif/tgt"
)

// c25Fields sends commands gotgt serves with fields that ask for something it
// cannot do. Each must be refused with INVALID FIELD IN CDB and do nothing:
// running the command without what the field asks for would be a wrong answer.
func c25Fields(r *ck.Run, ch *tgt.Child, s *Sess, cas string, rng *rand.Rand, bs int, thin, orw bool) bool {
	type fc struct {
		name string
		c    ini.Cmd
		any  bool // any ILLEGAL REQUEST
	}
	var l []fc
	lun := ini.LUN(0)
	out := func(cdb []byte, n int) ini.Cmd { return ini.OutCmd(lun, cdb, fill(rng, n)) }
	add := func(name string, c ini.Cmd) { l = append(l, fc{name: name, c: c}) }
	for prot := byte(0x20); prot != 0; prot += 0x20 { // RDPROTECT, WRPROTECT, VRPROTECT 1..7
		low := byte(rng.Intn(2)) << 4 // with DPO as well
		for _, op := range []byte{ini.READ10, ini.READ12, ini.READ16} {
			c := ini.ReadCmd(lun, op, uint64(rng.Intn(100)), uint32(1+rng.Intn(3)), bs, prot|low)
			add(fmt.Sprintf("%s RDPROTECT %d", opName(op), prot>>5), c)
		}
		ws := []byte{ini.WRITE10, ini.WRITE12, ini.WRITE16, 0x2e, 0xae, 0x8e}
		if orw {
			ws = append(ws, 0x8b)
		}
		for _, op := range ws {
			n := 1 + rng.Intn(3)
			c := ini.WriteCmd(lun, op, uint64(rng.Intn(100)), uint32(n), fill(rng, n*bs), prot|low)
			add(fmt.Sprintf("%s WRPROTECT %d", opName(op), prot>>5), c)
		}
		for _, op := range []byte{ini.WRSAME10, ini.WRSAME16} {
			c := ini.WriteCmd(lun, op, uint64(rng.Intn(100)), uint32(1+rng.Intn(3)), fill(rng, bs), prot)
			add(fmt.Sprintf("%s WRPROTECT %d", opName(op), prot>>5), c)
		}
		for _, op := range []byte{0x2f, 0xaf, 0x8f} {
			c := ini.WriteCmd(lun, op, uint64(rng.Intn(100)), 1, fill(rng, bs), prot|low|2)
			add(fmt.Sprintf("%s with data, VRPROTECT %d", opName(op), prot>>5), c)
			cdb := append([]byte{}, c.CDB...)
			cdb[1] = prot | low
			add(fmt.Sprintf("%s VRPROTECT %d", opName(op), prot>>5), ini.NoData(lun, cdb))
		}
	}
	for _, op := range []byte{ini.WRSAME10, ini.WRSAME16} {
		fl := map[string]byte{"ANCHOR": 0x10, "ANCHOR and UNMAP": 0x18, "PBDATA and LBDATA": 6, "LBDATA": 2, "PBDATA": 4}
		if !thin {
			fl["UNMAP, not thin provisioned"] = 8
		}
		for _, n := range []string{"ANCHOR", "ANCHOR and UNMAP", "PBDATA and LBDATA", "LBDATA", "PBDATA", "UNMAP, not thin provisioned"} {
			if f := fl[n]; f != 0 {
				add(opName(op)+" "+n, ini.WriteCmd(lun, op, uint64(rng.Intn(100)), uint32(1+rng.Intn(3)), fill(rng, bs), f))
			}
		}
	}
	for _, f := range []byte{0x80, 0x10, 1, 2, 3, 4, 5, 6, 7, 0x90, 0x94, 0xc0} {
		cdb := []byte{0x04, f, 0, 0, 0, 0}
		add(fmt.Sprintf("FORMAT UNIT %02x", f), ini.NoData(lun, cdb))
		add(fmt.Sprintf("FORMAT UNIT %02x with data", f), out(cdb, 4+rng.Intn(60)))
	}
	for k := 2; k < 6; k++ {
		cdb := make([]byte, 10)
		cdb[0], cdb[k] = 0x25, byte(1<<uint(rng.Intn(8)))
		add(fmt.Sprintf("READ CAPACITY(10) byte %d", k), ini.InCmd(lun, cdb, 8))
	}
	add("UNMAP ANCHOR", out(append([]byte{0x42, 1, 0, 0, 0, 0, 0, 0}, 0, 24)[:10], 24))
	l[len(l)-1].c.CDB[8] = 24
	l[len(l)-1].c.CDB[9] = 0
	// parameter lists longer than what was sent
	for _, p := range [][2]int{{0x18, 0x17}, {0xff, 0x18}, {1, 0}, {0x18, 0}} {
		l = append(l, fc{fmt.Sprintf("MODE SELECT(6) length %d with %d bytes", p[0], p[1]), out([]byte{0x15, 0x10, 0, 0, byte(p[0]), 0}, p[1]), true})
	}
	for _, p := range [][2]int{{0x118, 0x18}, {0x118, 0x117}, {0x100, 0xff}, {0x100, 0}, {8, 7}, {0x8000, 0x200}} {
		l = append(l, fc{fmt.Sprintf("MODE SELECT(10) length %d with %d bytes", p[0], p[1]), out([]byte{0x55, 0x10, 0, 0, 0, 0, 0, byte(p[0] >> 8), byte(p[0]), 0}, p[1]), true})
	}
	rng.Shuffle(len(l), func(a, b int) { l[a], l[b] = l[b], l[a] })
	ch.Events(0, true)
	for _, x := range l {
		if x.c.Read || x.c.Write {
			x.c.Xfer = -1
		}
		if rng.Intn(3) == 0 && x.c.Write && len(x.c.Out) > 1 {
			x.c.Imm = rng.Intn(len(x.c.Out))
		}
		t, ok := s.cmd(x.c, x.name)
		if !ok {
			return false
		}
		r.Eval(fmt.Sprintf("field %s %02x", x.name, t.Status))
		if si := t.SenseInfo(); t.Status != 2 || si.Key != 5 || si.Bad != "" || !x.any && si.ASC != 0x2400 {
			r.Violate("field:"+firstWord(x.name), cas, tail(s.Trace(), 8), "%s (%x), a field gotgt does not support, ended with %s instead of ILLEGAL REQUEST / INVALID FIELD IN CDB", x.name, x.c.CDB, t.Outcome())
			return false
		}
		for _, e := range ch.Events(0, true) {
			if e.Kind != "open" && e.Kind != "read" {
				r.Violate("field-effect:"+firstWord(x.name), cas, tail(s.Trace(), 8), "%s (%x) was refused, but store %s got %s at %d, %d bytes", x.name, x.c.CDB, e.Dev, e.Kind, e.Off, e.Len)
				return false
			}
		}
	}
	return true
}

package checks

import (
	"bytes"
	"fmt"
	"math/rand"

	"verif/ck"
	"verif/ini"

	"github.com/gostor/gotgt/pkg/config"
)

func init() { All["C25"] = Check{Run: c25, Level: "exploration", Min: 20000} }

// c25Must are the operation codes (and service actions) gotgt serves.
var c25Must = []opDesc{{0x00, -1}, {0x03, -1}, {0x04, -1}, {0x08, -1}, {0x0a, -1}, {0x12, -1}, {0x15, -1}, {0x16, -1}, {0x17, -1}, {0x1a, -1}, {0x1b, -1}, {0x1d, -1}, {0x1e, -1}, {0x25, -1}, {0x28, -1}, {0x2a, -1}, {0x2e, -1}, {0x2f, -1}, {0x34, -1}, {0x35, -1}, {0x41, -1}, {0x42, -1}, {0x55, -1}, {0x5a, -1},
	{0x5e, 0}, {0x5e, 1}, {0x5e, 2}, {0x5f, 0}, {0x5f, 1}, {0x5f, 2}, {0x5f, 3}, {0x5f, 4}, {0x5f, 6}, {0x5f, 7}, {0x88, -1}, {0x8a, -1}, {0x8b, -1}, {0x8e, -1}, {0x8f, -1}, {0x90, -1}, {0x91, -1}, {0x93, -1}, {0x9e, 0x10}, {0x9e, 0x12}, {0xa0, -1}, {0xa3, 0x0c}, {0xa8, -1}, {0xaa, -1}, {0xae, -1}, {0xaf, -1}}

func c25(r *ck.Run) {
	r.Rule("all 256 operation codes, and for those with service actions all 32 of them, each with zero, all-ones and random remaining CDB bytes, expected lengths from none to more than any answer, as reads, writes and neither, on a disk, on a LUN that is not there and on a LUN-0 placeholder, from several sessions at once, on servers with and without the optional commands; every answer is judged by whether the code is supported, its sense by its own length fields and by that of the same code with other lengths, MODE SELECT with every kind of parameter list must leave MODE SENSE and the medium alone, the stores are watched during unsupported codes and during supported commands with fields that ask for what gotgt cannot do (protection information, write-same variants, format data, parameter lists that were not sent), and a set of unrelated commands is repeated in between on the same nexus and on another LUN by another nexus and must be answered as at the start. Distinct by (operation code, service action, LUN kind, direction, length class, status)")
	r.Assume("supported are the operation codes gotgt implements (a table in the check) and any other that REPORT SUPPORTED OPERATION CODES lists; a failing store aside, refusals of supported codes are ILLEGAL REQUEST or MISCOMPARE")
	r.Each(r.Q(28, 240), 7, func(i int) { c25World(r, i) })
}

type c25cmd struct {
	cdb   []byte
	read  bool
	write bool
	edtl  uint32
}

func c25CDB(rng *rand.Rand, op byte, sa int) []byte {
	cdb := make([]byte, 16)
	switch rng.Intn(4) {
	case 0:
	case 1:
		cdb = filled(0xff, 16)
	default:
		copy(cdb, fill(rng, 16))
	}
	cdb[0] = op
	if sa >= 0 {
		cdb[1] = cdb[1]&0xe0 | byte(sa)
	}
	if rng.Intn(2) == 0 { // what lies behind the CDB's own length is none of the command's business
		n := []int{6, 10, 10, 16, 16, 12, 16, 16}[op>>5]
		for k := n; k < 16; k++ {
			cdb[k] = 0
		}
	}
	return cdb
}

// canary is a command whose answer must not depend on what others did.
type canary struct {
	name string
	c    ini.Cmd
}

func c25Canaries(lun [8]byte, bs int) []canary {
	nn := func(op byte, rest ...byte) []byte { return append([]byte{op}, rest...) }
	rsoc := nn(0xa3, 0x0c, 0, 0, 0, 0, 0, 0, 0x20, 0, 0, 0)
	return []canary{
		{"TEST UNIT READY", ini.NoData(lun, nn(0, 0, 0, 0, 0, 0))},
		{"INQUIRY", ini.InCmd(lun, nn(0x12, 0, 0, 0, 255, 0), 255)},
		{"INQUIRY page 83", ini.InCmd(lun, nn(0x12, 1, 0x83, 0, 255, 0), 255)},
		{"INQUIRY page b0", ini.InCmd(lun, nn(0x12, 1, 0xb0, 0, 255, 0), 255)},
		{"INQUIRY page 77", ini.InCmd(lun, nn(0x12, 1, 0x77, 0, 255, 0), 255)},
		{"MODE SENSE(6)", ini.InCmd(lun, nn(0x1a, 0, 0x3f, 0, 255, 0), 255)},
		{"MODE SENSE(10)", ini.InCmd(lun, nn(0x5a, 0, 0x08, 0, 0, 0, 0, 1, 0, 0), 256)},
		{"READ CAPACITY(10)", ini.InCmd(lun, nn(0x25, 0, 0, 0, 0, 0, 0, 0, 0, 0), 8)},
		{"READ CAPACITY(16)", ini.InCmd(lun, nn(0x9e, 0x10, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 32, 0, 0), 32)},
		{"REQUEST SENSE", ini.InCmd(lun, nn(0x03, 0, 0, 0, 64, 0), 64)},
		{"REPORT LUNS", ini.InCmd(lun, nn(0xa0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0), 512)},
		{"REPORT SUPPORTED OPERATION CODES", ini.InCmd(lun, rsoc, 8192)},
		{"an unknown operation code", ini.NoData(lun, nn(0xe1, 0, 0, 0, 0, 0))},
		{"an unknown service action", ini.InCmd(lun, nn(0x9e, 0x1f, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 32, 0, 0), 32)},
		{"READ(10) behind the end", ini.ReadCmd(lun, ini.READ10, 1<<30, 1, bs, 0)},
		{"READ(10)", ini.ReadCmd(lun, ini.READ10, 5, 2, bs, 0)},
		{"READ(16)", ini.ReadCmd(lun, ini.READ16, 6, 1, bs, 0)},
		{"WRITE(10)", ini.WriteCmd(lun, ini.WRITE10, c25Block, 1, filled(0x5a, bs), 0)},
	}
}

// c25Block is what the writing canary writes.
const c25Block = 300

type c25ans struct {
	status byte
	data   []byte
	sense  []byte
}

type c25nexus struct {
	s    *Sess
	lun  [8]byte
	c    []canary
	want []c25ans
	own  bool // block contents may be changed by the commands tried
}

func (n *c25nexus) look(r *ck.Run, after string) bool {
	for k, x := range n.c {
		if x.c.Xfer == 0 && x.c.EDTL > 0 {
			x.c.Xfer = -1
		}
		t, ok := n.s.cmd(x.c, x.name)
		if !ok {
			return false
		}
		a := c25ans{t.Status, append([]byte{}, t.Data...), append([]byte{}, t.Sense...)}
		if len(n.want) <= k {
			n.want = append(n.want, a)
			continue
		}
		w := n.want[k]
		if n.own && x.c.Read && (x.c.CDB[0] == ini.READ10 || x.c.CDB[0] == ini.READ16) {
			a.data, w.data = nil, nil
		}
		if a.status != w.status || !bytes.Equal(a.data, w.data) || !bytes.Equal(a.sense, w.sense) {
			r.Violate("changed:"+firstWord(x.name), n.s.cas, map[string]interface{}{"before": fmt.Sprintf("%+v", w), "now": fmt.Sprintf("%+v", a), "trace": tail(n.s.Trace(), 10)}, "%s is answered otherwise than at the start (status %02x, %d bytes, first difference at %d; sense %x was %x) after %s", x.name, a.status, len(a.data), diffAt(a.data, w.data), a.sense, w.sense, after)
			return false
		}
		r.Eval("canary " + x.name)
	}
	return true
}

func c25World(r *ck.Run, i int) {
	rng := r.Rng("w", i)
	cas := fmt.Sprint(i)
	shift := uint(9 + i%4)
	bs := 1 << shift
	const blocks = 400
	sp := spec1(Dev{ID: 1, Name: "a", Size: blocks << shift, Shift: shift, Thin: i%2 == 0}, Dev{ID: 2, Name: "b", Size: 1 << 20, Shift: 9}, Dev{ID: 3, Name: "c", Size: 1 << 20, Shift: 12})
	sp.NoORWrite, sp.NoPR = i%5 == 3, i%5 == 4
	sp.NoMultip = i%5 == 2
	// a target whose LUN 0 is only a placeholder
	sp.Config.ISCSITargets[TN(1)] = config.ISCSITarget{TPGTs: map[string][]uint64{"1": {0}}, LUNs: map[string]uint64{"3": 2}}
	ch := start(r, cas, sp, false)
	if ch == nil {
		return
	}
	defer ch.Stop()
	for _, d := range []string{"a", "b", "c"} {
		ch.Poke(d, 0, fill(rng, 64<<10))
	}
	mb := NewModel(1 << 20)
	mb.Write(0, ch.Peek("b", 0, 64<<10))
	ch.Poke("b", c25Block*512, filled(0x5a, 512))
	mb.Write(c25Block*512, filled(0x5a, 512))
	mk := func(k int, target string) *Sess {
		o := sessVar(rng, k)
		o.Target, o.Initiator = target, fmt.Sprintf("iqn.2020-01.verif:c25.%d", k)
		o.ISID = [6]byte{0x80, 0x25, 0, 0, 0, byte(k)}
		if o.MRDSL > 0 && o.MRDSL < 4096 {
			o.MRDSL = 4096
		}
		return login(r, ch, cas, o)
	}
	s, by, ph := mk(1, TN(0)), mk(2, TN(0)), mk(3, TN(1))
	if s == nil || by == nil || ph == nil {
		return
	}
	defer s.Close()
	defer by.Close()
	defer ph.Close()
	if i == 0 {
		r.Sample(map[string]interface{}{"example": fmt.Sprintf("%x", c25CDB(rng, 0xc1, -1))})
	}
	// what is said to be supported
	t, ok := s.cmd(ini.InCmd(ini.LUN(0), []byte{0xa3, 0x0c, 0, 0, 0, 0, 0, 0, 0x40, 0, 0, 0}, 16384), "REPORT SUPPORTED OPERATION CODES")
	if !ok {
		return
	}
	l, m := c15Opcodes(t.Data)
	if t.Status != 0 || m != "" {
		r.Violate("opcodes", cas, tail(s.Trace(), 6), "REPORT SUPPORTED OPERATION CODES ended with %s %s", t.Outcome(), m)
		return
	}
	sup := map[byte]map[int]bool{}
	for _, o := range l {
		if sup[o.op] == nil {
			sup[o.op] = map[int]bool{}
		}
		sup[o.op][o.sa] = true
	}
	if sp.NoORWrite && sup[0x8b] != nil || sp.NoPR && (sup[0x5e] != nil || sup[0x5f] != nil) {
		r.Violate("listed-off", cas, nil, "a command that is switched off is listed as supported")
		return
	}
	for _, o := range c25Must {
		if o.op == 0x8b && sp.NoORWrite || (o.op|1) == 0x5f && sp.NoPR {
			continue
		}
		if sup[o.op] == nil {
			sup[o.op] = map[int]bool{}
		}
		sup[o.op][o.sa] = true
	}
	// canaries on the LUN under test by the same nexus, and on another LUN by another
	own := &c25nexus{s: s, lun: ini.LUN(0), c: c25Canaries(ini.LUN(0), bs), own: true}
	other := &c25nexus{s: by, lun: ini.LUN(1), c: c25Canaries(ini.LUN(1), 512)}
	if !own.look(r, "") || !other.look(r, "") {
		return
	}
	for k := 0; k < r.Q(24, 80); k++ {
		what, ok := c25ModeSelect(s, rng)
		if !ok || !own.look(r, what) || !other.look(r, what) {
			return
		}
		r.Add("mode_selects", 1)
	}
	for k := 0; k < r.Q(2, 4); k++ {
		if !c25Fields(r, ch, s, cas, rng, bs, i%2 == 0, !sp.NoORWrite) {
			return
		}
	}
	if off, why := compareMedium(ch, "b", mb); why != "" {
		r.Violate("medium", cas, nil, "byte %d of another LUN's medium %s", off, why)
		return
	}
	type job struct {
		op byte
		sa int
	}
	var jobs []job
	for op := 0; op < 256; op++ {
		jobs = append(jobs, job{byte(op), -1})
		switch op {
		case 0x5e, 0x5f, 0x7f, 0x9e, 0x9f, 0xa3, 0xa4, 0x3b, 0x3c, 0xab, 0x48, 0x83, 0x84:
			for sa := 0; sa < 32; sa++ {
				jobs = append(jobs, job{byte(op), sa})
			}
		}
	}
	rng.Shuffle(len(jobs), func(a, b int) { jobs[a], jobs[b] = jobs[b], jobs[a] })
	first := map[string]string{} // unsupported operation code, service action -> sense of the refusal
	ev := ch.Seq()
	var last string
	for n, j := range jobs {
		for rep := 0; rep < r.Q(3, 6); rep++ {
			cdb := c25CDB(rng, j.op, j.sa)
			sa := int(cdb[1] & 0x1f)
			x := ini.Cmd{CDB: cdb, Xfer: -1, Imm: -1, Attr: byte(rng.Intn(5)), NowBit: rng.Intn(8) == 0}
			edtl := []int{0, 4, 18, 36, 96, 255, 512, 4096, 30000}[rng.Intn(9)]
			dir := rng.Intn(3)
			switch {
			case dir == 1 && edtl > 0:
				x.Read, x.EDTL = true, uint32(edtl)
			case dir == 2 && edtl > 0:
				x.Write, x.EDTL, x.Out = true, uint32(edtl), fill(rng, edtl)
				if rng.Intn(2) == 0 {
					x.Imm = rng.Intn(edtl)
				}
			default:
				edtl, dir = 0, 0
			}
			kind := rng.Intn(8)
			on, where, lk := s, ini.LUN(0), "disk"
			switch kind {
			case 0:
				where, lk = ini.LUN(9), "nothing"
			case 1:
				on, lk = ph, "placeholder"
			}
			x.LUN = where
			last = fmt.Sprintf("%x on %s, expecting %d (direction %d)", cdb, lk, x.EDTL, dir)
			// end the effects of commands that really reserve or register afterwards
			t, ok := on.cmd(x, last)
			if !ok {
				return
			}
			supported := sup[j.op] != nil && (sup[j.op][-1] || sup[j.op][sa])
			unknownOp := sup[j.op] == nil
			r.Eval(fmt.Sprintf("%02x %d %s %d %s %02x", j.op, sa*b2i(j.sa >= 0), lk, dir, lenClass(edtl), t.Status))
			si := t.SenseInfo()
			bad := func(sig, f string, a ...interface{}) {
				r.Violate(fmt.Sprintf("%s:%02x", sig, j.op), cas, tail(on.Trace(), 6), "%s ended with %s: %s", last, t.Outcome(), fmt.Sprintf(f, a...))
			}
			if t.Status == 2 && si.Bad != "" {
				bad("sense", "sense %x is malformed: %s", t.Sense, si.Bad)
				return
			}
			if t.Status != 0 && len(t.Data) > 0 {
				bad("data", "with %d bytes of data", len(t.Data))
				return
			}
			if t.Resp != 0 {
				bad("response", "iSCSI response code %02x", t.Resp)
				return
			}
			switch {
			case dir == 1 && c25Writes[j.op] || dir == 2 && c25Reads[j.op]:
				// flags against the operation: as good as bidirectional, which is refused
				if !t.IsCheck(5, 0) && !t.IsCheck(5, 0x2400) && !(lk != "disk" && t.IsCheck(5, 0x2500)) {
					bad("direction", "flags against the direction of the operation")
					return
				}
			case lk != "disk":
				// a LUN that is not there: identification only
				ident := j.op == 0x12 || j.op == 0xa0 || j.op == 0x03
				if !ident && !t.IsCheck(5, 0x2500) && !(unknownOp && t.IsCheck(5, 0x2000)) {
					bad("no-lun", "on a LUN that is not there")
					return
				}
				if ident && t.Status != 0 && si.Key != 5 {
					bad("no-lun", "on a LUN that is not there")
					return
				}
			case unknownOp:
				if !t.IsCheck(5, 0x2000) {
					bad("unknown-op", "the operation code is not supported")
					return
				}
			case !supported:
				if !t.IsCheck(5, 0x2400) && !t.IsCheck(5, 0x2000) {
					bad("unknown-sa", "the service action is not supported")
					return
				}
			default:
				if t.Status == 2 && si.Key != 5 && si.Key != 0xe || t.Status != 0 && t.Status != 2 && t.Status != 0x18 {
					bad("answer", "no defined answer")
					return
				}
				if t.Status == 2 && si.ASC == 0x2000 {
					bad("listed-refused", "the command is listed as supported")
					return
				}
				if t.Status == 2 && si.ASC == 0 {
					bad("no-reason", "no additional sense code")
					return
				}
			}
			if !supported || lk != "disk" || dir == 1 && c25Writes[j.op] || dir == 2 && c25Reads[j.op] {
				// no store is touched
				es := ch.Events(ev, true)
				for _, e := range es {
					if e.Kind != "open" && e.Seq > ev {
						bad("store-touched", "store %s got %s at %d, %d bytes", e.Dev, e.Kind, e.Off, e.Len)
						return
					}
				}
				// the sense does not depend on lengths or other bytes of the CDB
				if lk == "disk" && !supported {
					k := fmt.Sprintf("%02x", j.op)
					if !unknownOp {
						k += fmt.Sprint(" ", sa)
					}
					v := fmt.Sprintf("%x", t.Sense)
					if w, ok := first[k]; ok && w != v {
						bad("sense-varies", "sense %s was %s for the same operation code with other lengths", v, w)
						return
					}
					first[k] = v
				}
			}
			ev = ch.Seq()
			ch.Events(ev, true)
			// reservations and registrations made by chance are given back
			if t.Status == 0 && (j.op == 0x16 || j.op == 0x5f) {
				if !c25Undo(s) {
					return
				}
				ev = ch.Seq()
			}
		}
		if n%40 == 39 || n == len(jobs)-1 {
			if !own.look(r, last) || !other.look(r, last) {
				return
			}
			if off, why := compareMedium(ch, "b", mb); why != "" {
				r.Violate("medium", cas, nil, "byte %d of another LUN's medium %s", off, why)
				return
			}
			ev = ch.Seq()
		}
	}
	// a second round on several sessions at once, only unsupported codes
	type res struct {
		t *ini.Task
		j job
	}
	var open []res
	for k := 0; k < r.Q(400, 2000); k++ {
		j := jobs[rng.Intn(len(jobs))]
		if sup[j.op] != nil {
			continue
		}
		on := []*Sess{s, by}[k%2]
		x := ini.NoData([][8]byte{ini.LUN(0), ini.LUN(1), ini.LUN(2)}[rng.Intn(3)], c25CDB(rng, j.op, -1))
		if rng.Intn(2) == 0 {
			x.Read, x.EDTL, x.Xfer = true, uint32(rng.Intn(3000)+1), -1
		}
		open = append(open, res{on.Submit(x), j})
		if len(open) > 20 {
			if !c25Flush(r, s, by, open[0].t, open[0].j.op) {
				return
			}
			open = open[1:]
		}
	}
	for _, o := range open {
		if !c25Flush(r, s, by, o.t, o.j.op) {
			return
		}
	}
	for _, x := range []*Sess{s, by, ph} {
		x.protocol("C25")
	}
	own.look(r, "everything")
	other.look(r, "everything")
}

func c25Flush(r *ck.Run, a, b *Sess, t *ini.Task, op byte) bool {
	s := a
	if t.C == b.Conn {
		s = b
	}
	if !s.wait(t, fmt.Sprintf("operation code %02x", op)) {
		return false
	}
	r.Eval(fmt.Sprintf("pipelined %02x", op))
	if !t.IsCheck(5, 0x2000) {
		r.Violate(fmt.Sprintf("unknown-op:%02x", op), s.cas, tail(s.Trace(), 10), "operation code %02x, which is not supported, ended with %s among others", op, t.Outcome())
		return false
	}
	return true
}

// c25ModeSelect sends a MODE SELECT with mode pages of any content: nothing gotgt reports or does depends on them.
func c25ModeSelect(s *Sess, rng *rand.Rand) (string, bool) {
	var pages []byte
	for k := rng.Intn(4); k > 0; k-- {
		switch rng.Intn(4) {
		case 0: // control
			p := append([]byte{0x0a, 10}, make([]byte, 10)...)
			p[4], p[2], p[3] = byte(rng.Intn(2))<<3|byte(rng.Intn(8)), byte(rng.Intn(2))<<2, byte(rng.Intn(2))<<4
			pages = append(pages, p...)
		case 1: // caching
			p := append([]byte{0x08, 18}, make([]byte, 18)...)
			p[2] = byte(rng.Intn(256))
			pages = append(pages, p...)
		case 2: // sub page
			pages = append(pages, append([]byte{0x4a, 1, 0, 28}, fill(rng, 28)...)...)
		default:
			n := rng.Intn(30)
			pages = append(append(pages, byte(rng.Intn(64)), byte(n)), fill(rng, n)...)
		}
	}
	var cdb, p []byte
	if rng.Intn(2) == 0 {
		p = []byte{0, byte(rng.Intn(2)), byte(rng.Intn(256)), 0}
		if rng.Intn(3) == 0 {
			p[3] = 8
			p = append(p, []byte{0, 0, 0, 0, 0, 0, byte(2 * rng.Intn(3)), 0}...)
		}
		p = append(p, pages...)
		if rng.Intn(6) == 0 {
			p = fill(rng, rng.Intn(200))
		}
		cdb = []byte{0x15, []byte{0x10, 0x11, 0}[rng.Intn(3)], 0, 0, byte(len(p)), 0}
	} else {
		p = []byte{0, 0, byte(rng.Intn(2)), byte(rng.Intn(256)), 0, 0, 0, 0}
		if rng.Intn(3) == 0 {
			p[7] = 8
			p = append(p, []byte{0, 0, 0, 0, 0, 0, byte(2 * rng.Intn(3)), 0}...)
		}
		p = append(p, pages...)
		if rng.Intn(6) == 0 {
			p = fill(rng, rng.Intn(200))
		}
		cdb = []byte{0x55, []byte{0x10, 0x11, 0}[rng.Intn(3)], 0, 0, 0, 0, 0, 0, byte(len(p)), 0}
	}
	c := ini.OutCmd(ini.LUN(0), cdb, p)
	c.Xfer = -1
	what := fmt.Sprintf("MODE SELECT %x with %x", cdb, p)
	_, ok := s.cmd(c, what)
	return what, ok
}

// c25Undo releases the reservation and clears registrations.
func c25Undo(s *Sess) bool {
	t, ok := s.cmd(ini.NoData(ini.LUN(0), []byte{0x17, 0, 0, 0, 0, 0}), "RELEASE(6)")
	if !ok {
		return false
	}
	_ = t
	// register-and-ignore a known key, then clear
	p := make([]byte, 24)
	p[15] = 0x5a
	cdb := []byte{0x5f, 6, 0, 0, 0, 0, 0, 0, 24, 0}
	if _, ok = s.cmd(ini.OutCmd(ini.LUN(0), cdb, p), "REGISTER AND IGNORE"); !ok {
		return false
	}
	p = make([]byte, 24)
	p[7] = 0x5a
	_, ok = s.cmd(ini.OutCmd(ini.LUN(0), []byte{0x5f, 3, 0, 0, 0, 0, 0, 0, 24, 0}, p), "CLEAR")
	return ok
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// operation codes whose direction the target knows
var (
	c25Reads  = map[byte]bool{0x08: true, 0x28: true, 0xa8: true, 0x88: true}
	c25Writes = map[byte]bool{0x0a: true, 0x2a: true, 0xaa: true, 0x8a: true, 0x2e: true, 0xae: true, 0x8e: true}
)

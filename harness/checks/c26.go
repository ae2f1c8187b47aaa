package checks

import (
	"bytes"
	"fmt"
	"math/rand"
	"path/filepath"

	"verif/ck"
	"verif/ini"
	"verif/mon"
	"verif/tgt"
)

func init() { All["C26"] = Check{Run: c26, Level: "exploration", Min: 12000} }

func c26(r *ck.Run) {
	r.Rule("VERIFY (10), (12), (16) on monitored and file stores, blocks of 512 to 4096 bytes, one block to several bursts: equal data, every single byte different one at a time, several and compensating differences, differences only next to the range, no byte check with any medium, ranges around the capacity, verification behind pipelined writes, every bit of the LBA and length fields; UNMAP with none to 255 descriptors, any expected/parameter list/descriptor data length combination, ranges at, across and far behind the end in any position of the list, wrap-around pairs, overlapping and empty ranges, lists sent in several bursts, on thin and thick LUNs, before and after a resize, with writes in between. The calls the store gets are compared with the list, the medium with the writes. Distinct by (command, form, difference class, range class, outcome)")
	r.Assume("of a list whose lengths cut a descriptor, the complete descriptors are unmapped or the list is refused without effect; ranges of no blocks need not reach the store")
	r.Each(r.Q(28, 200), 7, func(i int) { c26Verify(r, i) })
	r.Each(r.Q(28, 200), 7, func(i int) { c26Unmap(r, i) })
	sweepAll(r, []sweepOp{{ini.VERIFY10, "verify"}, {ini.VERIFY12, "verify"}, {ini.VERIFY16, "verify"}})
}

func c26Verify(r *ck.Run, i int) {
	rng := r.Rng("v", i)
	cas := fmt.Sprintf("verify-%d", i)
	shift := uint(9 + i%4)
	bs := 1 << shift
	size := int64(2000)<<shift + int64(i%3)*100
	d := Dev{ID: 1, Name: "a", Size: size, Shift: shift, Thin: i%2 == 0}
	file := i%4 == 3
	if file {
		p := filepath.Join(r.SubDir("f"), "disk")
		mkfile(p, size)
		d.Path = "file:" + p
	}
	ch := start(r, cas, spec1(d), false)
	if ch == nil {
		return
	}
	defer ch.Stop()
	o := sessVar(rng, i)
	s := login(r, ch, cas, o)
	if s == nil {
		return
	}
	defer s.Close()
	m := NewModel(size)
	write := func(lba uint64, data []byte) bool {
		if !file {
			ch.Poke("a", int64(lba)*int64(bs), data)
		} else {
			for off := 0; off < len(data); off += 60000 >> shift << shift {
				e := off + 60000>>shift<<shift
				if e > len(data) {
					e = len(data)
				}
				t, ok := s.cmd(ini.WriteCmd(ini.LUN(0), ini.WRITE16, lba+uint64(off>>shift), uint32((e-off)>>shift), data[off:e], 0), "WRITE(16)")
				if !ok || t.Status != 0 {
					return false
				}
			}
		}
		m.Write(int64(lba)*int64(bs), data)
		return true
	}
	if !write(0, fill(rng, 2000<<shift)) {
		return
	}
	evs := ch.Seq()
	quiet := func(what string) bool {
		if file {
			return true
		}
		for _, e := range ch.Events(evs, true) {
			if e.Seq > evs && (e.Kind == "write" || e.Kind == "sync" || e.Kind == "unmap") {
				r.Violate("verify-modifies", cas, tail(s.Trace(), 6), "%s made the store %s at %d, %d bytes", what, e.Kind, e.Off, e.Len)
				return false
			}
		}
		evs = ch.Seq()
		return true
	}
	ops := []byte{ini.VERIFY10, ini.VERIFY12, ini.VERIFY16}
	verify := func(op byte, lba uint64, n uint32, data []byte, fl byte, want bool, class string) bool {
		c := ini.WriteCmd(ini.LUN(0), op, lba, n, data, fl)
		c.Imm = -1
		if len(data) > 0 && rng.Intn(3) == 0 {
			c.Imm = rng.Intn(len(data))
		}
		what := fmt.Sprintf("%s of %d blocks of %d at %d, flags %02x, %d bytes of data (%s)", opName(op), n, bs, lba, fl, len(data), class)
		t, ok := s.cmd(c, what)
		if !ok {
			return false
		}
		r.Eval(fmt.Sprint(opName(op), class, lenClass(int(n)), shift, file, t.Status))
		if want && t.Status != 0 {
			r.Violate("verify-refused:"+class, cas, tail(s.Trace(), 6), "%s ended with %s", what, t.Outcome())
			return false
		}
		if !want && !t.IsCheck(0xe, 0x1d00) {
			r.Violate("verify-passed:"+class, cas, tail(s.Trace(), 6), "%s ended with %s", what, t.Outcome())
			return false
		}
		return true
	}
	// every byte of a block or two
	{
		n := 1 + i%2
		op := ops[i%3]
		lba := uint64(rng.Intn(1900))
		good := m.Read(int64(lba)*int64(bs), n*bs)
		step := 1
		if n*bs > 1024 && r.Q(0, 1) == 0 {
			step = n * bs / 1024
		}
		for k := rng.Intn(step); k < n*bs; k += step {
			bad := append([]byte{}, good...)
			bad[k] ^= 1 << uint(rng.Intn(8))
			if !verify(op, lba, uint32(n), bad, 2, false, "one byte") {
				return
			}
		}
		if !verify(op, lba, uint32(n), good, 2, true, "equal") {
			return
		}
	}
	for k := 0; k < r.Q(260, 1500) && !s.bad; k++ {
		op := ops[rng.Intn(3)]
		n := 1 + rng.Intn(4)
		if rng.Intn(6) == 0 {
			n = 1 + rng.Intn(300000/bs)
		}
		lba := uint64(rng.Intn(2000 - n))
		off := int64(lba) * int64(bs)
		good := m.Read(off, n*bs)
		fl := []byte{2, 2, 0x12}[rng.Intn(3)]
		switch rng.Intn(10) {
		case 0, 1: // equal
			if !verify(op, lba, uint32(n), good, fl, true, "equal") {
				return
			}
		case 2: // one byte near an edge of blocks, segments or bursts
			edges := []int{0, n*bs - 1, bs - 1, bs, 8191, 8192, 65535, 65536, n * bs / 2, rng.Intn(n * bs)}
			e := edges[rng.Intn(len(edges))]
			if e >= n*bs {
				e = n*bs - 1
			}
			bad := append([]byte{}, good...)
			bad[e] ^= 1 << uint(rng.Intn(8))
			if !verify(op, lba, uint32(n), bad, fl, false, "edge byte") {
				return
			}
		case 3: // sums stay the same
			bad := append([]byte{}, good...)
			a, b := rng.Intn(n*bs), rng.Intn(n*bs)
			if bad[a] == bad[b] {
				bad[a]++
			} else {
				bad[a], bad[b] = bad[b], bad[a]
			}
			if !verify(op, lba, uint32(n), bad, fl, false, "swapped bytes") {
				return
			}
		case 4: // other blocks of the medium
			o2 := uint64(rng.Intn(2000 - n))
			if o2 == lba {
				o2++
			}
			bad := m.Read(int64(o2)*int64(bs), n*bs)
			if !bytes.Equal(bad, good) && !verify(op, lba, uint32(n), bad, fl, false, "blocks of elsewhere") {
				return
			}
		case 5: // differences next to the range are none
			if lba > 0 && !write(lba-1, fill(rng, bs)) || lba+uint64(n) < 2000 && !write(lba+uint64(n), fill(rng, bs)) {
				return
			}
			evs = ch.Seq()
			if !verify(op, lba, uint32(n), good, fl, true, "neighbours differ") {
				return
			}
		case 6: // no byte check: whatever is there, with or without data
			data := []byte{}
			if rng.Intn(2) == 0 {
				data = fill(rng, n*bs)
			}
			if len(data) == 0 {
				t, ok := s.cmd(ini.NoData(ini.LUN(0), ini.RW(op, lba, uint32(n), fl&0x10)), "VERIFY without byte check")
				if !ok {
					return
				}
				r.Eval(fmt.Sprint("unchecked", op, lenClass(n), t.Status))
				if t.Status != 0 {
					r.Violate("verify-refused:unchecked", cas, tail(s.Trace(), 6), "%s of %d blocks at %d without byte check ended with %s", opName(op), n, lba, t.Outcome())
					return
				}
			} else if !verify(op, lba, uint32(n), data, fl&0x10, true, "unchecked with data") {
				return
			}
		case 7: // the range
			var l, c uint64
			switch rng.Intn(5) {
			case 0:
				l, c = 2000, 1
			case 1:
				l, c = 1999, 2
			case 2:
				l, c = 2000-uint64(n), uint64(n)+1
			case 3:
				l, c = 1<<32-1, 2
			default:
				l, c = 1990, 65535
			}
			var x ini.Cmd
			if rng.Intn(2) == 0 {
				x = ini.WriteCmd(ini.LUN(0), op, l, uint32(c), fill(rng, 4*bs), fl)
			} else {
				x = ini.NoData(ini.LUN(0), ini.RW(op, l, uint32(c), fl&0x10))
			}
			t, ok := s.cmd(x, "VERIFY out of range")
			if !ok {
				return
			}
			r.Eval(fmt.Sprint("range", op, lenClass(int(c)), t.Status))
			if !t.IsCheck(5, 0x2100) {
				r.Violate("verify-range", cas, tail(s.Trace(), 6), "%s of %d blocks at %d, flags %02x, on a medium of 2000 blocks ended with %s", opName(op), c, l, x.CDB[1], t.Outcome())
				return
			}
		case 8: // the data is short
			c := ini.WriteCmd(ini.LUN(0), op, lba, uint32(n), good[:rng.Intn(n*bs)], fl)
			t, ok := s.cmd(c, "VERIFY with short data")
			if !ok {
				return
			}
			r.Eval(fmt.Sprint("short", op, lenClass(n), t.Status))
			if t.Status != 2 {
				r.Violate("verify-short", cas, tail(s.Trace(), 6), "%s of %d blocks with byte check but only %d bytes of data ended with %s", opName(op), n, len(c.Out), t.Outcome())
				return
			}
		case 9: // verification behind writes on the way
			cur := append([]byte{}, good...)
			var ts []*ini.Task
			var wants []bool
			for q := 0; q < 4; q++ {
				if n > 8 {
					break
				}
				if rng.Intn(2) == 0 {
					cur = fill(rng, n*bs)
					ts = append(ts, s.Submit(ini.WriteCmd(ini.LUN(0), ini.WRITE10, lba, uint32(n), cur, 0)))
					wants = append(wants, true)
				}
				w := rng.Intn(2) == 0
				data := append([]byte{}, cur...)
				if !w {
					data[rng.Intn(len(data))] ^= 0x10
				}
				ts = append(ts, s.Submit(ini.WriteCmd(ini.LUN(0), op, lba, uint32(n), data, 2)))
				wants = append(wants, w)
			}
			for q, t := range ts {
				if !s.wait(t, "pipelined VERIFY") {
					return
				}
				if wants[q] != (t.Status == 0) || !wants[q] && !t.IsCheck(0xe, 0x1d00) {
					r.Violate("verify-pipelined", cas, tail(s.Trace(), 12), "command %d of a sequence of writes and verifications at %d ended with %s", q, lba, t.Outcome())
					return
				}
				r.Eval(fmt.Sprint("pipelined", op, wants[q], lenClass(n)))
			}
			m.Write(off, cur)
			if !file {
				ch.Events(0, true)
				evs = ch.Seq()
			}
			continue
		}
		if !quiet("a VERIFY") {
			return
		}
	}
	s.protocol("C26")
	if !file {
		if off, why := compareMedium(ch, "a", m); why != "" {
			r.Violate("verify-medium", cas, nil, "after verifications byte %d of the medium %s", off, why)
		}
	} else {
		for lba := uint64(0); lba < 2000; lba += 50 {
			t, ok := s.cmd(ini.ReadCmd(ini.LUN(0), ini.READ10, lba, 50, bs, 0), "READ(10)")
			if !ok {
				return
			}
			if x := diffAt(t.Data, m.Read(int64(lba)*int64(bs), 50*bs)); x >= 0 {
				r.Violate("verify-medium", cas, nil, "after verifications byte %d of the file differs", int64(lba)*int64(bs)+int64(x))
				return
			}
		}
	}
	dead(r, ch, cas, "verifications")
}

func c26Ranges(es []mon.Event, ev int64) (calls int, rs []mon.Range, other string) {
	for _, e := range es {
		if e.Seq <= ev {
			continue
		}
		switch e.Kind {
		case "unmap":
			calls++
			for _, d := range e.Desc {
				if d.Len > 0 {
					rs = append(rs, d)
				}
			}
		case "write", "sync":
			other = fmt.Sprintf("%s at %d, %d bytes", e.Kind, e.Off, e.Len)
		}
	}
	return
}

func c26Unmap(r *ck.Run, i int) {
	rng := r.Rng("u", i)
	cas := fmt.Sprintf("unmap-%d", i)
	shift := uint(9 + i%4)
	bs := uint64(1) << shift
	blocks := []uint64{1, 3000, 1 << 20, 1<<32 + 5, 1 << 33, 1 << 47}[i%6]
	extra := uint64(i%2) * (bs - 1)
	d := Dev{ID: 1, Name: "a", Size: int64(blocks*bs + extra), Shift: shift, Thin: i%3 != 0}
	ch := start(r, cas, spec1(d, Dev{ID: 2, Name: "b", Size: 1 << 20, Shift: 9, Thin: true}), false)
	if ch == nil {
		return
	}
	defer ch.Stop()
	s := login(r, ch, cas, sessVar(rng, i))
	if s == nil {
		return
	}
	defer s.Close()
	m := NewModel(d.Size)
	pat := fill(rng, int(min64(d.Size, 8*int64(bs))))
	ch.Poke("a", 0, pat)
	m.Write(0, pat)
	if i == 0 {
		r.Sample(map[string]interface{}{"unmap": fmt.Sprintf("%x", unmapList(umRange{1, 2}, umRange{5, 0}))})
	}
	ch.Events(0, true)
	for k := 0; k < r.Q(420, 2500) && !s.bad; k++ {
		if k == r.Q(200, 1200) { // another capacity
			nb := blocks/2 + 1 + uint64(rng.Intn(1000))
			if blocks < 4 {
				nb = blocks + 5
			}
			if int64(nb*bs) < d.Size {
				m = m.Clone()
			}
			ch.SetSize("a", int64(nb*bs))
			if ch.Resize(nb*bs) != nil {
				r.Inconclusive("resize refused")
				return
			}
			blocks, extra = nb, 0
			ch.Events(0, true)
		}
		if !c26One(r, ch, s, rng, cas, blocks, bs) {
			return
		}
		if k%20 == 19 { // writes in between stay what they are
			n := uint64(1)
			lba := uint64(rng.Int63n(int64(minu(blocks, 8))))
			data := fill(rng, int(n*bs))
			t, ok := s.cmd(ini.WriteCmd(ini.LUN(0), ini.WRITE16, lba, 1, data, 0), "WRITE(16)")
			if !ok {
				return
			}
			if t.Status != 0 {
				r.Violate("write-after-unmap", cas, tail(s.Trace(), 4), "a write after UNMAP ended with %s", t.Outcome())
				return
			}
			m.Write(int64(lba*bs), data)
			ch.Events(0, true)
		}
	}
	s.protocol("C26")
	m.Size = int64(blocks*bs + extra)
	if off, why := compareMedium(ch, "a", m); why != "" {
		r.Violate("unmap-medium", cas, nil, "after UNMAP commands byte %d of the medium %s", off, why)
	}
	dead(r, ch, cas, "unmaps")
}

func minu(a, b uint64) uint64 {
	if a < b {
		return a
	}
	return b
}

func c26One(r *ck.Run, ch *tgt.Child, s *Sess, rng *rand.Rand, cas string, blocks, bs uint64) bool {
	nd := []int{0, 1, 1, 2, 3, 8, 17, 100, 255}[rng.Intn(9)]
	if rng.Intn(60) == 0 { // up to what the length field can tell
		nd = []int{256, 257, 300, 1024, 4090}[rng.Intn(5)]
	}
	var ds []umRange
	bad := -1 // first descriptor that is out of range
	open := false
	in := func() umRange {
		l := uint64(rng.Int63n(int64(blocks)))
		n := uint64(rng.Intn(20))
		switch rng.Intn(6) {
		case 0:
			n = uint64(rng.Uint32())
		case 1:
			l = blocks - 1
		case 2:
			n = blocks - l // up to the end
		}
		if n > blocks-l {
			n = blocks - l
		}
		if n > 1<<32-1 {
			n = 1<<32 - 1
		}
		return umRange{l, uint32(n)}
	}
	out := func() umRange {
		switch rng.Intn(7) {
		case 0:
			return umRange{blocks, 1}
		case 1:
			return umRange{blocks - 1, 2}
		case 2:
			return umRange{1<<64 - 1, 1}
		case 3:
			return umRange{1<<64 - 1, 2} // wraps to the start
		case 4:
			return umRange{^uint64(0) - uint64(rng.Intn(1000)), 0xffffffff}
		case 5:
			return umRange{1<<63 + uint64(rng.Intn(100)), uint32(rng.Intn(1000) + 1)}
		}
		l := uint64(rng.Int63n(int64(blocks)))
		if blocks-l >= 1<<32-1 {
			return umRange{blocks + uint64(rng.Int63()), uint32(rng.Intn(100) + 1)}
		}
		return umRange{l, uint32(blocks-l) + 1}
	}
	for k := 0; k < nd; k++ {
		ds = append(ds, in())
	}
	if nd > 1 && rng.Intn(4) == 0 { // the same again, or next to it
		k := rng.Intn(nd-1) + 1
		ds[k] = ds[k-1]
	}
	if nd > 0 && rng.Intn(3) == 0 {
		bad = rng.Intn(nd)
		if rng.Intn(3) == 0 {
			bad = nd - 1
		}
		ds[bad] = out()
	}
	if nd > 0 && bad < 0 && rng.Intn(12) == 0 { // no blocks at the very end, or behind it
		ds[rng.Intn(nd)] = umRange{blocks + uint64(rng.Intn(2)*5), 0}
		open = true
	}
	p := unmapList(ds...)
	// the reserved bytes do not matter
	if rng.Intn(3) == 0 {
		for k := range ds {
			copy(p[8+16*k+12:], fill(rng, 4))
		}
		copy(p[4:8], fill(rng, 4))
	}
	lun := ini.LUN(0)
	c := ini.OutCmd(lun, unmapCDB(len(p)), p)
	class := "plain"
	full := nd
	malformed := false
	cut := false
	anchor := false
	switch rng.Intn(14) {
	case 0: // the command takes less than is sent
		n := rng.Intn(len(p) + 1)
		c.CDB = unmapCDB(n)
		class = "parameter list length cuts"
		switch {
		case n == 0:
			full = 0
		case n < 8:
			malformed = true
		default:
			full, cut = (n-8)/16, true
		}
	case 1: // less is sent than the command takes
		n := len(p) + 1 + rng.Intn(40)
		c.CDB = unmapCDB(n)
		class, malformed = "data short", true
	case 2:
		n := rng.Intn(16*nd + 1)
		p[2], p[3] = byte(n>>8), byte(n)
		class, full, cut = "descriptor data length cuts", n/16, n%16 != 0
	case 3:
		n := 16*nd + 1 + rng.Intn(60)
		p[2], p[3] = byte(n>>8), byte(n)
		class, cut = "descriptor data length beyond", true
	case 4:
		c.CDB[1] |= 1
		class, anchor = "anchor", true
	case 5: // more is sent than the command takes
		c.Out = append(append([]byte{}, p...), fill(rng, 1+rng.Intn(600))...)
		c.EDTL = uint32(len(c.Out))
		class = "data long"
	case 6:
		c.CDB[6] = byte(rng.Intn(32)) // group number
		class = "group"
	case 7:
		if nd > 0 {
			n := rng.Intn(16 * nd)
			c.Out, c.EDTL = p[:8+n], uint32(8+n)
			class, malformed = "data cut", true
		}
	case 8:
		c = ini.NoData(lun, unmapCDB(0))
		class, full = "no data", 0
	}
	if full < nd {
		ds = ds[:full]
		if bad >= full {
			bad = -1
		}
	}
	c.Imm = -1
	if rng.Intn(3) == 0 && len(c.Out) > 0 {
		c.Imm = rng.Intn(len(c.Out))
	}
	ev := ch.Seq()
	what := fmt.Sprintf("UNMAP (%s) of %d descriptors, %d complete, blocks %d, out of range %d", class, nd, full, blocks, bad)
	t, ok := s.cmd(c, what)
	if !ok {
		return false
	}
	es := ch.Events(ev, true)
	calls, rs, other := c26Ranges(es, ev)
	r.Eval(fmt.Sprint("unmap", class, lenClass(nd), lenClass(full), bad >= 0, open, bs, t.Status))
	fail := func(sig, f string, a ...interface{}) bool {
		r.Violate("unmap-"+sig, cas, map[string]interface{}{"list": fmt.Sprintf("%x", p), "cdb": fmt.Sprintf("%x", c.CDB), "calls": es, "trace": tail(s.Trace(), 6)}, "%s ended with %s: %s", what, t.Outcome(), fmt.Sprintf(f, a...))
		return false
	}
	if other != "" {
		return fail("other", "the store was asked for %s", other)
	}
	for _, e := range es {
		if e.Seq > ev && e.Dev != "a" {
			return fail("other-store", "store %s got %s", e.Dev, e.Kind)
		}
	}
	none := func() bool {
		if calls > 0 && len(rs) > 0 {
			return fail("effect", "the store was handed %d ranges", len(rs))
		}
		return true
	}
	var want []mon.Range
	for _, x := range ds {
		if x.n > 0 {
			want = append(want, mon.Range{Off: x.lba * bs, Len: uint64(x.n) * bs})
		}
	}
	exact := func() bool {
		if len(rs) != len(want) {
			return fail("ranges", "%d ranges reached the store, expected %d", len(rs), len(want))
		}
		for k := range rs {
			if rs[k] != want[k] {
				return fail("ranges", "range %d is %d bytes at %d, expected %d at %d", k, rs[k].Len, rs[k].Off, want[k].Len, want[k].Off)
			}
		}
		return true
	}
	refused := t.Status == 2 && t.SenseInfo().Key == 5
	switch {
	case anchor, malformed:
		if !refused {
			return fail("accepted", "the list is malformed")
		}
		return none()
	case bad >= 0:
		if !t.IsCheck(5, 0x2100) && !(cut && refused) {
			return fail("accepted", "descriptor %d is out of range", bad)
		}
		return none()
	case cut && refused, open && refused:
		return none()
	}
	if t.Status != 0 {
		return fail("refused", "every range is inside the capacity")
	}
	return exact()
}

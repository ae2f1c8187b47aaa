package checks

import (
	"fmt"
	"math/rand"

	"verif/ck"
	"verif/ini"
	"verif/mon"
)

func init() { All["C03"] = Check{Run: c03, Level: "exploration", Min: 1000} }

var c03Reads = []byte{ini.READ6, ini.READ10, ini.READ12, ini.READ16}
var c03Writes = []byte{ini.WRITE6, ini.WRITE10, ini.WRITE12, ini.WRITE16, ini.WRVER10, ini.WRVER12, ini.WRVER16, ini.ORWRITE}
var c03Same = []byte{ini.WRSAME10, ini.WRSAME16}
var c03Verify = []byte{ini.VERIFY10, ini.VERIFY12, ini.VERIFY16}
var c03Hint = []byte{ini.PREFETCH, ini.PREFETCH16}
var c03Sync = []byte{ini.SYNC10, ini.SYNC16}

func inB(op byte, l []byte) bool {
	for _, o := range l {
		if o == op {
			return true
		}
	}
	return false
}

// lbaMax and lenMax are the widest values the CDB form can carry.
func lbaMax(op byte) uint64 {
	switch {
	case op == ini.READ6 || op == ini.WRITE6:
		return 1<<21 - 1
	case op>>5 == 4:
		return 1<<64 - 1
	}
	return 1<<32 - 1
}
func lenMax(op byte) uint64 {
	switch {
	case op == ini.READ6 || op == ini.WRITE6:
		return 255
	case op>>5 == 4 || op>>5 == 5:
		return 1<<32 - 1
	}
	return 65535
}

func c03(r *ck.Run) {
	r.Rule("every medium-access opcode with LBA and length from boundary values (around the capacity, the CDB field width, 2^31, 2^32, 2^63, wrap-around pairs) and random ones, on devices of 1 block to 2^50 blocks and sizes that are no multiple of the block size, with protection bits, and with expected data lengths shorter or longer than the CDB asks for; every store call and every byte of the medium is observed; non-trivial and distinct by (opcode, LBA class, length class, flags, expected-length relation, device)")
	r.Assume("a transfer length of zero at LBA == capacity may be answered either way (SBC leaves it open)")
	sizes := []struct {
		blocks int64
		shift  uint
		extra  int64
	}{{1, 9, 0}, {17, 12, 0}, {1000, 9, 100}, {2048, 10, 0}, {1<<21 + 10, 9, 0}, {1<<32 + 77, 9, 511}, {1 << 50, 11, 0}, {300, 11, 2047}, {1 << 32, 9, 0}, {1 << 31, 12, 0}}
	n := r.Q(20, 120)
	r.Each(n, 7, func(i int) {
		z := sizes[i%len(sizes)]
		c03Device(r, i, z.blocks, z.shift, z.blocks<<z.shift+z.extra, r.Q(320, 900))
	})
	sweepAll(r, []sweepOp{{ini.READ6, "read"}, {ini.READ10, "read"}, {ini.READ12, "read"}, {ini.READ16, "read"}, {ini.WRITE6, "write"}, {ini.WRITE10, "write"}, {ini.WRITE12, "write"}, {ini.WRITE16, "write"},
		{ini.WRVER10, "write"}, {ini.WRVER12, "write"}, {ini.WRVER16, "write"}, {ini.ORWRITE, "or"}, {ini.WRSAME10, "same"}, {ini.WRSAME16, "same"},
		{ini.VERIFY10, "verify"}, {ini.VERIFY12, "verify"}, {ini.VERIFY16, "verify"}, {ini.SYNC10, "sync"}, {ini.SYNC16, "sync"}})
}

func c03Device(r *ck.Run, i int, blocks int64, shift uint, size int64, cases int) {
	rng := r.Rng("dev", i)
	cas := fmt.Sprint(i)
	bs := int64(1) << shift
	ch := start(r, cas, spec1(Dev{ID: 1000, Name: "d0", Size: size, Shift: shift}, Dev{ID: 1001, Name: "d1", Size: 1 << 20, Shift: 9}), false)
	if ch == nil {
		return
	}
	defer ch.Stop()
	m := NewModel(size)
	pat := fill(rng, 65536)
	put := func(off int64) {
		if off < 0 {
			return
		}
		n := min64(65536, size-off)
		ch.Poke("d0", off, pat[:n])
		m.Write(off, pat[:n])
	}
	put(0)
	put(size - 65536)
	o := ini.LoginOpts{ISID: [6]byte{0x80, 1, 0, byte(i), 0, 3}, Security: i%2 == 0}
	s := login(r, ch, cas, o)
	if s == nil {
		return
	}
	ops := append(append(append(append(append(append([]byte{}, c03Reads...), c03Writes...), c03Same...), c03Verify...), c03Hint...), c03Sync...)
	capb := uint64(blocks)
	// the last addressable block is always usable
	for _, op := range ops {
		l := capb - 1
		if l > lbaMax(op) {
			continue
		}
		var c ini.Cmd
		n := uint32(1)
		switch {
		case inB(op, c03Reads):
			c = ini.ReadCmd(ini.LUN(0), op, l, n, int(bs), 0)
		case inB(op, c03Writes), inB(op, c03Same):
			d := m.Read(int64(l)*bs, int(bs))
			c = ini.WriteCmd(ini.LUN(0), op, l, n, d, 0)
		case inB(op, c03Verify):
			d := m.Read(int64(l)*bs, int(bs))
			c = ini.WriteCmd(ini.LUN(0), op, l, n, d, 2)
		default:
			c = ini.NoData(ini.LUN(0), ini.RW(op, l, n, 0))
		}
		t, ok := s.cmd(c, opName(op)+" of the last block")
		if !ok {
			return
		}
		r.Eval(fmt.Sprint("last", op, i))
		if t.Status != 0 {
			r.Violate("last-block-refused:"+opName(op), cas, tail(s.Trace(), 4), "%s of the last block (LBA %d of %d blocks of %d) ended with %s", opName(op), l, blocks, bs, t.Outcome())
		}
	}
	ch.Events(0, true)
	for k := 0; k < cases && !s.bad; k++ {
		op := ops[rng.Intn(len(ops))]
		lba, lc := c03LBA(rng, op, capb)
		n, nc := c03Len(rng, op, capb, lba)
		c03Case(r, s, rng, cas, op, lba, n, capb, bs, m, lc+"/"+nc, i)
	}
	if s.bad {
		return
	}
	if off, why := compareMedium(ch, "d0", m); why != "" {
		r.Violate("medium-differs", cas, nil, "byte %d of the medium %s after the whole history", off, why)
	}
	if len(ch.Pages("d1")) > 0 {
		r.Violate("other-device-written", cas, nil, "a device no command addressed was written")
	}
	dead(r, ch, cas, "end of history")
}

func c03LBA(rng *rand.Rand, op byte, capb uint64) (uint64, string) {
	mx := lbaMax(op)
	var l uint64
	cl := ""
	switch rng.Intn(9) {
	case 0:
		l, cl = capb-1-uint64(rng.Intn(3)), "cap-"
	case 1:
		l, cl = capb, "cap"
	case 2:
		l, cl = capb+1+uint64(rng.Intn(3)), "cap+"
	case 3:
		l, cl = mx-uint64(rng.Intn(3)), "max"
	case 4:
		b := uint64(1) << []uint{16, 20, 31, 32, 33, 52, 53, 54, 55, 62, 63}[rng.Intn(11)]
		l, cl = b-1+uint64(rng.Intn(3)), "pow"
	case 5:
		l, cl = uint64(rng.Intn(4)), "first"
	case 6:
		// a value whose byte offset wraps to a small one
		l, cl = (uint64(1)<<(64-9-uint(rng.Intn(4))))+uint64(rng.Intn(3)), "wrapbytes"
	case 7:
		l, cl = rng.Uint64(), "rand"
	default:
		l, cl = uint64(rng.Int63n(int64(capb))), "in"
	}
	if l > mx {
		l &= mx
	}
	return l, cl
}

func c03Len(rng *rand.Rand, op byte, capb, lba uint64) (uint64, string) {
	mx := lenMax(op)
	var n uint64
	cl := ""
	switch rng.Intn(8) {
	case 0:
		n, cl = 0, "0"
	case 1, 2:
		n, cl = 1+uint64(rng.Intn(3)), "small"
	case 3:
		n, cl = capb-lba, "exact"
	case 4:
		n, cl = capb-lba+1, "one-over"
	case 5:
		n, cl = mx-uint64(rng.Intn(2)), "max"
	case 6:
		n, cl = -lba, "wrap"
	default:
		n, cl = uint64(rng.Intn(64)), "few"
	}
	if n > mx {
		n = mx
	}
	return n, cl
}

func c03Case(r *ck.Run, s *Sess, rng *rand.Rand, cas string, op byte, lba, n, capb uint64, bs int64, m *Model, class string, dev int) {
	eff := n // blocks really addressed
	toEnd := false
	if (op == ini.READ6 || op == ini.WRITE6) && n == 0 {
		eff = 256
	}
	if (inB(op, c03Sync) || inB(op, c03Same)) && n == 0 {
		toEnd = true
		if lba < capb {
			eff = capb - lba
		}
	}
	in := lba <= capb && eff <= capb-lba && (lba < capb || eff > 0)
	if lba >= capb {
		in = false
	}
	open := lba == capb && n == 0 && eff == 0
	if inB(op, c03Same) && in && eff*uint64(bs) > 4<<20 {
		return // would only burn time
	}
	moves := inB(op, c03Reads) || inB(op, c03Writes) || inB(op, c03Verify)
	if moves && in && eff*uint64(bs) > 2<<20 {
		return
	}
	fl := byte(0)
	prot := byte(0)
	if op != ini.READ6 && op != ini.WRITE6 && rng.Intn(6) == 0 && !inB(op, c03Hint) && !inB(op, c03Sync) {
		prot = byte(1+rng.Intn(7)) << 5
		fl |= prot
	}
	bytchk := false
	if inB(op, c03Verify) && rng.Intn(2) == 0 {
		fl |= 2
		bytchk = true
	}
	if (inB(op, c03Reads) || inB(op, c03Writes)) && op != ini.READ6 && op != ini.WRITE6 && rng.Intn(3) == 0 {
		fl |= 0x10
	}
	if (op == ini.WRITE10 || op == ini.WRITE12 || op == ini.WRITE16) && rng.Intn(3) == 0 {
		fl |= 0x08
	}
	need := eff * uint64(bs) // bytes the CDB asks to move
	if inB(op, c03Same) {
		need = uint64(bs)
	}
	if !in && need > 1<<20 {
		need = uint64(bs) * uint64(1+rng.Intn(3))
	}
	cdb := ini.RW(op, lba, uint32(n), fl)
	rel := "="
	edtl := need
	dataDir := inB(op, c03Reads) || inB(op, c03Writes) || inB(op, c03Same) || bytchk
	if dataDir && rng.Intn(4) == 0 {
		switch rng.Intn(5) {
		case 4:
			if need > 1 {
				edtl, rel = need-1-uint64(rng.Intn(min(int(need)-1, 512))), "little shorter"
			}
		case 0:
			edtl, rel = need+uint64(bs)*uint64(1+rng.Intn(3)), "longer"
		case 1:
			edtl, rel = need+1+uint64(rng.Intn(int(bs))), "longer-odd"
		case 2:
			if need > 0 {
				edtl, rel = uint64(rng.Int63n(int64(need))), "shorter"
			}
		case 3:
			edtl, rel = 0, "none"
		}
		if edtl == need {
			rel = "="
		}
	}
	c := ini.Cmd{LUN: ini.LUN(0), CDB: cdb, Xfer: -1}
	var data []byte
	switch {
	case inB(op, c03Reads):
		c.Read = true
		c.EDTL = uint32(edtl)
	case inB(op, c03Writes), inB(op, c03Same), bytchk:
		c.Write = true
		c.EDTL = uint32(edtl)
		data = fill(rng, int(edtl))
		if bytchk && in && rng.Intn(2) == 0 {
			copy(data, m.Read(int64(lba)*bs, int(eff)*int(bs)))
		}
		c.Out = data
		c.Imm = -1
		if rng.Intn(3) == 0 {
			c.Imm = 0
		}
		if rng.Intn(12) == 0 { // a client that does not set the write flag
			c.Write = false
			c.EDTL = 0
			data, rel = nil, "noflag"
		}
	}
	what := fmt.Sprintf("%s lba %d n %d flags %02x, %d blocks of %d, expected length %d", opName(op), lba, n, fl, capb, bs, c.EDTL)
	before := s.ch.Seq()
	t, ok := s.cmd(c, what)
	if !ok {
		return
	}
	ev := s.ch.Events(before, true)
	r.Eval(fmt.Sprint(op, class, fl, rel, dev))
	if k := int(r.Count("sampled")); k < 8 {
		r.Add("sampled", 1)
		r.Sample(map[string]interface{}{"command": what, "outcome": t.Outcome(), "store_calls": len(ev)})
	}
	det := map[string]interface{}{"events": ev, "trace": tail(s.Trace(), 6)}
	lo, hi := int64(0), int64(0)
	if in {
		lo, hi = int64(lba)*bs, int64(lba+eff)*bs
	}
	// effects stay inside the addressed blocks
	for _, e := range ev {
		if e.Dev != "d0" {
			r.Violate("wrong-device:"+opName(op), cas, det, "%s: the target called %s on device %s", what, e.Kind, e.Dev)
			continue
		}
		if e.Bad != "" {
			r.Violate("store-out-of-range:"+opName(op), cas, det, "%s: the target called %s(%d,%d) on the store: %s", what, e.Kind, e.Off, e.Len, e.Bad)
			continue
		}
		if !in {
			if open {
				continue
			}
			r.Violate("medium-touched:"+opName(op), cas, det, "%s is outside the medium but the target called %s(%d,%d)", what, e.Kind, e.Off, e.Len)
			continue
		}
		if e.Len > 0 && (e.Off < lo || e.Off+e.Len > hi) && e.Kind != "sync" {
			r.Violate("touches-other-blocks:"+opName(op), cas, det, "%s: the target called %s(%d,%d), outside the blocks addressed", what, e.Kind, e.Off, e.Len)
		}
		if e.Kind == "write" && !inB(op, c03Writes) && !inB(op, c03Same) {
			r.Violate("unexpected-write:"+opName(op), cas, det, "%s wrote to the medium", what)
		}
	}
	if !in && !open {
		okSense := t.IsCheck(5, 0x2100) || prot != 0 && t.IsCheck(5, 0x2400)
		if !okSense {
			r.Violate("out-of-range:"+opName(op), cas, det, "%s is outside the medium but ended with %s", what, t.Outcome())
		}
	} else if prot != 0 {
		if !t.IsCheck(5, 0x2400) && !open {
			r.Violate("protect-accepted:"+opName(op), cas, det, "%s carries protection bits but ended with %s", what, t.Outcome())
		}
		for _, e := range ev {
			r.Violate("protect-touched:"+opName(op), cas, det, "%s carries protection bits but the target called %s(%d,%d)", what, e.Kind, e.Off, e.Len)
		}
		return
	} else if !open {
		if t.Status != 0 && t.Status != 2 {
			r.Violate("odd-status:"+opName(op), cas, det, "%s ended with %s", what, t.Outcome())
		}
		if rel == "=" {
			want0 := true
			if bytchk {
				want0 = diffAt(data, m.Read(lo, int(hi-lo))) < 0
			}
			if want0 && t.Status != 0 {
				r.Violate("in-range-refused:"+opName(op), cas, det, "%s ended with %s", what, t.Outcome())
			}
		}
	}
	if !in {
		return
	}
	if inB(op, c03Reads) {
		want := m.Read(lo, int(hi-lo))
		if len(t.Data) > len(want) && t.Status == 0 {
			r.Violate("read-too-much", cas, det, "%s returned %d bytes, the blocks addressed hold %d", what, len(t.Data), len(want))
		}
		if t.Status == 0 && !s.bad {
			k := len(t.Data)
			if k > len(want) {
				k = len(want)
			}
			if d := diffAt(t.Data[:k], want[:k]); d >= 0 {
				r.Violate("read-differs", cas, det, "%s: byte %d differs from the medium", what, d)
			}
		}
		return
	}
	if !inB(op, c03Writes) && !inB(op, c03Same) {
		return
	}
	_ = toEnd
	// what the medium holds now in and around the blocks addressed
	got := s.ch.Peek("d0", lo, int(hi-lo))
	old := m.Read(lo, int(hi-lo))
	full := append([]byte{}, old...)
	if inB(op, c03Same) {
		if len(data) >= int(bs) {
			for p := 0; p < len(full); p += int(bs) {
				copy(full[p:], data[:bs])
			}
		}
	} else {
		for p := range full {
			if p < len(data) {
				if op == ini.ORWRITE {
					full[p] |= data[p]
				} else {
					full[p] = data[p]
				}
			}
		}
	}
	if t.Status == 0 {
		if d := diffAt(got, full); d >= 0 {
			r.Violate("write-wrong-bytes:"+opName(op), cas, det, "%s answered GOOD with %d bytes of data, but byte %d of the blocks addressed is not what it should be", what, len(data), d)
		}
	} else if d := diffAt(got, old); d >= 0 && rel == "=" {
		r.Violate("refused-but-wrote:"+opName(op), cas, det, "%s ended with %s but changed byte %d of the blocks addressed", what, t.Outcome(), d)
	}
	// a refused short write may have stored the part it got: bytes other than that are wrong either way
	if t.Status != 0 {
		for p := range got {
			if got[p] != old[p] && got[p] != full[p] {
				r.Violate("write-wrong-bytes:"+opName(op), cas, det, "%s ended with %s and byte %d of the blocks addressed is neither old nor new", what, t.Outcome(), p)
				break
			}
		}
	}
	m.Write(lo, got)
}

var _ = mon.Event{}

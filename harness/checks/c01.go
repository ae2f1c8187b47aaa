package checks

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"

	"verif/ck"
	"verif/ini"
	"verif/tgt"
)

func init() { All["C01"] = Check{Run: c01, Level: "exploration", Min: 200} }

// sessVar are the session parameters a data-path episode varies.
func sessVar(rng *rand.Rand, i int) ini.LoginOpts {
	o := ini.LoginOpts{ISID: [6]byte{0x80, 1, byte(i >> 8), byte(i), 0, 1}, Initiator: fmt.Sprintf("iqn.2020-01.verif:i%d", i)}
	switch rng.Intn(4) {
	case 0:
		o.MRDSL = uint32(512 + 4*rng.Intn(4000))
	case 1:
		o.MRDSL = 8192
	case 2:
		o.OmitMRDSL = true
	}
	if rng.Intn(3) == 0 {
		o.ImmData = "No"
	}
	if rng.Intn(3) == 0 {
		o.MaxBurst = []uint32{4096, 16384, 65536, 10000}[rng.Intn(4)]
		o.FirstB = []uint32{512, 4096, 1024}[rng.Intn(3)]
	} else if rng.Intn(3) == 0 {
		o.FirstB = []uint32{512, 4096, 16384}[rng.Intn(3)]
	}
	o.Security = rng.Intn(2) == 0
	o.CmdSN = rng.Uint32()
	o.ExpStatSN = rng.Uint32()
	return o
}

func c01(r *ck.Run) {
	r.Rule("random histories of every read and write form over block sizes 512..4096, device sizes up to beyond 2^32 blocks, LBAs concentrated at both ends and on page/burst edges, and every delivery path (immediate, R2T, mixed, interleaved writes, odd segment sizes), compared with a byte model of the device; at the end the whole medium is compared, for file LUNs also the file and the data after a restart; a case is non-trivial when it moved at least one block, distinct by (form, length class, path, block size, position class)")
	r.Assume("content not addressed by any command is compared on every page either the model or the store has touched")
	n := r.Q(63, 500)
	r.Each(n, 7, func(i int) { c01Episode(r, i) })
	long := []byte{ini.READ10, ini.READ12, ini.READ16, ini.WRITE10, ini.WRITE12, ini.WRITE16, ini.WRVER10, ini.WRVER12, ini.WRVER16, ini.ORWRITE, ini.WRSAME10, ini.WRSAME16}
	r.Each(len(long), 3, func(i int) { c01Long(r, i, long[i]) })
	sweepAll(r, []sweepOp{{ini.READ6, "read"}, {ini.READ10, "read"}, {ini.READ12, "read"}, {ini.READ16, "read"}, {ini.WRITE6, "write"}, {ini.WRITE10, "write"}, {ini.WRITE12, "write"}, {ini.WRITE16, "write"},
		{ini.WRVER10, "write"}, {ini.WRVER12, "write"}, {ini.WRVER16, "write"}, {ini.ORWRITE, "or"}, {ini.WRSAME10, "same"}, {ini.WRSAME16, "same"}})
}

// c01Long moves as many blocks at once as the transfer length of a ten byte command can tell, and more than that.
func c01Long(r *ck.Run, i int, op byte) {
	rng := r.Rng("long", i)
	cas := fmt.Sprintf("long-%02x", op)
	const bs = 512
	const blocks = 65536 + 4096
	ch := start(r, cas, spec1(Dev{ID: 1000, Name: "d0", Size: blocks * bs, Shift: 9}), false)
	if ch == nil {
		return
	}
	defer ch.Stop()
	s := login(r, ch, cas, ini.LoginOpts{})
	if s == nil {
		return
	}
	m := NewModel(blocks * bs)
	mark := func(l int64) { // so that every 4096th block can be told from the others
		for ; l < blocks; l += 4096 {
			d := fill(rng, bs)
			if t, ok := s.cmd(ini.WriteCmd(ini.LUN(0), ini.WRITE16, uint64(l), 1, d, 0), "mark"); ok && t.Status == 0 {
				m.Write(l*bs, d)
			}
		}
	}
	mark(int64(rng.Intn(4096)))
	counts := []int64{0x8000, 0xff00, 0xffff}
	if op>>5 > 3 { // room for a longer one
		counts = []int64{0xffff, 0x10000, 0x10000 + int64(1+rng.Intn(4096))}
	}
	for _, n := range counts {
		l := rng.Int63n(blocks - n + 1)
		what := fmt.Sprintf("%s lba %d n %d", opName(op), l, n)
		r.Eval(fmt.Sprint("long", op, n))
		switch op {
		case ini.READ10, ini.READ12, ini.READ16:
			t, ok := s.cmd(ini.ReadCmd(ini.LUN(0), op, uint64(l), uint32(n), bs, 0), what)
			if !ok {
				return
			}
			if t.Status != 0 {
				r.Violate("read-refused:"+opName(op), cas, tail(s.Trace(), 20), "%s inside the capacity ended with %s", what, t.Outcome())
				continue
			}
			if d := diffAt(t.Data, m.Read(l*bs, int(n)*bs)); d >= 0 {
				r.Violate("read-differs:"+opName(op), cas, tail(s.Trace(), 20), "%s (%d bytes returned): byte %d differs from what was last written", what, len(t.Data), d)
			}
			r.Add("bytes_read", n*bs)
		default:
			data := fill(rng, int(n)*bs)
			if op == ini.WRSAME10 || op == ini.WRSAME16 {
				data = data[:bs]
			}
			t, ok := s.cmd(ini.WriteCmd(ini.LUN(0), op, uint64(l), uint32(n), data, 0), what)
			if !ok {
				return
			}
			if t.Status != 0 {
				r.Violate("write-refused:"+opName(op), cas, tail(s.Trace(), 20), "%s inside the capacity ended with %s", what, t.Outcome())
				continue
			}
			r.Add("bytes_written", n*bs)
			switch op {
			case ini.WRSAME10, ini.WRSAME16:
				data = bytes.Repeat(data, int(n))
			case ini.ORWRITE:
				for k, b := range m.Read(l*bs, len(data)) {
					data[k] |= b
				}
			}
			m.Write(l*bs, data)
			if off, why := compareMedium(ch, "d0", m); off >= 0 {
				r.Violate("medium-differs:"+opName(op), cas, tail(s.Trace(), 20), "after %s: the medium differs at %d: %s", what, off, why)
				return
			}
		}
	}
	s.protocol("C01")
}

func lenClass(n int) string {
	switch {
	case n <= 1:
		return "1"
	case n < 16384:
		return "small"
	case n <= 65536:
		return "<=64K"
	case n <= 262144:
		return "<=256K"
	}
	return ">256K"
}

func c01Episode(r *ck.Run, i int) {
	rng := r.Rng("ep", i)
	cas := fmt.Sprint(i)
	shift := uint(9 + i%4)
	bs := 1 << shift
	big := i%5 == 3
	file := i%7 == 6
	blocks := int64(600 + rng.Intn(3000))
	if i%9 == 0 {
		blocks = int64(1 + rng.Intn(40))
	}
	if big {
		blocks = 1<<32 + int64(rng.Intn(100000)) // beyond the reach of 10-byte commands
		file = false
		if i%2 == 1 {
			blocks = 1<<31 + int64(rng.Intn(100000))
		}
	}
	size := blocks << shift
	dev := Dev{ID: 1000, Name: "d0", Size: size, Shift: shift}
	other := Dev{ID: 1001, Name: "d1", Size: 1 << 20, Shift: 9} // must stay untouched
	m := NewModel(size)
	fpath := ""
	if file {
		fpath = filepath.Join(r.SubDir("f"), "disk.img")
		mkfile(fpath, size)
		dev.Path = "file:" + fpath
	}
	sp := spec1(dev, other)
	if i%3 == 1 && !file { // library use: the remote backing store
		sp = spec1(Dev{ID: 1002, Name: "dz", Size: 1 << 16, Shift: 9})
		delete(sp.Config.ISCSITargets[TN(0)].LUNs, "0")
		sp.Config.ISCSITargets[TN(0)].LUNs["1"] = 1002
		sp.Rem = []tgt.RemSpec{{Target: TN(0), LUN: 0, DeviceID: 2000, Name: "d0", Size: size, Shift: shift}}
	}
	ch := start(r, cas, sp, false)
	if ch == nil {
		return
	}
	defer func() { ch.Stop() }()
	// initial content that no command wrote
	if !file {
		init := fill(rng, 4096)
		ch.Poke("d0", 0, init[:min64(4096, size)])
		m.Write(0, init[:min64(4096, size)])
		if size > 8192 {
			ch.Poke("d0", size-4096, init)
			m.Write(size-4096, init)
		}
	}
	s := login(r, ch, cas, sessVar(rng, i))
	if s == nil {
		return
	}
	lba := func(n int64) int64 { // a start for n blocks
		max := blocks - n
		if max <= 0 {
			return 0
		}
		switch rng.Intn(8) {
		case 0:
			return 0
		case 1:
			return max
		case 2:
			return min64(max, int64(rng.Intn(17)))
		case 3:
			return maxi64(0, max-int64(rng.Intn(17)))
		case 4:
			if max > 1<<32 {
				return 1<<32 - int64(rng.Intn(8))
			}
			if max > 1<<31 {
				return 1<<31 - int64(rng.Intn(8))
			}
		}
		if max > 4000 && rng.Intn(2) == 0 {
			return int64(rng.Intn(600))
		}
		return rng.Int63n(max + 1)
	}
	count := func(limit int) int64 {
		var n int
		switch rng.Intn(10) {
		case 0, 1, 2:
			n = 1
		case 3, 4:
			n = 1 + rng.Intn(8)
		case 5, 6:
			n = 1 + rng.Intn(65536/bs)
		case 7:
			n = 65536/bs + rng.Intn(3) - 1
		case 8:
			n = 1 + rng.Intn(262144/bs+2)
		case 9:
			n = 262144/bs + rng.Intn(2+300000/bs)
		}
		if n < 1 {
			n = 1
		}
		if n > limit {
			n = limit
		}
		if int64(n) > blocks {
			n = int(blocks)
		}
		return int64(n)
	}
	posClass := func(l, n int64) string {
		switch {
		case l+n == blocks && l == 0:
			return "all"
		case l == 0:
			return "first"
		case l+n == blocks:
			return "last"
		case l > 1<<32:
			return "64bit"
		}
		return "mid"
	}
	readForms := []byte{ini.READ6, ini.READ10, ini.READ12, ini.READ16}
	writeForms := []byte{ini.WRITE6, ini.WRITE10, ini.WRITE12, ini.WRITE16, ini.WRVER10, ini.WRVER12, ini.WRVER16, ini.ORWRITE, ini.WRITE10, ini.WRITE16}
	fits := func(op byte, l, n int64) bool {
		switch op {
		case ini.READ6, ini.WRITE6:
			return l < 1<<21 && n <= 256
		case ini.READ16, ini.WRITE16, ini.WRVER16, ini.ORWRITE, ini.WRSAME16:
			return true
		case ini.READ10, ini.WRITE10, ini.WRVER10, ini.WRSAME10:
			return l < 1<<32 && n < 65536
		}
		return l < 1<<32
	}
	pick := func(forms []byte, l, n int64) byte {
		for {
			if op := forms[rng.Intn(len(forms))]; fits(op, l, n) {
				return op
			}
		}
	}
	read := func(l, n int64) bool {
		op := pick(readForms, l, n)
		fl := byte(0)
		if op != ini.READ6 && rng.Intn(4) == 0 {
			fl = []byte{0x08, 0x10, 0x18}[rng.Intn(3)]
		}
		what := fmt.Sprintf("%s lba %d n %d", opName(op), l, n)
		t, ok := s.cmd(ini.ReadCmd(ini.LUN(0), op, uint64(l), uint32(n), bs, fl), what)
		if !ok {
			return false
		}
		r.Eval(fmt.Sprint("r", op, lenClass(int(n)*bs), bs, posClass(l, n), s.MyMRDSL < 8192))
		if t.Status != 0 {
			r.Violate("read-refused:"+opName(op), cas, tail(s.Trace(), 20), "%s inside the capacity (%d blocks of %d) ended with %s", what, blocks, bs, t.Outcome())
			return true
		}
		want := m.Read(l*int64(bs), int(n)*bs)
		if d := diffAt(t.Data, want); d >= 0 {
			r.Violate("read-differs:"+opName(op), cas, tail(s.Trace(), 20), "%s (block size %d, %d bytes returned of %d): byte %d differs from what was last written", what, bs, len(t.Data), len(want), d)
			return false
		}
		r.Add("bytes_read", int64(len(want)))
		return true
	}
	path := func(c *ini.Cmd) string {
		switch rng.Intn(4) {
		case 0:
			c.Imm = 0
		case 1:
			c.Imm = rng.Intn(len(c.Out) + 1)
		}
		switch rng.Intn(3) {
		case 0:
			c.Seg = 1 + rng.Intn(4096)
			if len(c.Out) > 100000 {
				c.Seg += 2000
			}
		case 1:
			c.Seg = 512 * (1 + rng.Intn(16))
		}
		return fmt.Sprint(c.Imm == 0, c.Imm < 0, c.Seg%512 == 0)
	}
	apply := func(op byte, l int64, data []byte) {
		if op == ini.ORWRITE {
			old := m.Read(l*int64(bs), len(data))
			for k := range old {
				old[k] |= data[k]
			}
			data = old
		}
		m.Write(l*int64(bs), data)
	}
	nops := r.Q(70, 160)
	for k := 0; k < nops && !s.bad; k++ {
		switch c := rng.Intn(20); {
		case c < 7: // read
			n := count(1 << 20 / bs)
			if !read(lba(n), n) {
				return
			}
		case c < 14: // write
			n := count(1 << 20 / bs)
			l := lba(n)
			op := pick(writeForms, l, n)
			data := fill(rng, int(n)*bs)
			fl := byte(0)
			if op != ini.WRITE6 && rng.Intn(4) == 0 {
				fl = []byte{0x08, 0x10, 0x18}[rng.Intn(3)]
				if op == ini.WRVER10 || op == ini.WRVER12 || op == ini.WRVER16 {
					fl = 0x10
				}
			}
			cm := ini.WriteCmd(ini.LUN(0), op, uint64(l), uint32(n), data, fl)
			pc := path(&cm)
			what := fmt.Sprintf("%s lba %d n %d imm %d seg %d", opName(op), l, n, cm.Imm, cm.Seg)
			t, ok := s.cmd(cm, what)
			if !ok {
				return
			}
			r.Eval(fmt.Sprint("w", op, lenClass(len(data)), bs, posClass(l, n), pc))
			r.Add("bytes_written", int64(len(data)))
			if t.Status != 0 {
				r.Violate("write-refused:"+opName(op), cas, tail(s.Trace(), 20), "%s inside the capacity (%d blocks of %d) ended with %s", what, blocks, bs, t.Outcome())
				return
			}
			apply(op, l, data)
			if rng.Intn(2) == 0 && !read(l, n) {
				return
			}
		case c < 16: // write same
			op := []byte{ini.WRSAME10, ini.WRSAME16}[rng.Intn(2)]
			n := count(4000)
			l := lba(n)
			if !fits(op, l, n) {
				continue
			}
			nn := uint32(n)
			if blocks-l < 4000 && rng.Intn(4) == 0 {
				nn, n = 0, blocks-l // to the end
			}
			data := fill(rng, bs)
			cm := ini.WriteCmd(ini.LUN(0), op, uint64(l), nn, data, 0)
			path(&cm)
			what := fmt.Sprintf("%s lba %d n %d", opName(op), l, nn)
			t, ok := s.cmd(cm, what)
			if !ok {
				return
			}
			r.Eval(fmt.Sprint("ws", op, lenClass(int(n)), bs, posClass(l, n), nn == 0))
			if t.Status != 0 {
				r.Violate("write-refused:"+opName(op), cas, tail(s.Trace(), 20), "%s inside the capacity (%d blocks of %d) ended with %s", what, blocks, bs, t.Outcome())
				return
			}
			m.Write(l*int64(bs), bytes.Repeat(data, int(n)))
			if !read(l, min64(n, int64(1<<20/bs))) {
				return
			}
		default: // several writes at once, their data interleaved
			if !c01Interleave(r, s, rng, cas, blocks, bs, m, lba, apply, pick, writeForms) {
				return
			}
		}
	}
	if s.bad {
		return
	}
	for k := 0; k < 10; k++ { // zero-length commands move nothing
		op := []byte{ini.READ10, ini.WRITE10, ini.READ16, ini.WRITE16, ini.READ12, ini.WRITE12}[rng.Intn(6)]
		l := lba(1)
		if !fits(op, l, 1) {
			continue
		}
		t, ok := s.cmd(ini.NoData(ini.LUN(0), ini.RW(op, uint64(l), 0, 0)), opName(op)+" of zero blocks")
		if !ok {
			return
		}
		if t.Status != 0 {
			r.Violate("zero-length-refused", cas, nil, "%s of zero blocks at %d ended with %s", opName(op), l, t.Outcome())
		}
	}
	// full scan of small devices
	if blocks*int64(bs) <= 16<<20 {
		step := int64(256 << 10 / bs)
		for l := int64(0); l < blocks; l += step {
			if !read(l, min64(step, blocks-l)) {
				return
			}
		}
	}
	if !file {
		if off, why := compareMedium(ch, "d0", m); why != "" {
			r.Violate("medium-differs", cas, tail(s.Trace(), 20), "byte %d of the medium %s (block size %d, %d blocks)", off, why, bs, blocks)
		}
		if len(ch.Pages("d1"))+len(ch.Pages("dz")) > 0 {
			r.Violate("other-device-written", cas, nil, "a device no command addressed was written")
		}
		dead(r, ch, cas, "end of history")
		return
	}
	got, err := os.ReadFile(fpath)
	if err != nil {
		r.Inconclusive("%v", err)
		return
	}
	if d := diffAt(got, m.Read(0, int(size))); d >= 0 {
		r.Violate("file-differs", cas, nil, "the backing file (%d bytes, device %d) differs from what was written at byte %d", len(got), size, d)
		return
	}
	// restart and read everything again
	s.Close()
	ch.Stop()
	sp.Port = tgt.FreePort()
	sp.Config.ISCSIPortals[0].Portal = sp.Addr()
	ch = start(r, cas, sp, false)
	if ch == nil {
		return
	}
	if s = login(r, ch, cas, sessVar(rng, i)); s == nil {
		return
	}
	for l := int64(0); l < blocks; {
		n := min64(int64(1+rng.Intn(262144/bs)), blocks-l)
		if !read(l, n) {
			return
		}
		l += n
	}
	r.Add("restarts", 1)
}

// c01Interleave runs several writes to disjoint ranges concurrently, answering their R2Ts in a random interleaving.
func c01Interleave(r *ck.Run, s *Sess, rng *rand.Rand, cas string, blocks int64, bs int, m *Model, lba func(int64) int64,
	apply func(byte, int64, []byte), pick func([]byte, int64, int64) byte, forms []byte) bool {
	type wr struct {
		t    *ini.Task
		op   byte
		l, n int64
		data []byte
		pend []*ini.PDU
		more bool
	}
	var ws []*wr
	k := 2 + rng.Intn(4)
	for j := 0; j < k; j++ {
		n := int64(1 + rng.Intn(40000/bs+1))
		if n > blocks {
			continue
		}
		l := lba(n)
		clash := false
		for _, w := range ws {
			if l < w.l+w.n && w.l < l+n {
				clash = true
			}
		}
		if clash {
			continue
		}
		w := &wr{l: l, n: n, op: pick(forms, l, n), data: fill(rng, int(n)*bs), more: true}
		cm := ini.WriteCmd(ini.LUN(0), w.op, uint64(l), uint32(n), w.data, 0)
		cm.Hold = true
		if rng.Intn(2) == 0 {
			cm.Imm = 0
		} else {
			cm.Imm = rng.Intn(len(w.data) + 1)
		}
		w.t = s.Submit(cm)
		ws = append(ws, w)
	}
	live := len(ws)
	for live > 0 {
		w := ws[rng.Intn(len(ws))]
		if !w.more {
			continue
		}
		if len(w.pend) == 0 {
			rt, ok := w.t.NextR2T(ini.Watchdog)
			if !ok {
				if !w.t.Done() {
					s.failed(ini.ErrNoResponse, "R2T of an interleaved "+opName(w.op))
					return false
				}
				w.more = false
				live--
				continue
			}
			if rt.Len == 0 || int(rt.Off)+int(rt.Len) > len(w.data) {
				r.Violate("bad-r2t", cas, tail(s.Trace(), 30), "R2T asks for bytes %d+%d of a %d byte write", rt.Off, rt.Len, len(w.data))
				return false
			}
			w.pend = w.t.AnswerPDUs(rt, 512+rng.Intn(9000))
		}
		s.SendRaw(w.pend[0])
		w.pend = w.pend[1:]
	}
	ops := ""
	for _, w := range ws {
		if !s.wait(w.t, "interleaved "+opName(w.op)) {
			return false
		}
		if w.t.Status != 0 {
			r.Violate("write-refused:"+opName(w.op), cas, tail(s.Trace(), 30), "interleaved %s lba %d n %d ended with %s", opName(w.op), w.l, w.n, w.t.Outcome())
			return false
		}
		apply(w.op, w.l, w.data)
		ops += fmt.Sprintf("%02x,", w.op)
	}
	for _, w := range ws {
		t, ok := s.cmd(ini.ReadCmd(ini.LUN(0), ini.READ16, uint64(w.l), uint32(w.n), bs, 0), "READ(16) after interleaved writes")
		if !ok {
			return false
		}
		if d := diffAt(t.Data, m.Read(w.l*int64(bs), len(w.data))); d >= 0 || t.Status != 0 {
			r.Violate("interleaved-write-differs", cas, tail(s.Trace(), 40), "after %d interleaved writes, lba %d n %d reads back different at byte %d (%s)", len(ws), w.l, w.n, d, t.Outcome())
			return false
		}
	}
	r.Eval("il" + ops)
	r.Add("interleaved_writes", int64(len(ws)))
	return true
}

func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}
func maxi64(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

package checks

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"

	"verif/ck"
	"verif/ini"
	"verif/mon"
	"verif/tgt"
)

func init() { All["C05"] = Check{Run: c05, Level: "fault_enumeration", Min: 500} }

func c05(r *ck.Run) {
	r.Rule("every command that needs the store x every store call it makes x every kind of failure (error, end of file, short transfer, short transfer with end of file, partial write, silently corrupted write under WRITE AND VERIFY with byte check) x position of the failing call, plus random histories with faults on some blocks while another session works on others; the command whose call failed must end with CHECK CONDITION, MEDIUM or HARDWARE ERROR and no data, all others as if nothing had happened; afterwards the same session must read what the store really holds; file-backed LUNs with a truncated file and with a write limit. Distinct by (command, call, failure, position, block size)")
	n := r.Q(8, 24)
	r.Each(n, 7, func(i int) { c05Matrix(r, i) })
	r.Each(r.Q(28, 400), 7, func(i int) { c05Random(r, i) })
	r.Each(r.Q(2, 6), 3, func(i int) { c05File(r, i) })
}

type c05case struct {
	op     byte
	bytchk byte
	kinds  []string // store calls it needs
	unmap  bool
}

var c05cases = []c05case{
	{op: ini.READ6, kinds: []string{"read"}}, {op: ini.READ10, kinds: []string{"read"}}, {op: ini.READ12, kinds: []string{"read"}}, {op: ini.READ16, kinds: []string{"read"}},
	{op: ini.WRITE6, kinds: []string{"write"}}, {op: ini.WRITE10, kinds: []string{"write"}}, {op: ini.WRITE12, kinds: []string{"write"}}, {op: ini.WRITE16, kinds: []string{"write"}},
	{op: ini.WRITE10, bytchk: 8, kinds: []string{"write", "sync"}}, {op: ini.WRITE12, bytchk: 8, kinds: []string{"write", "sync"}}, {op: ini.WRITE16, bytchk: 8, kinds: []string{"write", "sync"}},
	{op: ini.WRVER10, kinds: []string{"write", "read"}}, {op: ini.WRVER12, kinds: []string{"write", "read"}}, {op: ini.WRVER16, kinds: []string{"write", "read"}},
	{op: ini.WRVER10, bytchk: 2, kinds: []string{"write", "read"}}, {op: ini.WRVER12, bytchk: 2, kinds: []string{"write", "read"}}, {op: ini.WRVER16, bytchk: 2, kinds: []string{"write", "read"}},
	{op: ini.ORWRITE, kinds: []string{"read", "write"}}, {op: ini.ORWRITE, bytchk: 8, kinds: []string{"read", "write", "sync"}},
	{op: ini.WRSAME10, kinds: []string{"write"}}, {op: ini.WRSAME16, kinds: []string{"write"}},
	{op: ini.VERIFY10, bytchk: 2, kinds: []string{"read"}}, {op: ini.VERIFY12, bytchk: 2, kinds: []string{"read"}}, {op: ini.VERIFY16, bytchk: 2, kinds: []string{"read"}},
	{op: ini.SYNC10, kinds: []string{"sync"}}, {op: ini.SYNC16, kinds: []string{"sync"}},
	{op: ini.UNMAP, unmap: true, kinds: []string{"unmap"}},
}

func unmapCDB(n int) []byte {
	return []byte{ini.UNMAP, 0, 0, 0, 0, 0, 0, byte(n >> 8), byte(n), 0}
}

type umRange struct {
	lba uint64
	n   uint32
}

// unmapList builds an UNMAP parameter list.
func unmapList(ds ...umRange) []byte {
	n := 16 * len(ds)
	b := []byte{byte((n + 6) >> 8), byte(n + 6), byte(n >> 8), byte(n), 0, 0, 0, 0}
	for _, d := range ds {
		e := make([]byte, 16)
		for j := 0; j < 8; j++ {
			e[j] = byte(d.lba >> uint(56-8*j))
		}
		for j := 0; j < 4; j++ {
			e[8+j] = byte(d.n >> uint(24-8*j))
		}
		b = append(b, e...)
	}
	return b
}

// c05Cmd builds the command on n blocks at l; data is what is written or verified.
func c05Cmd(c c05case, l, n int64, bs int, data []byte) ini.Cmd {
	L := ini.LUN(0)
	switch {
	case c.unmap:
		ds := []umRange{{uint64(l), uint32(n)}}
		for k := 0; n > 1 && k < int(data[0]&7); k++ { // in several descriptors
			h := (n + 1) / 2
			ds[len(ds)-1].n = uint32(h)
			l, n = l+h, n-h
			ds = append(ds, umRange{uint64(l), uint32(n)})
		}
		p := unmapList(ds...)
		return ini.OutCmd(L, unmapCDB(len(p)), p)
	case c.op == ini.SYNC10 || c.op == ini.SYNC16:
		return ini.NoData(L, ini.RW(c.op, uint64(l), uint32(n), 0))
	case c.op == ini.READ6 || c.op == ini.READ10 || c.op == ini.READ12 || c.op == ini.READ16:
		cm := ini.ReadCmd(L, c.op, uint64(l), uint32(n), bs, 0)
		return cm
	case c.op == ini.WRSAME10 || c.op == ini.WRSAME16:
		data = data[:bs]
	}
	cm := ini.WriteCmd(L, c.op, uint64(l), uint32(n), data, c.bytchk)
	return cm
}

func (c c05case) reads() bool {
	return c.op == ini.READ6 || c.op == ini.READ10 || c.op == ini.READ12 || c.op == ini.READ16
}

// c05Failed judges the answer of a command whose store call failed.
func c05Failed(r *ck.Run, s *Sess, t *ini.Task, cas, what, kind, mode string) {
	sn := t.SenseInfo()
	switch {
	case t.Status == 0:
		r.Violate(fmt.Sprintf("failure-hidden:%s:%s", firstWord(what), kind), cas, tail(s.Trace(), 12), "%s was answered GOOD although the store's %s failed (%s)", what, kind, mode)
	case t.Status != 2 || (sn.Key != 3 && sn.Key != 4):
		r.Violate(fmt.Sprintf("wrong-sense:%s:%s", firstWord(what), kind), cas, tail(s.Trace(), 12), "%s with the store's %s failing (%s) ended with %s, not MEDIUM or HARDWARE ERROR", what, kind, mode, t.Outcome())
	case len(t.Data) > 0:
		r.Violate(fmt.Sprintf("made-up-data:%s:%s", firstWord(what), kind), cas, tail(s.Trace(), 12), "%s with the store's %s failing (%s) returned %d bytes of data", what, kind, mode, len(t.Data))
	}
}

func c05Matrix(r *ck.Run, i int) {
	rng := r.Rng("m", i)
	cas := fmt.Sprint("m", i)
	shift := uint(9 + i%4)
	bs := 1 << shift
	const blocks = 2048
	sp := spec1(Dev{ID: 1, Name: "a", Size: blocks << shift, Shift: shift, Thin: true})
	remote := i%4 == 3
	if remote {
		sp = spec1(Dev{ID: 1002, Name: "z", Size: 1 << 16, Shift: 9})
		sp.Config.ISCSITargets[TN(0)].LUNs["1"] = 1002
		delete(sp.Config.ISCSITargets[TN(0)].LUNs, "0")
		sp.Rem = []tgt.RemSpec{{Target: TN(0), LUN: 0, DeviceID: 2000, Name: "a", Size: blocks << shift, Shift: shift, Thin: true}}
	}
	ch := start(r, cas, sp, false)
	if ch == nil {
		return
	}
	defer ch.Stop()
	s := login(r, ch, cas, sessVar(rng, i))
	if s == nil {
		return
	}
	defer s.Close()
	base := fill(rng, blocks<<shift)
	ch.Poke("a", 0, base)
	var order []int
	for j := range c05cases {
		order = append(order, j)
	}
	rng.Shuffle(len(order), func(a, b int) { order[a], order[b] = order[b], order[a] })
	for _, j := range order {
		c := c05cases[j]
		if c.unmap && remote {
			continue // the remote store does not pass UNMAP on
		}
		for _, kind := range c.kinds {
			modes := map[string][]string{"read": {"error", "eof", "short", "shorteof", "short0"}, "write": {"error", "short"}, "sync": {"error"}, "unmap": {"error"}}[kind]
			if wv := c.op == ini.WRVER10 || c.op == ini.WRVER12 || c.op == ini.WRVER16; wv && c.bytchk == 2 && kind == "write" {
				modes = append(modes, "corrupt", "corrupt")
			}
			for _, mode := range modes {
				n := int64(1 + rng.Intn(20))
				if rng.Intn(4) == 0 {
					n = int64(1 + rng.Intn(200))
				}
				if (c.op == ini.WRSAME10 || c.op == ini.WRSAME16) && rng.Intn(2) == 0 {
					n = int64(1+rng.Intn(2)) * int64(blocks/2)
				}
				l := rng.Int63n(blocks - n + 1)
				f := mon.Fault{Dev: "a", Kind: kind, Mode: mode, Count: 1}
				if kind == "read" || kind == "write" {
					f.Off, f.Len = l*int64(bs), n*int64(bs)
				}
				switch mode {
				case "short", "shorteof", "corrupt":
					f.Arg = int64(rng.Intn(int(n) * bs))
				case "short0":
					f.Mode, f.Arg = "short", 0
				}
				m := ch.Peek("a", l*int64(bs), int(n)*bs)
				data := fill(rng, int(n)*bs)
				if c.op == ini.VERIFY10 || c.op == ini.VERIFY12 || c.op == ini.VERIFY16 {
					data = m
				}
				id := ch.AddFault(f)
				what := fmt.Sprintf("%s flags %02x lba %d n %d", opName(c.op), c.bytchk, l, n)
				t, ok := s.cmd(c05Cmd(c, l, n, bs, data), what)
				hits := ch.FaultHits(id)
				ch.ClearFaults()
				if !ok {
					return
				}
				if hits > 0 {
					r.Eval(fmt.Sprint(c.op, c.bytchk, kind, mode, bs, lenClass(int(n)*bs)))
					r.Add("faults_hit", 1)
					if mode == "corrupt" && t.Status == 2 && t.SenseInfo().Key == 0xe && len(t.Data) == 0 {
						r.Add("miscompares", 1)
					} else {
						c05Failed(r, s, t, cas, what, kind, mode)
					}
				} else {
					r.Add("faults_not_reached", 1)
					if t.Status != 0 {
						r.Violate("refused:"+opName(c.op), cas, tail(s.Trace(), 8), "%s ended with %s, without a store failure", what, t.Outcome())
					}
				}
				// the session works again, and reads what the store holds
				t, ok = s.cmd(ini.ReadCmd(ini.LUN(0), ini.READ10, uint64(l), uint32(n), bs, 0), "READ(10) after the fault cleared")
				if !ok {
					return
				}
				if t.Status != 0 || !bytes.Equal(t.Data, ch.Peek("a", l*int64(bs), int(n)*bs)) {
					r.Violate("not-recovered", cas, tail(s.Trace(), 12), "after a store failure in %s, a read of the same blocks does not return what the store holds (%s)", what, t.Outcome())
					return
				}
			}
		}
	}
	dead(r, ch, cas, "store failures")
}

// c05Random: faults on a bad region while commands pipelined on this and another session work inside and outside of it.
func c05Random(r *ck.Run, i int) {
	rng := r.Rng("r", i)
	cas := fmt.Sprint("r", i)
	shift := uint(9 + i%4)
	bs := 1 << shift
	const blocks = 512
	ch := start(r, cas, spec1(Dev{ID: 1, Name: "a", Size: blocks << shift, Shift: shift}), false)
	if ch == nil {
		return
	}
	defer ch.Stop()
	base := fill(rng, blocks<<shift)
	ch.Poke("a", 0, base)
	var ss []*Sess
	for k := 0; k < 2; k++ {
		o := sessVar(rng, i)
		o.Initiator, o.ISID = fmt.Sprintf("iqn.2020-01.verif:r%d", k), [6]byte{0x80, byte(k), 7, 7, 7, 7}
		s := login(r, ch, cas, o)
		if s == nil {
			return
		}
		defer s.Close()
		ss = append(ss, s)
	}
	for round := 0; round < r.Q(12, 40); round++ {
		badL, badN := int64(rng.Intn(400)), int64(1+rng.Intn(30))
		rdMode := []string{"error", "short", "eof"}[rng.Intn(3)]
		ch.AddFault(mon.Fault{Dev: "a", Kind: "read", Mode: rdMode, Off: badL * int64(bs), Len: badN * int64(bs)})
		ch.AddFault(mon.Fault{Dev: "a", Kind: "write", Mode: "error", Off: badL * int64(bs), Len: badN * int64(bs)})
		type out struct {
			t    *ini.Task
			s    *Sess
			bad  bool
			rd   bool
			l, n int64
			data []byte
			what string
		}
		var os []*out
		used := map[int64]bool{}
		for k := 0; k < 10; k++ {
			n := int64(1 + rng.Intn(12))
			l := rng.Int63n(blocks - n)
			if rng.Intn(3) == 0 {
				l = maxi64(0, badL-int64(rng.Intn(int(n)+1)))
			}
			clash := false
			for b := l; b < l+n; b++ {
				clash = clash || used[b]
			}
			if clash {
				continue
			}
			for b := l; b < l+n; b++ {
				used[b] = true
			}
			o := &out{s: ss[rng.Intn(2)], l: l, n: n, bad: l < badL+badN && badL < l+n, rd: rng.Intn(2) == 0}
			if o.rd {
				o.what = fmt.Sprintf("READ(10) lba %d n %d", l, n)
				o.t = o.s.Submit(ini.ReadCmd(ini.LUN(0), ini.READ10, uint64(l), uint32(n), bs, 0))
			} else {
				o.data = fill(rng, int(n)*bs)
				o.what = fmt.Sprintf("WRITE(10) lba %d n %d", l, n)
				o.t = o.s.Submit(ini.WriteCmd(ini.LUN(0), ini.WRITE10, uint64(l), uint32(n), o.data, 0))
			}
			os = append(os, o)
		}
		for _, o := range os {
			if !o.s.wait(o.t, o.what) {
				return
			}
			r.Eval(fmt.Sprint("r", o.rd, o.bad, rdMode, bs, o.n))
			if o.bad {
				kind := "write"
				if o.rd {
					kind = "read"
				}
				c05Failed(r, o.s, o.t, cas, o.what, kind, rdMode)
				continue
			}
			if o.t.Status != 0 {
				r.Violate("healthy-command-failed", cas, tail(o.s.Trace(), 12), "%s, away from the failing blocks %d+%d, ended with %s", o.what, badL, badN, o.t.Outcome())
				return
			}
			want := base[o.l*int64(bs) : (o.l+o.n)*int64(bs)]
			if o.rd && !bytes.Equal(o.t.Data, want) {
				r.Violate("healthy-read-differs", cas, tail(o.s.Trace(), 12), "%s, away from the failing blocks, returned other data than the store holds", o.what)
				return
			}
			if !o.rd {
				copy(want, o.data)
			}
		}
		ch.ClearFaults()
		// failed writes changed nothing here (mode error), so the whole medium is known
		if !bytes.Equal(ch.Peek("a", 0, len(base)), base) {
			r.Violate("medium-differs", cas, nil, "after failing and healthy commands the medium is not what the successful writes made it")
			return
		}
		t, ok := ss[rng.Intn(2)].cmd(ini.ReadCmd(ini.LUN(0), ini.READ16, uint64(badL), uint32(badN), bs, 0), "READ(16) of the blocks that failed")
		if !ok {
			return
		}
		if t.Status != 0 || !bytes.Equal(t.Data, base[badL*int64(bs):(badL+badN)*int64(bs)]) {
			r.Violate("not-recovered", cas, nil, "blocks %d+%d are not readable after the failure went away (%s)", badL, badN, t.Outcome())
			return
		}
	}
	dead(r, ch, cas, "store failures")
}

// c05File: a backing file that is shorter than it was, and one that cannot take more data.
func c05File(r *ck.Run, i int) {
	cas := fmt.Sprint("file", i)
	rng := rand.New(rand.NewSource(int64(i)))
	fp := filepath.Join(r.SubDir("f"), "disk.img")
	const size, limit = 16 << 20, 12 << 20
	if err := mkfile(fp, size); err != nil {
		r.Inconclusive("%v", err)
		return
	}
	d := Dev{ID: 1, Name: "a", Size: size, Shift: uint(9 + 3*(i%2)), Path: "file:" + fp}
	bs := 1 << d.Shift
	sp := spec1(d)
	sp.FSize = limit // writes beyond it fail
	ch := start(r, cas, sp, false)
	if ch == nil {
		return
	}
	defer ch.Stop()
	s := login(r, ch, cas, sessVar(rng, i))
	if s == nil {
		return
	}
	defer s.Close()
	L := ini.LUN(0)
	for k := 0; k < 40; k++ {
		n := int64(1 + rng.Intn(16))
		l := int64(limit/bs) - n + rng.Int63n(2*n+1) // before, across and after the limit
		if rng.Intn(3) == 0 {
			l = rng.Int63n(int64(size/bs) - n)
		}
		data := fill(rng, int(n)*bs)
		op := []byte{ini.WRITE10, ini.WRITE16, ini.WRVER10, ini.WRSAME16}[rng.Intn(4)]
		if op == ini.WRSAME16 {
			data = data[:bs]
		}
		what := fmt.Sprintf("%s lba %d n %d", opName(op), l, n)
		t, ok := s.cmd(ini.WriteCmd(L, op, uint64(l), uint32(n), data, 0), what)
		if !ok {
			return
		}
		over := (l+n)*int64(bs) > limit
		r.Eval(fmt.Sprint("limit", op, over, (l*int64(bs)) >= limit, bs))
		if over {
			c05Failed(r, s, t, cas, what, "write", "file size limit")
		} else if t.Status != 0 {
			r.Violate("healthy-command-failed", cas, nil, "%s below the limit ended with %s", what, t.Outcome())
		}
	}
	cut := int64(4<<20 + 1000)
	os.Truncate(fp, cut)
	for k := 0; k < 40; k++ {
		n := int64(1 + rng.Intn(16))
		l := cut/int64(bs) - n + rng.Int63n(2*n+1)
		if rng.Intn(3) == 0 {
			l = rng.Int63n(int64(size/bs) - n)
		}
		op := []byte{ini.READ10, ini.READ16, ini.READ12, ini.VERIFY10}[rng.Intn(4)]
		what := fmt.Sprintf("%s lba %d n %d", opName(op), l, n)
		over := (l+n)*int64(bs) > cut
		cm := ini.ReadCmd(L, op, uint64(l), uint32(n), bs, 0)
		f, _ := os.ReadFile(fp)
		if op == ini.VERIFY10 {
			b := make([]byte, int(n)*bs)
			if l*int64(bs) < int64(len(f)) {
				copy(b, f[l*int64(bs):])
			}
			cm = ini.WriteCmd(L, op, uint64(l), uint32(n), b, 2)
		}
		t, ok := s.cmd(cm, what)
		if !ok {
			return
		}
		r.Eval(fmt.Sprint("cut", op, over, bs))
		if over {
			c05Failed(r, s, t, cas, what, "read", "truncated file")
		} else if t.Status != 0 || (op != ini.VERIFY10 && !bytes.Equal(t.Data, f[l*int64(bs):(l+n)*int64(bs)])) {
			r.Violate("healthy-command-failed", cas, nil, "%s of the part of the file that is left ended with %s or other data", what, t.Outcome())
		}
	}
	os.Truncate(fp, size)
	t, ok := s.cmd(ini.ReadCmd(L, ini.READ10, uint64(size/bs-8), 8, bs, 0), "READ(10) after the file was extended again")
	if ok && t.Status != 0 {
		r.Violate("not-recovered", cas, nil, "the file is whole again, a read ends with %s", t.Outcome())
	}
}

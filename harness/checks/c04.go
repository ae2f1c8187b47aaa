package checks

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"time"

	"verif/ck"
	"verif/ini"
	"verif/mon"
	"verif/tgt"
)

func init() { All["C04"] = Check{Run: c04, Level: "fault_enumeration", Min: 300} }

func c04(r *ck.Run) {
	r.Rule("random histories of plain writes, FUA writes (10/12/16, ORWRITE) and SYNCHRONIZE CACHE (10/16, explicit ranges and zero length) on a store with a volatile and a stable image: right after each durable answer the stable image of the blocks it covers must equal the model; after a crash every block must hold its last durable value or a later one; with the store's sync held at a gate no answer may come; on a file the system calls are traced. Ranges of thousands of blocks, SYNCHRONIZE CACHE with IMMED, group numbers and FUA_NV are included. Distinct by (command, length class, block size, covered dirty blocks)")
	r.Assume("the store's sync makes durable exactly the byte range it is given (the strictest reading of the store interface)")
	n := r.Q(48, 400)
	r.Each(n, 7, func(i int) { c04Episode(r, i) })
	sweepAll(r, []sweepOp{{ini.SYNC10, "sync"}, {ini.SYNC16, "sync"}})
	r.Each(r.Q(2, 6), 2, func(i int) { c04Gate(r, i) })
	r.Each(r.Q(2, 4), 2, func(i int) { c04File(r, i) })
}

// wce reads the write cache bit; ok is false when the page is not there.
func wce(s *Sess, lun [8]byte) (bool, bool) {
	t, ok := s.cmd(ini.InCmd(lun, []byte{ini.MODESNS6, 8, 8, 0, 255, 0}, 255), "MODE SENSE(6) caching page")
	if !ok || t.Status != 0 || len(t.Data) < 4 {
		return false, false
	}
	p := t.Data[4+int(t.Data[3]):]
	if len(p) < 3 || p[0]&0x3f != 8 {
		return false, false
	}
	return p[2]&4 != 0, true
}

func c04Episode(r *ck.Run, i int) {
	rng := r.Rng("ep", i)
	cas := fmt.Sprint(i)
	shift := uint(9 + i%4)
	bs := int64(1) << shift
	blocks := int64(100 + rng.Intn(400))
	big := i%5 == 4 // ranges beyond 64 KiB and 256 blocks too
	if big {
		blocks = int64(1<<20)>>(shift-9) + int64(rng.Intn(300))
		blocks = min64(blocks, 3000)
	}
	size := blocks << shift
	sp := spec1(Dev{ID: 1, Name: "a", Size: size, Shift: shift})
	if i%4 == 3 {
		sp = spec1(Dev{ID: 1002, Name: "z", Size: 1 << 16, Shift: 9})
		sp.Config.ISCSITargets[TN(0)].LUNs["1"] = 1002
		delete(sp.Config.ISCSITargets[TN(0)].LUNs, "0")
		sp.Rem = []tgt.RemSpec{{Target: TN(0), LUN: 0, DeviceID: 2000, Name: "a", Size: size, Shift: shift}}
	}
	ch := start(r, cas, sp, false)
	if ch == nil {
		return
	}
	defer ch.Stop()
	s := login(r, ch, cas, sessVar(rng, i))
	if s == nil {
		return
	}
	defer s.Close()
	o2 := sessVar(rng, i)
	o2.Initiator, o2.ISID = "iqn.2020-01.verif:second", [6]byte{0x80, 2, 2, 2, 2, 2}
	s2 := login(r, ch, cas, o2)
	if s2 == nil {
		return
	}
	defer s2.Close()
	L := ini.LUN(0)
	cached, ok := wce(s, L)
	if s.bad {
		return
	}
	if !ok {
		r.Violate("no-caching-page", cas, nil, "MODE SENSE does not return the caching mode page")
		return
	}
	m := NewModel(size) // what was written
	// per block the last durable content and everything written later
	durable := map[int64][]byte{}
	later := map[int64][][]byte{}
	blk := func(b int64) []byte { return m.Read(b*bs, int(bs)) }
	mustStable := func(what string, l, n int64) bool {
		got := ch.PeekStable("a", l*bs, int(n*bs))
		want := m.Read(l*bs, int(n*bs))
		dirty := 0
		for b := l; b < l+n; b++ {
			if len(later[b]) > 0 {
				dirty++
			}
			durable[b] = blk(b)
			delete(later, b)
		}
		r.Eval(fmt.Sprint(strings.Fields(what)[0], lenClass(int(n)), bs, dirty > 0, l+n == blocks, l == 0))
		if d := diffAt(got, want); d >= 0 {
			r.Violate("not-durable:"+strings.Fields(what)[0], cas, tail(s.Trace(), 20), "after GOOD to %s, byte %d of block %d is not on stable storage", what, int64(d)%bs, l+int64(d)/bs)
			return false
		}
		return true
	}
	nops := r.Q(70, 150)
	for k := 0; k < nops; k++ {
		if rng.Intn(3) == 0 {
			s, s2 = s2, s
		}
		n := int64(1 + rng.Intn(12))
		if big && rng.Intn(3) == 0 {
			n = []int64{127, 128, 129, 255, 256, 257, 300 + rng.Int63n(600)}[rng.Intn(7)]
		}
		l := rng.Int63n(blocks - n + 1)
		switch rng.Intn(8) {
		case 0:
			l = 0
		case 1:
			l = blocks - n
		}
		switch c := rng.Intn(12); {
		case c < 6: // write
			op := []byte{ini.WRITE6, ini.WRITE10, ini.WRITE12, ini.WRITE16, ini.ORWRITE, ini.WRVER10, ini.WRSAME10}[rng.Intn(7)]
			fl := byte(0)
			fua := false
			switch op {
			case ini.WRITE10, ini.WRITE12, ini.WRITE16, ini.ORWRITE:
				if fua = rng.Intn(2) == 0; fua {
					fl = 8
				}
				if rng.Intn(4) == 0 {
					fl |= 0x10
				}
				if rng.Intn(4) == 0 {
					fl |= 2 // the obsolete FUA_NV
				}
			}
			if op == ini.WRITE6 {
				n = min64(n, 256)
			}
			data := fill(rng, int(n*bs))
			if op == ini.WRSAME10 {
				data = data[:bs]
			}
			what := fmt.Sprintf("%s flags %02x lba %d n %d", opName(op), fl, l, n)
			cm := ini.WriteCmd(L, op, uint64(l), uint32(n), data, fl)
			c04Group(cm.CDB, rng)
			t, ok := s.cmd(cm, what)
			if !ok {
				return
			}
			if t.Status != 0 {
				r.Violate("refused:"+opName(op), cas, nil, "%s ended with %s", what, t.Outcome())
				return
			}
			if op == ini.WRSAME10 {
				data = bytes.Repeat(data, int(n))
			}
			if op == ini.ORWRITE {
				old := m.Read(l*bs, int(n*bs))
				for j := range old {
					data[j] |= old[j]
				}
			}
			m.Write(l*bs, data)
			for b := l; b < l+n; b++ {
				later[b] = append(later[b], blk(b))
			}
			if fua || !cached {
				if !mustStable(what, l, n) {
					return
				}
			} else {
				r.Eval("")
			}
		case c < 10: // sync
			op := []byte{ini.SYNC10, ini.SYNC16}[rng.Intn(2)]
			if rng.Intn(3) == 0 {
				n = 1 + rng.Int63n(blocks)
				l = rng.Int63n(blocks - n + 1)
			}
			cn := n
			if rng.Intn(3) == 0 {
				cn, n = 0, blocks-l
			}
			fl := byte(0)
			if rng.Intn(4) == 0 {
				fl = 4 // SYNC_NV
			}
			immed := rng.Intn(5) == 0
			if immed {
				fl |= 2 // IMMED: the answer may come first, the sync must still come
			}
			what := fmt.Sprintf("%s flags %02x lba %d n %d", opName(op), fl, l, cn)
			cm := ini.NoData(L, ini.RW(op, uint64(l), uint32(cn), fl))
			c04Group(cm.CDB, rng)
			t, ok := s.cmd(cm, what)
			if !ok {
				return
			}
			if t.Status != 0 {
				r.Violate("refused:"+opName(op), cas, nil, "%s ended with %s", what, t.Outcome())
				return
			}
			for end := time.Now().Add(5 * time.Second); immed && time.Now().Before(end); time.Sleep(2 * time.Millisecond) {
				if diffAt(ch.PeekStable("a", l*bs, int(n*bs)), m.Read(l*bs, int(n*bs))) < 0 {
					break
				}
			}
			if !mustStable(what, l, n) {
				return
			}
		default: // crash
			ch.Crash("a")
			r.Add("crashes", 1)
			for b := int64(0); b < blocks; b++ {
				if durable[b] == nil && later[b] == nil {
					continue
				}
				got := ch.Peek("a", b*bs, int(bs))
				d := durable[b]
				if d == nil {
					d = make([]byte, bs)
				}
				good := bytes.Equal(got, d)
				for _, v := range later[b] {
					good = good || bytes.Equal(got, v)
				}
				r.Add("blocks_checked_after_crash", 1)
				if !good {
					r.Violate("lost-after-crash", cas, tail(s.Trace(), 20), "after a crash block %d holds neither its last durable content nor a later one", b)
					return
				}
				m.Write(b*bs, got)
				durable[b] = append([]byte{}, got...)
				delete(later, b)
			}
			t, ok := s.cmd(ini.ReadCmd(L, ini.READ10, uint64(l), uint32(n), int(bs), 0), "READ(10) after crash")
			if !ok {
				return
			}
			if diffAt(t.Data, m.Read(l*bs, int(n*bs))) >= 0 {
				r.Violate("read-after-crash", cas, nil, "data read after a crash of the store is not what the store holds")
			}
		}
	}
	for _, e := range ch.Events(0, false) {
		if e.Kind == "sync" {
			r.Add("store_syncs", 1)
		}
	}
	dead(r, ch, cas, "history")
}

// c04Group sets the group number, which must not matter.
func c04Group(cdb []byte, rng *rand.Rand) {
	if rng.Intn(3) > 0 {
		return
	}
	switch len(cdb) {
	case 10:
		cdb[6] |= byte(rng.Intn(32))
	case 12:
		cdb[10] |= byte(rng.Intn(32))
	case 16:
		cdb[14] |= byte(rng.Intn(32))
	}
}

// c04Gate holds the store's sync: the answer must wait for it.
func c04Gate(r *ck.Run, i int) {
	cas := fmt.Sprint("gate", i)
	ch := start(r, cas, spec1(Dev{ID: 1, Name: "a", Size: 1 << 20, Shift: 9}), false)
	if ch == nil {
		return
	}
	defer ch.Stop()
	s := login(r, ch, cas, ini.LoginOpts{ISID: [6]byte{0x80, 1, 1, 1, 1, 1}})
	o := login(r, ch, cas, ini.LoginOpts{ISID: [6]byte{0x80, 1, 1, 1, 1, 2}, Initiator: "iqn.2020-01.verif:o"})
	if s == nil || o == nil {
		return
	}
	defer s.Close()
	defer o.Close()
	rng := rand.New(rand.NewSource(int64(i)))
	L := ini.LUN(0)
	for j, op := range []byte{ini.WRITE10, ini.WRITE12, ini.WRITE16, ini.ORWRITE, ini.SYNC10, ini.SYNC16} {
		g := fmt.Sprint("g", j)
		ch.ClearFaults()
		ch.AddFault(mon.Fault{Dev: "a", Kind: "sync", Mode: "gate", Gate: g})
		var cm ini.Cmd
		if op == ini.SYNC10 || op == ini.SYNC16 {
			cm = ini.NoData(L, ini.RW(op, 3, 5, 0))
		} else {
			cm = ini.WriteCmd(L, op, 3, 5, fill(rng, 5*512), 8)
		}
		t := s.Submit(cm)
		end := time.Now().Add(ini.Watchdog)
		for ch.AtGate(g) == 0 && !t.Done() && time.Now().Before(end) {
			time.Sleep(time.Millisecond)
		}
		early := t.Done()
		if !early && ch.AtGate(g) > 0 { // let everything else run, then look again
			for k := 0; k < 20; k++ {
				if !o.usable("TEST UNIT READY while another session's sync is held") {
					ch.Release(g)
					return
				}
			}
			early = t.Done()
		}
		r.Eval(fmt.Sprint("gate", op))
		if early {
			r.Violate("answered-before-sync:"+opName(op), cas, tail(s.Trace(), 10), "%s with durability asked for was answered (%s) although the store's sync had not returned", opName(op), t.Outcome())
		}
		ch.Release(g)
		ch.ClearFaults()
		if !s.wait(t, opName(op)) {
			return
		}
		r.Add("held_syncs", 1)
	}
}

var (
	trWrite = regexp.MustCompile(`pwrite64\(\d+<([^>]*)>|pwritev2?\(\d+<([^>]*)>`)
	trSync  = regexp.MustCompile(`(?:fdatasync|fsync|sync_file_range)\(\d+<([^>]*)>`)
)

// c04File traces the system calls on a backing file.
func c04File(r *ck.Run, i int) {
	cas := fmt.Sprint("file", i)
	rng := r.Rng("file", i)
	dir := r.SubDir("f")
	fp := filepath.Join(dir, "disk.img")
	mkfile(fp, 1<<20)
	d := Dev{ID: 1, Name: "a", Size: 1 << 20, Shift: uint(9 + 3*(i%2))}
	bs := 1 << d.Shift
	d.Path = "file:" + fp
	sp := spec1(d)
	tf := filepath.Join(dir, "trace")
	sp.Wrap = []string{"strace", "-f", "-qq", "-y", "-o", tf, "-e", "trace=pwrite64,pwritev,pwritev2,fdatasync,fsync,sync_file_range,msync"}
	ch, err := tgt.Start(sp, r.SubDir("c"), false)
	if err != nil {
		r.Add("no_strace", 1) // tracing not possible here: the file is not observed
		return
	}
	defer ch.Stop()
	s := login(r, ch, cas, sessVar(rng, i))
	if s == nil {
		return
	}
	defer s.Close()
	count := func() (w, sy int) {
		b, _ := os.ReadFile(tf)
		for _, l := range strings.Split(string(b), "\n") {
			if !strings.Contains(l, fp) {
				continue
			}
			if trWrite.MatchString(l) {
				w++
			}
			if trSync.MatchString(l) {
				sy++
			}
			if strings.Contains(l, "resumed") {
				continue
			}
		}
		return
	}
	L := ini.LUN(0)
	for k := 0; k < r.Q(14, 60); k++ {
		n := 1 + rng.Intn(6)
		l := rng.Intn(1<<20/bs - n)
		w0, s0 := count()
		op := []byte{ini.WRITE10, ini.WRITE12, ini.WRITE16, ini.ORWRITE}[k%4]
		fua := k%2 == 0 || k%7 == 1
		fl := byte(0)
		if fua {
			fl = 8
		}
		t, ok := s.cmd(ini.WriteCmd(L, op, uint64(l), uint32(n), fill(rng, n*bs), fl), opName(op))
		if !ok || t.Status != 0 {
			return
		}
		w1, s1 := count()
		if w1 == w0 { // the tracer sees nothing: no verdict from it
			r.Add("untraced", 1)
			continue
		}
		r.Add("traced_writes", int64(w1-w0))
		what := opName(op) + " with FUA"
		if !fua {
			sop := []byte{ini.SYNC10, ini.SYNC16}[k/2%2]
			what = opName(sop)
			cn := n
			if k%3 == 0 {
				cn = 0
			}
			if t, ok = s.cmd(ini.NoData(L, ini.RW(sop, uint64(l), uint32(cn), 0)), what); !ok || t.Status != 0 {
				return
			}
			_, s1 = count()
		}
		r.Eval(fmt.Sprint("file", what))
		r.Add("traced_syncs", int64(s1-s0))
		if s1 == s0 {
			r.Violate("file-not-synced:"+strings.Fields(what)[0], cas, nil, "%s on a file-backed LUN was answered GOOD without a sync of the file", what)
			return
		}
	}
}

package checks

import (
	"fmt"
	"path/filepath"

	"verif/ck"
	"verif/ini"
	"verif/tgt"

	"github.com/gostor/gotgt/pkg/config"
)

func init() { All["C14"] = Check{Run: c14, Level: "exploration", Min: 1500} }

func c14(r *ck.Run) {
	r.Rule("devices of every size class (one block up to 2^62 bytes, around 2^31, 2^32 blocks, no multiple of the block size) x block sizes 512..64 KiB x thin/not x monitored, file and remote stores: READ CAPACITY (10)/(16), the block descriptor of MODE SENSE (6)/(10) and GET LBA STATUS compared with the size, and the limit on I/O probed on both sides of the last block with reads, writes, verify, sync, pre-fetch, write same and unmap; then chains of resizes, each probed from sessions opened before and after it, with I/O running on another session. Distinct by (size class, block size, probe, outcome)")
	r.Assume("a device is at least one block; the store is resized before the target is told")
	shapes := []int64{1, 2, 7, 600, 2048, 65535, 65536, 65537, 1<<21 + 3, 1<<24 - 1, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<32 - 2, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<33 + 5, 1<<40 + 77, 1 << 48}
	type job struct {
		blocks int64
		shift  uint
		extra  int64
		thin   bool
	}
	var jobs []job
	for k, b := range shapes {
		for sh := uint(9); sh <= 12; sh++ {
			j := job{blocks: b, shift: sh, thin: (k+int(sh))%2 == 0}
			if (k+int(sh))%3 == 0 {
				j.extra = 1<<sh - 1
			} else if (k+int(sh))%3 == 1 && sh > 9 {
				j.extra = 512
			}
			jobs = append(jobs, j)
		}
		sh := uint(13 + k%4) // the larger ones the configuration allows
		if b<<sh>>sh == b && b<<sh < 1<<62 {
			jobs = append(jobs, job{blocks: b, shift: sh, thin: k%2 == 0, extra: int64(k%2) * (1<<sh - 1)})
		}
		jobs = append(jobs, job{blocks: b&0xffffff + 1, shift: 16, thin: k%2 == 1})
	}
	per := 8
	r.Each((len(jobs)+per-1)/per, 7, func(i int) {
		lo, hi := i*per, (i+1)*per
		if hi > len(jobs) {
			hi = len(jobs)
		}
		var devs []Dev
		for k := lo; k < hi; k++ {
			j := jobs[k]
			devs = append(devs, Dev{ID: uint64(k + 1), Name: fmt.Sprintf("d%d", k), Size: j.blocks<<j.shift + j.extra, Shift: j.shift, Thin: j.thin})
		}
		// one of them on a file
		fd := Dev{ID: 900, Name: "f", Size: int64(777)<<(9+uint(i%4)) + int64(i%2)*300, Shift: 9 + uint(i%4), Thin: i%2 == 0}
		p := filepath.Join(r.SubDir("f"), "disk")
		mkfile(p, fd.Size)
		fd.Path = "file:" + p
		devs = append(devs, fd)
		cas := fmt.Sprintf("static-%d", i)
		ch := start(r, cas, spec1(devs...), false)
		if ch == nil {
			return
		}
		defer ch.Stop()
		s := login(r, ch, cas, ini.LoginOpts{ISID: [6]byte{0x80, 1, 4, 0, byte(i), 1}})
		if s == nil {
			return
		}
		defer s.Close()
		for k, d := range devs {
			if !c14Probe(r, s, cas, ini.LUN(k), d.Size, d.Shift, d.Thin, true) {
				return
			}
		}
		dead(r, ch, cas, "capacity probes")
	})
	r.Each(r.Q(35, 400), 7, func(i int) { c14Resize(r, i) })
}

// c14Probe compares everything that tells or enforces a capacity with the size in bytes.
func c14Probe(r *ck.Run, s *Sess, cas string, lun [8]byte, size int64, shift uint, thin, io bool) bool {
	bs := int64(1) << shift
	blocks := size >> shift
	last := uint64(blocks - 1)
	dev := fmt.Sprintf("a device of %d bytes in blocks of %d", size, bs)
	cls := ""
	for _, p := range []uint{16, 21, 31, 32, 63} {
		if cls == "" && blocks <= 1<<p {
			cls = fmt.Sprint(p, blocks == 1<<p, blocks == 1<<p-1)
		}
	}
	bad := func(sig, f string, a ...interface{}) {
		r.Violate(sig, cas, tail(s.Trace(), 6), "%s: %s", dev, fmt.Sprintf(f, a...))
	}
	short := uint32(0xffffffff)
	if last < 0xffffffff {
		short = uint32(last)
	}
	// READ CAPACITY(10)
	t, ok := s.cmd(ini.InCmd(lun, []byte{ini.READCAP10, 0, 0, 0, 0, 0, 0, 0, 0, 0}, 8), "READ CAPACITY(10)")
	if !ok {
		return false
	}
	r.Eval("rc10" + cls + fmt.Sprint(shift))
	if t.Status != 0 || len(t.Data) != 8 {
		bad("readcap10", "READ CAPACITY(10) ended with %s and %d bytes", t.Outcome(), len(t.Data))
	} else if be32(t.Data) != short || be32(t.Data[4:]) != uint32(bs) {
		bad("readcap10", "READ CAPACITY(10) says last LBA %d (%08x), block length %d; expected %08x", be32(t.Data), be32(t.Data), be32(t.Data[4:]), short)
	}
	// READ CAPACITY(16)
	t, ok = s.cmd(ini.InCmd(lun, append([]byte{ini.SAI16, 0x10}, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 32, 0, 0), 32), "READ CAPACITY(16)")
	if !ok {
		return false
	}
	r.Eval("rc16" + cls + fmt.Sprint(shift))
	if t.Status != 0 || len(t.Data) != 32 {
		bad("readcap16", "READ CAPACITY(16) ended with %s and %d bytes", t.Outcome(), len(t.Data))
	} else {
		if be64(t.Data) != last || be32(t.Data[8:]) != uint32(bs) {
			bad("readcap16", "READ CAPACITY(16) says last LBA %d, block length %d", be64(t.Data), be32(t.Data[8:]))
		}
		if (t.Data[14]&0x80 != 0) != thin {
			bad("lbpme", "READ CAPACITY(16) says thin provisioning %v, configured %v", t.Data[14]&0x80 != 0, thin)
		}
	}
	// READ CAPACITY(10) asked with PMI may tell of a nearer delay, there is none
	pmi := []byte{ini.READCAP10, 0, byte(last >> 24), byte(last >> 16), byte(last >> 8), byte(last), 0, 0, 1, 0}
	if last>>32 == 0 {
		if t, ok = s.cmd(ini.InCmd(lun, pmi, 8), "READ CAPACITY(10) with PMI"); !ok {
			return false
		}
		r.Eval("rc10pmi" + cls + fmt.Sprint(shift))
		if t.Status == 0 && (len(t.Data) != 8 || be32(t.Data) != short || be32(t.Data[4:]) != uint32(bs)) || t.Status != 0 && !t.IsCheck(5, 0x2400) {
			bad("readcap10", "READ CAPACITY(10) with PMI of the last block ended with %s, %x", t.Outcome(), t.Data)
		}
	}
	// mode parameter block descriptors
	for _, ten := range []bool{false, true} {
		cdb, off, nm := []byte{ini.MODESNS6, 0, 0x3f, 0, 255, 0}, 4, "MODE SENSE(6)"
		if ten {
			cdb, off, nm = []byte{ini.MODESNS10, 0, 0x3f, 0, 0, 0, 0, 1, 0, 0}, 8, "MODE SENSE(10)"
		}
		t, ok = s.cmd(ini.InCmd(lun, cdb, 256), nm)
		if !ok {
			return false
		}
		r.Eval(nm + cls + fmt.Sprint(shift))
		if t.Status != 0 || len(t.Data) < off+8 {
			bad("mode-sense", "%s ended with %s and %d bytes", nm, t.Outcome(), len(t.Data))
			continue
		}
		dl := int(t.Data[3])
		if ten {
			dl = int(be16(t.Data[6:]))
		}
		if dl == 0 {
			bad("no-descriptor", "%s has no block descriptor although DBD was 0", nm)
			continue
		}
		// number of blocks, saturated; 0 would mean "all of the medium" in the eyes of some initiators but not of SBC's direct-access descriptor
		n := be32(t.Data[off:])
		want := uint32(0xffffffff)
		if blocks < 1<<32 {
			want = uint32(blocks)
		}
		if n != want {
			bad("descriptor-blocks", "the block descriptor of %s says %d (%08x) blocks, expected %08x", nm, n, n, want)
		}
		if bl := be32(t.Data[off+4:]) & 0xffffff; bl != uint32(bs) {
			bad("descriptor-length", "the block descriptor of %s says block length %d", nm, bl)
		}
	}
	// GET LBA STATUS of the last block, and one behind it
	if !io {
		return true
	}
	gls := func(lba uint64) []byte {
		c := make([]byte, 16)
		c[0], c[1] = ini.SAI16, 0x12
		for k := 0; k < 8; k++ {
			c[2+k] = byte(lba >> uint(56-8*k))
		}
		c[13] = 64
		return c
	}
	type probe struct {
		name string
		c    ini.Cmd
		in   bool
		max  uint64
	}
	one := filled(0x5a, int(bs))
	var ps []probe
	for _, op := range []byte{ini.READ6, ini.READ10, ini.READ12, ini.READ16} {
		ps = append(ps, probe{opName(op) + " last", ini.ReadCmd(lun, op, last, 1, int(bs), 0), true, lbaMax(op)},
			probe{opName(op) + " end", ini.ReadCmd(lun, op, last+1, 1, int(bs), 0), false, lbaMax(op)},
			probe{opName(op) + " across", ini.ReadCmd(lun, op, last, 2, int(bs), 0), false, lbaMax(op)})
	}
	for _, op := range []byte{ini.WRITE10, ini.WRITE16, ini.WRVER12, ini.WRSAME16, ini.ORWRITE} {
		ps = append(ps, probe{opName(op) + " last", ini.WriteCmd(lun, op, last, 1, one, 0), true, lbaMax(op)},
			probe{opName(op) + " end", ini.WriteCmd(lun, op, last+1, 1, one, 0), false, lbaMax(op)})
		d := append(append([]byte{}, one...), one...)
		if op == ini.WRSAME16 {
			d = one
		}
		ps = append(ps, probe{opName(op) + " across", ini.WriteCmd(lun, op, last, 2, d, 0), false, lbaMax(op)})
	}
	for _, op := range []byte{ini.VERIFY10, ini.VERIFY16, ini.SYNC10, ini.SYNC16, ini.PREFETCH, ini.PREFETCH16} {
		ps = append(ps, probe{opName(op) + " last", ini.NoData(lun, ini.RW(op, last, 1, 0)), true, lbaMax(op)},
			probe{opName(op) + " end", ini.NoData(lun, ini.RW(op, last+1, 1, 0)), false, lbaMax(op)},
			probe{opName(op) + " across", ini.NoData(lun, ini.RW(op, last, 2, 0)), false, lbaMax(op)})
	}
	um := func(l uint64, n uint32) ini.Cmd {
		p := unmapList(umRange{l, n})
		return ini.OutCmd(lun, unmapCDB(len(p)), p)
	}
	ps = append(ps, probe{"UNMAP last", um(last, 1), true, 1<<64 - 1}, probe{"UNMAP end", um(last+1, 1), false, 1<<64 - 1}, probe{"UNMAP across", um(last, 2), false, 1<<64 - 1})
	ps = append(ps, probe{"GET LBA STATUS last", ini.InCmd(lun, gls(last), 64), true, 1<<64 - 1}, probe{"GET LBA STATUS end", ini.InCmd(lun, gls(last+1), 64), false, 1<<64 - 1})
	for _, p := range ps {
		if last+1 > p.max { // does not fit the field
			continue
		}
		t, ok := s.cmd(p.c, p.name)
		if !ok {
			return false
		}
		r.Eval(p.name + cls + fmt.Sprint(shift))
		if p.in && t.Status != 0 {
			bad("in-refused:"+p.name, "%s block (LBA %d) ended with %s", p.name, last, t.Outcome())
		}
		if !p.in && !t.IsCheck(5, 0x2100) {
			bad("out-accepted:"+p.name, "%s (last LBA %d) ended with %s", p.name, last, t.Outcome())
		}
		if p.in && p.name == "GET LBA STATUS last" && t.Status == 0 && len(t.Data) >= 24 {
			if be64(t.Data[8:]) != last || be32(t.Data[16:]) != 1 {
				bad("lba-status", "GET LBA STATUS of the last block describes %d blocks from %d", be32(t.Data[16:]), be64(t.Data[8:]))
			}
		}
	}
	// GET LBA STATUS anywhere describes some of the blocks left, from the one asked for
	n := uint64(blocks)
	for _, l := range []uint64{0, 1, n - 2, n - 1<<16, n - 1<<31, n - 1<<32, n - 1<<32 + 1, n - 1<<32 - 1, n - 1<<33, n - 3<<32, n - 1<<40, n / 2} {
		if l >= n {
			continue
		}
		t, ok := s.cmd(ini.InCmd(lun, gls(l), 64), "GET LBA STATUS")
		if !ok {
			return false
		}
		r.Eval("lbastatus" + cls + fmt.Sprint(n-l))
		if t.Status != 0 || len(t.Data) < 24 || be64(t.Data[8:]) != l || be32(t.Data[16:]) == 0 || uint64(be32(t.Data[16:])) > n-l {
			bad("lba-status", "GET LBA STATUS of block %d of %d ended with %s, %x", l, n, t.Outcome(), t.Data)
		}
	}
	return true
}

// c14Resize runs a chain of resizes.
func c14Resize(r *ck.Run, i int) {
	rng := r.Rng("resize", i)
	cas := fmt.Sprintf("resize-%d", i)
	sh := []uint{9, 12, 10, 11}[i%4]
	devs := []Dev{{ID: 1, Name: "a", Size: 1 << 20, Shift: sh, Thin: i%2 == 0}, {ID: 2, Name: "b", Size: 1 << 22, Shift: 9}}
	sp := spec1(devs...)
	far := []int{64, 255, 256, 1000, 16383, 2, 63}[i%7] // and a LUN with a number far from the others
	sp.Config.ISCSITargets[TN(0)].LUNs[fmt.Sprint(far)] = 4
	sp.Config.Storages = append(sp.Config.Storages, Dev{ID: 4, Name: "d", Size: 1 << 20, Shift: 9}.storage())
	sp.Config.ISCSITargets[TN(1)] = config.ISCSITarget{TPGTs: map[string][]uint64{"1": {0}}, LUNs: map[string]uint64{"4": 3}}
	sp.Config.Storages = append(sp.Config.Storages, Dev{ID: 3, Name: "c", Size: 1 << 21, Shift: 11}.storage())
	if i%3 == 2 {
		sp.Rem = []tgt.RemSpec{{Target: TN(0), LUN: 3, DeviceID: 2000, Name: "rem", Size: 1 << 20, Shift: sh}}
	}
	ch := start(r, cas, sp, false)
	if ch == nil {
		return
	}
	defer ch.Stop()
	type lun struct {
		tn   string
		l    int
		dev  string
		sh   uint
		thin bool
	}
	luns := []lun{{TN(0), 0, "a", sh, i%2 == 0}, {TN(0), 1, "b", 9, false}, {TN(1), 4, "c", 11, false}, {TN(0), far, "d", 9, false}}
	if len(sp.Rem) > 0 {
		luns = append(luns, lun{TN(0), 3, "rem", sh, false})
	}
	open := func(n int) map[string]*Sess {
		m := map[string]*Sess{}
		for k, tn := range []string{TN(0), TN(1)} {
			if m[tn] = login(r, ch, cas, ini.LoginOpts{Target: tn, Initiator: fmt.Sprintf("iqn.2020-01.verif:r%d", n), ISID: [6]byte{0x80, 1, byte(n), byte(k), byte(i), 4}}); m[tn] == nil {
				return nil
			}
		}
		return m
	}
	before := open(0)
	if before == nil {
		return
	}
	sizes := []int64{}
	for k := 0; k < 5; k++ {
		b := []int64{1, 3, 100, 5000, 1<<32 - 1, 1 << 32, 1<<32 + 9, 1 << 40}[rng.Intn(8)]
		sizes = append(sizes, b<<12+int64(rng.Intn(2)*rng.Intn(4096)))
	}
	cur := int64(0)
	for k, n := range sizes {
		// a pattern at the end of what will remain and behind it
		for _, l := range luns {
			ch.SetSize(l.dev, n)
		}
		if err := ch.Resize(uint64(n)); err != nil {
			r.Violate("resize-failed", cas, nil, "Resize(%d) failed: %v", n, err)
			return
		}
		cur = n
		after := open(k + 1)
		if after == nil {
			return
		}
		for _, l := range luns {
			for _, m := range []map[string]*Sess{before, after} {
				if !c14Probe(r, m[l.tn], cas, ini.LUN(l.l), cur, l.sh, l.thin, true) {
					return
				}
			}
			// what one session writes at the new end the other reads
			bs := int64(1) << l.sh
			lb := uint64(cur>>l.sh - 1)
			d := fill(rng, int(bs))
			t, ok := before[l.tn].cmd(ini.WriteCmd(ini.LUN(l.l), ini.WRITE16, lb, 1, d, 0), "WRITE(16) of the last block after a resize")
			if !ok {
				return
			}
			t2, ok := after[l.tn].cmd(ini.ReadCmd(ini.LUN(l.l), ini.READ16, lb, 1, int(bs), 0), "READ(16) of the last block after a resize")
			if !ok {
				return
			}
			r.Eval(fmt.Sprint("resize-io", l.sh, k))
			if t.Status != 0 || t2.Status != 0 || diffAt(t2.Data, d) >= 0 {
				r.Violate("resize-io", cas, nil, "after a resize to %d bytes the last block does not hold what was written: %s, %s", cur, t.Outcome(), t2.Outcome())
			}
			// to the end of the medium: as much as it has now
			if cur < 64<<20 {
				seq := ch.Seq()
				t, ok := after[l.tn].cmd(ini.WriteCmd(ini.LUN(l.l), ini.WRSAME16, 0, 0, d, 0), "WRITE SAME(16) to the end after a resize")
				if !ok {
					return
				}
				end := int64(0)
				for _, e := range ch.Events(seq, false) {
					if e.Kind == "write" && e.Off+e.Len > end {
						end = e.Off + e.Len
					}
				}
				if t.Status != 0 || end != int64(lb+1)*bs {
					r.Violate("resize-write-same", cas, nil, "WRITE SAME to the end of a medium resized to %d blocks of %d bytes ended with %s after writing up to byte %d", lb+1, bs, t.Outcome(), end)
				}
			}
		}
		for _, s := range after {
			s.Close()
		}
	}
	r.Add("resizes", int64(len(sizes)))
	dead(r, ch, cas, "resizes")
}

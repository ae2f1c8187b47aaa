package checks

import (
	"fmt"
	"math/rand"

	"verif/ck"
	"verif/ini"
)

// sweepDecode drives every bit of the LBA and length fields of one command form on a sparse medium of 2^62 bytes, with
// the medium and the data as witness of what was addressed. kind: read, write, same, or, verify, sync.
func sweepDecode(r *ck.Run, op byte, kind string, i int) {
	if i%4 != 0 && kind != "sync" && kind != "same" { // long transfers in small blocks
		sweepLengths(r, op, kind, i-i%4)
	}
	sweepLengths(r, op, kind, i)
}

func sweepLengths(r *ck.Run, op byte, kind string, i int) {
	rng := r.Rng("sweep", i, int(op))
	cas := fmt.Sprintf("sweep-%02x", op)
	shift := []uint{9, 12, 10, 11}[i%4]
	bs := int64(1) << shift
	size := int64(1) << 62
	blocks := uint64(size >> shift)
	ch := start(r, cas, spec1(Dev{ID: 1, Name: "a", Size: size, Shift: shift}), false)
	if ch == nil {
		return
	}
	defer ch.Stop()
	s := login(r, ch, cas, ini.LoginOpts{ISID: [6]byte{0x80, 9, 9, 9, byte(i), op}})
	if s == nil {
		return
	}
	defer s.Close()
	m := NewModel(size)
	type pt struct {
		l    uint64
		n    uint64
		name string
	}
	var pts []pt
	small := func() uint64 { return 1 + uint64(rng.Intn(3)) }
	for k := uint(0); k < 64; k++ {
		l := uint64(1)<<k | uint64(rng.Int63())&(uint64(1)<<k-1)
		if l > lbaMax(op) || l >= blocks-8 {
			continue
		}
		pts = append(pts, pt{l, small(), fmt.Sprintf("lba bit %d", k)})
		pts = append(pts, pt{uint64(1) << k, 1, fmt.Sprintf("lba bit %d alone", k)})
	}
	top := lbaMax(op)
	if top >= blocks {
		top = blocks - 1
	}
	pts = append(pts, pt{top, 1, "last lba of the field"})
	maxBytes := uint64(4 << 20)
	if kind == "same" {
		maxBytes = 64 << 20
	}
	if kind == "sync" {
		maxBytes = 1 << 62
	}
	for k := uint(0); k < 32; k++ {
		n := uint64(1)<<k | uint64(rng.Int63())&(uint64(1)<<k-1)
		if n > lenMax(op) {
			break
		}
		if n*uint64(bs) > maxBytes && !(kind != "sync" && kind != "same" && k >= 15 && k <= 16 && shift == 9) {
			continue
		}
		pts = append(pts, pt{uint64(rng.Intn(1 << 20)), n, fmt.Sprintf("length bit %d", k)})
	}
	if op == ini.READ6 || op == ini.WRITE6 {
		pts = append(pts, pt{uint64(rng.Intn(1 << 20)), 256, "256 blocks"})
	}
	for _, p := range pts {
		off, n := int64(p.l)*bs, int64(p.n)*bs
		data := sparseFill(rng, int(min64(n, 64<<20)))
		what := fmt.Sprintf("%s lba %d n %d (%s, block size %d)", opName(op), p.l, p.n, p.name, bs)
		var t *ini.Task
		var ok bool
		put := func() { ch.Poke("a", off, data); m.Write(off, data) }
		switch kind {
		case "read":
			put()
			t, ok = s.cmd(ini.ReadCmd(ini.LUN(0), op, p.l, uint32(p.n), int(bs), 0), what)
			if ok && t.Status == 0 {
				if d := diffAt(t.Data, data); d >= 0 {
					r.Violate("sweep-read:"+opName(op), cas, nil, "%s: byte %d of the data is not what the medium holds there", what, d)
					return
				}
			}
		case "write":
			t, ok = s.cmd(ini.WriteCmd(ini.LUN(0), op, p.l, uint32(p.n), data, 0), what)
			m.Write(off, data)
		case "or":
			old := sparseFill(rng, len(data))
			ch.Poke("a", off, old)
			t, ok = s.cmd(ini.WriteCmd(ini.LUN(0), op, p.l, uint32(p.n), data, 0), what)
			for k := range old {
				old[k] |= data[k]
			}
			m.Write(off, old)
		case "same":
			t, ok = s.cmd(ini.WriteCmd(ini.LUN(0), op, p.l, uint32(p.n), data[:bs], 0), what)
			for k := int64(0); k < n; k += bs {
				m.Write(off+k, data[:bs])
			}
		case "verify":
			put()
			t, ok = s.cmd(ini.WriteCmd(ini.LUN(0), op, p.l, uint32(p.n), data, 2), what)
			if ok && t.Status == 0 { // and a difference in the last byte must be found
				ch.Poke("a", off+n-1, []byte{data[n-1] ^ 0x40})
				t2, ok2 := s.cmd(ini.WriteCmd(ini.LUN(0), op, p.l, uint32(p.n), data, 2), what)
				if !ok2 {
					return
				}
				if !t2.IsCheck(0xe, 0x1d00) {
					r.Violate("sweep-verify:"+opName(op), cas, nil, "%s with another last byte on the medium ended with %s", what, t2.Outcome())
				}
				ch.Poke("a", off+n-1, data[n-1:])
			}
		case "sync":
			data = data[:min64(n, 4*bs)]
			put()
			tail := off + n - bs // the last block of the range
			ch.Poke("a", tail, data[:bs])
			m.Write(tail, data[:bs])
			t, ok = s.cmd(ini.NoData(ini.LUN(0), ini.RW(op, p.l, uint32(p.n), 0)), what)
			if ok && t.Status == 0 {
				if diffAt(ch.PeekStable("a", tail, int(bs)), data[:bs]) >= 0 || diffAt(ch.PeekStable("a", off, int(bs)), m.Read(off, int(bs))) >= 0 {
					r.Violate("sweep-sync:"+opName(op), cas, nil, "%s answered GOOD but its first or last block is not on stable storage", what)
				}
			}
		}
		if !ok {
			return
		}
		r.Eval(fmt.Sprint("sweep", op, p.name, bs))
		if t.Status != 0 {
			r.Violate("sweep-refused:"+opName(op), cas, tail(s.Trace(), 6), "%s inside the capacity ended with %s", what, t.Outcome())
			return
		}
	}
	if off, why := compareMedium(ch, "a", m); why != "" {
		r.Violate("sweep-medium:"+opName(op), cas, nil, "after %s over every bit of its LBA and length fields byte %d of the medium %s", opName(op), off, why)
	}
	dead(r, ch, cas, "decode sweep")
}

// sparseFill is random data that is cheap for megabytes: every 64 bytes differ.
func sparseFill(rng *rand.Rand, n int) []byte {
	if n <= 1<<20 {
		return fill(rng, n)
	}
	b := make([]byte, n)
	for p := 0; p < n; p += 64 {
		v := rng.Uint64()
		for k := 0; k < 8 && p+k < n; k++ {
			b[p+k] = byte(v >> uint(8*k))
		}
	}
	b[n-1] = byte(rng.Intn(256))
	return b
}

type sweepOp struct {
	op   byte
	kind string
}

func sweepAll(r *ck.Run, ops []sweepOp) {
	r.Each(len(ops), 7, func(i int) { sweepDecode(r, ops[i].op, ops[i].kind, i+int(r.Seed%4)) })
}

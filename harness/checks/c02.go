package checks

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/ck"
	"verif/ini"
	"verif/mon"
	"verif/tgt"

	"github.com/anishathalye/porcupine"
)

func init() { All["C02"] = Check{Run: c02, Level: "exploration", Min: 2000} }

// The logical clock of call and return events: strictly increasing, so program order and real time agree.
var clk atomic.Int64

// stamp makes the content of one block: an identity repeated over the whole block.
func stamp(lun, lba, val uint32, bs int) []byte {
	var h [24]byte
	copy(h[:4], "VFY!")
	binary.BigEndian.PutUint32(h[4:], lun)
	binary.BigEndian.PutUint32(h[8:], lba)
	binary.BigEndian.PutUint32(h[12:], val)
	f := fnv.New64a()
	f.Write(h[:16])
	f.Sum(h[:16])
	binary.BigEndian.PutUint64(h[16:], f.Sum64())
	b := bytes.Repeat(h[:], bs/24+1)
	return b[:bs]
}

// unstamp reads it back. An all-zero block is the initial value 0.
func unstamp(b []byte) (lun, lba, val uint32, err string) {
	if len(bytes.Trim(b, "\x00")) == 0 {
		return 0, 0, 0, ""
	}
	if string(b[:4]) != "VFY!" {
		return 0, 0, 0, "is no content that was ever written"
	}
	lun, lba, val = be32(b[4:]), be32(b[8:]), be32(b[12:])
	if !bytes.Equal(b, stamp(lun, lba, val, len(b))) {
		return 0, 0, 0, fmt.Sprintf("is a mix of writes (begins like value %x)", val)
	}
	return
}

type regOp struct {
	write bool
	val   uint32
}

// every value is written once, so a register history is decided quickly
var regModel = porcupine.Model{
	Init: func() interface{} { return uint32(0) },
	Step: func(st, in, out interface{}) (bool, interface{}) {
		o := in.(regOp)
		if o.write {
			return true, o.val
		}
		return out.(uint32) == st.(uint32), st
	},
	Equal: func(a, b interface{}) bool { return a == b },
}

func c02(r *ck.Run) {
	ini.Clock = func() int64 { return clk.Add(1) }
	r.Rule("2 to 5 sessions with several commands outstanding each read and write a few contended blocks of two LUNs, with store calls delayed at random (on a monitored store; on files each session has blocks of its own), sessions dropped in mid-command and reopened; every block read must carry exactly one written value of that LUN and LBA, and the call/return history of each block must be linearizable as a register (porcupine); distinct by the order in which the operations on a block overlapped")
	r.Assume("a command without a response (its connection was dropped) may or may not have taken effect, at any time after it was sent",
		"ORWRITE and WRITE AND VERIFY read and write back; they are left out of the contended blocks")
	n := r.Q(90, 800)
	r.Each(n, 5, func(i int) { c02Episode(r, i) })
	r.Sample(map[string]interface{}{"episode": "sessions x outstanding commands on 8 contended blocks, delays in the store", "checked": "per-block linearizability"})
}

type c02rec struct {
	client int
	lun    int
	lba    int64
	n      int64
	write  bool
	vals   []uint32
	t      *ini.Task
	what   string
}

func c02Episode(r *ck.Run, i int) {
	rng := r.Rng("ep", i)
	cas := fmt.Sprint(i)
	shift := uint(9 + i%4)
	bs := 1 << shift
	blocks := int64(24)
	devs := []Dev{{ID: 1, Name: "a", Size: blocks << shift, Shift: shift}, {ID: 2, Name: "b", Size: blocks << shift, Shift: shift}}
	// On files each session has blocks of its own, in pages of their own: the
	// kernel does not promise that a read of a page sees all or nothing of a write to it.
	const own = 8
	files := i%5 == 3
	if files {
		blocks = 5 * own
		for j := range devs {
			devs[j].Size = blocks << shift
			p := filepath.Join(r.SubDir("f"), "disk.img")
			if err := mkfile(p, devs[j].Size); err != nil {
				r.Inconclusive("%v", err)
				return
			}
			defer os.Remove(p)
			devs[j].Path = "file:" + p
		}
	}
	ch := start(r, cas, spec1(devs...), false)
	if ch == nil {
		return
	}
	defer ch.Stop()
	for _, d := range []string{"a", "b"} {
		if files {
			break
		}
		for _, k := range []string{"read", "write"} {
			if rng.Intn(3) > 0 {
				ch.AddFault(mon.Fault{Dev: d, Kind: k, Mode: "delay", Arg: int64(100 + rng.Intn(2500)), Off: int64(rng.Intn(4)) * int64(bs), Len: int64(bs * (1 + rng.Intn(8)))})
			}
		}
	}
	sessions := 2 + rng.Intn(4)
	depth := 2 + rng.Intn(6)
	per := r.Q(90, 160)
	hot := int64(2 + rng.Intn(5))
	churn := i%3 == 2 && !files
	if files {
		per *= 3
	}
	var val atomic.Uint32
	var mu sync.Mutex
	var recs []*c02rec
	var wg sync.WaitGroup
	for c := 0; c < sessions; c++ {
		c := c
		crng := rand.New(rand.NewSource(rng.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			done := 0
			for gen := 0; done < per && gen < 40; gen++ {
				o := sessVar(crng, 100*c+gen)
				o.Initiator = fmt.Sprintf("iqn.2020-01.verif:c%d", c)
				o.ISID = [6]byte{0x80, byte(c), 0, 0, 0, byte(gen)}
				s := login(r, ch, cas, o)
				if s == nil {
					return
				}
				stop := per - done
				if churn {
					stop = 10 + crng.Intn(30)
				}
				var open []*c02rec
				for k := 0; k < stop && done < per; k++ {
					done++
					lun := crng.Intn(2)
					lba := crng.Int63n(hot)
					if crng.Intn(5) == 0 {
						lba = crng.Int63n(blocks)
					}
					n := int64(1)
					if crng.Intn(3) == 0 {
						n = 1 + crng.Int63n(4)
					}
					n = min64(n, blocks-lba)
					if files {
						lba = crng.Int63n(own)
						n = min64(1+crng.Int63n(own), own-lba)
						lba += int64(c) * own
					}
					rec := &c02rec{client: c, lun: lun, lba: lba, n: n, write: crng.Intn(2) == 0}
					var cm ini.Cmd
					if rec.write {
						var data []byte
						same := crng.Intn(8) == 0
						for b := int64(0); b < n; b++ {
							if b == 0 || !same {
								v := val.Add(1)
								data = append(data, stamp(uint32(lun), uint32(lba+b), v, bs)...)
								rec.vals = append(rec.vals, v)
							}
						}
						op := []byte{ini.WRITE6, ini.WRITE10, ini.WRITE12, ini.WRITE16}[crng.Intn(4)]
						if same {
							rec.n, n = 1, 1
							op = []byte{ini.WRSAME10, ini.WRSAME16}[crng.Intn(2)]
						}
						fl := byte(0)
						if op != ini.WRITE6 && !same && crng.Intn(3) == 0 {
							fl = 8
						}
						cm = ini.WriteCmd(ini.LUN(lun), op, uint64(lba), uint32(n), data, fl)
						if crng.Intn(2) == 0 {
							cm.Imm = crng.Intn(len(data) + 1)
						}
						rec.what = opName(op)
					} else {
						op := []byte{ini.READ6, ini.READ10, ini.READ12, ini.READ16}[crng.Intn(4)]
						cm = ini.ReadCmd(ini.LUN(lun), op, uint64(lba), uint32(n), bs, 0)
						rec.what = opName(op)
					}
					rec.t = s.Submit(cm)
					mu.Lock()
					recs = append(recs, rec)
					mu.Unlock()
					open = append(open, rec)
					for len(open) > depth {
						j := crng.Intn(len(open))
						if !s.wait(open[j].t, open[j].what) {
							return
						}
						open = append(open[:j], open[j+1:]...)
					}
				}
				if churn && done < per {
					if crng.Intn(2) == 0 {
						s.Reset()
					} else {
						s.Close()
					}
					s.WaitClosed(5 * time.Second)
					r.Add("sessions_dropped", 1)
					continue
				}
				for _, o := range open {
					if !s.wait(o.t, o.what) {
						return
					}
				}
				s.Close()
			}
		}()
	}
	wg.Wait()
	ch.ClearFaults()
	if r.Violated() || dead(r, ch, cas, "concurrent reads and writes") {
		return
	}
	// what the medium holds in the end is read as well
	s := login(r, ch, cas, ini.LoginOpts{ISID: [6]byte{0x80, 9, 9, 9, 9, 9}})
	if s == nil {
		return
	}
	defer s.Close()
	for lun := 0; lun < 2; lun++ {
		for b := int64(0); b < blocks; b++ {
			t, ok := s.cmd(ini.ReadCmd(ini.LUN(lun), ini.READ10, uint64(b), 1, bs, 0), "READ(10) at the end")
			if !ok {
				return
			}
			recs = append(recs, &c02rec{client: 99, lun: lun, lba: b, n: 1, t: t, what: "READ(10)"})
		}
	}
	c02Judge(r, ch, cas, recs, bs, devs)
}

func c02Judge(r *ck.Run, ch *tgt.Child, cas string, recs []*c02rec, bs int, devs []Dev) {
	const inf = int64(1) << 60
	hist := map[[2]int64][]porcupine.Operation{}
	for _, rec := range recs {
		t := rec.t
		lost := t.Err != nil
		if !lost && t.Status != 0 {
			r.Violate("refused:"+rec.what, cas, tail(t.C.Trace(), 20), "%s lun %d lba %d n %d ended with %s", rec.what, rec.lun, rec.lba, rec.n, t.Outcome())
			return
		}
		if rec.write {
			ret := t.Ret
			if lost {
				ret = inf
				r.Add("lost_writes", 1)
			}
			for b, v := range rec.vals {
				k := [2]int64{int64(rec.lun), rec.lba + int64(b)}
				hist[k] = append(hist[k], porcupine.Operation{ClientId: rec.client, Input: regOp{true, v}, Call: t.Call, Output: uint32(0), Return: ret})
			}
			continue
		}
		if lost {
			continue
		}
		if int64(len(t.Data)) != rec.n*int64(bs) {
			r.Violate("short-read", cas, tail(t.C.Trace(), 20), "%s lun %d lba %d n %d returned %d bytes", rec.what, rec.lun, rec.lba, rec.n, len(t.Data))
			return
		}
		for b := int64(0); b < rec.n; b++ {
			lun, lba, v, bad := unstamp(t.Data[b*int64(bs) : (b+1)*int64(bs)])
			if bad != "" {
				r.Violate("garbage-block", cas, nil, "block %d of LUN %d read by client %d %s", rec.lba+b, rec.lun, rec.client, bad)
				return
			}
			if v != 0 && (int(lun) != rec.lun || int64(lba) != rec.lba+b) {
				r.Violate("cross-talk", cas, nil, "block %d of LUN %d read by client %d holds what was written to block %d of LUN %d", rec.lba+b, rec.lun, rec.client, lba, lun)
				return
			}
			k := [2]int64{int64(rec.lun), rec.lba + b}
			hist[k] = append(hist[k], porcupine.Operation{ClientId: rec.client, Input: regOp{false, 0}, Call: t.Call, Output: v, Return: t.Ret})
		}
	}
	for k, ops := range hist {
		// lost operations are concurrent with everything later: give each its own client
		for j := range ops {
			ops[j].ClientId = j
		}
		res, _ := porcupine.CheckOperationsVerbose(regModel, ops, 60*time.Second)
		over := ""
		for a := range ops {
			c := 0
			for b := range ops {
				if a != b && ops[a].Call < ops[b].Return && ops[b].Call < ops[a].Return {
					c++
				}
			}
			over += fmt.Sprint(c, ops[a].Input.(regOp).write)
			r.Add("overlapping_pairs", int64(c))
		}
		r.Add("operations", int64(len(ops)))
		for range ops {
			r.Eval("")
		}
		r.Eval(over)
		switch res {
		case porcupine.Illegal:
			var lines []string
			for _, o := range ops {
				lines = append(lines, fmt.Sprintf("[%d,%d] write=%v %x -> %x", o.Call, o.Return, o.Input.(regOp).write, o.Input.(regOp).val, o.Output))
			}
			r.Violate("not-linearizable", cas, lines, "the %d operations on block %d of LUN %d have no order that explains what was read", len(ops), k[1], k[0])
		case porcupine.Unknown:
			r.Add("undecided_blocks", 1)
		}
	}
	// the medium agrees with what the last reads returned
	for _, rec := range recs {
		if rec.client == 99 {
			var got []byte
			if d := devs[rec.lun]; d.Path != "" {
				got = make([]byte, bs)
				f, err := os.Open(strings.TrimPrefix(d.Path, "file:"))
				if err != nil {
					r.Inconclusive("%v", err)
					return
				}
				f.ReadAt(got, rec.lba*int64(bs))
				f.Close()
			} else {
				got = ch.Peek(d.Name, rec.lba*int64(bs), bs)
			}
			if !bytes.Equal(got, rec.t.Data) {
				r.Violate("medium-differs", cas, nil, "block %d of LUN %d was read differently from what the medium holds", rec.lba, rec.lun)
			}
		}
	}
}

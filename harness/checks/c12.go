package checks

import (
	"bytes"
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"verif/ck"
	"verif/ini"
	"verif/tgt"

	"github.com/gostor/gotgt/pkg/config"
	"github.com/gostor/gotgt/pkg/scsi"
)

func init() { All["C12"] = Check{Run: c12, Level: "exploration", Min: 800} }

// lunWorld is a configuration of several targets and devices with its expected maps.
type lunWorld struct {
	sp    tgt.Spec
	maps  map[string]map[int]uint64 // target -> LUN -> device id
	devs  []Dev
	names []string

	replaced bool // a device was replaced at run time
}

func devName(id uint64) string { return fmt.Sprintf("dev%d", id) }

func newLunWorld(rng *rand.Rand) *lunWorld {
	w := &lunWorld{maps: map[string]map[int]uint64{}}
	w.sp = tgt.Spec{Port: tgt.FreePort()}
	w.sp.Config.ISCSIPortals = []config.ISCSIPortalInfo{{ID: 0, Portal: w.sp.Addr()}}
	w.sp.Config.ISCSITargets = map[string]config.ISCSITarget{}
	nd := 1 + rng.Intn(7)
	seen := map[uint64]bool{}
	for len(w.devs) < nd {
		id := uint64(rng.Intn(12))
		switch rng.Intn(5) {
		case 0:
			id = uint64(rng.Int63n(1 << 59))
		case 1:
			id = uint64(1)<<uint(rng.Intn(59)) + uint64(rng.Intn(3))
		}
		if seen[id] {
			continue
		}
		seen[id] = true
		shift := []uint{9, 9, 12}[rng.Intn(3)]
		w.devs = append(w.devs, Dev{ID: id, Name: devName(id), Size: int64(64+rng.Intn(64)) << 12, Shift: shift})
	}
	for _, d := range w.devs {
		w.sp.Config.Storages = append(w.sp.Config.Storages, d.storage())
	}
	nt := 1 + rng.Intn(3)
	for t := 0; t < nt; t++ {
		n := TN(t)
		w.names = append(w.names, n)
		w.maps[n] = map[int]uint64{}
		ct := config.ISCSITarget{TPGTs: map[string][]uint64{fmt.Sprint(1 + t): {0}}, LUNs: map[string]uint64{}}
		k := []int{0, 1, 2, 3, 5, 12, 40}[rng.Intn(7)]
		many := rng.Intn(12) == 0
		if many { // a list longer than one length byte, or segment, can tell
			k = []int{255, 256, 257, 300, 600, 1100}[rng.Intn(6)]
		}
		for ; k > 0; k-- {
			l := c12LUN(rng)
			if many && rng.Intn(20) > 0 {
				l = rng.Intn(16384)
			}
			d := w.devs[rng.Intn(nd)].ID
			w.maps[n][l] = d
			ct.LUNs[fmt.Sprint(l)] = d
		}
		w.sp.Config.ISCSITargets[n] = ct
	}
	return w
}

func c12LUN(rng *rand.Rand) int {
	switch rng.Intn(6) {
	case 0:
		return 0
	case 1:
		return []int{255, 256, 257, 511, 512, 16383, 16382, 4096, 65, 64, 63, 127, 128}[rng.Intn(13)]
	case 2:
		return rng.Intn(16384)
	}
	return rng.Intn(9)
}

func (w *lunWorld) dev(id uint64) Dev {
	for _, d := range w.devs {
		if d.ID == id {
			return d
		}
	}
	return Dev{}
}

func c12(r *ck.Run) {
	r.Rule("random configurations of 1-3 targets and 1-7 devices (ids up to 2^59) with 0-40 LUNs numbered 0-16383, one device possibly behind several LUNs and targets; REPORT LUNS against the map, block 0 of every mapped LUN against its device's stamp, INQUIRY/TEST UNIT READY/READ/WRITE at mapped, neighbouring, other targets' and malformed LUN addresses with the stores watched, identification pages compared over paths and restarts, and sequences of map changes, an occupied LUN being given another device and storages that cannot be opened among them, while a session stays open; up to 300 targets at a time, each with its own unit, some added while running, with reservations and removals at single ones; distinct by (LUN class, address form, mapped, command)")
	n := r.Q(84, 260)
	r.Each(n, 7, func(i int) { c12World(r, i) })
	r.Each(r.Q(2, 8), 2, func(i int) { c12Many(r, i) })
	c12HighIDs(r)
	r.Each(r.Q(12, 80), 6, func(i int) { c12Families(r, i) })
}

// c12Families: devices whose ids differ in one bit, or in one decimal digit, have identities of their own.
func c12Families(r *ck.Run, i int) {
	rng := r.Rng("family", i)
	cas := fmt.Sprint("family ", i)
	base := []uint64{7, 1<<60 | 12345, 999999999999, rng.Uint64() >> 4, rng.Uint64() | 1<<63, 1 << 62}[i%6]
	sp := spec1()
	t := sp.Config.ISCSITargets[TN(0)]
	seen := map[uint64]bool{}
	var list []uint64
	add := func(id uint64) {
		if !seen[id] {
			seen[id] = true
			d := Dev{ID: id, Name: devName(id), Size: 1 << 16, Shift: 9}
			sp.Config.Storages = append(sp.Config.Storages, d.storage())
			t.LUNs[fmt.Sprint(len(list))] = id
			list = append(list, id)
		}
	}
	add(base)
	for k := uint(0); k < 64; k++ {
		add(base ^ 1<<k)
	}
	for p := uint64(1); p <= 1e18; p *= 10 {
		add(base + p)
		add(base - p)
	}
	ch := start(r, cas, sp, false)
	if ch == nil {
		return
	}
	defer ch.Stop()
	s := login(r, ch, cas, ini.LoginOpts{})
	if s == nil {
		return
	}
	defer s.Close()
	ser, naa := map[string]uint64{}, map[string]uint64{}
	for l, id := range list {
		x, ok := c12Ident(r, s, ini.LUN(l), cas)
		if !ok {
			return
		}
		if o, dup := ser[x.serial]; dup {
			r.Violate("family-serial", cas, nil, "devices %d and %d have the same serial number %q", o, id, x.serial)
			return
		}
		if o, dup := naa[x.naa]; dup {
			r.Violate("family-designator", cas, nil, "devices %d and %d have the same designator %x", o, id, x.naa)
			return
		}
		ser[x.serial], naa[x.naa] = id, id
		r.Eval(fmt.Sprint("family ", i%6))
	}
}

// c12HighIDs: devices whose ids differ in the highest bits only are distinct too.
func c12HighIDs(r *ck.Run) {
	rng := r.Rng("high")
	for k := uint(56); k < 64; k++ {
		id := uint64(1 + rng.Intn(1000))
		sp := spec1(Dev{ID: id, Name: "low", Size: 1 << 18, Shift: 9})
		ch := start(r, "high", sp, false)
		if ch == nil {
			return
		}
		func() {
			defer ch.Stop()
			s := login(r, ch, "high", ini.LoginOpts{})
			if s == nil {
				return
			}
			defer s.Close()
			var v tgt.Void
			if err := ch.Call("AddStorage", Dev{ID: id | 1<<k, Name: "high", Size: 1 << 18, Shift: 9}.storage(), &v); err != nil {
				r.Violate("add-storage", "high", nil, "adding device %d failed: %v", id|1<<k, err)
				return
			}
			if err := ch.Call("AddLUN", scsi.LUNMapping{TargetName: TN(0), LUN: 1, DeviceID: id | 1<<k}, &v); err != nil {
				r.Violate("add-lun", "high", nil, "mapping device %d failed: %v", id|1<<k, err)
				return
			}
			var ids [2]ident
			for l := range ids {
				var ok bool
				if ids[l], ok = c12Ident(r, s, ini.LUN(l), "high"); !ok {
					return
				}
			}
			r.Eval(fmt.Sprint("high id ", k))
			if ids[0].serial == ids[1].serial {
				r.Violate("same-serial-high-id", "high", nil, "devices %d and %d have the same serial number %q", id, id|1<<k, ids[0].serial)
			}
			if ids[0].naa == ids[1].naa {
				r.Violate(fmt.Sprintf("same-naa-high-id-%d", k), "high", nil, "devices %d and %d have the same designator %x", id, id|1<<k, ids[0].naa)
			}
		}()
	}
}

func lclass(l int) string {
	switch {
	case l == 0:
		return "0"
	case l < 64:
		return "<64"
	case l < 256:
		return "<256"
	case l < 4096:
		return "<4096"
	}
	return "<16384"
}

// ident is what identifies a LUN.
type ident struct{ serial, naa string }

func c12World(r *ck.Run, i int) {
	rng := r.Rng("w", i)
	cas := fmt.Sprint(i)
	w := newLunWorld(rng)
	ch := start(r, cas, w.sp, false)
	if ch == nil {
		return
	}
	defer func() { ch.Stop() }()
	stamp := func(c *tgt.Child) {
		for _, d := range w.devs {
			c.Poke(d.Name, 0, stampBlock(d.Name))
		}
	}
	stamp(ch)
	if i < 4 {
		r.Sample(map[string]interface{}{"maps": w.maps, "devices": w.devs})
	}
	ids := map[uint64]ident{}
	sess := map[string]*Sess{}
	open := func() bool {
		for _, n := range w.names {
			s := login(r, ch, cas, ini.LoginOpts{Target: n, Initiator: "iqn.2020-01.verif:i" + n[len(n)-1:]})
			if s == nil {
				return false
			}
			sess[n] = s
		}
		return true
	}
	closeAll := func() {
		for _, s := range sess {
			s.Close()
		}
	}
	if !open() {
		return
	}
	defer closeAll()
	look := func(k int) bool {
		for _, n := range w.names {
			if !c12Look(r, ch, w, sess[n], n, rng, cas, ids, k) {
				return false
			}
		}
		return true
	}
	if !look(14) {
		return
	}
	// changes while the sessions stay open
	for k := 0; k < r.Q(6, 14); k++ {
		n := w.names[rng.Intn(len(w.names))]
		var what string
		if c := rng.Intn(4); c == 0 && len(w.maps[n]) > 0 { // another device for a LUN that has one
			var ls []int
			for l := range w.maps[n] {
				ls = append(ls, l)
			}
			sort.Ints(ls)
			l, d := ls[rng.Intn(len(ls))], w.devs[rng.Intn(len(w.devs))].ID
			var v tgt.Void
			what = "replace-refused"
			if err := ch.Call("AddLUN", scsi.LUNMapping{TargetName: n, LUN: uint64(l), DeviceID: d}, &v); err == nil {
				w.maps[n][l] = d
				what = "replace"
			}
		} else if c == 1 && len(w.maps[n]) <= 60 && rng.Intn(3) == 0 && len(w.maps[n]) > 0 { // none is left
			for l, d := range w.maps[n] {
				var v tgt.Void
				ch.Call("DelLUN", scsi.LUNMapping{TargetName: n, LUN: uint64(l), DeviceID: d}, &v)
			}
			w.maps[n] = map[int]uint64{}
			what = "remove-all"
		} else if c > 1 || len(w.maps[n]) == 0 {
			l := c12LUN(rng)
			if _, ok := w.maps[n][l]; ok {
				continue
			}
			d := w.devs[rng.Intn(len(w.devs))].ID
			if rng.Intn(3) == 0 { // a device added while running
				id := uint64(1000 + k)
				nd := Dev{ID: id, Name: devName(id), Size: 1 << 18, Shift: 9}
				var v tgt.Void
				if err := ch.Call("AddStorage", nd.storage(), &v); err != nil {
					r.Violate("add-storage", cas, nil, "adding a device while running failed: %v", err)
					return
				}
				w.devs = append(w.devs, nd)
				stamp(ch)
				d = id
			}
			var v tgt.Void
			if err := ch.Call("AddLUN", scsi.LUNMapping{TargetName: n, LUN: uint64(l), DeviceID: d}, &v); err != nil {
				r.Violate("add-lun", cas, nil, "mapping LUN %d of %s failed: %v", l, n, err)
				return
			}
			w.maps[n][l] = d
			what = "add"
		} else {
			var ls []int
			for l := range w.maps[n] {
				ls = append(ls, l)
			}
			sort.Ints(ls)
			l := ls[rng.Intn(len(ls))]
			devID := w.maps[n][l]
			var v tgt.Void
			ch.Call("DelLUN", scsi.LUNMapping{TargetName: n, LUN: uint64(l), DeviceID: w.maps[n][l]}, &v)
			delete(w.maps[n], l)
			what = "remove"
			// a device nobody maps any more can go, and one with its id, but another size, come
			used := false
			gone := w.dev(devID)
			for _, m := range w.maps {
				for _, d := range m {
					used = used || d == devID
				}
			}
			if !used && rng.Intn(2) == 0 {
				var v tgt.Void
				ch.Call("DelStorage", devID, &v)
				what += "-device"
				if err := ch.Call("AddLUN", scsi.LUNMapping{TargetName: n, LUN: uint64(l), DeviceID: devID}, &v); err == nil {
					r.Violate("map-removed", cas, nil, "mapping a LUN to device %d succeeded after the device was removed", devID)
					return
				}
				nd := gone
				nd.Name = fmt.Sprintf("%s-%d", gone.Name, k)
				nd.Size += 8 << 12
				if err := ch.Call("AddStorage", nd.storage(), &v); err != nil {
					r.Violate("add-storage-again", cas, nil, "device %d was removed, but another with its id cannot be added: %v", devID, err)
					return
				}
				for x := range w.devs {
					if w.devs[x].ID == devID {
						w.devs[x] = nd
					}
				}
				w.replaced = true
				if err := ch.Call("AddStorage", nd.storage(), &v); err == nil {
					r.Violate("add-storage-twice", cas, nil, "device %d was added twice", devID)
					return
				}
				stamp(ch)
				if rng.Intn(2) == 0 {
					if err := ch.Call("AddLUN", scsi.LUNMapping{TargetName: n, LUN: uint64(l), DeviceID: devID}, &v); err != nil {
						r.Violate("add-lun", cas, nil, "mapping LUN %d of %s failed: %v", l, n, err)
						return
					}
					w.maps[n][l] = devID
				}
			}
		}
		r.Add("map_changes", 1)
		r.Eval("change " + what)
		if !look(4) {
			return
		}
	}
	// a mapping to a device that does not exist, or a LUN that cannot be addressed, changes nothing
	var v tgt.Void
	if err := ch.Call("AddLUN", scsi.LUNMapping{TargetName: w.names[0], LUN: 77, DeviceID: 999999}, &v); err == nil {
		r.Violate("map-nothing", cas, nil, "mapping a LUN to a device that does not exist succeeded")
		return
	}
	// what cannot be opened is no device
	for k, p := range []string{"file:" + r.SubDir("none") + "/nothing", "RemBs:iqn.2020-01.verif:nobody", "nosuch:" + w.devs[0].Name, w.devs[0].Name, "", ":", "file:"} {
		b := config.BackendStorage{DeviceID: 880000 + uint64(k), Path: p, Online: true, BlockShift: 9, ThinProvisioning: rng.Intn(2) == 0}
		err := ch.Call("AddStorage", b, &v)
		if err == nil {
			r.Violate("add-storage-unopenable", cas, nil, "a storage %q, which cannot be opened, was added", p)
			return
		}
		if err := ch.Call("AddLUN", scsi.LUNMapping{TargetName: w.names[0], LUN: 78, DeviceID: b.DeviceID}, &v); err == nil {
			r.Violate("map-unopenable", cas, nil, "mapping a LUN to a storage %q that could not be opened succeeded", p)
			return
		}
		r.Eval("unopenable " + p[:min(len(p), 6)])
	}
	if err := ch.Call("AddLUN", scsi.LUNMapping{TargetName: w.names[0], LUN: 16384 + uint64(rng.Intn(5)), DeviceID: w.devs[0].ID}, &v); err == nil {
		r.Violate("map-unaddressable", cas, nil, "mapping a LUN above 16383 succeeded")
		return
	}
	if !look(3) {
		return
	}
	// distinct devices, distinct identities
	bySer, byNAA := map[string]uint64{}, map[string]uint64{}
	for id, x := range ids {
		if o, ok := bySer[x.serial]; ok {
			r.Violate("same-serial", cas, nil, "devices %d and %d have the same serial number %q", o, id, x.serial)
		}
		if o, ok := byNAA[x.naa]; ok {
			r.Violate("same-naa", cas, nil, "devices %d and %d have the same designator %x", o, id, x.naa)
		}
		bySer[x.serial], byNAA[x.naa] = id, id
	}
	if i%3 == 0 && !w.replaced && !dead(r, ch, cas, "LUN map") { // and the same after a restart
		closeAll()
		ch.Stop()
		w.sp.Port = tgt.FreePort()
		w.sp.Config.ISCSIPortals = []config.ISCSIPortalInfo{{ID: 0, Portal: w.sp.Addr()}}
		for j := range w.names {
			for k := range w.maps[w.names[j]] {
				delete(w.maps[w.names[j]], k)
			}
			for l, d := range w.sp.Config.ISCSITargets[w.names[j]].LUNs {
				var k int
				fmt.Sscan(l, &k)
				w.maps[w.names[j]][k] = d
			}
		}
		if ch = start(r, cas, w.sp, false); ch == nil {
			ch = &tgt.Child{}
			ch.Stopped.Store(true)
			return
		}
		stamp(ch)
		if open() {
			look(2)
			r.Add("restarts", 1)
		}
	}
	dead(r, ch, cas, "LUN map")
}

// c12Look compares everything a session sees with the map.
func c12Look(r *ck.Run, ch *tgt.Child, w *lunWorld, s *Sess, name string, rng *rand.Rand, cas string, ids map[uint64]ident, foreign int) bool {
	m := w.maps[name]
	t, ok := s.cmd(ini.InCmd(ini.LUN(0), []byte{ini.RPTLUNS, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0}, 65536), "REPORT LUNS")
	if !ok {
		return false
	}
	var want, got []string
	_, zero := m[0]
	for l := range m {
		want = append(want, fmt.Sprintf("%x", ini.LUN(l)))
	}
	if t.Status != 0 || len(t.Data) < 8 || int(be32(t.Data))+8 != len(t.Data) || be32(t.Data)%8 != 0 {
		r.Violate("report-luns-form", cas, nil, "REPORT LUNS ended with %s and %d bytes (list length %x)", t.Outcome(), len(t.Data), t.Data[:min64(int64(len(t.Data)), 8)])
		return false
	}
	for o := 8; o+8 <= len(t.Data); o += 8 {
		e := fmt.Sprintf("%x", t.Data[o:o+8])
		if e == "0000000000000000" && !zero {
			continue // the well-known place to ask, without a device
		}
		got = append(got, e)
	}
	sort.Strings(want)
	sort.Strings(got)
	r.Eval(fmt.Sprint("report ", len(want), zero))
	if strings.Join(want, " ") != strings.Join(got, " ") {
		r.Violate("report-luns", cas, map[string]interface{}{"target": name, "want": want, "got": got}, "REPORT LUNS of %s: map has %v, reported %v", name, tail(want, 6), tail(got, 6))
		return false
	}
	var ls []int
	for l := range m {
		ls = append(ls, l)
	}
	sort.Ints(ls)
	if len(ls) > 16 {
		rng.Shuffle(len(ls), func(a, b int) { ls[a], ls[b] = ls[b], ls[a] })
		ls = ls[:16]
	}
	for _, l := range ls {
		if !c12Mapped(r, ch, w.dev(m[l]), s, l, rng, cas, ids) {
			return false
		}
	}
	for k := 0; k < foreign; k++ {
		var lun [8]byte
		form := "number"
		switch rng.Intn(6) {
		case 0, 1:
			lun = ini.LUN(c12LUN(rng))
		case 2: // a LUN of another target or next to a mapped one
			o := w.maps[w.names[rng.Intn(len(w.names))]]
			l := -1
			for x := range o {
				l = x
				break
			}
			if l < 0 || rng.Intn(2) == 0 && len(ls) > 0 {
				l = c12LUN(rng)
				if len(ls) > 0 {
					l = ls[rng.Intn(len(ls))] + 1 - 2*rng.Intn(2)
				}
			}
			if l < 0 || l > 16383 {
				l = 1
			}
			lun = ini.LUN(l)
			form = "near"
		case 3: // more levels, or rubbish below a mapped number
			l := 0
			if len(ls) > 0 {
				l = ls[rng.Intn(len(ls))]
			}
			lun = ini.LUN(l)
			lun[2+rng.Intn(6)] = byte(1 + rng.Intn(255))
			form = "levels"
		case 4: // other addressing methods and buses
			l := 0
			if len(ls) > 0 {
				l = ls[rng.Intn(len(ls))]
			}
			lun = ini.LUN(l & 255)
			lun[0] = []byte{1, 0x3f, 0x80, 0xc0, 0xc1, 0xff, byte(1 + rng.Intn(63))}[rng.Intn(7)]
			form = "method"
		case 5:
			rng.Read(lun[:])
			form = "random"
		}
		// is it mapped after all?
		num := -1
		if lun[2] == 0 && bytes.Equal(lun[2:], make([]byte, 6)) {
			switch lun[0] >> 6 {
			case 0:
				if lun[0] == 0 {
					num = int(lun[1])
				}
			case 1:
				num = int(lun[0]&0x3f)<<8 | int(lun[1])
			}
		}
		if _, ok := m[num]; ok && num >= 0 {
			continue
		}
		if !c12Foreign(r, ch, s, lun, num, form, rng, cas) {
			return false
		}
	}
	return true
}

func c12Mapped(r *ck.Run, ch *tgt.Child, d Dev, s *Sess, l int, rng *rand.Rand, cas string, ids map[uint64]ident) bool {
	addr := ini.LUN(l)
	form := "usual"
	if l < 256 && rng.Intn(4) == 0 {
		addr, form = ini.LUNFlat(l), "flat"
	}
	bs := 1 << d.Shift
	t, ok := s.cmd(ini.ReadCmd(addr, ini.READ10, 0, 1, bs, 0), "READ(10) of a mapped LUN")
	if !ok {
		return false
	}
	r.Eval(fmt.Sprint("mapped ", lclass(l), form))
	if t.Status != 0 || !bytes.Equal(t.Data[:min64(512, int64(len(t.Data)))], stampBlock(d.Name)) {
		what := strings.TrimRight(string(t.Data[:min64(40, int64(len(t.Data)))]), "\x00")
		r.Violate("wrong-device:"+form, cas, tail(s.Trace(), 6), "LUN %d (%x) is mapped to %s, reading it gave %s %q", l, addr, d.Name, t.Outcome(), what)
		return false
	}
	// a write lands there and nowhere else
	seq := ch.Seq()
	wl := uint64(1 + rng.Intn(4))
	t, ok = s.cmd(ini.WriteCmd(addr, ini.WRITE10, wl, 1, fill(rng, bs), 0), "WRITE(10) of a mapped LUN")
	if !ok {
		return false
	}
	n := 0
	for _, e := range ch.Events(seq, false) {
		if e.Kind == "write" {
			n++
			if e.Dev != d.Name {
				r.Violate("write-elsewhere", cas, nil, "a write to LUN %d, mapped to %s, reached %s", l, d.Name, e.Dev)
				return false
			}
		}
	}
	if n == 0 || t.Status != 0 {
		r.Violate("write-lost", cas, nil, "a write to LUN %d ended with %s and reached no store", l, t.Outcome())
		return false
	}
	t, ok = s.cmd(ini.InCmd(addr, []byte{ini.INQUIRY, 0, 0, 0, 255, 0}, 255), "INQUIRY")
	if !ok {
		return false
	}
	if t.Status != 0 || len(t.Data) < 36 || t.Data[0] != 0 {
		r.Violate("inquiry-mapped", cas, nil, "INQUIRY of mapped LUN %d ended with %s, first byte %x", l, t.Outcome(), t.Data[:min64(1, int64(len(t.Data)))])
		return false
	}
	id, ok := c12Ident(r, s, addr, cas)
	if !ok {
		return false
	}
	if o, ok := ids[d.ID]; ok && o != id {
		r.Violate("identity-changed", cas, nil, "device %d is identified by %q/%x here and by %q/%x on another path or before", d.ID, id.serial, id.naa, o.serial, o.naa)
		return false
	}
	ids[d.ID] = id
	return true
}

func c12Ident(r *ck.Run, s *Sess, addr [8]byte, cas string) (id ident, good bool) {
	t, ok := s.cmd(ini.InCmd(addr, []byte{ini.INQUIRY, 1, 0x80, 0, 255, 0}, 255), "INQUIRY page 80")
	if !ok {
		return id, false
	}
	if t.Status != 0 || len(t.Data) < 5 || t.Data[1] != 0x80 || int(be16(t.Data[2:]))+4 != len(t.Data) {
		r.Violate("serial-page", cas, nil, "page 80h: %s, %x", t.Outcome(), t.Data)
		return id, false
	}
	id.serial = string(t.Data[4:])
	if strings.Trim(id.serial, " \x00") == "" {
		r.Violate("serial-empty", cas, nil, "the serial number is empty")
	}
	t, ok = s.cmd(ini.InCmd(addr, []byte{ini.INQUIRY, 1, 0x83, 2, 0, 0}, 512), "INQUIRY page 83")
	if !ok {
		return id, false
	}
	if t.Status != 0 || len(t.Data) < 8 || t.Data[1] != 0x83 || int(be16(t.Data[2:]))+4 != len(t.Data) {
		r.Violate("identification-page", cas, nil, "page 83h: %s, %x", t.Outcome(), t.Data)
		return id, false
	}
	for o := 4; o < len(t.Data); {
		if o+4 > len(t.Data) || o+4+int(t.Data[o+3]) > len(t.Data) {
			r.Violate("designators", cas, nil, "page 83h: the designator at %d runs beyond the page: %x", o, t.Data)
			return id, false
		}
		d := t.Data[o : o+4+int(t.Data[o+3])]
		if d[1]>>4&3 == 0 && d[1]&0xf == 3 {
			nl := map[byte]int{2: 8, 3: 8, 5: 8, 6: 16}[d[4]>>4]
			if nl != len(d)-4 {
				r.Violate("naa-length", cas, nil, "an NAA designator of type %x has %d bytes", d[4]>>4, len(d)-4)
			}
			id.naa += string(d[4:])
		}
		if d[1]>>4&3 == 0 && (d[1]&0xf == 1 || d[1]&0xf == 2 || d[1]&0xf == 8) {
			if k := d[1] & 0xf; k == 1 && len(d)-4 < 9 || k == 2 && len(d)-4 != 8 && len(d)-4 != 12 && len(d)-4 != 16 {
				r.Violate("designator-length", cas, nil, "a designator of type %d has %d bytes", k, len(d)-4)
			}
			id.naa += string(d[4:])
		}
		o += len(d)
	}
	if id.naa == "" {
		r.Violate("no-lu-designator", cas, nil, "page 83h holds no designator of the logical unit: %x", t.Data)
		return id, false
	}
	return id, true
}

// c12Foreign: an address without a device is refused and reaches no store.
func c12Foreign(r *ck.Run, ch *tgt.Child, s *Sess, lun [8]byte, num int, form string, rng *rand.Rand, cas string) bool {
	cmds := []struct {
		n string
		c ini.Cmd
	}{
		{"TEST UNIT READY", ini.NoData(lun, make([]byte, 6))},
		{"READ(10)", ini.ReadCmd(lun, ini.READ10, 0, 1, 512, 0)},
		{"WRITE(10)", ini.WriteCmd(lun, ini.WRITE10, 0, 1, filled(0x55, 512), 0)},
		{"READ CAPACITY(10)", ini.InCmd(lun, []byte{ini.READCAP10, 0, 0, 0, 0, 0, 0, 0, 0, 0}, 8)},
		{"RESERVE(6)", ini.NoData(lun, []byte{ini.RESERVE6, 0, 0, 0, 0, 0})},
		{"SYNCHRONIZE CACHE(10)", ini.NoData(lun, ini.RW(ini.SYNC10, 0, 0, 0))},
		{"MODE SENSE(6)", ini.InCmd(lun, []byte{ini.MODESNS6, 0, 0x3f, 0, 255, 0}, 255)},
		{"INQUIRY", ini.InCmd(lun, []byte{ini.INQUIRY, 0, 0, 0, 96, 0}, 96)},
	}
	c := cmds[rng.Intn(len(cmds))]
	c.c.Xfer = -1
	seq := ch.Seq()
	t, ok := s.cmd(c.c, c.n+" of a LUN that is not mapped")
	if !ok {
		return false
	}
	r.Eval(fmt.Sprint("unmapped ", form, num < 0, lclass(num), c.n))
	r.Add("unmapped", 1)
	if c.n == "INQUIRY" {
		if t.Status == 0 && (len(t.Data) == 0 || t.Data[0]>>5 == 0) {
			r.Violate("inquiry-unmapped", cas, tail(s.Trace(), 4), "INQUIRY of %x, which is not mapped, says a device is there (%x)", lun, t.Data[:min64(1, int64(len(t.Data)))])
			return false
		}
	} else if t.Status != 2 {
		r.Violate("unmapped-served:"+c.n, cas, tail(s.Trace(), 4), "%s of %x, which is not mapped, ended with %s", c.n, lun, t.Outcome())
		return false
	} else if si := t.SenseInfo(); si.Key != 5 || si.ASC != 0x2500 {
		r.Violate("unmapped-sense:"+c.n, cas, tail(s.Trace(), 4), "%s of %x, which is not mapped, ended with %s, not LOGICAL UNIT NOT SUPPORTED", c.n, lun, t.Outcome())
		return false
	}
	for _, e := range ch.Events(seq, false) {
		r.Violate("unmapped-store:"+c.n, cas, tail(s.Trace(), 4), "%s of %x, which is not mapped, reached store %s: %s", c.n, lun, e.Dev, e.Kind)
		return false
	}
	return true
}

// c12Many: of many targets, each has its own unit, and what is done to one of them happens to that one.
func c12Many(r *ck.Run, i int) {
	rng := r.Rng("many", i)
	cas := fmt.Sprint("many-", i)
	n := []int{40, 300, 12, 70}[i%4]
	sp := spec1()
	sp.Config.ISCSITargets = map[string]config.ISCSITarget{}
	name := func(k int) string { return fmt.Sprintf("iqn.2020-01.verif:many%d", k) }
	base := uint64(1 + rng.Intn(1<<20))
	for k := 0; k < n; k++ {
		sp.Config.Storages = append(sp.Config.Storages, Dev{ID: base + uint64(k), Name: fmt.Sprint("m", k), Size: 1 << 18, Shift: 9}.storage())
		sp.Config.ISCSITargets[name(k)] = config.ISCSITarget{TPGTs: map[string][]uint64{"1": {0}}, LUNs: map[string]uint64{"0": base + uint64(k)}}
	}
	for k := n - 1; k > 0 && len(sp.LateTgts) < n/4; k -= 2 { // some come later
		sp.LateTgts = append(sp.LateTgts, name(k))
	}
	ch := start(r, cas, sp, false)
	if ch == nil {
		return
	}
	defer ch.Stop()
	for _, t := range sp.LateTgts {
		if err := ch.NewTarget(t); err != nil {
			r.Violate("new-target", cas, nil, "adding target %s while running failed: %v", t, err)
			return
		}
	}
	stamp := make([][]byte, n)
	for k := range stamp {
		stamp[k] = stampBlock(fmt.Sprint("m", k))
		ch.Poke(fmt.Sprint("m", k), 0, stamp[k])
	}
	sess := make([]*Sess, n)
	L := ini.LUN(0)
	for k := range sess {
		o := ini.LoginOpts{Target: name(k), Initiator: "iqn.2020-01.verif:all"}
		if sess[k] = login(r, ch, cas, o); sess[k] == nil {
			return
		}
		defer sess[k].Close()
	}
	all := func(what string, gone map[int]bool) bool {
		for k, s := range sess {
			t, ok := s.cmd(ini.ReadCmd(L, ini.READ10, 0, uint32(len(stamp[k])/512), 512, 0), "READ(10)")
			if !ok {
				return false
			}
			r.Eval(fmt.Sprint("many ", what, k))
			if gone[k] {
				if t.Status == 0 {
					r.Violate("many-gone", cas, nil, "%s: target %d of %d still has its unit, which was removed", what, k, n)
					return false
				}
				continue
			}
			if t.Status != 0 || !bytes.Equal(t.Data, stamp[k]) {
				r.Violate("many-unit", cas, tail(s.Trace(), 6), "%s: the unit of target %d of %d is not the one configured: %s", what, k, n, t.Outcome())
				return false
			}
		}
		return true
	}
	if !all("many targets", nil) {
		return
	}
	// a reservation at one of them shuts nobody else out, a key registered there is seen there only
	for _, k := range rng.Perm(n)[:6] {
		s := sess[k]
		if t, ok := s.cmd(ini.NoData(L, []byte{ini.RESERVE6, 0, 0, 0, 0, 0}), "RESERVE(6)"); !ok || t.Status != 0 {
			if ok {
				r.Violate("many-reserve", cas, nil, "RESERVE(6) at target %d ended with %s", k, t.Outcome())
			}
			return
		}
		if !all("a unit reserved", nil) {
			return
		}
		o := login(r, ch, cas, ini.LoginOpts{Target: name(k), Initiator: "iqn.2020-01.verif:other"})
		if o == nil {
			return
		}
		t, ok := o.cmd(ini.ReadCmd(L, ini.READ10, 0, 1, 512, 0), "READ(10)")
		o.Close()
		if !ok {
			return
		}
		if t.Status != 0x18 {
			r.Violate("many-reserve", cas, nil, "a read at target %d, reserved by another, ended with %s", k, t.Outcome())
			return
		}
		if t, ok := s.cmd(ini.NoData(L, []byte{ini.RELEASE6, 0, 0, 0, 0, 0}), "RELEASE(6)"); !ok || t.Status != 0 {
			return
		}
	}
	gone := map[int]bool{}
	for _, k := range rng.Perm(n)[:4] {
		var v tgt.Void
		if err := ch.Call("DelLUN", scsi.LUNMapping{TargetName: name(k), LUN: 0, DeviceID: base + uint64(k)}, &v); err != nil {
			r.Violate("del-lun", cas, nil, "removing LUN 0 of %s failed: %v", name(k), err)
			return
		}
		gone[k] = true
		if !all("units removed", gone) {
			return
		}
	}
	m, why := nexuses(ch)
	if why == "" {
		for k := range sess {
			if m[name(k)] != 1 && m[name(k)] != 2 {
				r.Violate("many-nexus", cas, nil, "one session is open to each of %d targets, %s lists %d nexuses", n, name(k), m[name(k)])
				return
			}
		}
	}
	r.Max("targets_at_once", int64(n))
	dead(r, ch, cas, "many targets")
}

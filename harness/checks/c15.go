package checks

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"strconv"
	"strings"

	"verif/ck"
	"verif/ini"
	"verif/tgt"

	"github.com/gostor/gotgt/pkg/config"
)

func init() { All["C15"] = Check{Run: c15, Level: "exploration", Min: 2500} }

func c15(r *ck.Run) {
	r.Rule("targets of every name length class (11..223 bytes), devices of random id, size, block size and thinness, 1..240 LUNs, multipath/ORWRITE/PR support on and off; several portal groups, two registrants and a reservation; every descriptive command is read in full and parsed (every length field against the data, portal group and port against the session's), then with each allocation length 0..full+20 and some large ones, with expected lengths equal, larger and smaller, from two sessions and between other commands; all 256 vital product pages and 64x256 mode pages x 4 page controls; every operation code reported as supported is sent. Distinct by (command, allocation length class, expected length relation, outcome) and by content shape")
	r.Assume("REPORT LUNS with an allocation length below 16 may be refused, PERSISTENT RESERVE IN below 8 too (SPC-3 allows the first, the second is not in the statement)")
	r.Each(r.Q(35, 350), 7, func(i int) { c15Episode(r, i) })
}

func c15Episode(r *ck.Run, i int) {
	rng := r.Rng("ep", i)
	cas := fmt.Sprint(i)
	// target name
	base := "iqn.2020-01.verif:"
	nl := []int{0, 1, 2, 3, 4, 11, 33, 97, 223 - len(base), 222 - len(base), 221 - len(base), 220 - len(base), 64, 65}[i%14]
	name := base + strings.Repeat("n", nl)
	if nl == 0 {
		name = "iqn.2020-01.v:x"
	}
	nd := []int{1, 2, 3, 8, 31, 32, 33, 63, 100, 240}[i%10]
	var devs []Dev
	for k := 0; k < nd; k++ {
		d := Dev{ID: uint64(rng.Int63n(1<<31) + 1), Name: fmt.Sprintf("d%d", k), Shift: uint(9 + rng.Intn(4)), Thin: rng.Intn(2) == 0}
		if k == 0 {
			d.ID = []uint64{1, 999, 1000, 1<<32 - 1, 1 << 40, 42, 7}[i%7]
		}
		d.Size = (1 + rng.Int63n(1<<uint(4+rng.Intn(36)))) << d.Shift
		devs = append(devs, d)
	}
	sp := spec1(devs...)
	sp.NoMultip, sp.NoORWrite, sp.NoPR = i%4 == 1, i%5 == 2, i%5 == 3
	t := sp.Config.ISCSITargets[TN(0)]
	if i%3 == 1 { // LUN numbers anywhere, no LUN 0
		t.LUNs = map[string]uint64{}
		for k, d := range devs {
			t.LUNs[fmt.Sprint(1+k*67)] = d.ID
		}
	}
	// one, or several portal groups
	groups := []c15Group{{127<<24 | 1, 1}}
	if i%3 != 1 {
		groups = nil
		t.TPGTs = map[string][]uint64{}
		sp.Config.ISCSIPortals = nil
		tags := rng.Perm(0x300)[:3]
		for k, tag := range tags {
			if k == 2 {
				tag = []int{0xffff, 0x8000, 0x1234, 0x7fff}[rng.Intn(4)]
			}
			g := c15Group{127<<24 | uint32(k+1), tag + 1 - b2i(k == 2)}
			groups = append(groups, g)
			sp.Config.ISCSIPortals = append(sp.Config.ISCSIPortals, config.ISCSIPortalInfo{ID: uint16(7 * k), Portal: g.addr(sp.Port)})
			t.TPGTs[fmt.Sprint(g.tag)] = []uint64{uint64(7 * k)}
		}
	}
	g := groups[rng.Intn(len(groups))]
	sp.Config.ISCSITargets = map[string]config.ISCSITarget{name: t}
	ch := start(r, cas, sp, false)
	if ch == nil {
		return
	}
	defer ch.Stop()
	s := login(r, ch, cas, ini.LoginOpts{Addr: g.addr(ch.Spec.Port), Target: name, ISID: [6]byte{0x80, 1, 5, 0, byte(i), 1}})
	if s == nil {
		return
	}
	defer s.Close()
	s2 := login(r, ch, cas, ini.LoginOpts{Addr: g.addr(ch.Spec.Port), Target: name, Initiator: "iqn.2020-01.verif:other", ISID: [6]byte{0x80, 1, 5, 0, byte(i), 2}})
	if s2 == nil {
		return
	}
	defer s2.Close()
	k := rng.Intn(nd)
	if i%2 == 0 {
		k = 0
	}
	d, lun := devs[k], ini.LUN(k)
	if i%3 == 1 {
		lun = ini.LUN(1 + k*67)
	}
	if len(groups) > 1 && !c15Ports(r, ch, cas, name, lun, groups) {
		return
	}
	// both sessions register, the first reserves for registrants
	pr := uint64(0)
	if !sp.NoPR {
		pr = rng.Uint64() | 1
		for k, x := range []*Sess{s, s2, s} {
			p := make([]byte, 24)
			cdb := []byte{ini.PROUT, 0, 0, 0, 0, 0, 0, 0, 24, 0}
			if k < 2 {
				copy(p[8:], binary.BigEndian.AppendUint64(nil, pr+uint64(k)))
			} else {
				copy(p, binary.BigEndian.AppendUint64(nil, pr))
				cdb[1], cdb[2] = 1, 6
			}
			t, ok := x.cmd(ini.OutCmd(lun, cdb, p), "PERSISTENT RESERVE OUT")
			if !ok {
				return
			}
			if t.Status != 0 {
				r.Violate("pr-out", cas, tail(x.Trace(), 4), "PERSISTENT RESERVE OUT %x ended with %s", cdb, t.Outcome())
				return
			}
		}
	}
	if c15Dev(r, s, s2, cas, name, g.tag, pr, d, lun, nd, i%3 == 1, i) && i%3 == 1 {
		// the placeholder at LUN 0 tells that no device is connected there, in the same form
		t, ok := s.cmd(ini.InCmd(ini.LUN(0), []byte{ini.INQUIRY, 0, 0, 0, 255, 0}, 255), "INQUIRY of unconfigured LUN 0")
		if !ok {
			return
		}
		r.Eval("placeholder")
		if t.Status != 0 || len(t.Data) < 36 || int(t.Data[4])+5 != len(t.Data) || t.Data[0]>>5 == 0 {
			r.Violate("placeholder", cas, hex.EncodeToString(t.Data), "INQUIRY of LUN 0, which has no device, ended with %s and %d bytes, first byte %02x", t.Outcome(), len(t.Data), append(t.Data, 0)[0])
		}
	}
	if s2.usable("second session") {
		s.usable("first session")
	}
	dead(r, ch, cas, "descriptive commands")
}

// c15Group is a portal group and the address of its portal.
type c15Group struct {
	ip  uint32
	tag int
}

func (g c15Group) addr(port int) string {
	return fmt.Sprintf("%d.%d.%d.%d:%d", g.ip>>24, g.ip>>16&255, g.ip>>8&255, g.ip&255, port)
}

// c15Ports compares what the portal groups tell of one logical unit: the same
// device on ports that can be told apart.
func c15Ports(r *ck.Run, ch *tgt.Child, cas, name string, lun [8]byte, groups []c15Group) bool {
	lus, names, rels := map[string]bool{}, map[string]bool{}, map[string]bool{}
	var seen []string
	for k, g := range groups {
		s := login(r, ch, cas, ini.LoginOpts{Addr: g.addr(ch.Spec.Port), Target: name, Initiator: "iqn.2020-01.verif:ports", ISID: [6]byte{0x80, 1, 5, 9, 0, byte(k)}})
		if s == nil {
			return false
		}
		t, ok := s.cmd(ini.InCmd(lun, []byte{ini.INQUIRY, 1, 0x83, 4, 0, 0}, 1024), "INQUIRY page 83 through each portal group")
		if !ok {
			return false
		}
		s.Close()
		r.Eval(fmt.Sprintf("port group %d", len(groups)))
		seen = append(seen, fmt.Sprintf("group %d: %x", g.tag, t.Data))
		lu := ""
		for p := t.Data[min(4, len(t.Data)):]; len(p) >= 4 && len(p) >= 4+int(p[3]); p = p[4+int(p[3]):] {
			v := string(p[4 : 4+int(p[3])])
			switch p[1] & 0x3f {
			case 3: // of the logical unit
				lu += v + ";"
			case 0x14:
				rels[v] = true
			case 0x18:
				names[v] = true
			}
		}
		lus[lu] = true
	}
	if len(lus) != 1 || len(rels) != len(groups) || len(names) != len(groups) {
		r.Violate("ports", cas, seen, "through %d portal groups one logical unit shows %d identities, %d relative port identifiers and %d port names", len(groups), len(lus), len(rels), len(names))
		return false
	}
	return true
}

type c15Cmd struct {
	inCmd
	min   int // below this allocation length it may be refused
	parse func(b []byte) string
}

func c15Dev(r *ck.Run, s, s2 *Sess, cas, name string, tag int, prkey uint64, d Dev, lun [8]byte, nluns int, no0 bool, seed int) bool {
	rng := r.Rng("dev", seed)
	vpdHead := func(page byte, b []byte) string {
		switch {
		case len(b) < 4:
			return fmt.Sprintf("%d bytes", len(b))
		case b[0] != 0:
			return fmt.Sprintf("qualifier and type %02x", b[0])
		case b[1] != page:
			return fmt.Sprintf("page code %02x", b[1])
		case int(be16(b[2:]))+4 != len(b):
			return fmt.Sprintf("page length %d but %d bytes", be16(b[2:]), len(b)-4)
		}
		return ""
	}
	pages := map[byte]bool{}
	modeWalk := func(b []byte) (map[int][]byte, string) {
		m := map[int][]byte{}
		for len(b) > 0 {
			k, hl, n := int(b[0]&0x3f)<<8, 2, 0
			if b[0]&0x40 != 0 {
				if len(b) < 4 {
					return nil, "a subpage header is cut off"
				}
				k, hl, n = k|int(b[1]), 4, int(be16(b[2:]))
			} else {
				if len(b) < 2 {
					return nil, "a page header is cut off"
				}
				n = int(b[1])
			}
			if len(b) < hl+n {
				return nil, fmt.Sprintf("page %04x has length %d but %d bytes are left", k, n, len(b)-hl)
			}
			if _, dup := m[k]; dup {
				return nil, fmt.Sprintf("page %04x occurs twice", k)
			}
			m[k] = b[:hl+n]
			b = b[hl+n:]
		}
		return m, ""
	}
	mode := func(ten, dbd bool) func(b []byte) string {
		return func(b []byte) string {
			h := 4
			if ten {
				h = 8
			}
			if len(b) < h {
				return fmt.Sprintf("%d bytes", len(b))
			}
			ml, dl := int(b[0])+1, int(b[3])
			if ten {
				ml, dl = int(be16(b))+2, int(be16(b[6:]))
			}
			if ml != len(b) {
				return fmt.Sprintf("mode data length says %d bytes, there are %d", ml, len(b))
			}
			if dbd && dl != 0 {
				return "a block descriptor although DBD is set"
			}
			if dl%8 != 0 || h+dl > len(b) {
				return fmt.Sprintf("block descriptor length %d", dl)
			}
			if b[2+b2i(ten)]&0x80 != 0 {
				return "it says the medium is write-protected"
			}
			if dl >= 8 && be32(b[h+4:])&0xffffff != 1<<d.Shift {
				return fmt.Sprintf("block length %d", be32(b[h+4:]))
			}
			_, e := modeWalk(b[h+dl:])
			return e
		}
	}
	ascii := func(b []byte) bool {
		for _, c := range b {
			if c < 0x20 || c > 0x7e {
				return false
			}
		}
		return true
	}
	cmds := []c15Cmd{
		{inCmd{"INQUIRY", []byte{ini.INQUIRY, 0, 0, 0, 0, 0}, 3, 2}, 0, func(b []byte) string {
			switch {
			case len(b) < 36:
				return fmt.Sprintf("%d bytes", len(b))
			case int(b[4])+5 != len(b):
				return fmt.Sprintf("additional length %d but %d bytes", b[4], len(b)-5)
			case b[0] != 0:
				return fmt.Sprintf("qualifier and type %02x", b[0])
			case b[3]&0xf != 2:
				return fmt.Sprintf("response data format %d", b[3]&0xf)
			case !ascii(b[8:36]):
				return "vendor, product or revision is not ASCII"
			case b[7]&2 == 0:
				return "command queueing is not announced"
			}
			return ""
		}},
		{inCmd{"INQUIRY-00", []byte{ini.INQUIRY, 1, 0, 0, 0, 0}, 3, 2}, 0, func(b []byte) string {
			if e := vpdHead(0, b); e != "" {
				return e
			}
			last := -1
			for _, p := range b[4:] {
				if int(p) <= last {
					return "pages are not listed in ascending order"
				}
				last = int(p)
				pages[p] = true
			}
			if !pages[0] {
				return "page 00 does not list itself"
			}
			return ""
		}},
		{inCmd{"INQUIRY-80", []byte{ini.INQUIRY, 1, 0x80, 0, 0, 0}, 3, 2}, 0, func(b []byte) string {
			if e := vpdHead(0x80, b); e != "" {
				return e
			}
			if !ascii(b[4:]) {
				return "the serial number is not ASCII"
			}
			return ""
		}},
		{inCmd{"INQUIRY-83", []byte{ini.INQUIRY, 1, 0x83, 0, 0, 0}, 3, 2}, 0, func(b []byte) string {
			if e := vpdHead(0x83, b); e != "" {
				return e
			}
			p := b[4:]
			lu, port, rel := false, false, false
			for len(p) > 0 {
				if len(p) < 4 {
					return "an identification descriptor is cut off"
				}
				n := int(p[3])
				if len(p) < 4+n {
					return fmt.Sprintf("a descriptor of length %d with %d bytes left", n, len(p)-4)
				}
				v := p[4 : 4+n]
				assoc, typ := p[1]>>4&3, p[1]&0xf
				switch typ {
				case 3:
					if n != 8 && n != 16 {
						return fmt.Sprintf("an NAA identifier of %d bytes", n)
					}
					if assoc == 0 {
						lu = true
						if v[0]>>4 == 0 {
							return "an NAA identifier without a format"
						}
					}
				case 4:
					if n != 4 {
						return fmt.Sprintf("a relative port identifier of %d bytes", n)
					}
					if be32(v) == 0 || be32(v) > 0xffff {
						return fmt.Sprintf("relative port identifier %x", be32(v))
					}
					rel = true
				case 5:
					if n != 4 {
						return fmt.Sprintf("a port group identifier of %d bytes", n)
					}
				case 8:
					z := bytes.IndexByte(v, 0)
					if n == 0 || n%4 != 0 || z < 0 || len(bytes.Trim(v[z:], "\x00")) != 0 || len(v)-z > 4 {
						return fmt.Sprintf("a SCSI name string %q of %d bytes that is not null-terminated and padded to a multiple of four", v, n)
					}
					if n, err := strconv.ParseUint(strings.TrimPrefix(string(v[:z]), name+",t,0x"), 16, 16); err != nil || int(n) != tag {
						return fmt.Sprintf("the port name is %q, the session's portal group is %d", v[:z], tag)
					}
					port = true
				case 0:
					if !bytes.Equal(v, []byte(name)) {
						return fmt.Sprintf("the target name is %q", v)
					}
				}
				p = p[4+n:]
			}
			if !lu || !port || !rel {
				return fmt.Sprintf("designators missing: logical unit %v, port name %v, relative port %v", lu, port, rel)
			}
			return ""
		}},
		{inCmd{"INQUIRY-B0", []byte{ini.INQUIRY, 1, 0xb0, 0, 0, 0}, 3, 2}, 0, func(b []byte) string {
			if e := vpdHead(0xb0, b); e != "" {
				return e
			}
			if len(b) != 64 && len(b) != 16 {
				return fmt.Sprintf("%d bytes", len(b))
			}
			if len(b) == 64 && ((be32(b[20:]) != 0) != d.Thin || (be32(b[24:]) != 0) != d.Thin) {
				return fmt.Sprintf("maximum unmap count %d, descriptors %d with thin provisioning %v", be32(b[20:]), be32(b[24:]), d.Thin)
			}
			return ""
		}},
		{inCmd{"INQUIRY-B2", []byte{ini.INQUIRY, 1, 0xb2, 0, 0, 0}, 3, 2}, 0, func(b []byte) string {
			if e := vpdHead(0xb2, b); e != "" {
				return e
			}
			if len(b) < 8 || (b[5]&0x80 != 0) != d.Thin {
				return fmt.Sprintf("%x with thin provisioning %v", b, d.Thin)
			}
			return ""
		}},
		{inCmd{"MODE_SENSE(6)", []byte{ini.MODESNS6, 0, 0x3f, 0, 0, 0}, 4, 1}, 0, mode(false, false)},
		{inCmd{"MODE_SENSE(6)-dbd", []byte{ini.MODESNS6, 8, 0x3f, 0xff, 0, 0}, 4, 1}, 0, mode(false, true)},
		{inCmd{"MODE_SENSE(6)-caching", []byte{ini.MODESNS6, 0, 0x08, 0, 0, 0}, 4, 1}, 0, mode(false, false)},
		{inCmd{"MODE_SENSE(6)-changeable", []byte{ini.MODESNS6, 0, 0x7f, 0, 0, 0}, 4, 1}, 0, mode(false, false)},
		{inCmd{"MODE_SENSE(10)", []byte{ini.MODESNS10, 0, 0x3f, 0, 0, 0, 0, 0, 0, 0}, 7, 2}, 0, mode(true, false)},
		{inCmd{"MODE_SENSE(10)-all", []byte{ini.MODESNS10, 8, 0x3f, 0xff, 0, 0, 0, 0, 0, 0}, 7, 2}, 0, mode(true, true)},
		{inCmd{"MODE_SENSE(10)-default", []byte{ini.MODESNS10, 0, 0xbf, 0xff, 0, 0, 0, 0, 0, 0}, 7, 2}, 0, mode(true, false)},
		{inCmd{"MODE_SENSE(10)-changeable", []byte{ini.MODESNS10, 0, 0x7f, 0xff, 0, 0, 0, 0, 0, 0}, 7, 2}, 0, mode(true, false)},
		{inCmd{"REPORT_LUNS", []byte{ini.RPTLUNS, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, 6, 4}, 16, func(b []byte) string {
			if len(b) < 8 || int(be32(b))+8 != len(b) || be32(b)%8 != 0 {
				return fmt.Sprintf("%d bytes, length field %x", len(b), b[:min(4, len(b))])
			}
			want := nluns
			if no0 {
				want++
			}
			if len(b)/8-1 != want {
				return fmt.Sprintf("%d LUNs, expected %d", len(b)/8-1, want)
			}
			return ""
		}},
		{inCmd{"READ_CAPACITY(16)", append([]byte{ini.SAI16, 0x10}, make([]byte, 14)...), 10, 4}, 0, func(b []byte) string {
			if len(b) != 32 || be64(b) != uint64(d.Size>>d.Shift)-1 || be32(b[8:]) != 1<<d.Shift {
				return fmt.Sprintf("%x", b)
			}
			return ""
		}},
		{inCmd{"GET_LBA_STATUS", append([]byte{ini.SAI16, 0x12}, make([]byte, 14)...), 10, 4}, 0, func(b []byte) string {
			if len(b) < 24 || int(be32(b))+4 != len(b) || (len(b)-8)%16 != 0 {
				return fmt.Sprintf("%d bytes, length field %x", len(b), b[:min(4, len(b))])
			}
			return ""
		}},
		{inCmd{"REQUEST_SENSE", []byte{ini.REQSENSE, 0, 0, 0, 0, 0}, 4, 1}, 0, func(b []byte) string {
			si := ini.Sense(b)
			if si.Bad != "" {
				return si.Bad
			}
			if si.Key != 0 {
				return fmt.Sprintf("sense key %x", si.Key)
			}
			return ""
		}},
		{inCmd{"REPORT_OPCODES", []byte{ini.MAINTIN, 0x0c, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, 6, 4}, 0, func(b []byte) string { _, e := c15Opcodes(b); return e }},
		{inCmd{"REPORT_OPCODES-rctd", []byte{ini.MAINTIN, 0x0c, 0x80, 0, 0, 0, 0, 0, 0, 0, 0, 0}, 6, 4}, 0, func(b []byte) string { _, e := c15Opcodes(b); return e }},
	}
	if prkey != 0 {
		head := func(b []byte, n int) string {
			if len(b) != n || be32(b) != 2 || int(be32(b[4:])) != n-8 {
				return fmt.Sprintf("%d bytes, generation %d, length field %d", len(b), be32(append(b, 0, 0, 0, 0)), be32(append(b, make([]byte, 8)...)[4:]))
			}
			return ""
		}
		cmds = append(cmds, c15Cmd{inCmd{"PR_IN-keys", []byte{ini.PRIN, 0, 0, 0, 0, 0, 0, 0, 0, 0}, 7, 2}, 8, func(b []byte) string {
			if e := head(b, 24); e != "" {
				return e
			}
			if x, y := be64(b[8:]), be64(b[16:]); x+y != 2*prkey+1 || x != prkey && y != prkey {
				return fmt.Sprintf("keys %x and %x", x, y)
			}
			return ""
		}}, c15Cmd{inCmd{"PR_IN-reservation", []byte{ini.PRIN, 1, 0, 0, 0, 0, 0, 0, 0, 0}, 7, 2}, 8, func(b []byte) string {
			if e := head(b, 24); e != "" {
				return e
			}
			if be64(b[8:]) != prkey || b[21] != 6 || be32(b[16:]) != 0 || b[20] != 0 || be16(b[22:]) != 0 {
				return fmt.Sprintf("key %x, scope and type %02x", be64(b[8:]), b[21])
			}
			return ""
		}}, c15Cmd{inCmd{"PR_IN-capabilities", []byte{ini.PRIN, 2, 0, 0, 0, 0, 0, 0, 0, 0}, 7, 2}, 8, func(b []byte) string {
			if len(b) != 8 || be16(b) != 8 || b[3]&0x80 == 0 || be16(b[4:]) == 0 || b[2]&0x60 != 0 || b[3]&0x0e != 0 || b[4]&0x15 != 0 || b[5]&0xfe != 0 || b[6] != 0 || b[7] != 0 {
				return fmt.Sprintf("%x", b)
			}
			if b[2]&1 != 0 || b[3]&1 != 0 { // a REGISTER with APTPL is refused
				return fmt.Sprintf("%x: persistence through power loss", b)
			}
			return ""
		}})
	}
	full := map[string][]byte{}
	what := func(c c15Cmd) string { return c.name }
	for _, c := range cmds {
		t, ok := s.cmd(ini.InCmd(lun, c.with(c.max()), uint32(c.max())), what(c))
		if !ok {
			return false
		}
		r.Eval(c.name + "-full" + fmt.Sprint(t.Status, len(t.Data), d.Thin))
		if t.Status != 0 {
			r.Violate("refused:"+c.name, cas, tail(s.Trace(), 6), "%s ended with %s", c.name, t.Outcome())
			continue
		}
		full[c.name] = append([]byte{}, t.Data...)
		if e := c.parse(t.Data); e != "" {
			r.Violate("malformed:"+c.name, cas, hex.EncodeToString(t.Data), "%s of %s: %s", c.name, name, e)
			continue
		}
		t2, ok := s2.cmd(ini.InCmd(lun, c.with(c.max()), uint32(c.max())), what(c))
		if !ok {
			return false
		}
		if t2.Status != 0 || !bytes.Equal(t.Data, t2.Data) {
			r.Violate("differs:"+c.name, cas, []string{hex.EncodeToString(t.Data), hex.EncodeToString(t2.Data)}, "%s tells two sessions of the same portal different things", c.name)
		}
		r.Sample(map[string]interface{}{"command": c.name, "bytes": len(t.Data), "data": short(hex.EncodeToString(t.Data), 120)})
	}
	if a, b := full["MODE_SENSE(6)"], full["MODE_SENSE(10)"]; a != nil && b != nil {
		if !bytes.Equal(a[1:3], b[2:4]) || int(a[3]) != int(be16(b[6:])) || !bytes.Equal(a[4:], b[8:]) {
			r.Violate("mode-6-10", cas, []string{hex.EncodeToString(a), hex.EncodeToString(b)}, "MODE SENSE (6) and (10) tell different medium types, device parameters, block descriptors or pages")
		}
	}
	if full["MODE_SENSE(6)-dbd"] != nil && full["MODE_SENSE(10)-all"] != nil && !bytes.Equal(full["MODE_SENSE(6)-dbd"][4:], full["MODE_SENSE(10)-all"][8:]) {
		r.Violate("mode-6-10", cas, nil, "MODE SENSE (6) and (10) return different pages")
	}
	// READ CAPACITY(10) has no allocation length
	type try struct {
		c     c15Cmd
		alloc int
		edtl  int
		sess  *Sess
	}
	var tries []try
	for _, c := range cmds {
		f, ok := full[c.name]
		if !ok {
			continue
		}
		lim := len(f) + 20
		for a := 0; a <= lim; a++ {
			if len(f) > 200 && a > 40 && a < len(f)-12 && a%17 != seed%17 {
				continue
			}
			tries = append(tries, try{c, a, a, s})
		}
		for a := lim + 1; a < 256 && c.wid == 1; a++ {
			tries = append(tries, try{c, a, a, s})
		}
		for _, a := range []int{127, 128, 129, 255, 256, 257, 511, 512, 513, 4095, 32767, 32768, 32769, 65535, 65536, 1 << 20, 1<<24 + 3, 1<<31 - 1, 1 << 31, 1<<32 - 1} {
			if a < 1<<uint(8*c.wid) {
				tries = append(tries, try{c, a, min(a, 8192), s}, try{c, a, min(len(f)+rng.Intn(9), 8192), s2})
			}
		}
		for k := 0; k < 12; k++ {
			a := rng.Intn(lim)
			if a < 1<<uint(8*c.wid) {
				tries = append(tries, try{c, a, a + 1 + rng.Intn(300), s2})
				tries = append(tries, try{c, a, rng.Intn(a + 1), s2})
			}
		}
	}
	rng.Shuffle(len(tries), func(a, b int) { tries[a], tries[b] = tries[b], tries[a] })
	n := 0
	for _, x := range tries {
		if x.alloc >= 1<<uint(8*x.c.wid) {
			continue
		}
		n++
		if n%40 == 0 { // unrelated commands between, also failing ones, do not change what is told
			cd := [][]byte{RWbad(d), {ini.MODESEL6, 0x10, 0, 0, 0, 0}, {0xff, 0, 0, 0, 0, 0}, {ini.STARTSTOP, 0, 0, 0, 1, 0}, {ini.SENDDIAG, 4, 0, 0, 0, 0}, {ini.PREVENT, 0, 0, 0, 1, 0}}[rng.Intn(6)]
			if _, ok := x.sess.cmd(ini.NoData(lun, cd), "unrelated command"); !ok {
				return false
			}
		}
		var cmd ini.Cmd
		if x.edtl == 0 {
			cmd = ini.NoData(lun, x.c.with(x.alloc))
			cmd.Xfer = -1
		} else {
			cmd = ini.InCmd(lun, x.c.with(x.alloc), uint32(x.edtl))
		}
		t, ok := x.sess.cmd(cmd, x.c.name)
		if !ok {
			return false
		}
		f := full[x.c.name]
		want := f
		if x.alloc < len(want) {
			want = want[:x.alloc]
		}
		over := len(want) > x.edtl
		if over {
			want = want[:x.edtl]
		}
		rel := "="
		if x.edtl < x.alloc {
			rel = "<"
		} else if x.edtl > x.alloc {
			rel = ">"
		}
		cls := "part"
		switch {
		case x.alloc == 0:
			cls = "0"
		case x.alloc < 4:
			cls = "tiny"
		case x.alloc < 16:
			cls = "<16"
		case x.alloc == len(f)-1 || x.alloc == len(f) || x.alloc == len(f)+1:
			cls = fmt.Sprint(x.alloc - len(f))
		case x.alloc > len(f):
			cls = "over"
		}
		r.Eval(x.c.name + cls + rel + fmt.Sprint(t.Status))
		if t.Status != 0 {
			if x.alloc < x.c.min && t.IsCheck(5, 0x2400) {
				continue
			}
			if over && t.IsCheck(5, 0x2400) {
				continue // an expected length too short for what the CDB asks for may be refused (C06)
			}
			r.Violate("alloc-refused:"+x.c.name, cas, tail(x.sess.Trace(), 6), "%s with allocation length %d (expected length %d) ended with %s", x.c.name, x.alloc, x.edtl, t.Outcome())
			return false
		}
		if !bytes.Equal(t.Data, want) {
			r.Violate("prefix:"+x.c.name, cas, []string{hex.EncodeToString(t.Data), hex.EncodeToString(f)}, "%s with allocation length %d (expected length %d) returned %d bytes, not the first %d of the full data (difference at %d)", x.c.name, x.alloc, x.edtl, len(t.Data), len(want), diffAt(t.Data, want))
			return false
		}
	}
	// every vital product page
	for p := 0; p < 256; p++ {
		t, ok := s.cmd(ini.InCmd(lun, []byte{ini.INQUIRY, 1, byte(p), 1, 0, 0}, 256), "INQUIRY page")
		if !ok {
			return false
		}
		r.Eval(fmt.Sprintf("vpd%02x-%v", p, t.Status))
		if pages[byte(p)] {
			if t.Status != 0 {
				r.Violate("advertised-page", cas, nil, "vital product page %02x is listed in page 00 but reading it ends with %s", p, t.Outcome())
			} else if len(t.Data) < 4 || t.Data[1] != byte(p) {
				r.Violate("advertised-page", cas, nil, "reading vital product page %02x returned page %x", p, t.Data[:min(4, len(t.Data))])
			}
		} else if !t.IsCheck(5, 0x2400) {
			r.Violate("unsupported-page", cas, nil, "vital product page %02x is not listed in page 00, reading it ends with %s and %d bytes", p, t.Outcome(), len(t.Data))
		}
		if p > 0 {
			t, ok = s.cmd(ini.InCmd(lun, []byte{ini.INQUIRY, 0, byte(p), 1, 0, 0}, 256), "INQUIRY page without EVPD")
			if !ok {
				return false
			}
			r.Eval("noevpd" + fmt.Sprint(t.Status))
			if !t.IsCheck(5, 0x2400) {
				r.Violate("page-without-evpd", cas, nil, "INQUIRY with page code %02x and EVPD 0 ended with %s", p, t.Outcome())
			}
		}
	}
	// every mode page
	all := full["MODE_SENSE(10)-all"]
	chg := full["MODE_SENSE(10)-changeable"]
	if all == nil || chg == nil {
		return true
	}
	list, _ := modeWalk(all[8:])
	// what every disk has: caching, control and informational exceptions pages
	for k, n := range map[int]int{0x0800: 20, 0x0a00: 12, 0x1c00: 12} {
		if len(list[k]) != n {
			r.Violate("mode-pages", cas, hex.EncodeToString(all), "mode page %04x has %d bytes among all pages, a disk has one of %d", k, len(list[k]), n)
		}
	}
	if p := list[0x0a00]; len(p) == 12 && (p[2]&4 != 0 || p[4]&8 != 0) { // sense data is of the fixed format, and writes are accepted
		r.Violate("mode-pages", cas, hex.EncodeToString(p), "the control page shows descriptor sense data or software write protection")
	}
	var blockDesc []byte
	if m := full["MODE_SENSE(10)"]; len(m) > 16 && be16(m[6:]) == 8 {
		blockDesc = m[8:16]
	} else {
		r.Violate("mode-descriptor", cas, hex.EncodeToString(m), "MODE SENSE(10) without DBD shows no block descriptor of 8 bytes")
		return false
	}
	clist, _ := modeWalk(chg[8+int(be16(chg[6:])):])
	if len(list) != len(clist) {
		r.Violate("changeable", cas, nil, "%d mode pages with current values, %d with changeable values", len(list), len(clist))
	}
	for k, v := range list {
		if c := clist[k]; len(c) != len(v) {
			r.Violate("changeable", cas, nil, "mode page %04x has %d bytes of current values, %d of changeable values", k, len(v), len(c))
		}
	}
	for pg := 0; pg < 0x40; pg++ {
		for sub := 0; sub < 256; sub++ {
			if sub > 1 && sub < 254 && (sub+pg+seed)%9 != 0 {
				continue
			}
			pc := byte(sub+pg+seed) & 3
			ten := (sub+pg)%2 == 0
			if pg == 0x3f && (sub == 0 || sub == 0xff) {
				pc = 3 // the others are read above
			}
			dbd := byte(8 * rng.Intn(2))
			cdb, h := []byte{ini.MODESNS6, dbd, pc<<6 | byte(pg), byte(sub), 255, 0}, 4
			if ten {
				cdb, h = []byte{ini.MODESNS10, dbd, pc<<6 | byte(pg), byte(sub), 0, 0, 0, 1, 0, 0}, 8
			}
			t, ok := s.cmd(ini.InCmd(lun, cdb, 256), "MODE SENSE page")
			if !ok {
				return false
			}
			if t.Status == 0 && len(t.Data) >= h { // the block descriptor is the one shown with all pages
				n := int(t.Data[3])
				if ten {
					n = int(be16(t.Data[6:]))
				}
				if dbd != 0 && n != 0 || dbd == 0 && (n != len(blockDesc) || len(t.Data) < h+n || !bytes.Equal(t.Data[h:h+n], blockDesc)) {
					r.Violate("mode-descriptor", cas, hex.EncodeToString(t.Data), "MODE SENSE of page %02x/%02x with DBD %d shows a block descriptor of %d bytes, with all pages it is %x", pg, sub, dbd/8, n, blockDesc)
					return false
				}
				h += n
			}
			v, have := list[pg<<8|sub]
			have = have || pg == 0x3f && (sub == 0 || sub == 0xff)
			if pc == 1 {
				v = clist[pg<<8|sub]
			}
			r.Eval(fmt.Sprintf("mode%v-%v-%v", have, pc, t.Status))
			switch {
			case pc == 3:
				if !t.IsCheck(5, 0x3900) && !(t.IsCheck(5, 0x2400) && !have) {
					r.Violate("saved-values", cas, nil, "MODE SENSE of saved values of page %02x/%02x ended with %s", pg, sub, t.Outcome())
				}
			case have:
				if t.Status != 0 || len(t.Data) < h || !bytes.Equal(t.Data[h:], v) {
					r.Violate("mode-page", cas, []string{hex.EncodeToString(t.Data), hex.EncodeToString(v)}, "mode page %02x/%02x (page control %d) alone ended with %s and is not the one in the list of all pages", pg, sub, pc, t.Outcome())
				}
			case sub == 0xff && t.Status == 0: // all subpages of a page
				m, e := modeWalk(t.Data[h:])
				for k := range m {
					if k>>8 != pg {
						e = fmt.Sprintf("page %04x", k)
					}
				}
				if e != "" {
					r.Violate("mode-page", cas, hex.EncodeToString(t.Data), "all subpages of mode page %02x: %s", pg, e)
				}
			case !t.IsCheck(5, 0x2400):
				r.Violate("unsupported-mode-page", cas, hex.EncodeToString(t.Data), "mode page %02x/%02x (page control %d) is not among all pages, reading it ended with %s", pg, sub, pc, t.Outcome())
			}
		}
	}
	// what is reported as supported is
	if f := full["REPORT_OPCODES"]; f != nil {
		ops, _ := c15Opcodes(f)
		for _, o := range ops {
			cdb := make([]byte, 16)
			cdb[0] = o.op
			if o.sa >= 0 {
				cdb[1] = byte(o.sa)
			}
			for j := 2; j < 10; j++ { // an address far beyond any device: nothing happens
				cdb[j] = 0xff
			}
			switch o.op {
			case ini.TUR, ini.INQUIRY, ini.RPTLUNS, ini.UNMAP, ini.FORMAT:
				for j := 1; j < 16; j++ {
					cdb[j] = 0
				}
			}
			if o.op == ini.FORMAT {
				cdb[1] = 0x80
			}
			nc := ini.NoData(lun, cdb)
			nc.Xfer = -1 // some of them have data to send, all of it residual
			t, ok := s.cmd(nc, "a command reported as supported")
			if !ok {
				return false
			}
			r.Eval(fmt.Sprintf("op%02x-%v", o.op, t.Status))
			if si := t.SenseInfo(); t.Status == 2 && si.Key == 5 && si.ASC == 0x2000 {
				r.Violate("reported-op", cas, nil, "operation code %02x is reported as supported but refused as unknown", o.op)
			}
		}
	}
	// unsupported reporting options
	for opt := byte(1); opt < 8; opt++ {
		cdb := make([]byte, 12)
		cdb[0], cdb[1], cdb[2], cdb[3], cdb[8] = ini.MAINTIN, 0x0c, opt, ini.READ10, 4
		t, ok := s.cmd(ini.InCmd(lun, cdb, 1024), "REPORT SUPPORTED OPERATION CODES option")
		if !ok {
			return false
		}
		r.Eval(fmt.Sprintf("rsoc%d-%v", opt, t.Status))
		if !t.IsCheck(5, 0x2400) && (opt > 3 || t.Status != 0 || len(t.Data) < 4) {
			r.Violate("rsoc-option", cas, nil, "reporting option %d ended with %s and %d bytes", opt, t.Outcome(), len(t.Data))
		}
	}
	for _, x := range []*Sess{s, s2} {
		x.protocol("C06")
	}
	return true
}

// RWbad is a read beyond the end.
func RWbad(d Dev) []byte { return ini.RW(ini.READ16, uint64(d.Size>>d.Shift), 1, 0) }

type opDesc struct {
	op byte
	sa int
}

func c15Opcodes(b []byte) ([]opDesc, string) {
	if len(b) < 4 || int(be32(b))+4 != len(b) {
		return nil, fmt.Sprintf("%d bytes, length field %x", len(b), b[:min(4, len(b))])
	}
	var out []opDesc
	p := b[4:]
	size := []int{6, 10, 10, 0, 16, 12, 0, 0}
	seen := map[opDesc]bool{}
	for len(p) > 0 {
		if len(p) < 8 {
			return nil, "a descriptor is cut off"
		}
		o := opDesc{p[0], -1}
		if p[1] != 0 || p[4] != 0 || p[5]&0xfc != 0 || p[5]&1 == 0 && be16(p[2:]) != 0 {
			return nil, fmt.Sprintf("reserved bits in the descriptor %x", p[:8])
		}
		if p[5]&1 != 0 {
			o.sa = int(be16(p[2:]))
		}
		if n := int(be16(p[6:])); n != size[o.op>>5] {
			return nil, fmt.Sprintf("operation code %02x has CDB length %d", o.op, n)
		}
		if seen[o] {
			return nil, fmt.Sprintf("operation code %02x is listed twice", o.op)
		}
		seen[o] = true
		out = append(out, o)
		n := 8
		if p[5]&2 != 0 {
			if len(p) < 10 || be16(p[8:]) != 10 {
				return nil, "a timeouts descriptor of the wrong length"
			}
			n = 20
		}
		if len(p) < n {
			return nil, "a descriptor is cut off"
		}
		p = p[n:]
	}
	if len(out) == 0 {
		return nil, "no operation code is listed"
	}
	return out, ""
}

package checks

import (
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"

	"verif/ck"
	"verif/ini"
	"verif/tgt"

	"github.com/gostor/gotgt/pkg/config"
	"github.com/gostor/gotgt/pkg/scsi"
)

func init() { All["C16"] = Check{Run: c16, Level: "exploration", Min: 4000} }

func c16(r *ck.Run) {
	r.Rule("random histories of PERSISTENT RESERVE OUT (all service actions, right and wrong keys, types, scopes, lengths, flags) from five nexuses on four LUNs of two targets, with logouts, new logins and changes of the LUN map between; after each, READ KEYS and READ RESERVATION of that LUN (and regularly of the others) are compared with an SPC-3 state machine that keeps every state the standard allows; accesses of every kind from every nexus are compared with the conflict table, the store being witness that a refused one has no effect; bursts of concurrent commands must have an order; a generation beyond 65536 and 70 registrants on one LUN are reached. Distinct by (service action, state shape, relation of keys, outcome) and (access, type, relation, outcome)")
	r.Assume("two nexuses never share one connection", "where SPC-3 leaves the answer open (several reasons to refuse at once, flags that do not apply to the service action, a registrant preempting its own key) every allowed answer is accepted")
	r.Each(r.Q(70, 250), 7, func(i int) { c16Episode(r, i) })
	c16Move(r)
	r.Each(2, 2, func(i int) {
		if i == 0 {
			c16Long(r)
		} else {
			c16Crowd(r)
		}
	})
}

// c16Long counts more generations than two bytes hold.
func c16Long(r *ck.Run) {
	if r.Only != "" && r.Only != "long" {
		return
	}
	w := c16World(r, "long", false, false)
	if w == nil {
		return
	}
	defer w.stop()
	gen, key := uint32(0), map[int]uint64{}
	for _, stop := range []uint32{254, 255, 256, 257, 300, 65534, 65535, 65536, 65537, 66000} {
		var ts []*ini.Task
		var ns []int
		for gen < stop {
			gen++
			n := int(gen) % 5
			sa := byte(6)
			if gen%7 == 0 {
				sa = 0
			}
			k := uint64(gen)<<20 | uint64(n)
			o := prOp{n: n, sa: sa, key: key[n], sakey: k, plen: 24, blen: 24}
			key[n] = k
			ts, ns = append(ts, w.sess[n].Submit(w.cmd(o))), append(ns, n)
			for len(ts) > 150 || gen == stop && len(ts) > 0 {
				if !w.sess[ns[0]].wait(ts[0], "REGISTER") {
					return
				}
				if ts[0].Status != 0 {
					r.Violate("answer:long", "long", nil, "a registration ended with %s at generation about %d", ts[0].Outcome(), gen)
					return
				}
				ts, ns = ts[1:], ns[1:]
			}
		}
		st := &prState{gen: gen, regs: map[int]uint64{}, holder: -1}
		for n, k := range key {
			st.regs[n] = k
		}
		w.st[0] = []*prState{st}
		r.Eval(fmt.Sprint("generation ", stop))
		if !w.readBack(0, 0, "registrations without end") {
			return
		}
		for l := 1; l < 3; l++ {
			if !w.readBack(l, 1, "registrations on another LUN") {
				return
			}
		}
	}
	r.Max("most_generations", int64(gen))
	dead(r, w.ch, "long", "registrations")
}

// c16Crowd registers many nexuses on one LUN.
func c16Crowd(r *ck.Run) {
	if r.Only != "" && r.Only != "crowd" {
		return
	}
	rng := r.Rng("crowd")
	cas := "crowd"
	ch := start(r, cas, spec1(Dev{ID: 11, Name: "a", Size: 1 << 20, Shift: 9, Thin: true}, Dev{ID: 12, Name: "b", Size: 1 << 20, Shift: 9, Thin: true}), false)
	if ch == nil {
		return
	}
	w := &prWorld{r: r, ch: ch, cas: cas, st: map[int][]*prState{}, hist: map[int][]string{}, dev: []string{"a", "b"}}
	defer w.stop()
	const crowd = 70
	for n := 0; n < crowd; n++ {
		o := ini.LoginOpts{Target: TN(0), Initiator: fmt.Sprintf("iqn.2020-01.verif:crowd%d", n/3), ISID: [6]byte{0x80, 0, 0, 0, byte(n % 3), 1}}
		s := login(r, ch, cas, o)
		if s == nil {
			return
		}
		w.opts, w.sess, w.tgtn, w.port = append(w.opts, o), append(w.sess, s), append(w.tgtn, 0), append(w.port, 1)
	}
	for l := 0; l < 2; l++ {
		w.st[l] = []*prState{{regs: map[int]uint64{}, holder: -1}}
	}
	op := func(n, l int, sa byte, key, sakey uint64, typ byte) bool {
		return w.do(prOp{n: n, lun: l, sa: sa, key: key, sakey: sakey, typ: typ, plen: 24, blen: 24})
	}
	for n := 0; n < crowd; n++ {
		if !op(n, 0, 0, 0, uint64(n/2+1), 0) || n%4 == 0 && !op(n, 1, 6, 0, uint64(n+1), 0) {
			return
		}
	}
	key := func(n int) uint64 { return uint64(n/2 + 1) }
	look := func() bool {
		for k := 0; k < 40; k++ {
			n := rng.Intn(crowd)
			a := prAccesses(ini.LUN(0), rng)
			if !w.probe(rng, 0, n, a[rng.Intn(len(a))]) {
				return false
			}
		}
		return w.readBack(1, 0, "commands to another LUN")
	}
	h := crowd - 1 - rng.Intn(5)
	for _, typ := range []byte{6, 8} {
		if !op(h, 0, 1, key(h), 0, typ) || !look() {
			return
		}
		// each pair has a key of its own: drop one pair, keep the others
		v := rng.Intn(crowd/2 - 5)
		if !op(h, 0, 4, key(h), key(2*v), typ) || !look() || !op(h, 0, 2, key(h), 0, typ) || !look() {
			return
		}
	}
	if !op(h, 0, 3, key(h), 0, 0) || !look() {
		return
	}
	r.Max("most_registrants", crowd)
	dead(r, ch, cas, "many registrants")
}

type prState struct {
	gen    uint32
	regs   map[int]uint64
	typ    byte
	holder int // -1: none, for the all-registrants types any
}

func (s *prState) clone() *prState {
	n := &prState{s.gen, map[int]uint64{}, s.typ, s.holder}
	for k, v := range s.regs {
		n.regs[k] = v
	}
	return n
}
func (s *prState) key() string {
	var l []string
	for k, v := range s.regs {
		l = append(l, fmt.Sprintf("%d=%x", k, v))
	}
	sort.Strings(l)
	return fmt.Sprint(s.gen, l, s.typ, s.holder)
}
func (s *prState) allReg() bool { return s.typ == 7 || s.typ == 8 }
func (s *prState) holds(n int) bool {
	_, reg := s.regs[n]
	return s.typ != 0 && (s.holder == n || s.allReg() && reg)
}

// drop removes a registration, and what depends on it.
func (s *prState) drop(n int) {
	delete(s.regs, n)
	if s.typ != 0 {
		if s.allReg() {
			if len(s.regs) == 0 {
				s.typ, s.holder = 0, -1
			}
		} else if s.holder == n {
			s.typ, s.holder = 0, -1
		}
	}
}

type prOp struct {
	n       int // nexus
	sa      byte
	key     uint64
	sakey   uint64
	typ     byte
	scope   byte
	plen    int // parameter list length of the CDB
	blen    int // bytes sent
	flags   byte
	move    int // destination nexus of a move
	unreg   bool
	tidBad  bool
	tidKind int // what is wrong with the TransportID
	lun     int
	comment string
}

type prRes struct {
	out string // good, conflict, illegal, 2604
	st  *prState
}

func prTypeOK(t byte) bool { return t == 1 || t == 3 || t >= 5 && t <= 8 }

// prApply gives every answer and state SPC-3 allows.
func prApply(s *prState, o prOp) []prRes {
	var out []prRes
	no := func(w string) { out = append(out, prRes{w, s}) }
	ok := func(n *prState) { out = append(out, prRes{"good", n}) }
	mykey, reg := s.regs[o.n]
	broken := o.plen != 24 || o.blen < o.plen
	if o.sa == 7 {
		broken = o.tidBad
	}
	if o.sa > 7 || o.sa == 5 {
		no("illegal")
		return out
	}
	if broken {
		no("illegal")
		if o.sa != 6 && !(reg && mykey == o.key) || o.sa == 7 && (s.allReg() || !s.holds(o.n)) {
			no("conflict")
		}
		return out
	}
	flag := o.flags&0x0d != 0
	if flag {
		no("illegal")
		if o.sa == 0 || o.sa == 6 {
			if o.sa == 0 && !(reg && mykey == o.key) && !(!reg && o.key == 0) {
				no("conflict")
			}
			return out
		}
	}
	switch o.sa {
	case 0, 6:
		if o.sa == 0 && reg && mykey != o.key || o.sa == 0 && !reg && o.key != 0 {
			no("conflict")
			return out
		}
		n := s.clone()
		if !reg && o.sakey == 0 {
			ok(n) // nothing to do, counted or not
			n2 := s.clone()
			n2.gen++
			ok(n2)
			return out
		}
		n.gen++
		if o.sakey != 0 {
			n.regs[o.n] = o.sakey
		} else {
			n.drop(o.n)
		}
		ok(n)
	case 1:
		bad := !prTypeOK(o.typ) || o.scope != 0
		if bad {
			no("illegal")
		}
		if !reg || mykey != o.key || s.typ != 0 && (!s.holds(o.n) || s.typ != o.typ) {
			no("conflict")
			return out
		}
		if bad {
			return out
		}
		n := s.clone()
		n.typ = o.typ
		if s.typ == 0 {
			n.holder = o.n
		}
		if n.allReg() {
			n.holder = -1
		}
		ok(n)
	case 2:
		if !reg || mykey != o.key {
			no("conflict")
			return out
		}
		if !s.holds(o.n) {
			ok(s)
			return out
		}
		if s.typ != o.typ || o.scope != 0 {
			no("2604")
			return out
		}
		n := s.clone()
		n.typ, n.holder = 0, -1
		ok(n)
	case 3:
		if !reg || mykey != o.key {
			no("conflict")
			return out
		}
		ok(&prState{gen: s.gen + 1, regs: map[int]uint64{}, holder: -1})
	case 4:
		if !reg || mykey != o.key {
			no("conflict")
			if !prTypeOK(o.typ) || o.scope != 0 || o.sakey == 0 {
				no("illegal")
			}
			return out
		}
		badType := !prTypeOK(o.typ) || o.scope != 0
		match := 0
		for _, v := range s.regs {
			if v == o.sakey {
				match++
			}
		}
		take := s.typ != 0 && (s.allReg() && o.sakey == 0 || !s.allReg() && s.regs[s.holder] == o.sakey && o.sakey != 0)
		if o.sakey == 0 && !s.allReg() {
			no("illegal")
			return out
		}
		if o.sakey != 0 && match == 0 {
			no("conflict")
			if badType {
				no("illegal")
			}
			return out
		}
		if badType {
			no("illegal")
			if take {
				return out
			}
		}
		n := s.clone()
		n.gen++
		for k, v := range s.regs {
			if k != o.n && (v == o.sakey || take && s.allReg()) {
				delete(n.regs, k)
			}
		}
		if take {
			n.typ, n.holder = o.typ, o.n
			if n.allReg() {
				n.holder = -1
			}
			ok(n)
			return out
		}
		ok(n)
		if o.sakey == mykey { // its own registration may go as well
			n2 := n.clone()
			n2.drop(o.n)
			ok(n2)
		}
	case 7:
		if !reg || mykey != o.key {
			no("conflict")
			if o.sakey == 0 || !reg && s.typ == 0 {
				no("illegal")
			}
			return out
		}
		if s.typ == 0 || !s.holds(o.n) || s.allReg() {
			no("conflict")
			if o.sakey == 0 || o.move == o.n || s.typ == 0 {
				no("illegal")
			}
			return out
		}
		if o.sakey == 0 || o.move == o.n {
			no("illegal")
			return out
		}
		n := s.clone()
		n.gen++
		n.regs[o.move] = o.sakey
		n.holder = o.move
		if o.unreg {
			delete(n.regs, o.n)
		}
		ok(n)
	}
	return out
}

// shape describes a state without its numbers.
func (s *prState) shape(n int) string {
	_, reg := s.regs[n]
	return fmt.Sprint(min(len(s.regs), 3), s.typ, reg, s.holds(n))
}

type prWorld struct {
	r    *ck.Run
	ch   *tgt.Child
	cas  string
	sess []*Sess // by nexus
	opts []ini.LoginOpts
	tgtn []int // target of a nexus
	port []int // its portal group tag, which is the relative target port too
	st   map[int][]*prState
	hist map[int][]string
	dev  []string
}

// nexuses 0-4 use target 0 (LUNs 0-2), nexuses 5-6 target 1 (LUN 0, as lun 3 here)
func (w *prWorld) lun(l int) [8]byte {
	if l == 3 {
		return ini.LUN(0)
	}
	return ini.LUN(l)
}
func (w *prWorld) nexusOf(rng *rand.Rand, l int) int {
	if l == 3 {
		return 5 + rng.Intn(2)
	}
	if l == 0 && len(w.opts) > 7 && rng.Intn(6) == 0 {
		return 7
	}
	return rng.Intn(5)
}

func prInitiator(o ini.LoginOpts) string {
	isid := o.ISID
	return o.Initiator + ",i,0x" + hex.EncodeToString(isid[:])
}

// transportID is the iSCSI TransportID of an initiator port.
func transportID(o ini.LoginOpts) []byte {
	n := append([]byte(prInitiator(o)), 0)
	for len(n)%4 != 0 || len(n) < 20 {
		n = append(n, 0)
	}
	b := []byte{0x45, 0, byte(len(n) >> 8), byte(len(n))}
	return append(b, n...)
}

func (w *prWorld) cmd(o prOp) ini.Cmd {
	p := make([]byte, 24)
	binary.BigEndian.PutUint64(p, o.key)
	binary.BigEndian.PutUint64(p[8:], o.sakey)
	p[20] = o.flags
	plen := o.plen
	if o.sa == 7 {
		p[20] = 0
		if o.unreg {
			p[17] |= 2
		}
		binary.BigEndian.PutUint16(p[18:], uint16(w.port[o.move]))
		tid := transportID(w.opts[o.move])
		switch o.tidKind {
		case 1: // another protocol
			tid[0] = 0x40
		case 2: // a device, not a port
			tid[0] = 0x05
		case 3: // no such target port
			binary.BigEndian.PutUint16(p[18:], uint16(w.port[o.move]^64)) // no tag of any world
		case 4: // no ISID
			copy(tid[4:], strings.Repeat("x", len(tid)-5))
		case 5: // no whole words
			tid = append(tid, make([]byte, 1+o.n%3)...)
			binary.BigEndian.PutUint16(tid[2:], uint16(len(tid)-4))
		case 6: // persistence is not offered
			p[17] |= 1
		case 7: // the ISID is no number
			if i := strings.LastIndex(string(tid), ",i,0x"); i > 0 {
				tid[i+5+o.n%6] = "xg,- z"[o.n%6]
			}
		case 8: // an ISID of more than 48 bits
			if i := strings.LastIndex(string(tid), ",i,0x"); i > 0 {
				n := append([]byte(nil), tid[:i+5]...)
				n = append(n, "1234567890abcdef"...)
				for n = append(n, 0); len(n)%4 != 0; {
					n = append(n, 0)
				}
				binary.BigEndian.PutUint16(n[2:], uint16(len(n)-4))
				tid = n
			}
		}
		tl := uint32(len(tid))
		switch o.tidKind {
		case 9: // a TransportID that ends after the parameter list
			tl += uint32(4 + 4*o.n)
		case 10: // too short for any
			tid = tid[:20]
			tl = 20
		case 11: // far beyond
			tl = 0xfffffffc
		}
		binary.BigEndian.PutUint32(p[20:], tl)
		p = append(p, tid...)
		plen = len(p)
		if o.plen == 0 {
			plen = 23
		}
	} else if o.blen > 24 {
		p = append(p, make([]byte, o.blen-24)...)
	}
	if o.blen < len(p) {
		p = p[:max(o.blen, 0)]
	}
	cdb := []byte{ini.PROUT, o.sa, o.scope<<4 | o.typ, 0, 0, 0, 0, 0, 0, 0}
	binary.BigEndian.PutUint32(cdb[5:], uint32(plen))
	c := ini.Cmd{LUN: w.lun(o.lun), CDB: cdb, Write: true, EDTL: uint32(len(p)), Out: p, Imm: -1, Xfer: int64(len(p))}
	if len(p) == 0 {
		c = ini.NoData(w.lun(o.lun), cdb)
	}
	return c
}

func prOutcome(t *ini.Task) string {
	switch {
	case t.Status == 0:
		return "good"
	case t.Status == 0x18:
		return "conflict"
	case t.IsCheck(5, 0x2604):
		return "2604"
	case t.Status == 2 && t.SenseInfo().Key == 5:
		return "illegal"
	}
	return t.Outcome()
}

func (w *prWorld) fail(l int, sig, f string, a ...interface{}) {
	w.r.Violate(sig, w.cas, map[string]interface{}{"history of the LUN": tail(w.hist[l], 40), "states": w.states(l)}, f, a...)
}
func (w *prWorld) states(l int) []string {
	var o []string
	for _, s := range w.st[l] {
		o = append(o, s.key())
	}
	return o
}

func (o prOp) String() string {
	nm := []string{"REGISTER", "RESERVE", "RELEASE", "CLEAR", "PREEMPT", "PREEMPT-ABORT", "REGISTER-IGNORE", "MOVE"}
	s := fmt.Sprint(o.sa)
	if int(o.sa) < len(nm) {
		s = nm[o.sa]
	}
	s = fmt.Sprintf("nexus %d %s key %x sakey %x type %d scope %d", o.n, s, o.key, o.sakey, o.typ, o.scope)
	if o.plen != 24 && o.sa != 7 || o.blen != o.plen && o.sa != 7 || o.flags != 0 {
		s += fmt.Sprintf(" length %d/%d flags %02x", o.plen, o.blen, o.flags)
	}
	if o.sa == 7 {
		s += fmt.Sprintf(" to %d unreg %v", o.move, o.unreg)
	}
	return s
}

// readBack reduces the possible states of a LUN to those it shows.
func (w *prWorld) readBack(l, n int, why string) bool {
	s := w.sess[n]
	t, ok := s.cmd(ini.InCmd(w.lun(l), []byte{ini.PRIN, 0, 0, 0, 0, 0, 0, 16, 0, 0}, 4096), "READ KEYS")
	if !ok {
		return false
	}
	t2, ok := s.cmd(ini.InCmd(w.lun(l), []byte{ini.PRIN, 1, 0, 0, 0, 0, 0, 1, 0, 0}, 256), "READ RESERVATION")
	if !ok {
		return false
	}
	if t.Status != 0 || len(t.Data) < 8 || int(be32(t.Data[4:]))+8 != len(t.Data) || len(t.Data)%8 != 0 {
		w.fail(l, "read-keys", "READ KEYS ended with %s and %x", t.Outcome(), t.Data)
		return false
	}
	if t2.Status != 0 || len(t2.Data) < 8 || int(be32(t2.Data[4:]))+8 != len(t2.Data) || len(t2.Data) != 8 && len(t2.Data) != 24 {
		w.fail(l, "read-reservation", "READ RESERVATION ended with %s and %x", t2.Outcome(), t2.Data)
		return false
	}
	gen := be32(t.Data)
	if be32(t2.Data) != gen {
		w.fail(l, "generation", "READ KEYS says generation %d, READ RESERVATION %d", gen, be32(t2.Data))
		return false
	}
	var keys []string
	for p := t.Data[8:]; len(p) > 0; p = p[8:] {
		keys = append(keys, fmt.Sprintf("%x", be64(p)))
	}
	sort.Strings(keys)
	got := fmt.Sprint(gen, keys)
	if len(t2.Data) == 24 {
		got += fmt.Sprintf(" held %x type %02x", be64(t2.Data[8:]), t2.Data[21])
	}
	var keep []*prState
	var exp []string
	for _, st := range w.st[l] {
		var ks []string
		for _, v := range st.regs {
			ks = append(ks, fmt.Sprintf("%x", v))
		}
		sort.Strings(ks)
		e := fmt.Sprint(st.gen, ks)
		if st.typ != 0 {
			k := uint64(0)
			if !st.allReg() {
				k = st.regs[st.holder]
			}
			e += fmt.Sprintf(" held %x type %02x", k, st.typ)
		}
		if e == got {
			keep = append(keep, st)
		}
		exp = append(exp, e)
	}
	if len(keep) == 0 {
		w.fail(l, "state:"+why, "after %s the LUN shows {%s}, expected %v", why, got, exp)
		return false
	}
	w.st[l] = keep
	w.r.Add("states read back", 1)
	return true
}

func (w *prWorld) do(o prOp) bool {
	t, ok := w.sess[o.n].cmd(w.cmd(o), "PERSISTENT RESERVE OUT")
	if !ok {
		return false
	}
	got := prOutcome(t)
	w.hist[o.lun] = append(w.hist[o.lun], o.String()+" -> "+got)
	var next []*prState
	seen := map[string]bool{}
	allowed := map[string]bool{}
	for _, st := range w.st[o.lun] {
		for _, x := range prApply(st, o) {
			allowed[x.out] = true
			if x.out == got && !seen[x.st.key()] {
				seen[x.st.key()] = true
				next = append(next, x.st)
			}
		}
	}
	s0 := w.st[o.lun][0]
	w.r.Eval(fmt.Sprint("op", o.sa, s0.shape(o.n), o.key == s0.regs[o.n], o.sakey == 0, o.typ == s0.typ, prTypeOK(o.typ), o.plen == 24, o.flags != 0, got))
	if len(next) == 0 {
		var al []string
		for k := range allowed {
			al = append(al, k)
		}
		sort.Strings(al)
		w.fail(o.lun, fmt.Sprintf("answer:%d-%s", o.sa, got), "%s was answered %s (%s), the standard allows %v", o, got, t.Outcome(), al)
		return false
	}
	w.st[o.lun] = next
	return w.readBack(o.lun, o.n, fmt.Sprintf("service-action-%d-%s", o.sa, got))
}

type prAccess struct {
	name string
	cls  byte // r: conflicts with exclusive access, w: with both, f: never
	cmd  ini.Cmd
}

func prAccesses(lun [8]byte, rng *rand.Rand) []prAccess {
	var out []prAccess
	lba := uint64(rng.Intn(60))
	for _, op := range []byte{ini.READ6, ini.READ10, ini.READ12, ini.READ16} {
		out = append(out, prAccess{opName(op), 'r', ini.ReadCmd(lun, op, lba, 2, 512, 0)})
	}
	d := fill(rng, 1024)
	for _, op := range []byte{ini.WRITE6, ini.WRITE10, ini.WRITE12, ini.WRITE16, ini.WRVER10, ini.WRVER12, ini.WRVER16, ini.ORWRITE} {
		out = append(out, prAccess{opName(op), 'w', ini.WriteCmd(lun, op, lba, 2, d, 0)})
	}
	for _, op := range []byte{ini.WRSAME10, ini.WRSAME16} {
		c := ini.WriteCmd(lun, op, lba, 4, d[:512], 0)
		out = append(out, prAccess{opName(op), 'w', c})
	}
	for _, op := range []byte{ini.VERIFY10, ini.VERIFY12, ini.VERIFY16, ini.PREFETCH, ini.PREFETCH16} {
		out = append(out, prAccess{opName(op), 'r', ini.NoData(lun, ini.RW(op, lba, 2, 0))})
	}
	for _, op := range []byte{ini.SYNC10, ini.SYNC16} {
		out = append(out, prAccess{opName(op), 'w', ini.NoData(lun, ini.RW(op, lba, 2, 0))})
	}
	ul := unmapList(umRange{lba, 3})
	out = append(out, prAccess{"UNMAP", 'w', ini.Cmd{LUN: lun, CDB: unmapCDB(len(ul)), Write: true, EDTL: uint32(len(ul)), Out: ul, Imm: -1, Xfer: int64(len(ul))}})
	out = append(out, prAccess{"MODE SELECT", 'w', ini.NoData(lun, []byte{ini.MODESEL6, 0x10, 0, 0, 0, 0})},
		prAccess{"MODE SENSE", 'w', ini.InCmd(lun, []byte{ini.MODESNS6, 0, 0x3f, 0, 255, 0}, 255)},
		prAccess{"MODE SENSE(10)", 'w', ini.InCmd(lun, []byte{ini.MODESNS10, 0, 0x3f, 0, 0, 0, 0, 0, 255, 0}, 255)},
		prAccess{"FORMAT UNIT", 'w', ini.NoData(lun, []byte{ini.FORMAT, 0, 0, 0, 0, 0})})
	for _, c := range paramCmds() {
		if c.cdb[0] == ini.MODESNS6 || c.cdb[0] == ini.MODESNS10 {
			continue
		}
		out = append(out, prAccess{c.name, 'f', ini.InCmd(lun, c.with(200), 200)})
	}
	out = append(out, prAccess{"TEST UNIT READY", 'f', ini.NoData(lun, make([]byte, 6))},
		prAccess{"REQUEST SENSE", 'f', ini.InCmd(lun, []byte{ini.REQSENSE, 0, 0, 0, 18, 0}, 18)},
		prAccess{"READ CAPACITY(10)", 'f', ini.InCmd(lun, append([]byte{ini.READCAP10}, make([]byte, 9)...), 8)})
	return out
}

func prConflicts(s *prState, n int, cls byte) bool {
	if s.typ == 0 || cls == 'f' || s.holds(n) {
		return false
	}
	_, reg := s.regs[n]
	if reg && s.typ >= 5 {
		return false
	}
	we := s.typ == 1 || s.typ == 5 || s.typ == 7
	return cls == 'w' || !we
}

func (w *prWorld) probe(rng *rand.Rand, l, n int, x prAccess) bool {
	want := prConflicts(w.st[l][0], n, x.cls)
	for _, st := range w.st[l] {
		if prConflicts(st, n, x.cls) != want {
			return true // undetermined
		}
	}
	before := w.ch.Seq()
	t, ok := w.sess[n].cmd(x.cmd, x.name)
	if !ok {
		return false
	}
	st := w.st[l][0]
	_, reg := st.regs[n]
	w.r.Eval(fmt.Sprint("acc", x.name, st.typ, reg, st.holds(n), t.Status))
	got := t.Status == 0x18
	if got != want || !got && t.Status != 0 {
		rel := "an unregistered nexus"
		if st.holds(n) {
			rel = "the holder"
		} else if reg {
			rel = "a registrant"
		}
		w.fail(l, fmt.Sprintf("access:%s-%v-type%d", x.name, want, st.typ), "%s by %s (nexus %d) under a reservation of type %d ended with %s, conflict expected: %v", x.name, rel, n, st.typ, t.Outcome(), want)
		return false
	}
	if got {
		for _, e := range w.ch.Events(before, false) {
			if e.Dev == w.dev[l] && e.Seq > before {
				w.fail(l, "conflict-effect:"+x.name, "%s ended with RESERVATION CONFLICT but the store got %s at %d+%d", x.name, e.Kind, e.Off, e.Len)
				return false
			}
		}
		if len(t.Data) != 0 {
			w.fail(l, "conflict-data", "%s ended with RESERVATION CONFLICT and returned %d bytes", x.name, len(t.Data))
			return false
		}
	}
	return true
}

func (w *prWorld) relogin(n int, how string) bool {
	switch how {
	case "logout":
		w.sess[n].Logout()
		w.sess[n].Close()
	case "reset":
		w.sess[n].Reset()
	case "close":
		w.sess[n].Close()
	}
	s := login(w.r, w.ch, w.cas, w.opts[n])
	if s == nil {
		return false
	}
	if how == "reinstate" {
		w.sess[n].Close()
	}
	w.sess[n] = s
	return true
}

// c16World has five nexuses of target 0 and two of target 1, and with shared one of target 2. With ports the five come
// through several portal groups, some as the same initiator port.
func c16World(r *ck.Run, cas string, shared, ports bool) *prWorld {
	sp := spec1(Dev{ID: 11, Name: "a", Size: 1 << 20, Shift: 9, Thin: true}, Dev{ID: 12, Name: "b", Size: 1 << 20, Shift: 9, Thin: true}, Dev{ID: 13, Name: "c", Size: 1 << 20, Shift: 9, Thin: true})
	d := Dev{ID: 14, Name: "d", Size: 1 << 20, Shift: 9, Thin: true}
	sp.Config.Storages = append(sp.Config.Storages, d.storage())
	sp.Config.ISCSITargets[TN(1)] = config.ISCSITarget{TPGTs: map[string][]uint64{"1": {0}}, LUNs: map[string]uint64{"0": 14}}
	if shared { // the first device behind a third target too
		sp.Config.ISCSITargets[TN(2)] = config.ISCSITarget{TPGTs: map[string][]uint64{"1": {0}}, LUNs: map[string]uint64{"0": 11}}
	}
	tags := []int{1, 257, 65281, 513}
	if ports {
		rng := r.Rng("ports", cas)
		if rng.Intn(2) == 0 {
			tags = []int{1 | rng.Intn(65536), 0, 0, 0}
			how := rng.Intn(3)
			for k := 1; k < 4; k++ { // near or similar ones
				tags[k] = tags[0] ^ 1<<[]uint{uint(8 + k), uint(k), uint(5 + 2*k)}[how]
			}
		}
		tp := map[string][]uint64{}
		sp.Config.ISCSIPortals = nil
		for k, tag := range tags {
			sp.Config.ISCSIPortals = append(sp.Config.ISCSIPortals, config.ISCSIPortalInfo{ID: uint16(k), Portal: fmt.Sprintf("127.0.0.%d:%d", 1+k, sp.Port)})
			tp[fmt.Sprint(tag)] = []uint64{uint64(k)}
		}
		t := sp.Config.ISCSITargets[TN(0)]
		t.TPGTs = tp
		sp.Config.ISCSITargets[TN(0)] = t
	}
	ch := start(r, cas, sp, false)
	if ch == nil {
		return nil
	}
	w := &prWorld{r: r, ch: ch, cas: cas, st: map[int][]*prState{}, hist: map[int][]string{}, dev: []string{"a", "b", "c", "d"}}
	A, B := "iqn.2020-01.verif:alpha", "iqn.2020-01.verif:beta"
	for n, o := range []ini.LoginOpts{
		{Initiator: A, ISID: [6]byte{0x80, 0, 0, 0, 0, 1}}, {Initiator: A, ISID: [6]byte{0x80, 0, 0, 0, 0, 2}}, {Initiator: B, ISID: [6]byte{0x80, 0, 0, 0, 0, 1}},
		{Initiator: "iqn.2020-01.verif:alph", ISID: [6]byte{0x40, 0, 0, 1, 0, 0}}, {Initiator: B, ISID: [6]byte{0, 2, 0x3d, 0, 0, 1}},
		{Initiator: A, ISID: [6]byte{0x80, 0, 0, 0, 0, 1}, Target: TN(1)}, {Initiator: B, ISID: [6]byte{0x80, 0, 0, 0, 0, 1}, Target: TN(1)},
		{Initiator: A, ISID: [6]byte{0x80, 0, 0, 0, 0, 1}, Target: TN(2)},
	} {
		if n == 7 && !shared {
			break
		}
		port := 1
		if o.Target == "" {
			o.Target = TN(0)
			if ports {
				k := []int{0, 1, 0, 2, 3}[n]
				if n == 1 || n == 3 {
					o.Initiator, o.ISID = A, [6]byte{0x80, 0, 0, 0, 0, 1}
				}
				if n == 4 {
					o.Initiator, o.ISID = B, [6]byte{0x80, 0, 0, 0, 0, 1}
				}
				port, o.Addr = tags[k], fmt.Sprintf("127.0.0.%d:%d", 1+k, ch.Spec.Port)
			}
		}
		w.opts, w.port = append(w.opts, o), append(w.port, port)
		s := login(r, ch, cas, o)
		if s == nil {
			ch.Stop()
			return nil
		}
		w.sess = append(w.sess, s)
		w.tgtn = append(w.tgtn, n/5)
	}
	for l := 0; l < 4; l++ {
		w.st[l] = []*prState{{regs: map[int]uint64{}, holder: -1}}
	}
	return w
}
func (w *prWorld) stop() {
	for _, s := range w.sess {
		s.Close()
	}
	w.ch.Stop()
}

func (w *prWorld) randOp(rng *rand.Rand, l int) prOp {
	keys := []uint64{1, 2, 0xabcdef0123456789, 1 << 63, 0x0100000000000000, 0x00000001, 1<<32 | 1, 0xab00000000000001}
	st := w.st[l][rng.Intn(len(w.st[l]))]
	n := w.nexusOf(rng, l)
	o := prOp{n: n, lun: l, plen: 24, blen: 24, typ: []byte{1, 3, 5, 6, 7, 8}[rng.Intn(6)]}
	o.sa = []byte{0, 0, 0, 6, 1, 1, 1, 2, 2, 3, 4, 4, 4, 7}[rng.Intn(14)]
	if rng.Intn(6) > 0 && len(st.regs) == 0 {
		o.sa = []byte{0, 6}[rng.Intn(2)]
	}
	o.key = st.regs[n]
	if rng.Intn(9) == 0 {
		o.key = keys[rng.Intn(len(keys))]
		if rng.Intn(3) == 0 {
			o.key = 0
		}
	}
	if o.sa == 6 && rng.Intn(2) == 0 {
		o.key = rng.Uint64()
	}
	// service action key: mostly of somebody
	var have []uint64
	for _, v := range st.regs {
		have = append(have, v)
	}
	sort.Slice(have, func(a, b int) bool { return have[a] < have[b] })
	switch {
	case o.sa == 4 && len(have) > 0 && rng.Intn(8) > 0:
		o.sakey = have[rng.Intn(len(have))]
		if st.typ != 0 && rng.Intn(3) == 0 && !st.allReg() {
			o.sakey = st.regs[st.holder]
		}
		if st.allReg() && rng.Intn(3) == 0 {
			o.sakey = 0
		}
	case rng.Intn(6) == 0:
		o.sakey = 0
	default:
		o.sakey = keys[rng.Intn(len(keys))]
	}
	if o.sa == 0 || o.sa == 6 {
		if rng.Intn(5) == 0 {
			o.sakey = 0
		}
	}
	if (o.sa == 2 || o.sa == 1) && st.typ != 0 && rng.Intn(5) > 0 {
		o.typ = st.typ
		if rng.Intn(3) > 0 && o.sa == 2 && !st.allReg() {
			o.n = st.holder
			o.key = st.regs[o.n]
		}
	}
	switch rng.Intn(16) {
	case 0:
		o.typ = byte(rng.Intn(16))
	case 1:
		o.scope = byte(rng.Intn(16))
	case 2:
		o.plen = []int{0, 8, 23, 25, 28}[rng.Intn(5)]
		o.blen = o.plen
	case 3:
		o.blen = rng.Intn(24)
	case 4:
		o.flags = []byte{1, 4, 8, 0xd}[rng.Intn(4)]
	case 5:
		if rng.Intn(2) == 0 {
			o.sa = []byte{5, 8, 9, 0x1f}[rng.Intn(4)]
		}
	}
	if o.sa == 7 {
		o.typ, o.scope, o.plen, o.flags = 0, 0, 24, 0
		o.blen = 4096
		if st.typ != 0 && !st.allReg() && rng.Intn(4) > 0 {
			o.n = st.holder
			o.key = st.regs[o.n]
		}
		o.move = w.nexusOf(rng, l)
		o.unreg = rng.Intn(2) == 0
		if rng.Intn(3) == 0 && len(have) > 0 {
			o.sakey = have[rng.Intn(len(have))]
		}
		if rng.Intn(8) == 0 {
			o.sakey = 0
		} else if rng.Intn(10) == 0 {
			o.blen, o.tidBad = rng.Intn(40), true
		} else if rng.Intn(12) == 0 {
			o.plen, o.tidBad = 0, true
		} else if rng.Intn(8) == 0 {
			o.tidKind, o.tidBad = 1+rng.Intn(11), true
		}
	}
	return o
}

func c16Episode(r *ck.Run, i int) {
	rng := r.Rng("ep", i)
	cas := fmt.Sprint(i)
	w := c16World(r, cas, false, r.Rng("world", cas).Intn(3) == 0)
	if w == nil {
		return
	}
	defer w.stop()
	for k := 0; k < r.Q(230, 400); k++ {
		l := []int{0, 0, 0, 0, 1, 1, 2, 3, 3}[rng.Intn(9)]
		switch c := rng.Intn(20); {
		case c < 10:
			if !w.do(w.randOp(rng, l)) {
				return
			}
		case c < 16:
			n := w.nexusOf(rng, l)
			acc := prAccesses(w.lun(l), rng)
			for j := 0; j < 6; j++ {
				if !w.probe(rng, l, n, acc[rng.Intn(len(acc))]) {
					return
				}
			}
		case c == 16:
			l2 := (l + 1 + rng.Intn(3)) % 4
			if !w.readBack(l2, w.nexusOf(rng, l2), "operations-elsewhere") {
				return
			}
		case c == 17:
			n := w.nexusOf(rng, l)
			how := []string{"logout", "reset", "close", "reinstate"}[rng.Intn(4)]
			if rng.Intn(4) == 0 {
				fn := []byte{5, 2, 4, 6, 7}[rng.Intn(5)]
				p, err := w.sess[n].TMF(fn, w.lun(l), 0xffffffff, 0, rng.Intn(2) == 0)
				if err != nil {
					w.sess[n].failed(err, "task management")
					return
				}
				w.hist[l] = append(w.hist[l], fmt.Sprintf("nexus %d: task management %d -> %d", n, fn, p.H[2]))
				r.Eval(fmt.Sprint("tmf", fn, p.H[2]))
				if !w.readBack(l, n, "task-management") {
					return
				}
			}
			w.hist[l] = append(w.hist[l], fmt.Sprintf("nexus %d: %s and a new login", n, how))
			if !w.relogin(n, how) {
				return
			}
			r.Eval("relogin-" + how)
			if !w.readBack(l, n, "a-new-login") {
				return
			}
		case c == 18: // the device behind another LUN as well, or no longer
			m := scsi.LUNMapping{TargetName: w.opts[w.nexusOf(rng, l)].Target, LUN: uint64(30 + rng.Intn(3)), DeviceID: uint64(11 + l)}
			var v tgt.Void
			what := "AddLUN"
			if rng.Intn(3) == 0 {
				what = "DelLUN"
			}
			if err := w.ch.Call(what, m, &v); err != nil {
				w.fail(l, "lun-map", "%s %v failed: %v", what, m, err)
				return
			}
			w.hist[l] = append(w.hist[l], fmt.Sprintf("%s %v", what, m))
			r.Eval("map " + what)
			if !w.readBack(l, w.nexusOf(rng, l), "a-change-of-the-LUN-map") {
				return
			}
		default:
			if !w.burst(rng, l) {
				return
			}
		}
	}
	for l := 0; l < 4; l++ {
		if !w.readBack(l, w.nexusOf(rng, l), "the-end") {
			return
		}
	}
	if i < 3 {
		r.Sample(map[string]interface{}{"history": tail(w.hist[0], 12), "state": w.states(0)})
	}
	dead(r, w.ch, cas, "persistent reservations")
}

// burst sends several commands at once; the answers and the final state must have an order.
func (w *prWorld) burst(rng *rand.Rand, l int) bool {
	var ops []prOp
	used := map[int]bool{}
	for tries := 0; len(ops) < 2+rng.Intn(3) && tries < 20; tries++ {
		o := w.randOp(rng, l)
		if used[o.n] || o.sa == 7 {
			continue
		}
		used[o.n] = true
		ops = append(ops, o)
	}
	outs := make([]string, len(ops))
	var wg sync.WaitGroup
	okAll := true
	var mu sync.Mutex
	for k := range ops {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			t, ok := w.sess[ops[k].n].cmd(w.cmd(ops[k]), "PERSISTENT RESERVE OUT")
			mu.Lock()
			defer mu.Unlock()
			if !ok {
				okAll = false
				return
			}
			outs[k] = prOutcome(t)
		}(k)
	}
	wg.Wait()
	if !okAll {
		return false
	}
	var desc []string
	for k, o := range ops {
		desc = append(desc, o.String()+" -> "+outs[k])
	}
	w.hist[l] = append(w.hist[l], "at once: {"+strings.Join(desc, "; ")+"}")
	seen := map[string]bool{}
	var next []*prState
	var rec func(st *prState, left []int)
	rec = func(st *prState, left []int) {
		if len(left) == 0 {
			if !seen[st.key()] {
				seen[st.key()] = true
				next = append(next, st)
			}
			return
		}
		for j, k := range left {
			rest := append(append([]int{}, left[:j]...), left[j+1:]...)
			for _, x := range prApply(st, ops[k]) {
				if x.out == outs[k] {
					rec(x.st, rest)
				}
			}
		}
	}
	idx := make([]int, len(ops))
	for k := range idx {
		idx[k] = k
	}
	for _, st := range w.st[l] {
		rec(st, idx)
	}
	w.r.Eval(fmt.Sprint("burst", len(ops), outs, w.st[l][0].typ))
	if len(next) == 0 {
		w.fail(l, "no-order", "commands sent at once were answered %v, which no order explains", desc)
		return false
	}
	w.st[l] = next
	return w.readBack(l, ops[0].n, "commands-at-once")
}

// c16Move moves reservations to nexuses that are not registered, or not with the key given.
func c16Move(r *ck.Run) {
	for k, unregDst := range []bool{true, false} {
		cas := fmt.Sprintf("move-%d", k)
		w := c16World(r, cas, false, r.Rng("world", cas).Intn(3) == 0)
		if w == nil {
			return
		}
		ok := w.do(prOp{n: 0, sa: 0, sakey: 0x11, plen: 24, blen: 24}) && w.do(prOp{n: 0, sa: 1, key: 0x11, typ: 3, plen: 24, blen: 24})
		if ok && !unregDst { // nexus 1 has the key that nexus 2 is to get
			ok = w.do(prOp{n: 1, sa: 0, sakey: 0x22, plen: 24, blen: 24}) && w.do(prOp{n: 2, sa: 0, sakey: 0x33, plen: 24, blen: 24})
		}
		if ok {
			o := prOp{n: 0, sa: 7, key: 0x11, sakey: 0x22, plen: 24, blen: 4096, move: 2}
			t, done := w.sess[0].cmd(w.cmd(o), "REGISTER AND MOVE")
			if done {
				r.Eval(fmt.Sprint("move", unregDst, t.Status))
				rd, done := w.sess[2].cmd(ini.ReadCmd(ini.LUN(0), ini.READ10, 0, 1, 512, 0), "READ after move")
				if done && (t.Status != 0 || rd.Status != 0) {
					sig := "move-to-unregistered"
					if !unregDst {
						sig = "move-ignores-transportid"
					}
					w.fail(0, sig, "REGISTER AND MOVE to the initiator port its TransportID names (%s) ended with %s, that port's READ with %s", map[bool]string{true: "not registered", false: "registered with another key"}[unregDst], t.Outcome(), rd.Outcome())
				}
			}
		}
		w.stop()
	}
}

package checks

import (
	"fmt"
	"math/rand"
	"time"

	"verif/ck"
	"verif/ini"
	"verif/mon"
	"verif/tgt"
)

func init() { All["C20"] = Check{Run: c20, Level: "exploration", Min: 2500} }

func c20(r *ck.Run) {
	r.Rule("histories of held writes (no, some or nearly all data sent), commands ahead of their turn, commands blocked in the store, finished commands and ordinary I/O on three sessions (two with equal task tags) and two LUNs, mixed with task management of every function code, immediate and not, alone and in bursts; a table of what is outstanding decides each answer, a byte model and the monitored store decide that aborted commands had no effect and all others theirs; aborted tags get late data and are reused; pings and texts wait for their turn among the commands; LUN numbers that agree in their low byte or order. Distinct by (function, state of the referenced command, immediate, answer)")
	r.Assume("a command whose last data is on the wire together with the request may be aborted or finished, but not both", "LOGICAL UNIT RESET and CLEAR TASK SET answered complete must end the session's own commands; functions may be refused")
	r.Each(r.Q(91, 300), 7, func(i int) { c20Episode(r, i) })
	if r.Only == "" || r.Only == "gate" {
		c20Store(r)
	}
	if r.Only == "" || r.Only == "reset" {
		c20Foreign(r)
	}
}

const c20Dev = 1 << 25

type c20task struct {
	t     *ini.Task
	lun   int
	lba   int64
	n     int64
	data  []byte
	r2t   *ini.R2T
	sent  uint32 // of the current R2T
	dsn   uint32
	state string // held, maybe, aborted, done
}

type c20sess struct {
	*Sess
	tasks []*c20task // held ones
	dead  []*c20task // aborted
	fin   []*ini.Task
}

type c20w struct {
	r    *ck.Run
	ch   *tgt.Child
	cas  string
	rng  *rand.Rand
	s    []*c20sess
	m    [2]*Model
	next [2]int64
	init [][]byte
	no   [2]int
}

func (w *c20w) lun(l int) [8]byte {
	if l > 1 {
		return ini.LUN(l)
	}
	return ini.LUN(w.no[l])
}

func (w *c20w) region(l int, n int64) int64 {
	a := w.next[l]
	w.next[l] += n + int64(w.rng.Intn(3))
	if w.next[l] > c20Dev/512-600 {
		w.next[l] = 0
	}
	return a
}

func (w *c20w) bad(s *c20sess, sig, f string, a ...interface{}) bool {
	w.r.Violate(sig, w.cas, map[string]interface{}{"trace": tail(s.Trace(), 40)}, f, a...)
	return false
}

func c20World(r *ck.Run, cas string, rng *rand.Rand) *c20w {
	sp := spec1(Dev{ID: 1, Name: "a", Size: c20Dev, Shift: 9, Thin: true}, Dev{ID: 2, Name: "b", Size: c20Dev, Shift: 9, Thin: true})
	no := [][2]int{{0, 1}, {1, 0}, {1, 257}, {0, 256}, {257, 1}, {0, 1}}[rng.Intn(6)] // the numbers of the two LUNs
	ls := sp.Config.ISCSITargets[TN(0)].LUNs
	delete(ls, "0")
	delete(ls, "1")
	ls[fmt.Sprint(no[0])], ls[fmt.Sprint(no[1])] = 1, 2
	ch := start(r, cas, sp, false)
	if ch == nil {
		return nil
	}
	w := &c20w{r: r, ch: ch, cas: cas, rng: rng, no: no}
	for l := range w.m {
		w.m[l] = NewModel(c20Dev)
		w.next[l] = int64(rng.Intn(1000))
	}
	for k := 0; k < 3; k++ {
		o := ini.LoginOpts{ISID: [6]byte{0x80, 0x20, 0, 0, 0, byte(k)}, MaxBurst: []uint32{0, 4096, 16384}[rng.Intn(3)], CmdSN: []uint32{0, 1, 0xfffffff0, 0x7ffffffa}[rng.Intn(4)]}
		if k == 2 {
			o.Initiator = "iqn.2020-01.verif:other"
		}
		s := login(r, ch, cas, o)
		if s == nil {
			ch.Stop()
			return nil
		}
		w.s = append(w.s, &c20sess{Sess: s})
	}
	return w
}

// hold starts a write that waits for its data.
func (w *c20w) hold(s *c20sess) bool {
	l := w.rng.Intn(2)
	n := int64(1 + w.rng.Intn(100))
	k := &c20task{lun: l, lba: w.region(l, n), n: n, data: fill(w.rng, int(n*512)), state: "held"}
	cm := ini.WriteCmd(w.lun(l), []byte{ini.WRITE10, ini.WRITE12, ini.WRITE16}[w.rng.Intn(3)], uint64(k.lba), uint32(n), k.data, 0)
	cm.Hold = true
	cm.Imm = w.rng.Intn(len(k.data))
	if w.rng.Intn(3) == 0 {
		cm.Imm = 0
	}
	cm.NowBit = w.rng.Intn(6) == 0
	if w.rng.Intn(3) == 0 { // tags are the initiator's choice
		cm.ITT = w.rng.Uint32() | 0x40000000
		if len(s.tasks) > 0 && w.rng.Intn(2) == 0 {
			cm.ITT = s.tasks[0].t.ITT ^ 1<<uint(16+w.rng.Intn(16))
		}
		for _, o := range append(s.tasks, s.dead...) {
			if o.t.ITT == cm.ITT || cm.ITT == 0xffffffff {
				cm.ITT = 0
				break
			}
		}
		for _, o := range s.fin {
			if o.ITT == cm.ITT {
				cm.ITT = 0
				break
			}
		}
	}
	if len(s.dead) > 0 && w.rng.Intn(2) == 0 { // the tag of an aborted command
		cm.ITT = s.dead[len(s.dead)-1].t.ITT
		for _, o := range s.tasks {
			if o.t.ITT == cm.ITT {
				cm.ITT = 0
			}
		}
		if cm.ITT != 0 {
			w.r.Add("tags_reused_after_abort", 1)
		}
	}
	k.t = s.Submit(cm)
	q, ok := k.t.NextR2T(ini.Watchdog)
	if !ok {
		if k.t.Err != nil || !k.t.Done() {
			s.failed(k.t.Err, "write")
		} else {
			w.bad(s, "write-ended", "a write waiting for data ended with %s", k.t.Outcome())
		}
		return false
	}
	k.r2t = &q
	s.tasks = append(s.tasks, k)
	return true
}

// part sends some of the data a held write is waiting for, not all.
func (w *c20w) part(s *c20sess, k *c20task) {
	left := k.r2t.Len - k.sent
	if left < 2 {
		return
	}
	n := uint32(1 + w.rng.Intn(int(min(left-1, 8192))))
	off := k.r2t.Off + k.sent
	s.SendRaw(k.t.DataOut(k.r2t.TTT, k.dsn, off, k.data[off:off+n], false))
	k.dsn++
	k.sent += n
}

// rest is the data answering the current R2T.
func (k *c20task) rest(s *c20sess) []*ini.PDU {
	var out []*ini.PDU
	for k.sent < k.r2t.Len {
		n := min(k.r2t.Len-k.sent, s.TgtMRDSL)
		off := k.r2t.Off + k.sent
		k.sent += n
		out = append(out, k.t.DataOut(k.r2t.TTT, k.dsn, off, k.data[off:off+n], k.sent == k.r2t.Len))
		k.dsn++
	}
	return out
}

func (s *c20sess) drop(k *c20task) {
	for i, o := range s.tasks {
		if o == k {
			s.tasks = append(append([]*c20task{}, s.tasks[:i]...), s.tasks[i+1:]...)
		}
	}
}

// finish completes a held write, which must work.
func (w *c20w) finish(s *c20sess, k *c20task, why string) bool {
	for {
		for _, p := range k.rest(s) {
			s.SendRaw(p)
		}
		q, ok := k.t.NextR2T(ini.Watchdog)
		if !ok {
			break
		}
		k.r2t, k.sent, k.dsn = &q, 0, 0
	}
	if !s.wait(k.t, "write with all its data sent ("+why+")") {
		return false
	}
	s.drop(k)
	if k.t.Status != 0 {
		return w.bad(s, "bystander-failed:"+why, "a write that was not aborted ended with %s (%s)", k.t.Outcome(), why)
	}
	w.m[k.lun].Write(k.lba*512, k.data)
	s.fin = append(s.fin, k.t)
	w.r.Add("bystanders_finished", 1)
	return true
}

// aborted notes that the target said so.
func (w *c20w) aborted(s *c20sess, k *c20task) bool {
	s.drop(k)
	if k.t.Done() && k.t.Err == nil && k.t.Status == 0 {
		return w.bad(s, "aborted-good", "a command reported as aborted has ended with GOOD")
	}
	s.Forget(k.t, "aborted")
	k.state = "aborted"
	s.dead = append(s.dead, k)
	w.r.Add("commands_aborted", 1)
	if w.rng.Intn(2) == 0 { // data that was on its way
		for _, p := range k.rest(s) {
			s.SendRaw(p)
		}
		w.r.Add("late_data_after_abort", 1)
	}
	return true
}

// plain is an ordinary command before or after.
func (w *c20w) plain(s *c20sess, why string) bool {
	l := w.rng.Intn(2)
	n := int64(1 + w.rng.Intn(20))
	if w.rng.Intn(2) == 0 {
		a := w.region(l, n)
		d := fill(w.rng, int(n*512))
		t, ok := s.cmd(ini.WriteCmd(w.lun(l), ini.WRITE10, uint64(a), uint32(n), d, 0), "write "+why)
		if !ok {
			return false
		}
		if t.Status != 0 {
			return w.bad(s, "plain-failed:"+why, "an ordinary write %s ended with %s", why, t.Outcome())
		}
		w.m[l].Write(a*512, d)
		s.fin = append(s.fin, t)
		return true
	}
	a := w.rng.Int63n(w.next[l] + 10)
	t, ok := s.cmd(ini.ReadCmd(w.lun(l), ini.READ10, uint64(a), uint32(n), 512, 0), "read "+why)
	if !ok {
		return false
	}
	if t.Status != 0 {
		return w.bad(s, "plain-failed:"+why, "an ordinary read %s ended with %s", why, t.Outcome())
	}
	if d := diffAt(t.Data, w.m[l].Read(a*512, int(n*512))); d >= 0 {
		return w.bad(s, "wrong-data:"+why, "a read %s of LUN %d at block %d returned other data than was written, first difference at byte %d", why, l, a, d)
	}
	s.fin = append(s.fin, t)
	return true
}

func c20Episode(r *ck.Run, i int) {
	rng := r.Rng("ep", i)
	w := c20World(r, fmt.Sprint(i), rng)
	if w == nil {
		return
	}
	defer w.ch.Stop()
	for step := 0; step < r.Q(140, 300); step++ {
		si := rng.Intn(3)
		s := w.s[si]
		ok := true
		switch c := rng.Intn(20); {
		case c < 5 && len(s.tasks) < 8:
			ok = w.hold(s)
		case c < 7 && len(s.tasks) > 0:
			w.part(s, s.tasks[rng.Intn(len(s.tasks))])
		case c < 8 && len(s.tasks) > 0:
			ok = w.finish(s, s.tasks[rng.Intn(len(s.tasks))], "after task management of others")
		case c < 11:
			ok = w.plain(s, "between task management")
		case c < 17:
			ok = w.tmf(si)
		case c < 18:
			ok = w.burst(si)
		case c < 19:
			ok = w.ahead(si)
		default:
			ok = w.raceData(si)
		}
		if !ok || r.Violated() {
			return
		}
	}
	for _, s := range w.s {
		for len(s.tasks) > 0 {
			k := s.tasks[0]
			if k.state == "maybe" {
				s.drop(k)
				s.Forget(k.t, "its logical unit was reset")
				continue
			}
			if !w.finish(s, k, "at the end") {
				return
			}
		}
		if !w.plain(s, "at the end") {
			return
		}
		if p, err := s.Nop([]byte("ping"), true); err != nil || string(p.Data) != "ping" {
			s.failed(err, "ping at the end")
			return
		}
		for _, p := range []string{"C06", "C07", "C08"} {
			s.protocol(p)
		}
		if len(s.Strange) > 0 {
			w.bad(s, "strange-pdu", "the target sent %s", s.Strange[0])
		}
	}
	for l, n := range []string{"a", "b"} {
		if off, what := compareMedium(w.ch, n, w.m[l]); what != "" {
			w.r.Violate("aborted-effect", w.cas, nil, "LUN %d differs from what the not aborted writes stored, at byte %d: %s", l, off, what)
		}
	}
	if i < 3 {
		r.Sample(map[string]interface{}{"trace": tail(w.s[0].Trace(), 25)})
	}
	dead(r, w.ch, w.cas, "task management")
}

// tmf sends one request and judges the answer against the table of outstanding commands.
func (w *c20w) tmf(si int) bool {
	s, rng := w.s[si], w.rng
	imm := rng.Intn(2) == 0
	fn := byte(1)
	if rng.Intn(3) == 0 {
		fn = []byte{2, 2, 2, 5, 5, 5, 3, 4, 6, 7, 8, 0, 9, 0x1f, 0x7f, 11}[rng.Intn(16)]
	}
	l := rng.Intn(2)
	lun := w.lun(l)
	var ref, refSN uint32
	var target *c20task
	state := "unknown"
	if rng.Intn(12) == 0 {
		fn = byte(rng.Intn(128))
	}
	if fn != 1 {
		state = "-"
		ref = 0xffffffff
		if (fn == 0 || fn > 7) && len(s.tasks) > 0 { // a function that does nothing does nothing to a command named
			k := s.tasks[rng.Intn(len(s.tasks))]
			l = k.lun
			ref, refSN, lun = k.t.ITT, k.t.CmdSN, w.lun(k.lun)
		}
	} else {
		refSN = s.CmdSN() - 20
		switch rng.Intn(6) {
		case 0, 1, 2:
			if len(s.tasks) > 0 {
				target = s.tasks[rng.Intn(len(s.tasks))]
				state, ref, refSN, lun = target.state, target.t.ITT, target.t.CmdSN, w.lun(target.lun)
				break
			}
			fallthrough
		case 3:
			if len(s.fin) > 0 {
				t := s.fin[rng.Intn(len(s.fin))]
				state, ref, refSN = "finished", t.ITT, t.CmdSN
				copy(lun[:], t.Cmd.LUN[:])
			} else {
				ref = 0xabcd0000 + rng.Uint32()&0xffff
			}
		case 4:
			o := w.s[(si+1+rng.Intn(2))%3]
			if len(o.tasks) > 0 {
				t := o.tasks[rng.Intn(len(o.tasks))]
				state, ref, lun = "foreign", t.t.ITT, w.lun(t.lun)
			} else {
				ref = 0xabcd0000 + rng.Uint32()&0xffff
			}
		default:
			if len(s.dead) > 0 && rng.Intn(2) == 0 {
				t := s.dead[rng.Intn(len(s.dead))]
				state, ref, refSN, lun = "aborted", t.t.ITT, t.t.CmdSN, w.lun(t.lun)
			} else {
				ref = 0xabcd0000 + rng.Uint32()&0xffff
			}
		}
		if len(s.tasks) > 0 && rng.Intn(8) == 0 { // nearly the tag of an outstanding one
			k := s.tasks[rng.Intn(len(s.tasks))]
			state, ref, refSN, lun, target = "unknown", k.t.ITT^(1<<uint(rng.Intn(32))), k.t.CmdSN, w.lun(k.lun), nil
		}
		for _, k := range s.tasks { // tags are reused: what counts is what is outstanding now
			if k.t.ITT == ref {
				target, state, refSN, lun = k, k.state, k.t.CmdSN, w.lun(k.lun)
			}
		}
	}
	p, err := s.TMF(fn, lun, ref, refSN, imm)
	if err != nil {
		s.failed(err, fmt.Sprintf("task management function %d", fn))
		return false
	}
	if p.Op() != ini.OpTMFResp {
		return w.bad(s, "tmf-answer-kind", "task management function %d is answered by %s", fn, p)
	}
	a := p.H[2]
	w.r.Eval(fmt.Sprintf("fn%d %s imm=%v sess=%d %d", fn, state, imm, si, a))
	if fn > 8 {
		w.r.Add(fmt.Sprintf("tmf_reserved_answer%d", a), 1)
	} else {
		w.r.Add(fmt.Sprintf("tmf_fn%d_answer%d", fn, a), 1)
	}
	if p.H[1] != 0x80 {
		return w.bad(s, "tmf-flags", "%s: flags byte %02x", p, p.H[1])
	}
	if len(p.Data) != 0 {
		return w.bad(s, "tmf-data", "%s: carries data", p)
	}
	switch {
	case fn == 1 && target != nil && state == "held":
		if a == 1 {
			return w.bad(s, "abort:outstanding-unknown", "ABORT TASK of a command still waiting for data (%d of %d bytes sent) is answered 'task does not exist'", target.r2t.Off+target.sent, len(target.data))
		}
		if a == 0 {
			return w.aborted(s, target)
		}
	case fn == 1 && state == "maybe":
		if a == 0 {
			return w.aborted(s, target)
		}
	case fn == 1:
		if a != 1 {
			return w.bad(s, "abort:"+state, "ABORT TASK of a %s command (tag %x) is answered %d instead of 'task does not exist'", state, ref, a)
		}
	case fn == 2 || fn == 4 || fn == 5:
		if a == 0 {
			for _, k := range append([]*c20task{}, s.tasks...) {
				if k.lun == l && !w.aborted(s, k) {
					return false
				}
			}
			if fn != 2 {
				for j, o := range w.s {
					for _, k := range o.tasks {
						if j != si && k.lun == l {
							k.state = "maybe"
						}
					}
				}
			}
			for j, o := range w.s { // not to be waited for any more
				for _, k := range append([]*c20task{}, o.tasks...) {
					if j != si && k.state == "maybe" && !w.settle(o, k) {
						return false
					}
				}
			}
		} else if a == 1 {
			return w.bad(s, fmt.Sprintf("no-task:%d", fn), "function %d, which names no task, is answered 'task does not exist'", fn)
		}
	case fn == 3:
	default:
		if a == 0 {
			return w.bad(s, fmt.Sprintf("unsupported:%d", fn), "task management function %d is answered 'complete'", fn)
		}
		if (fn == 0 || fn > 8) && a != 5 && a != 0xff {
			return w.bad(s, fmt.Sprintf("unsupported:%d", fn), "reserved task management function %d is answered %d", fn, a)
		}
	}
	return true
}

// settle finds out what became of a command of another session after a reset: it works as a whole, or has no effect.
func (w *c20w) settle(s *c20sess, k *c20task) bool {
	for {
		for _, p := range k.rest(s) {
			s.SendRaw(p)
		}
		p, err := s.Nop(nil, true)
		if err != nil {
			s.failed(err, "ping")
			return false
		}
		_ = p
		q, ok := k.t.NextR2T(0)
		if !ok {
			break
		}
		k.r2t, k.sent, k.dsn = &q, 0, 0
	}
	s.drop(k)
	if k.t.Done() && k.t.Err == nil && k.t.Status == 0 {
		w.m[k.lun].Write(k.lba*512, k.data)
		s.fin = append(s.fin, k.t)
		return true
	}
	s.Forget(k.t, "its logical unit was reset")
	return true
}

// burst sends several requests in one go; each gets its own answer.
func (w *c20w) burst(si int) bool {
	s, rng := w.s[si], w.rng
	type req struct {
		k  *c20task
		ch chan *ini.PDU
		fn byte
	}
	var reqs []req
	used := map[*c20task]bool{}
	for j := 0; j < 2+rng.Intn(6); j++ {
		q := req{fn: []byte{1, 1, 1, 3, 6, 8, 99}[rng.Intn(7)]}
		ref, sn := uint32(0xbeef0000+j), s.CmdSN()-30
		if q.fn == 1 && len(s.tasks) > 0 {
			q.k = s.tasks[rng.Intn(len(s.tasks))]
			ref, sn = q.k.t.ITT, q.k.t.CmdSN
		}
		l := 0
		if q.k != nil {
			l = q.k.lun
		}
		q.ch = s.TMFAsync(q.fn, w.lun(l), ref, sn, rng.Intn(2) == 0)
		reqs = append(reqs, q)
	}
	for _, q := range reqs {
		p, err := ini.WaitPDU(q.ch)
		if err != nil {
			s.failed(err, fmt.Sprintf("task management function %d in a burst", q.fn))
			return false
		}
		a := p.H[2]
		w.r.Eval(fmt.Sprintf("burst fn%d again=%v %d", q.fn, used[q.k], a))
		switch {
		case q.fn == 1 && q.k == nil:
			if a != 1 {
				return w.bad(s, "burst:unknown", "ABORT TASK of an unknown tag is answered %d", a)
			}
		case q.fn == 1 && used[q.k]:
			if a == 0 && q.k.state == "aborted" {
				return w.bad(s, "burst:twice", "the second ABORT TASK of one command is answered 'complete' too")
			}
		case q.fn == 1:
			used[q.k] = true
			if a == 1 {
				return w.bad(s, "burst:outstanding-unknown", "ABORT TASK of a command waiting for data is answered 'task does not exist'")
			}
			if a == 0 && !w.aborted(s, q.k) {
				return false
			}
		case a == 0 && q.fn != 3:
			return w.bad(s, fmt.Sprintf("burst:unsupported:%d", q.fn), "task management function %d is answered 'complete'", q.fn)
		}
	}
	return true
}

// ahead leaves a gap in the numbers, so that commands wait for their turn, and aborts some of them.
func (w *c20w) ahead(si int) bool {
	s, rng := w.s[si], w.rng
	gap := s.TakeCmdSN()
	var ks []*c20task
	for j := 0; j < 2+rng.Intn(5); j++ {
		l := rng.Intn(2)
		n := int64(1 + rng.Intn(12))
		k := &c20task{lun: l, lba: w.region(l, n), n: n, data: fill(rng, int(n*512)), state: "ahead"}
		cm := ini.WriteCmd(w.lun(l), ini.WRITE10, uint64(k.lba), uint32(n), k.data, 0)
		if rng.Intn(3) == 0 {
			cm.Imm = rng.Intn(len(k.data)) // needs an R2T once it is its turn
		}
		k.t = s.Submit(cm)
		ks = append(ks, k)
	}
	// requests that are no commands wait as well, and belong to no logical unit
	var pings []chan *ini.PDU
	for j := rng.Intn(3); j > 0; j-- {
		pings = append(pings, s.RequestAt(ini.NopPDU([]byte(fmt.Sprint("waiting", j))), s.TakeCmdSN()))
		if rng.Intn(2) == 0 {
			pings = append(pings, s.RequestAt(ini.TextPDU([]ini.KV{{K: "SendTargets", V: ""}}), s.TakeCmdSN()))
		}
	}
	var asked chan *ini.PDU
	fn := byte(1)
	whole := rng.Intn(4) == 0
	l := rng.Intn(2)
	if whole {
		fn = 2
		p, err := s.TMF(2, w.lun(l), 0xffffffff, 0, true)
		if err != nil {
			s.failed(err, "ABORT TASK SET while commands wait for their turn")
			return false
		}
		w.r.Eval(fmt.Sprintf("ahead set %d", p.H[2]))
		if p.H[2] == 0 {
			for _, k := range append([]*c20task{}, s.tasks...) {
				if k.lun == l && !w.aborted(s, k) {
					return false
				}
			}
			// whether commands with higher numbers than the request belong to the set is left open
			for _, k := range ks {
				if k.lun == l {
					k.state = "maybe"
				}
			}
		}
	} else {
		for _, k := range ks {
			if rng.Intn(2) == 0 {
				continue
			}
			p, err := s.TMF(1, w.lun(k.lun), k.t.ITT, k.t.CmdSN, true)
			if err != nil {
				s.failed(err, "ABORT TASK of a command ahead of its turn")
				return false
			}
			w.r.Eval(fmt.Sprintf("ahead abort %d", p.H[2]))
			if p.H[2] == 0 {
				s.Forget(k.t, "aborted")
				k.state = "aborted"
				w.r.Add("commands_aborted", 1)
			}
			if p.H[2] == 1 {
				return w.bad(s, "abort:ahead-unknown", "ABORT TASK of a command received ahead of its turn, not answered yet, is answered 'task does not exist'")
			}
			if k.t.Done() {
				return w.bad(s, "ahead-ran", "a command ahead of its turn has been answered: %s", k.t.Outcome())
			}
		}
		if rng.Intn(2) == 0 { // a numbered request comes after all of them
			asked = s.TMFAsync(1, w.lun(ks[0].lun), ks[0].t.ITT, ks[0].t.CmdSN, false)
		}
	}
	// fill the gap
	t := &ini.PDU{}
	t.H[0], t.H[1] = ini.OpNop, 0x80
	t.Put32(16, 0xffffffff)
	t.Put32(20, 0xffffffff)
	t.Put32(24, gap)
	t.Put32(28, s.ExpStatSN())
	s.SendRaw(t)
	_ = fn
	if p, err := s.Nop([]byte("x"), false); err != nil || string(p.Data) != "x" {
		s.failed(err, "ping after commands ahead of their turn were aborted")
		return false
	}
	for j, c := range pings {
		p, err := ini.WaitPDU(c)
		if err != nil {
			s.failed(err, fmt.Sprintf("ping or text %d that waited for its turn while commands were aborted (set: %v)", j, whole))
			return false
		}
		if p.Op() != ini.OpNopIn && p.Op() != ini.OpTextResp {
			return w.bad(s, "waiting-request", "a ping or text request that waited for its turn is answered by %s", p)
		}
		w.r.Add("waiting_pings", 1)
	}
	for j, k := range ks {
		switch k.state {
		case "aborted":
			if k.t.Done() && k.t.Err == nil {
				return w.bad(s, "ahead-aborted-answered", "a command aborted ahead of its turn is answered with %s", k.t.Outcome())
			}
		case "maybe":
			for z := 0; z < 6 && !k.t.Done(); z++ { // R2Ts are answered when they arrive
				if _, err := s.Nop(nil, true); err != nil {
					s.failed(err, "ping")
					return false
				}
			}
			if k.t.Done() && k.t.Err == nil && k.t.Status == 0 {
				w.m[k.lun].Write(k.lba*512, k.data)
			} else {
				s.Forget(k.t, "aborted")
			}
		default:
			if j == 0 && asked != nil { // it may have been caught while waiting for data
				p, err := ini.WaitPDU(asked)
				asked = nil
				if err != nil {
					s.failed(err, "ABORT TASK")
					return false
				}
				if p.H[2] == 0 {
					if k.t.Done() && k.t.Status == 0 {
						return w.bad(s, "ahead-abort-good", "ABORT TASK is answered 'complete' for a command that ended with GOOD")
					}
					s.Forget(k.t, "aborted")
					continue
				}
			}
			if !s.wait(k.t, "write that waited for its turn") {
				return false
			}
			if k.t.Status != 0 {
				return w.bad(s, "ahead-failed", "a write that waited for its turn and was not aborted ended with %s", k.t.Outcome())
			}
			w.m[k.lun].Write(k.lba*512, k.data)
			s.fin = append(s.fin, k.t)
		}
	}
	if asked != nil {
		p, err := ini.WaitPDU(asked)
		if err != nil {
			s.failed(err, "ABORT TASK")
			return false
		}
		if p.H[2] == 0 && ks[0].state == "aborted" {
			return w.bad(s, "abort:twice", "the second ABORT TASK of one command is answered 'complete' too")
		}
	}
	w.r.Add("gaps", 1)
	return true
}

// raceData sends the last data and the abort together.
func (w *c20w) raceData(si int) bool {
	s, rng := w.s[si], w.rng
	if len(s.tasks) == 0 {
		return true
	}
	k := s.tasks[rng.Intn(len(s.tasks))]
	if k.state != "held" || k.r2t.Off+k.r2t.Len != uint32(len(k.data)) {
		return true
	}
	first := rng.Intn(2) == 0
	if first {
		for _, p := range k.rest(s) {
			s.SendRaw(p)
		}
	}
	imm := rng.Intn(2) == 0
	ch := s.TMFAsync(1, w.lun(k.lun), k.t.ITT, k.t.CmdSN, imm)
	if !first {
		for _, p := range k.rest(s) {
			s.SendRaw(p)
		}
	}
	p, err := ini.WaitPDU(ch)
	if err != nil {
		s.failed(err, "ABORT TASK together with the last data")
		return false
	}
	if _, err := s.Nop(nil, true); err != nil { // whatever was to be sent before has been
		s.failed(err, "ping")
		return false
	}
	w.r.Eval(fmt.Sprintf("race data-first=%v imm=%v %d", first, imm, p.H[2]))
	switch {
	case p.H[2] == 0:
		k.sent = k.r2t.Len
		return w.aborted(s, k)
	case p.H[2] == 1 && !first:
		return w.bad(s, "race:outstanding-unknown", "ABORT TASK sent before the last data is answered 'task does not exist'")
	}
	return w.finish(s, k, "abort came too late")
}

// c20Store aborts commands that are blocked in the store, or behind one.
func c20Store(r *ck.Run) {
	r.Each(r.Q(24, 120), 6, func(i int) {
		rng := r.Rng("gate", i)
		w := c20World(r, "gate", rng)
		if w == nil {
			return
		}
		defer w.ch.Stop()
		for round := 0; round < 6; round++ {
			g := fmt.Sprint("g", round)
			w.ch.AddFault(mon.Fault{Dev: "a", Kind: []string{"write", "read", "sync"}[round%3], Mode: "gate", Gate: g, Count: 1})
			si := rng.Intn(3)
			s := w.s[si]
			lba := w.region(0, 8)
			d := fill(rng, 4096)
			var x *ini.Task
			switch round % 3 {
			case 0:
				x = s.Submit(ini.WriteCmd(w.lun(0), ini.WRITE10, uint64(lba), 8, d, 0))
			case 1:
				x = s.Submit(ini.ReadCmd(w.lun(0), ini.READ10, uint64(lba), 8, 512, 0))
			default:
				x = s.Submit(ini.NoData(w.lun(0), ini.RW(ini.SYNC10, uint64(lba), 8, 0)))
			}
			for k := 0; k < 4000 && w.ch.AtGate(g) == 0; k++ {
				time.Sleep(500 * time.Microsecond)
			}
			// behind it: a write that can run and one that needs data
			lba2 := w.region(1, 8)
			d2 := fill(rng, 4096)
			y := s.Submit(ini.WriteCmd(w.lun(1), ini.WRITE10, uint64(lba2), 8, d2, 0))
			cm := ini.WriteCmd(w.lun(1), ini.WRITE10, uint64(w.region(1, 8)), 8, fill(rng, 4096), 0)
			cm.Hold, cm.Imm = true, 512
			z := s.Submit(cm)
			ref := []*ini.Task{x, y, z}[rng.Intn(3)]
			ch := s.TMFAsync(1, w.lun(0), ref.ITT, ref.CmdSN, rng.Intn(2) == 0)
			ch2 := s.TMFAsync(1, w.lun(1), z.ITT, z.CmdSN, true)
			// the other sessions go on meanwhile
			if round%3 != 2 && !w.plain(w.s[(si+1)%3], "beside a blocked command") {
				return
			}
			w.ch.Release(g)
			p, err := ini.WaitPDU(ch)
			if err == nil {
				var p2 *ini.PDU
				if p2, err = ini.WaitPDU(ch2); err == nil {
					if (ref != z || p.H[2] != 0) && p2.H[2] == 1 {
						w.bad(s, "gate:outstanding-unknown", "ABORT TASK of a write waiting for data behind a blocked command is answered 'task does not exist'")
						return
					}
					if ref == z && p.H[2] == 0 || p2.H[2] == 0 {
						s.Forget(z, "aborted")
					} else {
						w.bad(s, "gate:not-aborted", "the write waiting for data was not aborted: %d, %d", p.H[2], p2.H[2])
						return
					}
				}
			}
			if err != nil {
				s.failed(err, "ABORT TASK beside a blocked command")
				return
			}
			if _, err := s.Nop(nil, true); err != nil {
				s.failed(err, "ping")
				return
			}
			w.r.Eval(fmt.Sprintf("gate kind%d ref=%v %d", round%3, map[*ini.Task]string{x: "blocked", y: "behind", z: "waiting"}[ref], p.H[2]))
			for j, t := range []*ini.Task{x, y} {
				abortedIt := t == ref && p.H[2] == 0
				if abortedIt {
					if t.Done() && t.Err == nil && t.Status == 0 {
						w.bad(s, "gate:aborted-good", "a command reported as aborted has ended with GOOD")
						return
					}
					continue
				}
				if !s.wait(t, "command that was not aborted") {
					return
				}
				if t.Status != 0 {
					w.bad(s, "gate:bystander-failed", "a command that was not aborted ended with %s", t.Outcome())
					return
				}
				if j == 0 && round%3 == 0 {
					w.m[0].Write(lba*512, d)
				}
				if j == 1 {
					w.m[1].Write(lba2*512, d2)
				}
			}
			if !w.plain(s, "after an abort of a blocked command") {
				return
			}
		}
		for l, n := range []string{"a", "b"} {
			if off, what := compareMedium(w.ch, n, w.m[l]); what != "" {
				r.Violate("aborted-effect-gate", "gate", nil, "LUN %d differs from what the not aborted writes stored, at byte %d: %s", l, off, what)
			}
		}
		for _, s := range w.s {
			s.protocol("C06")
			s.protocol("C07")
		}
	})
}

// c20Foreign looks at what LOGICAL UNIT RESET does to the commands of other sessions.
func c20Foreign(r *ck.Run) {
	rng := r.Rng("foreign")
	w := c20World(r, "reset", rng)
	if w == nil {
		return
	}
	defer w.ch.Stop()
	s, o := w.s[0], w.s[2]
	if !w.hold(o) {
		return
	}
	k := o.tasks[0]
	p, err := s.TMF(5, w.lun(k.lun), 0xffffffff, 0, true)
	if err != nil {
		s.failed(err, "LOGICAL UNIT RESET")
		return
	}
	r.Eval("reset foreign")
	if p.H[2] != 0 {
		return
	}
	if !w.settle(o, k) {
		return
	}
	if k.t.Done() && k.t.Err == nil && k.t.Status == 0 {
		r.Violate("lun-reset-spares-other-sessions", "reset", tail(o.Trace(), 20), "LOGICAL UNIT RESET is answered 'complete', but a command of another session that was waiting for data on that LU goes on and takes effect")
	}
}

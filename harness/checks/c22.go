package checks

import (
	"fmt"
	"math/rand"
	"reflect"
	"sync"
	"time"

	"verif/ck"
	"verif/ini"
	"verif/mon"
	"verif/tgt"

	"github.com/gostor/gotgt/pkg/config"
	"github.com/gostor/gotgt/pkg/scsi"
)

func init() { All["C22"] = Check{Run: c22, Level: "exploration", Min: 2000} }

func c22(r *ck.Run) {
	r.Rule("servers with statistics on, 1-6 sessions on several LUNs and targets at once sending commands of every kind (reads and writes of all forms and sizes, failing, unknown and conflicting ones, expected lengths unlike the CDB's, immediate delivery, directions contrary to the operation, expected lengths up to 2^32-1, duplicate tags, commands ahead of their turn, pipelined, held and aborted) besides pings, text and task management; while they run, every snapshot must lie between what was answered before and what was sent until it and never go back; with nothing outstanding the counters must be exactly what the initiators counted; after lost connections they must be within what was left unanswered and then stay; the times are bounded by what the initiators measured; snapshots kept are compared later. Distinct by (kind of look, sessions, commands counted)")
	r.Assume("read and write operations are READ and WRITE (6), (10), (12) and (16), as the opcode says, whatever their status; amounts are expected data transfer lengths in bytes")
	r.Each(r.Q(160, 2000), 7, func(i int) { c22World(r, i) })
	r.Each(r.Q(21, 100), 7, func(i int) { c22Time(r, i) })
}

// c22cnt is what an initiator knows.
type c22cnt struct {
	op             [256]int64
	rd, wr, rb, wb int64
	rt, wt         int64
}

func c22kind(op byte) int {
	switch op {
	case ini.READ6, ini.READ10, ini.READ12, ini.READ16:
		return 1
	case ini.WRITE6, ini.WRITE10, ini.WRITE12, ini.WRITE16:
		return 2
	}
	return 0
}

func (c *c22cnt) add(op byte, edtl uint32, d time.Duration) {
	c.op[op]++
	switch c22kind(op) {
	case 1:
		c.rd++
		c.rb += int64(edtl)
		c.rt += int64(d)
	case 2:
		c.wr++
		c.wb += int64(edtl)
		c.wt += int64(d)
	}
}

func c22from(s scsi.Stats) (c c22cnt) {
	for k, n := range s.SCSIIOCount {
		if k >= 0 && k < 256 {
			c.op[k] = n
		}
	}
	c.rd, c.wr, c.rb, c.wb = s.ReadIOPS, s.WriteIOPS, s.TotalReadBlockCount, s.TotalWriteBlockCount
	c.rt, c.wt = s.TotalReadTime, s.TotalWriteTime
	return
}

// below tells where c is not at most d.
func (c *c22cnt) below(d *c22cnt) string {
	for k := range c.op {
		if c.op[k] > d.op[k] {
			return fmt.Sprintf("%s counted: %d against %d", opName(byte(k)), c.op[k], d.op[k])
		}
	}
	for _, x := range []struct {
		n    string
		a, b int64
	}{{"reads", c.rd, d.rd}, {"writes", c.wr, d.wr}, {"bytes read", c.rb, d.rb}, {"bytes written", c.wb, d.wb}} {
		if x.a > x.b {
			return fmt.Sprintf("%s: %d against %d", x.n, x.a, x.b)
		}
	}
	return ""
}

type c22w struct {
	r    *ck.Run
	ch   *tgt.Child
	cas  string
	mu   sync.Mutex
	ans  c22cnt // answered
	sent c22cnt // sent and not known to be aborted
	base time.Time
	last c22cnt
	held map[int]scsi.Stats
}

func (w *c22w) snap() (c22cnt, scsi.Stats, bool) {
	s, err := w.ch.Stats()
	if err != nil {
		if !dead(w.r, w.ch, w.cas, "statistics") {
			w.r.Violate("stats-failed", w.cas, nil, "asking for the statistics failed: %v", err)
		}
		return c22cnt{}, s, false
	}
	for k := range s.SCSIIOCount {
		if k < 0 || k > 255 {
			w.r.Violate("odd-opcode", w.cas, s.SCSIIOCount, "the statistics count an operation code %d", k)
			return c22cnt{}, s, false
		}
	}
	return c22from(s), s, true
}

// look compares a snapshot taken at any time with what is known before and after.
func (w *c22w) look() bool {
	w.mu.Lock()
	lo := w.ans
	w.mu.Unlock()
	c, _, ok := w.snap()
	if !ok {
		return false
	}
	w.mu.Lock()
	hi := w.sent
	w.mu.Unlock()
	m, sig := lo.below(&c), "lost"
	if m == "" {
		m, sig = c.below(&hi), "too-many"
	}
	if m == "" {
		m, sig = w.last.below(&c), "went-back"
	}
	if m == "" && (c.rt < w.last.rt || c.wt < w.last.wt) {
		m, sig = fmt.Sprintf("times %d, %d after %d, %d", c.rt, c.wt, w.last.rt, w.last.wt), "time-went-back"
	}
	if m != "" {
		w.r.Violate(sig, w.cas, map[string]interface{}{"answered": lo, "snapshot": c, "sent": hi}, "during use: %s", m)
		return false
	}
	w.last = c
	w.r.Add("snapshots_during_use", 1)
	return true
}

// exact compares at rest.
func (w *c22w) exact(when string, n int) bool {
	c, st, ok := w.snap()
	if !ok {
		return false
	}
	w.mu.Lock()
	a := w.ans
	w.mu.Unlock()
	m := a.below(&c)
	sig := "lost"
	if m == "" {
		m, sig = c.below(&a), "too-many"
	}
	if m == "" && (c.rt > a.rt || c.wt > a.wt || c.rt < 0 || c.wt < 0) {
		m, sig = fmt.Sprintf("time spent is %v and %v, the initiators waited %v and %v", time.Duration(c.rt), time.Duration(c.wt), time.Duration(a.rt), time.Duration(a.wt)), "time"
	}
	if m == "" && !st.IsClientConnected && n > 0 {
		m, sig = fmt.Sprintf("no client is said to be connected, %d sessions are open", n), "connected"
	}
	if m != "" {
		w.r.Violate(sig, w.cas, map[string]interface{}{"answered": a, "snapshot": c}, "%s: %s", when, m)
		return false
	}
	var tot int64
	for _, x := range a.op {
		tot += x
	}
	w.r.Eval(fmt.Sprintf("%s %d %d", when, n, tot))
	w.r.Max("commands_counted", tot)
	w.last = c
	return true
}

// hold keeps a snapshot in the server; held compares those kept.
func (w *c22w) hold() {
	i := w.ch.HoldStats()
	w.held[i] = w.ch.HeldStats(i)
}
func (w *c22w) heldSame() bool {
	for i, s := range w.held {
		if n := w.ch.HeldStats(i); !reflect.DeepEqual(s, n) {
			w.r.Violate("snapshot-changed", w.cas, map[string]interface{}{"before": s, "now": n}, "a snapshot handed out has changed since")
			return false
		}
		w.r.Eval("snapshot kept")
	}
	return true
}

func c22Spec(devs int) tgt.Spec {
	var ds []Dev
	for k := 0; k < devs; k++ {
		ds = append(ds, Dev{ID: uint64(1 + k), Name: fmt.Sprint("d", k), Size: 1 << 20, Shift: uint(9 + 3*(k%2)), Thin: k%2 == 0})
	}
	sp := spec1(ds...)
	sp.Stats = true
	sp.Config.ISCSITargets[TN(1)] = config.ISCSITarget{TPGTs: map[string][]uint64{"1": {0}}, LUNs: map[string]uint64{"0": 1, "7": uint64(devs)}}
	return sp
}

func c22World(r *ck.Run, i int) {
	rng := r.Rng("w", i)
	cas := fmt.Sprint(i)
	devs := 1 + rng.Intn(3)
	ch := start(r, cas, c22Spec(devs), false)
	if ch == nil {
		return
	}
	defer ch.Stop()
	w := &c22w{r: r, ch: ch, cas: cas, base: time.Now(), held: map[int]scsi.Stats{}}
	if !w.exact("fresh", 0) {
		return
	}
	w.hold()
	ns := []int{1, 2, 4, 6}[i%4]
	open := make([]*Sess, ns)
	gen := 0
	opts := make([]ini.LoginOpts, ns)
	join := func(k int) bool {
		gen++
		o := sessVar(rng, gen)
		o.ISID = [6]byte{0x80, 0x22, 0, byte(k), byte(gen >> 8), byte(gen)}
		o.Initiator = fmt.Sprintf("iqn.2020-01.verif:c22.%d", k)
		o.Target = TN(rng.Intn(2))
		opts[k] = o
		open[k] = login(r, ch, cas, o)
		return open[k] != nil
	}
	defer func() {
		for _, s := range open {
			if s != nil {
				s.Close()
			}
		}
	}()
	for k := range open {
		if !join(k) {
			return
		}
	}
	if i%4 == 3 {
		ch.AddFault(mon.Fault{Dev: "d0", Kind: []string{"read", "write"}[i/4%2], Mode: "delay", Arg: 300})
	}
	for round := 0; round < r.Q(9, 20); round++ {
		var wg sync.WaitGroup
		stop := make(chan struct{})
		for k := range open {
			wg.Add(1)
			go func(s *Sess, rng *rand.Rand, n int) {
				defer wg.Done()
				w.run(s, rng, n, devs)
			}(open[k], rand.New(rand.NewSource(rng.Int63())), 20+rng.Intn(60))
		}
		done := make(chan bool)
		go func() {
			for ok := true; ; {
				select {
				case <-stop:
					done <- ok
					return
				default:
					ok = ok && w.look()
				}
			}
		}()
		wg.Wait()
		close(stop)
		ok := <-done
		if ok {
			ok = w.exact("at rest", ns)
		}
		if !ok || r.Violated() {
			return
		}
		for _, s := range open {
			if s.bad {
				return
			}
		}
		if rng.Intn(2) == 0 {
			w.hold()
		}
		if !w.heldSame() {
			return
		}
		if rng.Intn(3) == 0 { // connections that do not become sessions
			w.strangers(rng, opts[0])
		}
		k := rng.Intn(ns)
		switch rng.Intn(4) {
		case 0: // leave and come back
			open[k].Logout()
			open[k].Close()
			if !join(k) {
				return
			}
		case 1: // lose the connection with commands on the way
			if !w.lose(open[k], rng) || !join(k) {
				return
			}
		case 2: // a resize does not count
			ch.Resize(1 << 20)
		}
	}
	for k, s := range open {
		if rng.Intn(2) == 0 {
			s.Logout()
		}
		s.Close()
		open[k] = nil
	}
	for end := time.Now().Add(2 * ini.Watchdog); ; time.Sleep(5 * time.Millisecond) {
		_, st, ok := w.snap()
		if !ok {
			return
		}
		if !st.IsClientConnected {
			break
		}
		if time.Now().After(end) {
			r.Violate("still-connected", cas, nil, "a client is said to be connected long after the last connection is gone")
			return
		}
	}
	if w.exact("all gone", 0) && w.heldSame() && i < 3 {
		c, _, _ := w.snap()
		r.Sample(map[string]interface{}{"reads": c.rd, "writes": c.wr, "bytes_read": c.rb, "bytes_written": c.wb, "sessions": gen})
	}
}

// strangers connects without logging in.
func (w *c22w) strangers(rng *rand.Rand, o ini.LoginOpts) {
	o.Addr = w.ch.Spec.Addr()
	o.ISID[5] ^= 0xff
	for k := 1 + rng.Intn(3); k > 0; k-- {
		c, err := dialRaw(o)
		if err != nil {
			continue
		}
		switch rng.Intn(4) {
		case 0:
			c.login(lreq{csg: 0, nsg: 1, t: true, kv: []ini.KV{{K: "InitiatorName", V: o.Initiator}, {K: "TargetName", V: TN(9)}, {K: "SessionType", V: "Normal"}}})
		case 1:
			c.send(c.req(ini.OpNop, 0, ini.LUN(0), 0xffffffff, nil))
			c.recv(ini.Watchdog)
		case 2:
			c.nc.Write(fill(rng, rng.Intn(60)))
		}
		c.close()
		w.r.Add("strangers", 1)
	}
}

type c22t struct {
	t    *ini.Task
	op   byte
	edtl uint32
	at   time.Time
}

func (w *c22w) submit(s *Sess, c ini.Cmd) c22t {
	x := c22t{op: c.CDB[0], edtl: c.EDTL}
	w.mu.Lock()
	w.sent.add(x.op, x.edtl, 0)
	w.mu.Unlock()
	x.at = time.Now()
	x.t = s.Submit(c)
	return x
}

// answered counts a command whose response has come.
func (w *c22w) answered(x c22t) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.ans.add(x.op, x.edtl, time.Since(x.at))
}

// unsent takes a command that will never be answered off.
func (w *c22w) unsent(x c22t) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.sent.op[x.op]--
	switch c22kind(x.op) {
	case 1:
		w.sent.rd--
		w.sent.rb -= int64(x.edtl)
	case 2:
		w.sent.wr--
		w.sent.wb -= int64(x.edtl)
	}
}

func (w *c22w) run(s *Sess, rng *rand.Rand, n, devs int) {
	depth := 1 + rng.Intn(12)
	var open []c22t
	first := func() bool {
		x := open[0]
		open = open[1:]
		if !s.wait(x.t, opName(x.op)) {
			return false
		}
		w.answered(x)
		return true
	}
	for k := 0; k < n; k++ {
		switch rng.Intn(14) {
		case 0:
			if _, err := s.Nop(fill(rng, rng.Intn(200)), rng.Intn(2) == 0); err != nil {
				s.failed(err, "NOP-Out")
				return
			}
		case 1:
			if _, err := s.Text([]ini.KV{{K: "X-com.verif.a", V: "b"}}, rng.Intn(2) == 0); err != nil {
				s.failed(err, "text request")
				return
			}
		case 3: // a tag in use: rejected, not counted
			if !w.dupTag(s, rng) {
				return
			}
		case 4, 5: // sent ahead of their turn
			sns := make([]uint32, 2+rng.Intn(5))
			for j := range sns {
				sns[j] = s.TakeCmdSN()
			}
			for _, j := range rng.Perm(len(sns)) {
				c := c22Cmd(rng, devs)
				c.NowBit, c.ForceSN, c.SN = false, true, sns[j]
				open = append(open, w.submit(s, c))
			}
			w.r.Add("ahead_of_turn", int64(len(sns)))
		case 2: // aborted before its data has come: not answered, not counted
			c := ini.WriteCmd(ini.LUN(0), []byte{ini.WRITE10, ini.WRITE16, ini.WRVER10}[rng.Intn(3)], 0, 8, make([]byte, 8<<12), 0)
			c.Hold, c.Imm = true, 0
			x := w.submit(s, c)
			p, err := s.TMF(1, ini.LUN(0), x.t.ITT, x.t.CmdSN, true)
			if err != nil {
				s.failed(err, "ABORT TASK")
				return
			}
			if p.H[2] != 0 || x.t.Done() { // an answer came instead
				for !x.t.Done() {
					q, ok := x.t.NextR2T(ini.Watchdog)
					if !ok {
						break
					}
					x.t.Answer(q, 0)
				}
				open = append(open, x)
				break
			}
			s.Forget(x.t, "aborted")
			w.unsent(x)
			w.r.Add("aborted", 1)
		default:
			open = append(open, w.submit(s, c22Cmd(rng, devs)))
		}
		for len(open) >= depth {
			if !first() {
				return
			}
		}
	}
	for len(open) > 0 {
		if !first() {
			return
		}
	}
}

// c22Cmd is any command.
func c22Cmd(rng *rand.Rand, devs int) ini.Cmd {
	l := rng.Intn(devs)
	if rng.Intn(12) == 0 {
		l = []int{7, 5, 300}[rng.Intn(3)] // may not be there
	}
	lun := ini.LUN(l)
	bs := 512
	if l%2 == 1 {
		bs = 4096
	}
	n := rng.Intn(6)
	if rng.Intn(8) == 0 {
		n = 1 + rng.Intn(131072/bs)
	}
	lba := uint64(rng.Intn(60))
	if rng.Intn(8) == 0 {
		lba = uint64(1<<20/bs) - uint64(rng.Intn(2)) // near or behind the end
	}
	var c ini.Cmd
	switch k := rng.Intn(16); {
	case k < 5:
		op := []byte{ini.READ6, ini.READ10, ini.READ12, ini.READ16}[rng.Intn(4)]
		if op == ini.READ6 && n == 0 {
			n = 1
		}
		c = ini.ReadCmd(lun, op, lba, uint32(n), bs, 0)
		if rng.Intn(4) == 0 {
			c.EDTL = uint32(rng.Intn(n*bs + 2000))
		}
		if c.EDTL == 0 {
			c.Read = false
		}
		c.Xfer = -1
	case k < 10:
		op := []byte{ini.WRITE6, ini.WRITE10, ini.WRITE12, ini.WRITE16, ini.WRVER10, ini.WRVER12, ini.WRVER16, ini.ORWRITE}[rng.Intn(8)]
		if n > 64 {
			n = 64
		}
		if op == ini.WRITE6 && n == 0 {
			n = 1
		}
		c = ini.WriteCmd(lun, op, lba, uint32(n), make([]byte, n*bs), 0)
		if rng.Intn(4) == 0 {
			c.EDTL = uint32(rng.Intn(n*bs + 2000))
			c.Out = make([]byte, c.EDTL)
		}
		if c.EDTL == 0 {
			c.Write = false
		}
		if rng.Intn(2) == 0 && len(c.Out) > 0 {
			c.Imm = rng.Intn(len(c.Out))
		}
		c.Xfer = -1
	case k < 11:
		op := []byte{ini.WRSAME10, ini.WRSAME16}[rng.Intn(2)]
		c = ini.WriteCmd(lun, op, lba, uint32(1+n), make([]byte, bs), 0)
		c.Xfer = -1
	case k < 12:
		c = ini.NoData(lun, ini.RW([]byte{ini.VERIFY10, ini.VERIFY16, ini.SYNC10, ini.SYNC16, ini.PREFETCH}[rng.Intn(5)], lba, uint32(n), 0))
	case k < 14:
		p := paramCmds()
		q := p[rng.Intn(len(p))]
		al := rng.Intn(q.max() + 1)
		c = ini.InCmd(lun, q.with(al), uint32(al))
		if al == 0 {
			c.Read = false
		}
		c.Xfer = -1
	case k < 15:
		c = ini.NoData(lun, []byte{[]byte{ini.TUR, 0x16, 0x17, 0x1e, 0x1b, 0x00}[rng.Intn(6)], 0, 0, 0, 0, 0})
	default: // nothing there
		cdb := fill(rng, 16)
		cdb[0] = []byte{0x02, 0x39, 0x4f, 0x82, 0xc0, 0xff, 0xe7, 0x06, 0x60, 0x7e, 0x9b}[rng.Intn(11)]
		c = ini.NoData(lun, cdb)
	}
	if kind := c22kind(c.CDB[0]); kind != 0 && rng.Intn(8) == 0 {
		switch rng.Intn(3) {
		case 0: // both directions, or the other one
			if c.EDTL > 0 {
				c.Read, c.Write = true, kind == 2 || rng.Intn(2) == 0
			}
		case 1: // an amount of more than 31 bits
			if kind == 1 {
				c.Read, c.EDTL = true, []uint32{1 << 31, 0xffffffff, 1<<31 + uint32(rng.Intn(1<<30)), 1<<31 - 1}[rng.Intn(4)]
			}
		case 2: // nothing expected
			c.Read, c.Write, c.EDTL, c.Out = false, false, 0, nil
		}
		c.Xfer = -1
	}
	c.NowBit = rng.Intn(5) == 0
	c.Attr = byte(rng.Intn(5))
	return c
}

// dupTag sends a command with the tag of a write that waits for its data.
func (w *c22w) dupTag(s *Sess, rng *rand.Rand) bool {
	c := ini.WriteCmd(ini.LUN(0), ini.WRITE10, 0, 4, make([]byte, 2048), 0)
	c.Hold, c.Imm, c.NowBit = true, 0, true
	x := w.submit(s, c)
	q, ok := x.t.NextR2T(ini.Watchdog)
	if !ok { // refused
		if !s.wait(x.t, "WRITE(10)") {
			return false
		}
		w.answered(x)
		return true
	}
	n := len(s.Strange)
	p := &ini.PDU{}
	p.H[0], p.H[1] = 0x41, 0xc0
	p.Put32(16, x.t.ITT)
	p.Put32(20, 512)
	p.Put32(24, s.CmdSN())
	p.Put32(28, s.ExpStatSN())
	copy(p.H[32:48], ini.RW([]byte{ini.READ10, ini.READ16, ini.WRITE10, 0x00}[rng.Intn(4)], 0, 1, 0))
	s.SendRaw(p)
	if _, err := s.Nop(nil, true); err != nil {
		s.failed(err, "NOP-Out after a command with a tag in use")
		return false
	}
	if len(s.Strange) == n+1 && s.Strange[n].Op() == ini.OpReject {
		s.Strange = s.Strange[:n]
		w.r.Add("rejected", 1)
	}
	for !x.t.Done() {
		x.t.Answer(q, 0)
		if q, ok = x.t.NextR2T(ini.Watchdog); !ok {
			break
		}
	}
	if !s.wait(x.t, "WRITE(10)") {
		return false
	}
	w.answered(x)
	return true
}

// lose drops a connection with commands on the way and finds out which of them count.
func (w *c22w) lose(s *Sess, rng *rand.Rand) bool {
	var l []c22t
	for k := rng.Intn(10); k >= 0; k-- {
		l = append(l, w.submit(s, c22Cmd(rng, 1)))
	}
	if rng.Intn(2) == 0 {
		time.Sleep(time.Duration(rng.Intn(2000)) * time.Microsecond)
	}
	if rng.Intn(2) == 0 {
		s.Reset()
	} else {
		s.Close()
	}
	// the server is done with it when a session of the same name and ISID can log in again
	c, err := ini.Login(s.Opts)
	if err != nil {
		w.r.Violate("login-failed", w.cas, nil, "a login after a lost connection failed: %v", err)
		return false
	}
	c.Close()
	for _, x := range l {
		if x.t.Done() && x.t.Err == nil {
			w.answered(x)
		}
	}
	if !w.look() {
		return false
	}
	// within the bounds: what the server has counted is what counts from here on
	w.mu.Lock()
	n := w.last
	n.rt, n.wt = w.ans.rt, w.ans.wt
	for _, x := range l {
		if !(x.t.Done() && x.t.Err == nil) {
			// time that was spent for nobody
			if d := int64(time.Since(x.at)); c22kind(x.op) == 1 {
				n.rt += d
			} else if c22kind(x.op) == 2 {
				n.wt += d
			}
		}
	}
	w.ans, w.sent = n, n
	w.mu.Unlock()
	w.r.Eval(fmt.Sprint("lost connection ", len(l)))
	w.r.Add("lost_connections", 1)
	return true
}

// c22Time holds commands back for a known time.
func c22Time(r *ck.Run, i int) {
	cas := fmt.Sprint("time-", i)
	ch := start(r, cas, c22Spec(1), false)
	if ch == nil {
		return
	}
	defer ch.Stop()
	w := &c22w{r: r, ch: ch, cas: cas, base: time.Now()}
	s := login(r, ch, cas, ini.LoginOpts{})
	if s == nil {
		return
	}
	defer s.Close()
	var held [3]int64
	for k := 0; k < 8; k++ {
		op := []byte{ini.READ10, ini.WRITE10, ini.READ6, ini.WRITE16, ini.READ16, ini.WRITE12, ini.READ12, ini.WRITE6}[(k+i)%8]
		kind := []string{"", "read", "write"}[c22kind(op)]
		g := fmt.Sprint("g", k)
		ch.AddFault(mon.Fault{Dev: "d0", Kind: kind, Mode: "gate", Gate: g, Count: 1})
		c := ini.ReadCmd(ini.LUN(0), op, 3, 2, 512, 0)
		if kind == "write" {
			c = ini.WriteCmd(ini.LUN(0), op, 3, 2, make([]byte, 1024), 0)
		}
		x := w.submit(s, c)
		for n := 0; n < 4000 && ch.AtGate(g) == 0; n++ {
			time.Sleep(time.Millisecond)
		}
		at := ch.AtGate(g) > 0
		from := time.Now()
		time.Sleep(time.Duration(5+i) * time.Millisecond)
		if at {
			held[c22kind(op)] += int64(time.Since(from))
		}
		ch.Release(g)
		if !s.wait(x.t, opName(op)) {
			return
		}
		w.answered(x)
		ch.ClearFaults()
		if !w.exact("held", 1) {
			return
		}
		if w.last.rt < held[1] || w.last.wt < held[2] {
			r.Violate("time-short", cas, nil, "reads and writes were held back for %v and %v, the time counted is %v and %v", time.Duration(held[1]), time.Duration(held[2]), time.Duration(w.last.rt), time.Duration(w.last.wt))
			return
		}
	}
}

package checks

import (
	"bytes"
	"fmt"
	"math/rand"
	"sync"
	"time"

	"verif/ck"
	"verif/ini"
	"verif/mon"
	"verif/tgt"

	"github.com/gostor/gotgt/pkg/config"
)

func init() { All["C27"] = Check{Run: c27, Level: "exploration", Min: 1200} }

// c27key is what tells one session from another.
type c27key struct {
	name   string
	isid   [6]byte
	target int
	group  int
}

type c27s struct {
	*Sess
	key  c27key
	disc bool
	held *ini.Task // a write waiting for data
}

type c27w struct {
	r     *ck.Run
	ch    *tgt.Child
	cas   string
	rng   *rand.Rand
	names []string
	isids [][6]byte
	tags  [3]int // of the portal groups 1 and 2
	live  []*c27s
	m     [2]*Model
	next  int64
	log   []string
}

func c27(r *ck.Run) {
	r.Rule("histories of logins from pools of initiator names (one a prefix of another), ISIDs one bit apart, two targets and two portal groups, discovery sessions, failed and abandoned logins under the identity of live sessions, logouts, closes and resets, several logins of one identity at once, reinstatement of sessions with writes waiting for data or blocked in the store; a table of live sessions decides which connection must end and which must go on, every live session is used after every step, handles must differ, a reservation of one must exclude all others; all 48 ISIDs one bit off a live session's, portal group tags equal modulo 256, and 1300 sessions at a time, live side by side; storms of logins of few identities, with writes held and reservations, after which one of each lives; distinct by (step, what the identity shares with a live one, replaced, live sessions)")
	r.Each(r.Q(84, 300), 7, func(i int) { c27Episode(r, i) })
	r.Each(r.Q(7, 28), 7, func(i int) { c27Neighbours(r, i) })
	r.Each(r.Q(3, 9), 3, func(i int) { c27Crowd(r, i) })
	r.Each(r.Q(4, 12), 2, func(i int) { c27Storm(r, i) })
}

// c27Neighbours: an ISID with any one bit flipped is another session, from the first to the last.
func c27Neighbours(r *ck.Run, i int) {
	rng := r.Rng("flip", i)
	w := c27New(r, fmt.Sprint("flip-", i), rng)
	if w == nil {
		return
	}
	defer w.end0()
	k := w.pick()
	rng.Read(k.isid[:])
	if i%2 == 0 {
		k.isid = [6]byte{}
		k.isid[rng.Intn(6)] = 0x80
	}
	if _, ok := w.login(k); !ok {
		return
	}
	first := w.live[0]
	bits := rng.Perm(48)
	for _, b := range bits {
		o := k
		o.isid[b/8] ^= 1 << uint(b%8)
		n, ok := w.login(o)
		if !ok {
			return
		}
		r.Eval(fmt.Sprint("flip ", b))
		if rng.Intn(3) > 0 { // most leave again
			w.drop(n)
			n.Logout()
			n.Close()
			if !w.all("logout of " + n.key.String()) {
				return
			}
		}
		if len(w.live) > 8 {
			n := w.live[1+rng.Intn(len(w.live)-1)]
			w.drop(n)
			n.Reset()
		}
	}
	if !w.all("48 neighbours") {
		return
	}
	if n, ok := w.login(k); ok && n != nil { // replaces the first
		if first.Conn.Closed() == nil {
			w.bad("not-replaced", "the first session outlived the second login of its identity")
		}
	}
	dead(r, w.ch, w.cas, "neighbouring identities")
}

// c27Crowd: many sessions at a time, each with a handle of its own, each ending alone.
func c27Crowd(r *ck.Run, i int) {
	rng := r.Rng("crowd", i)
	w := c27New(r, fmt.Sprint("crowd-", i), rng)
	if w == nil {
		return
	}
	defer w.end0()
	size := []int{700, 300, 1300}[i%3]
	live := map[uint16]*c27s{}
	use := func(s *c27s, when string) bool {
		p, err := s.Nop([]byte("crowd"), true)
		if err != nil || string(p.Data) != "crowd" {
			if s.Conn.Closed() != nil {
				return w.bad("bystander-closed", "%s: the session %s (handle %d) is gone", when, s.key, s.RTSIH)
			}
			s.failed(err, "ping "+when)
			return false
		}
		return true
	}
	var order []*c27s
	var churn = 0
	for k := 0; k < size+churn; k++ {
		key := c27key{w.names[k%3], [6]byte{0x80, byte(i), 0, 0, byte(k >> 8), byte(k)}, k % 2, 1 + k/2%2}
		s := login(r, w.ch, w.cas, w.opts(key))
		if s == nil {
			return
		}
		n := &c27s{Sess: s, key: key}
		w.live = append(w.live, n)
		s.protocol("C27")
		if o := live[s.RTSIH]; o != nil || s.RTSIH == 0 {
			w.bad("handle", "with %d sessions open session %s has handle %d, which is zero or in use", len(live), key, s.RTSIH)
			return
		}
		live[s.RTSIH] = n
		order = append(order, n)
		if rng.Intn(8) == 0 && len(order) > 10 { // one leaves
			j := rng.Intn(len(order))
			o := order[j]
			order = append(append([]*c27s{}, order[:j]...), order[j+1:]...)
			delete(live, o.RTSIH)
			w.drop(o)
			if rng.Intn(2) == 0 {
				o.Logout()
			}
			o.Close()
			// its end is complete when a login of its identity and the logout of it are
			if c, err := ini.Login(w.opts(o.key)); err == nil {
				if live[c.RTSIH] != nil {
					c.Close()
					w.bad("handle", "a new session has handle %d, which is in use", c.RTSIH)
					return
				}
				c.Logout()
				c.Close()
			}
			churn++
		}
		if k%16 == 0 && !use(order[rng.Intn(len(order))], "with many sessions") {
			return
		}
		r.Eval(fmt.Sprint("crowd ", k))
	}
	r.Max("sessions_at_once", int64(len(order)))
	for _, s := range order {
		if !use(s, "with all sessions open") {
			return
		}
	}
	rng.Shuffle(len(order), func(a, b int) { order[a], order[b] = order[b], order[a] })
	for k, s := range order[:len(order)/2] { // replaced one by one
		w.drop(s)
		c := login(r, w.ch, w.cas, w.opts(s.key))
		if c == nil {
			return
		}
		n := &c27s{Sess: c, key: s.key}
		w.live = append(w.live, n)
		if !w.gone(s, "login of the same initiator, ISID and portal group among many") {
			return
		}
		if k%8 == 0 && !use(order[len(order)/2+rng.Intn(len(order)/2)], "after another was replaced") {
			return
		}
	}
	for _, s := range order[len(order)/2:] {
		if !use(s, "after half of them were replaced") {
			return
		}
	}
	dead(r, w.ch, w.cas, "many sessions")
}

func (w *c27w) end0() {
	for _, s := range w.live {
		s.Close()
	}
	w.ch.Stop()
}

// c27New starts a target with two portal groups, two targets and a pool of identities.
func c27New(r *ck.Run, cas string, rng *rand.Rand) *c27w {
	w := &c27w{r: r, cas: cas, rng: rng}
	sp := tgt.Spec{Port: tgt.FreePort()}
	for g := 1; g <= 2; g++ {
		sp.Config.ISCSIPortals = append(sp.Config.ISCSIPortals, config.ISCSIPortalInfo{ID: uint16(g), Portal: fmt.Sprintf("127.0.0.%d:%d", g, sp.Port)})
	}
	sp.Config.ISCSITargets = map[string]config.ISCSITarget{}
	w.tags = [][3]int{{0, 1, 2}, {0, 2, 258}, {0, 65535, 255}, {0, 257, 1}, {0, 1, 32769}, {0, 0, 65280}}[rng.Intn(6)]
	for t := 0; t < 2; t++ {
		sp.Config.Storages = append(sp.Config.Storages, Dev{ID: uint64(1 + t), Name: string("ab"[t]), Size: 1 << 20, Shift: 9, Thin: true}.storage())
		sp.Config.ISCSITargets[TN(t)] = config.ISCSITarget{TPGTs: map[string][]uint64{fmt.Sprint(w.tags[1]): {1}, fmt.Sprint(w.tags[2]): {2}}, LUNs: map[string]uint64{"0": uint64(1 + t)}}
		w.m[t] = NewModel(1 << 20)
	}
	if w.ch = start(r, w.cas, sp, false); w.ch == nil {
		return nil
	}
	w.names = []string{"iqn.2020-01.verif:n", "iqn.2020-01.verif:n0", "iqn.2020-01.verif:m"}
	var base [6]byte
	rng.Read(base[:])
	w.isids = append(w.isids, base)
	for k := 0; k < 3; k++ {
		o := base
		o[rng.Intn(6)] ^= 1 << uint(rng.Intn(8))
		w.isids = append(w.isids, o)
	}
	return w
}

func (w *c27w) addr(group int) string { return fmt.Sprintf("127.0.0.%d:%d", group, w.ch.Spec.Port) }

func (w *c27w) opts(k c27key) ini.LoginOpts {
	return ini.LoginOpts{Addr: w.addr(k.group), Target: TN(k.target), Initiator: k.name, ISID: k.isid, CmdSN: w.rng.Uint32(), Security: w.rng.Intn(2) == 0, CID: uint16(w.rng.Intn(3))}
}

func (w *c27w) bad(sig, f string, a ...interface{}) bool {
	w.r.Violate(sig, w.cas, map[string]interface{}{"steps": tail(w.log, 40)}, f, a...)
	return false
}

func (w *c27w) note(f string, a ...interface{}) { w.log = append(w.log, fmt.Sprintf(f, a...)) }

func (k c27key) String() string {
	return fmt.Sprintf("%s isid=%x target=%d group=%d", k.name, k.isid, k.target, k.group)
}

func (w *c27w) pick() c27key {
	return c27key{w.names[w.rng.Intn(len(w.names))], w.isids[w.rng.Intn(len(w.isids))], w.rng.Intn(2), 1 + w.rng.Intn(2)}
}

// near is a key that shares most with a live session.
func (w *c27w) near() c27key {
	var n []*c27s
	for _, s := range w.live {
		if !s.disc {
			n = append(n, s)
		}
	}
	if len(n) == 0 {
		return w.pick()
	}
	k := n[w.rng.Intn(len(n))].key
	o := w.pick()
	switch w.rng.Intn(6) {
	case 0:
		k.name = o.name
	case 1:
		k.isid = o.isid
	case 2:
		k.isid[w.rng.Intn(6)] ^= 1 << uint(w.rng.Intn(8))
	case 3:
		k.target = o.target
	case 4:
		k.group = o.group
	}
	return k
}

func (w *c27w) find(k c27key) *c27s {
	for _, s := range w.live {
		if !s.disc && s.key == k {
			return s
		}
	}
	return nil
}

func (w *c27w) drop(s *c27s) {
	for i, o := range w.live {
		if o == s {
			w.live = append(append([]*c27s{}, w.live[:i]...), w.live[i+1:]...)
		}
	}
}

// shares tells how much a key has in common with a live session.
func (w *c27w) shares(k c27key) string {
	best, desc := -1, "none"
	for _, s := range w.live {
		if s.disc {
			continue
		}
		n, d := 0, ""
		for _, c := range []struct {
			eq bool
			n  string
		}{{s.key.name == k.name, "name "}, {s.key.isid == k.isid, "isid "}, {s.key.target == k.target, "target "}, {s.key.group == k.group, "group"}} {
			if c.eq {
				n++
				d += c.n
			}
		}
		if n > best {
			best, desc = n, d
		}
	}
	return desc
}

// gone: the target must have closed the connection.
func (w *c27w) gone(s *c27s, why string) bool {
	if !s.WaitClosed(ini.Watchdog) {
		return w.bad("not-replaced", "%s: the connection of the old session (%s) is still open", why, s.key)
	}
	s.Close()
	return true
}

// all uses every live session.
func (w *c27w) all(after string) bool {
	seen := map[uint16]string{}
	for _, s := range w.live {
		if o, ok := seen[s.RTSIH]; ok || s.RTSIH == 0 {
			return w.bad("handle", "session %s has handle %d; so has %q", s.key, s.RTSIH, o)
		}
		seen[s.RTSIH] = s.key.String()
		s.protocol("C27")
		if e := s.Conn.Closed(); e != nil {
			return w.bad("bystander-closed", "after %s the session %s (discovery %v) is gone: %v", after, s.key, s.disc, e)
		}
	}
	for _, s := range w.live {
		p, err := s.Nop([]byte("alive"), true)
		if err != nil || string(p.Data) != "alive" {
			if s.Conn.Closed() != nil {
				return w.bad("bystander-closed", "after %s the session %s (discovery %v) is gone", after, s.key, s.disc)
			}
			s.failed(err, "ping after "+after)
			return false
		}
		if s.disc || w.rng.Intn(2) == 0 {
			continue
		}
		d := fill(w.rng, 512)
		l := w.next
		w.next++
		t, ok := s.cmd(ini.WriteCmd(ini.LUN(0), ini.WRITE10, uint64(l), 1, d, 0), "WRITE(10) after "+after)
		if !ok {
			return false
		}
		if t.Status != 0 {
			return w.bad("bystander-refused", "after %s a write of session %s ended with %s", after, s.key, t.Outcome())
		}
		w.m[s.key.target].Write(l*512, d)
	}
	return w.rng.Intn(3) > 0 || w.listed(after)
}

// listed: a target lists as many nexuses as it has sessions, once those that ended are done with.
func (w *c27w) listed(after string) bool {
	want := map[string]int{TN(0): 0, TN(1): 0}
	var any *c27s
	for _, s := range w.live {
		any = s
		if !s.disc {
			want[TN(s.key.target)]++
		}
	}
	end := time.Now().Add(ini.Watchdog)
	for polls := 0; ; polls++ {
		n, m := nexuses(w.ch)
		if m != "" {
			return !dead(w.r, w.ch, w.cas, "list of targets") && w.bad("list-failed", "the list of targets: %s", m)
		}
		if fmt.Sprint(n) == fmt.Sprint(want) {
			w.r.Eval(fmt.Sprint("nexuses ", want[TN(0)], want[TN(1)]))
			return true
		}
		if n[TN(0)] < want[TN(0)] || n[TN(1)] < want[TN(1)] || polls > 200 && time.Now().After(end) {
			return w.bad("nexus-list", "after %s the targets list %v nexuses, the live sessions are %v", after, n, want)
		}
		if any != nil {
			if _, err := any.Nop(nil, true); err != nil {
				any.failed(err, "ping")
				return false
			}
		}
		time.Sleep(time.Millisecond)
	}
}

func (w *c27w) login(k c27key) (*c27s, bool) {
	old := w.find(k)
	sh := w.shares(k)
	w.note("login %s, replaces %v", k, old != nil)
	heldL := int64(-1)
	if old != nil && old.held == nil && w.rng.Intn(2) == 0 {
		heldL = w.hold(old)
	}
	s := login(w.r, w.ch, w.cas, w.opts(k))
	if s == nil {
		return nil, false
	}
	n := &c27s{Sess: s, key: k}
	if old != nil {
		w.drop(old)
		if !w.gone(old, "login of the same initiator, ISID and portal group") {
			return nil, false
		}
		w.r.Add("replaced", 1)
	}
	if s.TPGT != fmt.Sprint(w.tags[k.group]) {
		return nil, w.bad("group", "a login through group %d was told %s", w.tags[k.group], s.TPGT)
	}
	w.live = append(w.live, n)
	w.r.Eval(fmt.Sprint("login ", sh, old != nil, heldL >= 0, len(w.live) > 4))
	return n, w.all("login of " + k.String())
}

// hold leaves a write waiting for its data.
func (w *c27w) hold(s *c27s) int64 {
	l := w.next
	w.next += 8
	cm := ini.WriteCmd(ini.LUN(0), ini.WRITE10, uint64(l), 8, fill(w.rng, 4096), 0)
	cm.Hold, cm.Imm = true, w.rng.Intn(2)*512*w.rng.Intn(8)
	t := s.Submit(cm)
	if _, ok := t.NextR2T(ini.Watchdog); !ok {
		return -1
	}
	s.held = t
	w.r.Add("held_writes", 1)
	return l
}

func c27Episode(r *ck.Run, i int) {
	rng := r.Rng("ep", i)
	w := c27New(r, fmt.Sprint(i), rng)
	if w == nil {
		return
	}
	defer w.end0()
	for step := 0; step < r.Q(45, 90) && w.next < 1900; step++ {
		ok := true
		switch c := rng.Intn(20); {
		case c < 7:
			k := w.near()
			if rng.Intn(3) == 0 {
				k = w.pick()
			}
			if len(w.live) < 9 || w.find(k) != nil {
				_, ok = w.login(k)
			}
		case c < 10:
			ok = w.failing()
		case c < 11:
			ok = w.discovery()
		case c < 15 && len(w.live) > 2:
			ok = w.end()
		case c < 17:
			ok = w.reserve()
		case c < 19:
			ok = w.together()
		default:
			ok = w.blocked()
		}
		if !ok || r.Violated() {
			return
		}
	}
	for t, n := range []string{"a", "b"} {
		if off, why := compareMedium(w.ch, n, w.m[t]); why != "" {
			w.bad("late-effect", "byte %d of LUN 0 of target %d %s: something other than the completed writes had an effect", off, t, why)
		}
	}
	for _, s := range w.live {
		s.protocol("C06")
		s.protocol("C07")
	}
	if i < 3 {
		r.Sample(map[string]interface{}{"steps": tail(w.log, 20)})
	}
	dead(r, w.ch, w.cas, "session identity")
}

// failing is a login that does not succeed, under the identity of a live session.
func (w *c27w) failing() bool {
	k := w.near()
	o := w.opts(k)
	id := []ini.KV{{K: "InitiatorName", V: k.name}, {K: "TargetName", V: TN(k.target)}, {K: "SessionType", V: "Normal"}}
	kind := w.rng.Intn(7)
	if kind == 1 {
		o.TSIH = uint16(1 + w.rng.Intn(65535))
		if s := w.find(k); s != nil && w.rng.Intn(2) == 0 {
			o.TSIH = s.RTSIH // a second connection for the session: not supported
		}
	}
	c, err := dialRaw(o)
	if err != nil {
		dead(w.r, w.ch, w.cas, "connect")
		return false
	}
	what := ""
	q := lreq{csg: 1, nsg: 3, t: true}
	switch kind {
	case 0:
		what = "CHAP wanted"
		q.csg, q.kv = 0, append(id, ini.KV{K: "AuthMethod", V: "CHAP"})
	case 1:
		what = "session handle given"
		q.kv = append(id, ini.DefaultKeys(&o)...)
	case 2:
		what = "bad segment length"
		q.kv = append(id, ini.KV{K: "MaxRecvDataSegmentLength", V: "100"})
	case 3:
		what = "abandoned after security"
		q.csg, q.nsg, q.kv = 0, 1, append(id, ini.KV{K: "AuthMethod", V: "None"})
	case 4:
		what = "abandoned before the end"
		q.t, q.nsg, q.kv = false, 0, append(id, ini.DefaultKeys(&o)...)
	case 5:
		what = "unknown target"
		id[1].V += "x"
		q.kv = append(id, ini.DefaultKeys(&o)...)
	case 6:
		what = "version"
		q.kv = append(id, ini.DefaultKeys(&o)...)
		q.mod = func(p *ini.PDU) { p.H[3] = 9 }
	}
	w.note("failing login (%s) %s", what, k)
	p, err := c.login(q)
	if err == nil && p.H[36] == 0 && p.H[1]&0x83 == 0x83 {
		c.close()
		return w.bad("accepted", "a login that must fail (%s) reached full feature phase", what)
	}
	if w.rng.Intn(2) == 0 {
		defer c.close()
	} else {
		c.close()
	}
	w.r.Eval(fmt.Sprint("failing ", what, w.find(k) != nil, len(w.live) > 4))
	return w.all("a login that failed (" + what + ") as " + k.String())
}

func (w *c27w) discovery() bool {
	k := w.near()
	o := w.opts(k)
	o.Discovery, o.Target = true, ""
	w.note("discovery login %s", k)
	s := login(w.r, w.ch, w.cas, o)
	if s == nil {
		return false
	}
	w.live = append(w.live, &c27s{Sess: s, key: k, disc: true})
	w.r.Eval(fmt.Sprint("discovery ", w.find(k) != nil))
	return w.all("a discovery login as " + k.String())
}

func (w *c27w) end() bool {
	s := w.live[w.rng.Intn(len(w.live))]
	w.drop(s)
	how := []string{"logout", "close", "reset"}[w.rng.Intn(3)]
	if !s.disc && s.held == nil && w.rng.Intn(3) == 0 {
		w.hold(s)
	}
	w.note("%s of %s", how, s.key)
	switch how {
	case "logout":
		if _, err := s.Logout(); err != nil {
			s.failed(err, "logout")
			return false
		}
		s.Close()
	case "close":
		s.Close()
	case "reset":
		s.Reset()
	}
	w.r.Eval(fmt.Sprint("end ", how, s.disc, s.held != nil, len(w.live) > 4))
	return w.all(how + " of " + s.key.String())
}

// reserve: every other session of the target is another nexus.
func (w *c27w) reserve() bool {
	var a *c27s
	for _, s := range w.live {
		if !s.disc && (a == nil || w.rng.Intn(2) == 0) {
			a = s
		}
	}
	if a == nil {
		return true
	}
	w.note("RESERVE by %s", a.key)
	t, ok := a.cmd(ini.NoData(ini.LUN(0), []byte{ini.RESERVE6, 0, 0, 0, 0, 0}), "RESERVE(6)")
	if !ok {
		return false
	}
	if t.Status != 0 {
		return w.bad("reserve", "RESERVE(6) of a free unit by %s ended with %s", a.key, t.Outcome())
	}
	n := 0
	for _, s := range w.live {
		if s.disc {
			continue
		}
		want := byte(0)
		if s != a && s.key.target == a.key.target {
			want = 0x18
			n++
		}
		t, ok := s.cmd(ini.ReadCmd(ini.LUN(0), ini.READ10, 0, 1, 512, 0), "READ(10)")
		if !ok {
			return false
		}
		if t.Status != want {
			return w.bad("nexus", "while %s holds a reservation a read by %s ends with %s", a.key, s.key, t.Outcome())
		}
	}
	if t, ok = a.cmd(ini.NoData(ini.LUN(0), []byte{ini.RELEASE6, 0, 0, 0, 0, 0}), "RELEASE(6)"); !ok {
		return false
	}
	w.r.Eval(fmt.Sprint("reserve ", n))
	return t.Status == 0 || w.bad("release", "RELEASE(6) by the holder ended with %s", t.Outcome())
}

// together logs in several times with one identity: one session remains.
func (w *c27w) together() bool {
	k := w.near()
	if w.find(k) == nil && len(w.live) > 8 {
		return true
	}
	old := w.find(k)
	n := 2 + w.rng.Intn(4)
	w.note("%d logins at once of %s", n, k)
	var wg sync.WaitGroup
	got := make([]*ini.Conn, n)
	errs := make([]error, n)
	for j := 0; j < n; j++ {
		o := w.opts(k)
		wg.Add(1)
		go func(j int) {
			defer wg.Done()
			got[j], errs[j] = ini.Login(o)
		}(j)
	}
	wg.Wait()
	if dead(w.r, w.ch, w.cas, "logins at once") {
		return false
	}
	if old != nil {
		w.drop(old)
		if !w.gone(old, "several logins of the same identity") {
			return false
		}
	}
	var left []*c27s
	for deadline := time.Now().Add(ini.Watchdog); ; {
		left = nil
		for _, c := range got {
			if c != nil && c.Closed() == nil {
				if p, err := c.Nop([]byte("x"), true); err == nil && p != nil {
					left = append(left, &c27s{Sess: &Sess{Conn: c, r: w.r, ch: w.ch, cas: w.cas}, key: k})
				}
			}
		}
		if len(left) <= 1 || time.Now().After(deadline) {
			break
		}
		time.Sleep(2 * time.Millisecond)
	}
	if len(left) != 1 {
		return w.bad("together", "of %d logins at once with one identity %d sessions remain (%v)", n, len(left), errs)
	}
	for _, c := range got {
		if c != nil && c != left[0].Conn {
			c.Close()
		}
	}
	w.live = append(w.live, left[0])
	w.r.Eval(fmt.Sprint("together ", n, old != nil))
	return w.all("several logins of " + k.String())
}

// blocked replaces a session whose write is blocked in the store: it must not take effect after the new session began.
func (w *c27w) blocked() bool {
	var s *c27s
	for _, o := range w.live {
		if !o.disc {
			s = o
		}
	}
	if s == nil {
		return true
	}
	dev := string("ab"[s.key.target])
	l := w.next
	w.next += 4
	w.note("reinstatement of %s while its write is in the store", s.key)
	w.ch.AddFault(mon.Fault{Dev: dev, Kind: "write", Mode: "gate", Gate: "g", Count: 1})
	if s.held == nil && w.rng.Intn(2) == 0 { // and another one waits for its data
		if w.hold(s) < 0 {
			s.failed(ini.ErrNoResponse, "write waiting for its data")
			return false
		}
	}
	t := s.Submit(ini.WriteCmd(ini.LUN(0), ini.WRITE10, uint64(l), 4, fill(w.rng, 2048), 0))
	for k := 0; k < 4000 && w.ch.AtGate("g") == 0 && !t.Done(); k++ {
		time.Sleep(500 * time.Microsecond)
	}
	type res struct {
		c   *ini.Conn
		err error
	}
	ch := make(chan res, 1)
	o := w.opts(s.key)
	go func() {
		c, err := ini.Login(o)
		ch <- res{c, err}
	}()
	var x res
	early := false
	d := fill(w.rng, 2048)
	put := func() bool {
		if x.err != nil {
			w.ch.Release("g")
			return w.bad("login-failed", "a login replacing a session whose write is in the store failed: %v", x.err)
		}
		w.drop(s)
		n := &c27s{Sess: &Sess{Conn: x.c, r: w.r, ch: w.ch, cas: w.cas}, key: s.key}
		w.live = append(w.live, n)
		t, ok := n.cmd(ini.WriteCmd(ini.LUN(0), ini.WRITE10, uint64(l), 4, d, 0), "WRITE(10) of the new session")
		if !ok {
			w.ch.Release("g")
			return false
		}
		if t.Status != 0 {
			return w.bad("bystander-refused", "a write of a session that replaced another ended with %s", t.Outcome())
		}
		w.m[s.key.target].Write(l*512, d)
		return true
	}
	select {
	case x = <-ch:
		early = true
		if !put() {
			return false
		}
	case <-time.After(time.Duration(20+w.rng.Intn(150)) * time.Millisecond):
	}
	w.ch.Release("g")
	w.ch.ResetGate("g")
	if !early {
		x = <-ch
		if !put() {
			return false
		}
	}
	if !w.gone(s, "reinstatement while a write was in the store") {
		return false
	}
	if _, err := w.live[len(w.live)-1].Nop(nil, true); err != nil {
		w.live[len(w.live)-1].failed(err, "ping")
		return false
	}
	time.Sleep(2 * time.Millisecond)
	w.r.Eval(fmt.Sprint("blocked ", early))
	w.r.Add("replaced_while_blocked", 1)
	if !bytes.Equal(w.ch.Peek(dev, l*512, 2048), d) {
		return w.bad("late-effect", "a write of a replaced session took effect after the new session's write")
	}
	if !w.all("reinstatement while a write was in the store") {
		return false
	}
	return w.rng.Intn(2) == 0 || w.reserve()
}

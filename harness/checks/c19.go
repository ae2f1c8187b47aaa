package checks

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"net"
	"sync"
	"sync/atomic"
	"time"

	"verif/ck"
	"verif/ini"
	"verif/mon"
	"verif/tgt"

	"github.com/gostor/gotgt/pkg/config"
)

func init() { All["C19"] = Check{Run: c19, Level: "exploration", Min: 1500} }

func c19(r *ck.Run) {
	r.Rule("every way of ending a connection (listed as way_*, with discovery and text answers left unfetched, commands waiting for their turn or data at a logout or half close among them), singly in batches of concurrent connections, then mixed; after each batch the server's descriptors, sockets, goroutines and nexus lists must come back to what they were with the same few sessions open, and new logins succeed. Where the server must close on its own the peer waits for the close. A way after which session handles are not seen again is repeated beyond 65534 sessions. A crowd of connections beyond the descriptors the process may have, after which new logins must succeed. Distinct by way and mix")
	r.Assume("coming back is awaited for a bounded number of polls while another session is served", "memory is compared after a garbage collection with a slack of 48 MB against about 200 MB of abandoned transfers")
	ways := c19Ways()
	r.Each(len(ways)+r.Q(9, 60), 6, func(i int) {
		if i < len(ways) {
			c19Batch(r, i, ways[i:i+1])
		} else {
			c19Batch(r, i, ways)
		}
	})
	if r.Only == "" || r.Only == "flood" {
		for i := 0; i < r.Q(3, 10) && !r.Violated(); i++ {
			c19Flood(r, i)
		}
	}
	if r.Only == "" || r.Only == "mem" {
		c19Mem(r)
	}
	if r.Only == "" || r.Only == "handles" {
		c19Handles(r, nil)
	}
}

// c19x is one connection of a batch.
type c19x struct {
	r    *ck.Run
	ch   *tgt.Child
	cas  string
	rng  *rand.Rand
	o    ini.LoginOpts
	gate string
	keep func(net.Conn) // to be closed at the end of the batch only
}

type c19way struct {
	name   string
	closes bool // the server must close on its own
	f      func(x *c19x) *ini.Conn
	raw    func(x *c19x) net.Conn
}

func (x *c19x) login() *ini.Conn {
	s := login(x.r, x.ch, x.cas, x.o)
	if s == nil {
		return nil
	}
	return s.Conn
}

// c19Ways are the ways a connection can come to an end. f leaves an initiator connection, raw a bare one.
func c19Ways() []c19way {
	write := func(c *ini.Conn, hold bool, n int) *ini.Task {
		cm := ini.WriteCmd(ini.LUN(0), ini.WRITE10, 0, uint32(n/512), make([]byte, n), 0)
		cm.Hold, cm.Imm = hold, 0
		return c.Submit(cm)
	}
	lg := func(o *ini.LoginOpts) []ini.KV {
		return []ini.KV{{"InitiatorName", o.Initiator}, {"TargetName", o.Target}, {"SessionType", "Normal"}}
	}
	half := func(kv func(x *c19x) []ini.KV, qs ...lreq) func(x *c19x) net.Conn {
		return func(x *c19x) net.Conn {
			rc, err := dialRaw(x.o)
			if err != nil {
				return nil
			}
			for j, q := range qs {
				if j == 0 {
					q.kv = append(kv(x), q.kv...)
				}
				rc.login(q)
			}
			return rc.nc
		}
	}
	std := func(x *c19x) []ini.KV { return lg(&x.o) }
	op := []ini.KV{{"HeaderDigest", "None"}}
	hard := func(f func(x *c19x, c *ini.Conn)) func(x *c19x) *ini.Conn {
		return func(x *c19x) *ini.Conn {
			c := x.login()
			if c != nil {
				f(x, c)
			}
			return c
		}
	}
	end := func(x *c19x, c *ini.Conn) {
		if x.rng.Intn(2) == 0 {
			c.Reset()
		} else {
			c.Close()
		}
	}
	bad := func(f func(x *c19x, p *ini.PDU)) func(x *c19x) *ini.Conn {
		return hard(func(x *c19x, c *ini.Conn) {
			c.NoSNChk = true
			p := &ini.PDU{}
			p.Put32(24, c.CmdSN())
			p.Put32(16, c.NewITT())
			f(x, p)
			c.SendRaw(p)
		})
	}
	return []c19way{
		{"logout", true, hard(func(x *c19x, c *ini.Conn) { c.Logout() }), nil},
		{"logout-immediate", true, hard(func(x *c19x, c *ini.Conn) { c.LogoutImm() }), nil},
		{"logout-with-writes-open", true, hard(func(x *c19x, c *ini.Conn) { write(c, true, 8192); c.LogoutImm() }), nil},
		{"logout-with-commands-waiting", true, hard(func(x *c19x, c *ini.Conn) {
			c.NoSNChk = true
			for j := 0; j <= x.rng.Intn(6); j++ {
				cm := ini.NoData(ini.LUN(0), make([]byte, 6))
				if x.rng.Intn(2) == 0 {
					cm = ini.WriteCmd(ini.LUN(0), ini.WRITE10, 0, 4, make([]byte, 2048), 0)
					cm.Imm = 512 * x.rng.Intn(5)
				}
				cm.ForceSN, cm.SN = true, c.CmdSN()+uint32(2+j)
				c.Submit(cm)
			}
			c.LogoutImm()
		}), nil},
		{"half-close-with-commands-waiting", true, hard(func(x *c19x, c *ini.Conn) {
			c.NoSNChk = true
			for j := 0; j < 3; j++ {
				cm := ini.NoData(ini.LUN(0), make([]byte, 6))
				cm.ForceSN, cm.SN = true, c.CmdSN()+uint32(2+j)
				c.Submit(cm)
			}
			write(c, true, 8192)
			c.Nop(nil, true)
			c.NC.(*net.TCPConn).CloseWrite()
		}), nil},
		{"close", false, hard(func(x *c19x, c *ini.Conn) { c.Close() }), nil},
		{"reset", false, hard(func(x *c19x, c *ini.Conn) { c.Reset() }), nil},
		{"half-close", true, hard(func(x *c19x, c *ini.Conn) { c.NC.(*net.TCPConn).CloseWrite() }), nil},
		{"discovery-logout", true, func(x *c19x) *ini.Conn {
			x.o.Discovery, x.o.Target = true, ""
			c := x.login()
			if c != nil {
				c.TextAll([]ini.KV{{"SendTargets", "All"}}, false)
				c.Logout()
			}
			return c
		}, nil},
		{"discovery-answer-unfetched", false, func(x *c19x) *ini.Conn {
			x.o.Discovery, x.o.Target = true, ""
			x.o.MRDSL = 512
			c := x.login()
			if c != nil {
				// more names than one answer holds: what is left is not asked for
				var kv []ini.KV
				for k := 0; k < 900; k++ {
					kv = append(kv, ini.KV{K: fmt.Sprintf("X-c19.%d", k), V: "y"})
				}
				c.Text(kv, x.rng.Intn(2) == 0)
				if x.rng.Intn(4) == 0 {
					c.Text([]ini.KV{{"SendTargets", "All"}}, x.rng.Intn(2) == 0)
				}
				end(x, c)
			}
			return c
		}, nil},
		{"answer-unfetched", false, func(x *c19x) *ini.Conn {
			x.o.MRDSL = 512
			c := x.login()
			if c == nil {
				return nil
			}
			var kv []ini.KV
			for k := 0; k < 900; k++ {
				kv = append(kv, ini.KV{K: fmt.Sprintf("X-c19.%d", k), V: "y"})
			}
			c.Text(kv, x.rng.Intn(2) == 0)
			if x.rng.Intn(2) == 0 {
				c.Logout()
			}
			end(x, c)
			return c
		}, nil},
		{"discovery-drop", false, func(x *c19x) *ini.Conn {
			x.o.Discovery, x.o.Target = true, ""
			c := x.login()
			if c != nil {
				end(x, c)
			}
			return c
		}, nil},
		{"write-waiting-for-data", false, hard(func(x *c19x, c *ini.Conn) {
			for j := 0; j < 4; j++ {
				write(c, true, 65536).NextR2T(ini.Watchdog)
			}
			end(x, c)
		}), nil},
		{"write-half-sent", false, hard(func(x *c19x, c *ini.Conn) {
			t := write(c, true, 65536)
			if q, ok := t.NextR2T(ini.Watchdog); ok {
				c.SendRaw(t.DataOut(q.TTT, 0, q.Off, make([]byte, 512), false))
			}
			c.Nop(nil, true)
			end(x, c)
		}), nil},
		{"data-segment-cut", false, hard(func(x *c19x, c *ini.Conn) {
			t := write(c, true, 65536)
			if q, ok := t.NextR2T(ini.Watchdog); ok {
				b := t.DataOut(q.TTT, 0, q.Off, make([]byte, 4096), false).Bytes()
				c.SendBytes(b[:1+x.rng.Intn(len(b)-1)])
				time.Sleep(time.Millisecond)
			}
			end(x, c)
		}), nil},
		{"header-cut", true, hard(func(x *c19x, c *ini.Conn) {
			c.SendBytes(make([]byte, 1+x.rng.Intn(47)))
			c.NC.(*net.TCPConn).CloseWrite()
		}), nil},
		{"command-in-store", false, hard(func(x *c19x, c *ini.Conn) {
			c.Submit(ini.ReadCmd(ini.LUN(1), ini.READ10, 0, 8, 512, 0))
			for j := 0; j < 10; j++ {
				c.Submit(ini.NoData(ini.LUN(0), make([]byte, 6)))
			}
			time.Sleep(2 * time.Millisecond)
			end(x, c)
		}), nil},
		{"answers-unread", false, hard(func(x *c19x, c *ini.Conn) {
			c.PauseReading()
			for j := 0; j < 40; j++ {
				c.Submit(ini.ReadCmd(ini.LUN(0), ini.READ10, 0, 1024, 512, 0))
			}
			time.Sleep(20 * time.Millisecond)
			c.Reset()
		}), nil},
		{"commands-ahead-of-turn", false, hard(func(x *c19x, c *ini.Conn) {
			c.NoSNChk = true
			for j := 0; j < 5; j++ {
				cm := ini.NoData(ini.LUN(0), make([]byte, 6))
				cm.ForceSN, cm.SN = true, c.CmdSN()+uint32(2+j)
				c.Submit(cm)
			}
			c.Nop(nil, true)
			end(x, c)
		}), nil},
		{"unknown-opcode", false, bad(func(x *c19x, p *ini.PDU) { p.H[0] = 0x1c }), nil},
		{"login-again", false, bad(func(x *c19x, p *ini.PDU) { p.H[0], p.H[1] = ini.OpLogin|0x40, 0x87 }), nil},
		{"huge-segment", false, hard(func(x *c19x, c *ini.Conn) {
			p := &ini.PDU{}
			p.H[0], p.H[1] = 0x40, 0x80
			p.Put32(16, c.NewITT())
			p.Put32(20, 0xffffffff)
			b := p.Bytes()
			b[5], b[6], b[7] = 0xff, 0xff, 0xff
			c.SendBytes(append(b, make([]byte, 3000)...))
			time.Sleep(time.Millisecond)
			end(x, c)
		}), nil},
		{"data-at-wrong-offset", false, hard(func(x *c19x, c *ini.Conn) {
			t := write(c, true, 65536)
			if q, ok := t.NextR2T(ini.Watchdog); ok {
				c.SendRaw(t.DataOut(q.TTT, 0, q.Off+512, make([]byte, 512), false))
			}
			c.Nop(nil, true)
			end(x, c)
		}), nil},
		{"reinstated", true, hard(func(x *c19x, c *ini.Conn) {
			write(c, true, 65536).NextR2T(ini.Watchdog)
			if c2 := x.login(); c2 != nil {
				c2.Do(ini.NoData(ini.LUN(0), make([]byte, 6)))
				end(x, c2)
				c2.WaitClosed(ini.Watchdog)
			}
		}), nil},
		{"reserved", false, hard(func(x *c19x, c *ini.Conn) {
			c.Do(ini.NoData(ini.LUN(2), []byte{ini.RESERVE6, 0, 0, 0, 0, 0}))
			end(x, c)
		}), nil},
		{"no-byte", false, nil, func(x *c19x) net.Conn { nc, _ := ini.Dial(x.o); return nc }},
		{"garbage", false, nil, func(x *c19x) net.Conn {
			nc, err := ini.Dial(x.o)
			if err == nil {
				nc.Write(fill(x.rng, 1+x.rng.Intn(200)))
			}
			return nc
		}},
		{"command-before-login", true, nil, func(x *c19x) net.Conn {
			rc, err := dialRaw(x.o)
			if err != nil {
				return nil
			}
			rc.send(rc.scsi(ini.LUN(0), make([]byte, 6), 0, 0, nil))
			return rc.nc
		}},
		{"login-stopped-in-security", false, nil, half(std, lreq{csg: 0, nsg: 1, t: true, kv: []ini.KV{{"AuthMethod", "None"}}})},
		{"login-stopped-in-operational", false, nil, half(std, lreq{csg: 0, nsg: 1, t: true, kv: []ini.KV{{"AuthMethod", "None"}}}, lreq{csg: 1, nsg: 3, kv: op})},
		{"login-stopped-after-first-operational", false, nil, half(std, lreq{csg: 1, nsg: 3, kv: op})},
		{"login-error-after-first-stage", false, nil, half(std, lreq{csg: 0, nsg: 1, t: true, kv: []ini.KV{{"AuthMethod", "None"}}}, lreq{csg: 1, nsg: 3, t: true, kv: []ini.KV{{"MaxRecvDataSegmentLength", "1"}}})},
		{"login-cut", false, nil, func(x *c19x) net.Conn {
			nc, err := ini.Dial(x.o)
			if err == nil {
				b := ini.LoginPDU(&x.o, 1, 3, true, 1, append(lg(&x.o), op...)).Bytes()
				nc.Write(b[:1+x.rng.Intn(len(b)-1)])
			}
			return nc
		}},
		{"unknown-target", true, nil, half(func(x *c19x) []ini.KV { x.o.Target += "x"; return lg(&x.o) }, lreq{csg: 1, nsg: 3, t: true, kv: op})},
		{"no-initiator-name", true, nil, half(func(x *c19x) []ini.KV { return lg(&x.o)[1:] }, lreq{csg: 1, nsg: 3, t: true, kv: op})},
		{"bad-authentication", true, nil, half(std, lreq{csg: 0, nsg: 1, t: true, kv: []ini.KV{{"AuthMethod", "CHAP"}}})},
		{"bad-version", true, nil, half(std, lreq{csg: 1, nsg: 3, t: true, kv: op, mod: func(p *ini.PDU) { p.H[2], p.H[3] = 5, 5 }})},
		{"unknown-session", true, nil, half(std, lreq{csg: 1, nsg: 3, t: true, kv: op, mod: func(p *ini.PDU) { p.Put16(14, 0x7777) }})},
		{"bad-key-value", false, nil, half(std, lreq{csg: 1, nsg: 3, t: true, kv: []ini.KV{{"MaxRecvDataSegmentLength", "1"}}})},
	}
}

func c19Spec() tgt.Spec {
	sp := spec1(Dev{ID: 1, Name: "a", Size: 1 << 20, Shift: 9}, Dev{ID: 2, Name: "b", Size: 1 << 20, Shift: 9}, Dev{ID: 3, Name: "c", Size: 1 << 20, Shift: 9})
	sp.Config.ISCSITargets[TN(1)] = config.ISCSITarget{TPGTs: map[string][]uint64{"1": {0}}, LUNs: map[string]uint64{"0": 1, "1": 2, "2": 3}}
	return sp
}

// nexuses counts the nexuses every target lists.
func nexuses(ch *tgt.Child) (map[string]int, string) {
	s, err := ch.Targets()
	if err != nil {
		return nil, err.Error()
	}
	var l []struct {
		Name    string                 `json:"name"`
		ITNexus map[string]interface{} `json:"itnexus"`
	}
	if err := json.Unmarshal([]byte(s), &l); err != nil {
		return nil, err.Error()
	}
	m := map[string]int{}
	for _, t := range l {
		m[t.Name] = len(t.ITNexus)
	}
	return m, ""
}

type c19base struct {
	p tgt.ProcInfo
	n map[string]int
}

// back waits until the server holds no more than at the start.
func (b *c19base) back(r *ck.Run, ch *tgt.Child, v *Sess, cas, after string) bool {
	var p tgt.ProcInfo
	var n map[string]int
	end := time.Now().Add(ini.Watchdog)
	for polls := 0; ; polls++ {
		p, _ = ch.Proc()
		n, _ = nexuses(ch)
		if p.Sockets <= b.p.Sockets && p.Goroutines <= b.p.Goroutines && p.FDs <= b.p.FDs && fmt.Sprint(n) == fmt.Sprint(b.n) {
			r.Max("polls_until_back_max", int64(polls))
			return true
		}
		if dead(r, ch, cas, after) {
			return false
		}
		if v != nil && !v.usable("request of the session that stays") {
			return false
		}
		if time.Now().After(end) && polls > 200 {
			break
		}
		time.Sleep(3 * time.Millisecond)
	}
	what := ""
	switch {
	case fmt.Sprint(n) != fmt.Sprint(b.n):
		what = "nexus"
	case p.Sockets > b.p.Sockets:
		what = "socket"
	case p.FDs > b.p.FDs:
		what = "descriptor"
	default:
		what = "goroutine"
	}
	r.Violate("leak:"+what+":"+after, cas, map[string]interface{}{"stacks": short(ch.Stacks(), 12000)},
		"after connections ended by %s the server does not come back to its baseline: sockets %d (was %d), descriptors %d (%d), goroutines %d (%d), nexuses %v (%v)",
		after, p.Sockets, b.p.Sockets, p.FDs, b.p.FDs, p.Goroutines, b.p.Goroutines, n, b.n)
	return false
}

func c19Batch(r *ck.Run, i int, ways []c19way) {
	rng := r.Rng("batch", i)
	cas := fmt.Sprint(i)
	ch := start(r, cas, c19Spec(), false)
	if ch == nil {
		return
	}
	defer ch.Stop()
	v := login(r, ch, cas, ini.LoginOpts{ISID: [6]byte{0x80, 0x19, 0, 0, 0, 1}, Initiator: "iqn.2020-01.verif:stays"})
	if v == nil || !v.usable("first request") {
		return
	}
	defer v.Close()
	// warm up, so that lazily started parts of the runtime are there
	for k := 0; k < 3; k++ {
		if s := login(r, ch, cas, ini.LoginOpts{Target: TN(1), ISID: [6]byte{0x80, 0x19, 0, 0, 1, byte(k)}}); s != nil {
			s.usable("first request")
			s.Logout()
			s.Close()
		}
	}
	var b c19base
	for k := 0; k < 300; k++ { // the smallest reading after the warm-up sessions are gone
		p, err := ch.Proc()
		if err != nil {
			return
		}
		n, _ := nexuses(ch)
		if k == 0 || p.Goroutines < b.p.Goroutines || p.FDs < b.p.FDs {
			b.p = p
		}
		b.n = n
		if n[TN(1)] == 0 && n[TN(0)] == 1 && k > 20 {
			break
		}
		time.Sleep(2 * time.Millisecond)
	}
	if b.n[TN(0)] != 1 || b.n[TN(1)] != 0 {
		r.Violate("nexus-list", cas, b.n, "one session is open to %s and none to %s, the target list shows %v", TN(0), TN(1), b.n)
		return
	}
	label := "mixed ways"
	if len(ways) == 1 {
		label = ways[0].name
	}
	seen := map[uint16]bool{}
	fresh := 0
	rounds := r.Q(4, 12)
	for round := 0; round < rounds; round++ {
		gated := false
		for _, w := range ways {
			if w.name == "command-in-store" {
				gated = true
			}
		}
		if gated {
			ch.ResetGate("g")
			ch.AddFault(mon.Fault{Dev: "b", Kind: "read", Mode: "gate", Gate: "g"})
		}
		var wg sync.WaitGroup
		var mu sync.Mutex
		var late []net.Conn
		par := 10
		each := r.Q(3, 5)
		if len(ways) > 1 {
			par, each = 14, 4
		}
		for c := 0; c < par; c++ {
			c := c
			wr := rand.New(rand.NewSource(rng.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for e := 0; e < each && !r.Violated(); e++ {
					w := ways[wr.Intn(len(ways))]
					x := &c19x{r: r, ch: ch, cas: cas, rng: wr, o: ini.LoginOpts{Addr: ch.Spec.Addr(), Target: TN(wr.Intn(2)), Initiator: fmt.Sprintf("iqn.2020-01.verif:c%d", c), ISID: [6]byte{0x80, 0x19, 2, byte(round), byte(c), byte(e)}, Security: wr.Intn(2) == 0}}
					r.Add("way_"+w.name, 1)
					r.Eval(fmt.Sprintf("%s sec=%v mix=%v", w.name, x.o.Security, len(ways) > 1))
					if w.f != nil {
						cn := w.f(x)
						if cn == nil {
							return
						}
						mu.Lock()
						if !seen[cn.RTSIH] {
							seen[cn.RTSIH] = true
							fresh++
						}
						mu.Unlock()
						if w.closes && !cn.WaitClosed(ini.Watchdog) {
							c19Open(r, ch, cas, w.name, cn.Trace())
							return
						}
						if !w.closes && (w.name == "unknown-opcode" || w.name == "login-again") { // a Reject is fine too
							cn.Nop(nil, true)
						}
						cn.Close()
						continue
					}
					nc := w.raw(x)
					if nc == nil {
						continue
					}
					if w.closes {
						nc.SetReadDeadline(time.Now().Add(ini.Watchdog))
						var buf [4096]byte
						for {
							if _, err := nc.Read(buf[:]); err != nil {
								if ne, ok := err.(net.Error); ok && ne.Timeout() {
									c19Open(r, ch, cas, w.name, nil)
								}
								break
							}
						}
						nc.Close()
						continue
					}
					switch wr.Intn(3) {
					case 0: // stays for the rest of the batch
						mu.Lock()
						late = append(late, nc)
						mu.Unlock()
					case 1:
						nc.(*net.TCPConn).SetLinger(0)
						nc.Close()
					default:
						nc.Close()
					}
				}
			}()
		}
		opened := make(chan bool)
		go func() {
			if gated {
				time.Sleep(40 * time.Millisecond)
				ch.Release("g")
			}
			close(opened)
		}()
		wg.Wait()
		<-opened
		ch.ClearFaults()
		for _, nc := range late {
			nc.Close()
		}
		if r.Violated() || dead(r, ch, cas, label) {
			return
		}
		if !b.back(r, ch, v, cas, label) {
			return
		}
		r.Add("batches_back_to_baseline", 1)
		// a reservation held by an ended session is gone, a new session is served
		s := login(r, ch, cas, ini.LoginOpts{Target: TN(1), ISID: [6]byte{0x80, 0x19, 3, 0, 0, byte(round)}})
		if s == nil || !s.usable("request of a new session") {
			return
		}
		s.Logout()
		s.Close()
		if !b.back(r, ch, v, cas, "logout") {
			return
		}
	}
	if len(ways) == 1 {
		r.Sample(map[string]interface{}{"way": label, "connections": rounds * 30, "sockets": b.p.Sockets, "goroutines": b.p.Goroutines})
		// handles: with at most 12 sessions at a time there is no need for many
		if fresh > 60 {
			r.Add("ways_repeated_beyond_the_handles", 1)
			c19Handles(r, &ways[0])
		}
	}
}

func c19Open(r *ck.Run, ch *tgt.Child, cas, way string, tr []string) {
	if dead(r, ch, cas, way) {
		return
	}
	if err := progress(ch, 60); err != nil {
		r.Violate("server-hung:"+way, cas, tail(tr, 20), "after %s the server serves no one: %v", way, err)
		return
	}
	r.Violate("not-closed:"+way, cas, map[string]interface{}{"trace": tail(tr, 20), "stacks": short(ch.Stacks(), 6000)}, "the server keeps the connection open after %s, although another session was served meanwhile", way)
}

// c19Flood opens more connections than the server may have descriptors; when they are gone it must be as before.
func c19Flood(r *ck.Run, i int) {
	cas := "flood"
	rng := r.Rng(cas, i)
	sp := c19Spec()
	sp.NFile = int64(50 + rng.Intn(80))
	sp.API = fmt.Sprintf("127.0.0.1:%d", tgt.FreePort())
	ch := start(r, cas, sp, false)
	if ch == nil {
		return
	}
	defer ch.Stop()
	v := login(r, ch, cas, ini.LoginOpts{Target: TN(0), ISID: [6]byte{0x80, 0x19, 8, 0, 0, 1}})
	if v == nil || !v.usable("request of the session that stays") {
		return
	}
	defer v.Close()
	var b c19base
	var err error
	if b.p, err = ch.Proc(); err != nil {
		return
	}
	b.n, _ = nexuses(ch)
	for round := 0; round < 3; round++ {
		var open []net.Conn
		for j := 0; j < int(sp.NFile)*2; j++ {
			a := ch.Spec.Addr()
			if round == 1 && j%3 == 0 {
				a = sp.API
			}
			nc, err := net.DialTimeout("tcp", a, ini.Watchdog)
			if err != nil {
				break
			}
			if rng.Intn(3) == 0 {
				nc.Write(make([]byte, rng.Intn(60)))
			}
			open = append(open, nc)
			if j%16 == 0 && !v.usable("request while connections flood the server") {
				break
			}
		}
		r.Max("connections_beyond_descriptors", int64(len(open))-sp.NFile)
		for j := 0; j < 10 && !r.Violated(); j++ {
			v.usable("request while the server has no descriptor left")
			time.Sleep(10 * time.Millisecond)
		}
		for _, nc := range open {
			nc.Close()
		}
		if r.Violated() || dead(r, ch, cas, "flood") || !b.back(r, ch, v, cas, "flood") {
			return
		}
		s := login(r, ch, cas, ini.LoginOpts{Target: TN(1), ISID: [6]byte{0x80, 0x19, 8, 0, 0, 2}})
		if s == nil || !s.usable("request of a new session after a flood") {
			return
		}
		s.Logout()
		s.Close()
		r.Eval(fmt.Sprint("flood ", round, sp.NFile))
	}
}

// c19Mem abandons many big transfers and looks at the heap.
func c19Mem(r *ck.Run) {
	ch := start(r, "mem", c19Spec(), false)
	if ch == nil {
		return
	}
	defer ch.Stop()
	base, err := ch.Proc()
	if err != nil {
		return
	}
	r.Each(r.Q(240, 1200), 8, func(i int) {
		s := login(r, ch, "mem", ini.LoginOpts{Target: TN(i % 2), ISID: [6]byte{0x80, 0x19, 7, byte(i >> 8), byte(i), 1}})
		if s == nil {
			return
		}
		for k := 0; k < 4; k++ {
			cm := ini.WriteCmd(ini.LUN(0), ini.WRITE10, 0, 500, make([]byte, 256000), 0)
			cm.Hold, cm.Imm = true, 65536
			t := s.Submit(cm)
			q, ok := t.NextR2T(ini.Watchdog)
			if !ok {
				break
			}
			n := min(uint32(131072), q.Len)
			for o := uint32(0); o < n; o += 32768 {
				s.SendRaw(t.DataOut(q.TTT, o/32768, q.Off+o, make([]byte, min(32768, n-o)), false))
			}
		}
		s.Nop(nil, true)
		if i%2 == 0 {
			s.Reset()
		} else {
			s.Close()
		}
		r.Eval("abandoned transfers")
	})
	// sessions that stay and whose requests came ahead of their turn: nothing of those is kept
	var keep []*Sess
	defer func() {
		for _, s := range keep {
			s.Close()
		}
	}()
	for i := 0; i < 4; i++ {
		s := login(r, ch, "mem", ini.LoginOpts{Target: TN(i % 2), ISID: [6]byte{0x80, 0x19, 8, 0, byte(i), 1}})
		if s == nil {
			return
		}
		keep = append(keep, s)
		for round := 0; round < r.Q(12, 60); round++ {
			sn := s.CmdSN()
			var ts []*ini.Task
			var chs []chan *ini.PDU
			for k := 0; k < 100; k++ {
				s.TakeCmdSN()
			}
			for k := 99; k >= 0; k-- {
				if k%10 == 5 {
					chs = append(chs, s.RequestAt(ini.NopPDU(make([]byte, 60000)), sn+uint32(k)))
					continue
				}
				cm := ini.WriteCmd(ini.LUN(0), ini.WRITE10, 0, 128, make([]byte, 65536), 0)
				cm.ForceSN, cm.SN, cm.Imm = true, sn+uint32(k), 65536
				if k%10 == 7 { // refused: nothing of this length fits the unit
					cm.CDB[2] = 0x7f
				}
				ts = append(ts, s.Submit(cm))
			}
			for _, t := range ts {
				if !s.wait(t, "WRITE(10) sent ahead of its turn") {
					return
				}
			}
			for _, c := range chs {
				if _, err := ini.WaitPDU(c); err != nil {
					s.failed(err, "NOP-Out sent ahead of its turn")
					return
				}
			}
			r.Eval("early")
		}
	}
	var p tgt.ProcInfo
	for k := 0; k < 400; k++ {
		if p, err = ch.Proc(); err != nil || p.HeapMB <= base.HeapMB+48 {
			break
		}
		time.Sleep(10 * time.Millisecond)
	}
	r.Max("heap_mb_after_abandoned_transfers", int64(p.HeapMB))
	if dead(r, ch, "mem", "abandoned transfers") {
		return
	}
	if err == nil && p.HeapMB > base.HeapMB+48 {
		r.Violate("leak:memory", "mem", p, "after %d sessions that abandoned big writes, and with %d open ones whose early requests are all answered, the server's live heap is %d MB, it began with %d MB", r.Q(240, 1200), len(keep), p.HeapMB, base.HeapMB)
	}
}

// c19Handles makes more sessions than there are session handles.
func c19Handles(r *ck.Run, w *c19way) {
	cas, label := "handles", "login and close"
	if w != nil {
		label = w.name
	}
	ch := start(r, cas, c19Spec(), false)
	if ch == nil {
		return
	}
	defer ch.Stop()
	ch.SetDrop(true)
	n := 66500
	var made, next atomic.Int64
	var wg sync.WaitGroup
	for c := 0; c < 16; c++ {
		c := c
		wr := r.Rng("handles", label, c)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for !r.Violated() {
				k := next.Add(1)
				if k > int64(n) {
					return
				}
				o := ini.LoginOpts{Addr: ch.Spec.Addr(), Target: TN(int(k) % 2), Initiator: "iqn.2020-01.verif:many", ISID: [6]byte{0x80, byte(k >> 24), byte(k >> 16), byte(k >> 8), byte(k), byte(c)}}
				if w != nil && w.f != nil {
					x := &c19x{r: r, ch: ch, cas: cas, rng: wr, o: o}
					if cn := w.f(x); cn != nil {
						cn.Close()
						made.Add(1)
					}
					continue
				}
				rc, err := dialRaw(o)
				if err != nil {
					continue
				}
				kv := []ini.KV{{"InitiatorName", o.Initiator}, {"SessionType", "Normal"}, {"TargetName", o.Target}}
				if k%5 == 0 {
					kv = []ini.KV{{"InitiatorName", o.Initiator}, {"SessionType", "Discovery"}}
				}
				p, err := rc.login(lreq{csg: 1, nsg: 3, t: true, kv: kv})
				if err != nil {
					rc.nc.Close()
					if !dead(r, ch, cas, "login") {
						r.Violate("login-refused-after-many", cas, rc.log, "login number %d was not answered: %v", k, err)
					}
					return
				}
				if p.H[36] != 0 {
					rc.nc.Close()
					r.Violate("login-refused-after-many", cas, rc.log, "after %d sessions that have all ended (at most 16 at a time) a login is refused with status %02x%02x", made.Load(), p.H[36], p.H[37])
					return
				}
				made.Add(1)
				rc.nc.(*net.TCPConn).SetLinger(0) // spares the ports
				rc.nc.Close()
			}
		}()
	}
	wg.Wait()
	r.Add("sessions_beyond_handles", made.Load())
	if !r.Violated() {
		r.Eval("handles " + label)
		if s := login(r, ch, cas, ini.LoginOpts{}); s != nil {
			s.usable("request after many sessions")
			s.Close()
		}
	}
}

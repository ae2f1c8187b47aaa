package checks

import (
	"errors"
	"fmt"
	"math/rand"
	"net"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"verif/ck"
	"verif/ini"
	"verif/tgt"

	"github.com/gostor/gotgt/pkg/config"
)

func init() { All["C23"] = Check{Run: c23, Level: "exploration", Min: 8000} }

func c23(r *ck.Run) {
	r.Rule("servers and the real gotgt daemon in single-host mode and without it; random histories in which 3-5 source addresses (some the beginning of others, IPv6 where there is) connect, log in fully, halfway, for discovery or not at all, and leave by logout, close, reset, or by being thrown out; while a host is known to have a connection open every attempt of another must get nothing but the end of its connection, every attempt of its own must be served, its commands too; when its last connection has gone another host must get in. Hosts competing at once: the intervals in which connections were certainly open must not overlap between hosts. Distinct by (attempt, owner or other, connections open, way of leaving)")
	r.Assume("a host is a source IP address; a closed connection stops counting when the server notices, which is waited for")
	r.Each(r.Q(350, 4000), 7, func(i int) { c23World(r, i) })
	r.Each(r.Q(56, 600), 7, func(i int) { c23Race(r, i) })
}

type c23c struct {
	host string
	kind string
	c    *ini.Conn // full and discovery sessions
	rc   *rawc     // half a login
}

type c23w struct {
	r     *ck.Run
	cas   string
	rng   *rand.Rand
	port  int
	dead  func(what string) bool
	block bool
	owner string
	open  []*c23c
	gen   int
	hist  []string
	mu    sync.Mutex
}

func (w *c23w) note(f string, a ...interface{}) {
	w.mu.Lock()
	w.hist = append(w.hist, fmt.Sprintf(f, a...))
	w.mu.Unlock()
}

func (w *c23w) bad(sig, f string, a ...interface{}) bool {
	if !w.dead("single-host mode") {
		w.r.Violate(sig, w.cas, tail(w.hist, 30), f, a...)
	}
	return false
}

func (w *c23w) addr(host string) string {
	if strings.Contains(host, ":") {
		return fmt.Sprintf("[%s]:%d", host, w.port)
	}
	return fmt.Sprintf("127.0.0.1:%d", w.port)
}

func (w *c23w) opts(host string) ini.LoginOpts {
	w.mu.Lock()
	w.gen++
	g := w.gen
	w.mu.Unlock()
	return ini.LoginOpts{Addr: w.addr(host), LocalAddr: host, Target: TN(0), Initiator: "iqn.2020-01.verif:c23", ISID: [6]byte{0x80, 0x23, 0, byte(g >> 16), byte(g >> 8), byte(g)}}
}

// c23Hosts are source addresses that can be used here.
func c23Hosts(rng *rand.Rand) []string {
	l := []string{"127.0.0.1", "127.0.0.11", "127.0.0.2", "127.1.0.1", "127.0.0.111"}
	rng.Shuffle(len(l), func(a, b int) { l[a], l[b] = l[b], l[a] })
	l = l[:3]
	if haveSix() {
		l = append(l, "::1")
	}
	return l
}

// haveSix tells whether this machine has the loopback address of IPv6.
func haveSix() bool {
	c, err := net.Listen("tcp", "[::1]:0")
	if err == nil {
		c.Close()
	}
	return err == nil
}

// c23Start brings up a server or, every third time, the daemon.
func c23Start(r *ck.Run, cas string, i int, block bool) (w *c23w, stop func()) {
	w = &c23w{r: r, cas: cas, rng: r.Rng(cas), block: block}
	if i%3 == 2 {
		dir := r.SubDir("c23")
		img := dir + "/disk.img"
		mkfile(img, 1<<20)
		var args []string
		if block {
			args = []string{"--block-multiple-hosts"}
		}
		d := startDaemon(r, cas, dir, func(port int) *config.Config {
			sp := spec1(Dev{ID: 1, Path: "file:" + img, Shift: 9})
			sp.Config.ISCSIPortals[0].Portal = fmt.Sprintf("127.0.0.1:%d", port)
			return &sp.Config
		}, args...)
		if d == nil {
			return nil, nil
		}
		w.port = d.port
		w.dead = func(what string) bool { return d.dead(r, cas, what) }
		return w, d.kill
	}
	sp := spec1(Dev{ID: 1, Name: "a", Size: 1 << 20, Shift: 9})
	sp.BlockHosts = block
	ch := start(r, cas, sp, false)
	if ch == nil {
		return nil, nil
	}
	w.port = c23port(ch)
	w.dead = func(what string) bool { return dead(r, ch, cas, what) }
	return w, func() { ch.Stop() }
}

func c23port(ch *tgt.Child) int { return ch.Spec.Port }

// attempt tries to get a connection of a kind; nothing for "dropped without an answer".
func (w *c23w) attempt(host, kind string) (*c23c, error) {
	o := w.opts(host)
	x := &c23c{host: host, kind: kind}
	switch kind {
	case "full", "discovery":
		if strings.Contains(host, ":") { // no portal has an IPv6 address
			kind, x.kind = "discovery", "discovery"
		}
		o.Discovery = kind == "discovery"
		if o.Discovery {
			o.Target = ""
		}
		o.Security = o.ISID[5]%2 == 0
		c, err := ini.Login(o)
		if err != nil {
			return nil, err
		}
		x.c = c
		return x, nil
	default: // the first half of a login
		rc, err := dialRaw(o)
		if err != nil {
			return nil, err
		}
		p, err := rc.login(lreq{csg: 0, nsg: 1, t: true, kv: []ini.KV{{K: "InitiatorName", V: o.Initiator}, {K: "SessionType", V: "Discovery"}, {K: "AuthMethod", V: "None"}}})
		if err != nil {
			rc.close()
			if err == errQuiet {
				return nil, fmt.Errorf("no answer")
			}
			return nil, &ini.LoginError{Closed: true, Err: err}
		}
		if p.H[36] != 0 {
			rc.close()
			return nil, &ini.LoginError{Class: p.H[36], Detail: p.H[37]}
		}
		x.rc = rc
		return x, nil
	}
}

func c23Dropped(err error) bool {
	var le *ini.LoginError
	return errors.As(err, &le) && le.Closed
}

// mute opens a connection and sends nothing or rubbish: it must end without a byte.
func (w *c23w) mute(host string, n int) bool {
	nc, err := ini.Dial(w.opts(host))
	if err != nil {
		return w.bad("no-connection", "%s gets no connection: %v", host, err)
	}
	defer nc.Close()
	if n > 0 {
		nc.Write(fill(w.rng, n))
	}
	nc.SetReadDeadline(time.Now().Add(ini.Watchdog))
	var b [64]byte
	k, err := nc.Read(b[:])
	if k > 0 {
		return w.bad("other-answered", "%s is answered with %d bytes while %s has %d connections", host, k, w.owner, len(w.open))
	}
	if os.IsTimeout(err) {
		return w.bad("other-kept", "the connection of %s is kept while %s has %d connections", host, w.owner, len(w.open))
	}
	return true
}

func (x *c23c) works() error {
	if x.c == nil {
		return nil
	}
	if x.kind == "discovery" {
		_, _, err := x.c.TextAll([]ini.KV{{K: "SendTargets", V: "All"}}, false)
		return err
	}
	t := x.c.Submit(ini.ReadCmd(ini.LUN(0), ini.READ10, 3, 2, 512, 0))
	if err := t.Wait(); err != nil {
		return err
	}
	if t.Status != 0 {
		return fmt.Errorf("READ(10) ended with %s", t.Outcome())
	}
	return nil
}

var c23Kinds = []string{"full", "full", "discovery", "half"}

// try lets a host attempt to connect and judges the result.
func (w *c23w) try(host string) bool {
	kind := c23Kinds[w.rng.Intn(4)]
	other := w.block && w.owner != "" && w.owner != host
	if other && w.rng.Intn(4) == 0 {
		w.note("%s connects and says nothing of use", host)
		w.r.Eval(fmt.Sprint("mute ", len(w.open)))
		return w.mute(host, []int{0, 0, 20, 48, 500}[w.rng.Intn(5)])
	}
	end := time.Now().Add(2 * ini.Watchdog)
	for n := 0; ; n++ {
		x, err := w.attempt(host, kind)
		w.r.Eval(fmt.Sprint(kind, other, w.owner == "", len(w.open), w.block))
		if other {
			w.note("%s tries %s: %v", host, kind, err)
			if err == nil {
				return w.bad("other-served", "%s is let in (%s) while %s has %d connections open", host, kind, w.owner, len(w.open))
			}
			if !c23Dropped(err) {
				return w.bad("other-answered", "%s is not just dropped (%s) while %s has %d connections open: %v", host, kind, w.owner, len(w.open), err)
			}
			return true
		}
		if err == nil {
			w.note("%s gets in (%s)", host, kind)
			w.open = append(w.open, x)
			w.owner = host
			if err := x.works(); err != nil {
				return w.bad("not-served", "%s is let in (%s) but not served: %v", host, kind, err)
			}
			return true
		}
		// nobody has a connection any more: wait for the server to notice
		if !w.block || w.owner != "" || !c23Dropped(err) {
			return w.bad("own-refused", "%s is refused (%s), connections are open from %q: %v", host, kind, w.owner, err)
		}
		if time.Now().After(end) {
			return w.bad("never-admitted", "%s is refused long after the last connection of another host has ended: %v", host, err)
		}
		w.r.Add("retries", 1)
		time.Sleep(2 * time.Millisecond)
	}
}

func (x *c23c) leave(how int) (string, error) {
	if x.rc != nil {
		defer x.rc.close()
		switch how % 3 {
		case 0:
			return "half login closed", nil
		case 1:
			if t, ok := x.rc.nc.(*net.TCPConn); ok {
				t.SetLinger(0)
			}
			return "half login reset", nil
		}
		// thrown out: a login that turns out wrong
		p, err := x.rc.login(lreq{csg: 1, nsg: 3, t: true, kv: []ini.KV{{K: "MaxRecvDataSegmentLength", V: "x"}}})
		if err == nil && p.H[36] == 0 {
			return "half login completed and closed", nil
		}
		for err == nil {
			_, err = x.rc.recv(ini.Watchdog)
		}
		if err == errQuiet {
			return "", fmt.Errorf("a refused login keeps its connection")
		}
		return "login refused", nil
	}
	defer x.c.Close()
	switch how % 5 {
	case 0:
		x.c.Logout()
		return "logout", nil
	case 1:
		x.c.Reset()
		return "reset", nil
	case 2: // in the middle of a PDU
		x.c.SendBytes(make([]byte, 17))
		return "close within a PDU", nil
	case 3:
		if x.kind == "full" {
			c := ini.WriteCmd(ini.LUN(0), ini.WRITE10, 0, 64, make([]byte, 32768), 0)
			c.Hold, c.Imm = true, 0
			x.c.Submit(c)
		}
		return "close within a transfer", nil
	}
	return "close", nil
}

// leave ends one connection.
func (w *c23w) leave() bool {
	if len(w.open) == 0 {
		return true
	}
	k := w.rng.Intn(len(w.open))
	x := w.open[k]
	w.open = append(append([]*c23c{}, w.open[:k]...), w.open[k+1:]...)
	how, err := x.leave(w.rng.Intn(30))
	if err != nil {
		return w.bad("not-closed", "%s: %v", x.host, err)
	}
	w.note("%s leaves: %s (%d left)", x.host, how, len(w.open))
	w.r.Eval(fmt.Sprint(how, len(w.open), w.block))
	if len(w.open) == 0 {
		w.owner = ""
	}
	return true
}

func c23World(r *ck.Run, i int) {
	cas := fmt.Sprintf("w%d", i)
	block := i%6 != 4
	w, stop := c23Start(r, cas, i, block)
	if w == nil {
		return
	}
	defer stop()
	hosts := c23Hosts(w.rng)
	bias := 3 + w.rng.Intn(5)
	for k := 0; k < r.Q(60, 150); k++ {
		ok := true
		if w.rng.Intn(10) < bias && len(w.open) < 7 {
			h := hosts[w.rng.Intn(len(hosts))]
			if w.owner != "" && w.rng.Intn(3) == 0 {
				h = w.owner
			}
			ok = w.try(h)
		} else {
			ok = w.leave()
		}
		if ok && len(w.open) > 0 {
			x := w.open[w.rng.Intn(len(w.open))]
			if err := x.works(); err != nil {
				ok = w.bad("disturbed", "a connection of %s (%s) is not served any more: %v", x.host, x.kind, err)
			}
		}
		if !ok || r.Violated() {
			break
		}
	}
	if i < 2 {
		r.Sample(tail(w.hist, 12))
	}
	for _, x := range w.open {
		if x.c != nil {
			x.c.Close()
		} else {
			x.rc.close()
		}
	}
}

type c23span struct {
	host     string
	from, to time.Duration
}

func c23Race(r *ck.Run, i int) {
	cas := fmt.Sprintf("race%d", i)
	w, stop := c23Start(r, cas, i, true)
	if w == nil {
		return
	}
	defer stop()
	hosts := c23Hosts(w.rng)
	base := time.Now()
	var mu sync.Mutex
	var spans []c23span
	var wg sync.WaitGroup
	for _, h := range hosts {
		wg.Add(1)
		go func(h string, rng *rand.Rand) {
			defer wg.Done()
			for k := 0; k < r.Q(60, 200) && !r.Violated(); k++ {
				x, err := w.attempt(h, c23Kinds[rng.Intn(4)])
				if err != nil {
					if !c23Dropped(err) {
						w.bad("other-answered", "%s competing with others is not just dropped: %v", h, err)
						return
					}
					r.Add("dropped", 1)
					time.Sleep(time.Duration(rng.Intn(3000)) * time.Microsecond)
					continue
				}
				in := time.Since(base)
				r.Add("admitted", 1)
				more := []*c23c{x}
				var spn []c23span
				from := []time.Duration{in}
				for n := rng.Intn(3); n > 0; n-- {
					y, err := w.attempt(h, c23Kinds[rng.Intn(4)])
					if err != nil {
						w.bad("own-refused", "%s is refused while it has %d connections open: %v", h, len(more), err)
						return
					}
					more = append(more, y)
					from = append(from, time.Since(base))
				}
				if err := more[rng.Intn(len(more))].works(); err != nil {
					w.bad("not-served", "%s is let in but not served: %v", h, err)
					return
				}
				time.Sleep(time.Duration(rng.Intn(1000)) * time.Microsecond)
				for n, y := range more {
					spn = append(spn, c23span{h, from[n], time.Since(base)})
					y.leave(rng.Intn(30))
				}
				mu.Lock()
				spans = append(spans, spn...)
				mu.Unlock()
				if rng.Intn(2) == 0 {
					time.Sleep(time.Duration(rng.Intn(5000)) * time.Microsecond)
				}
			}
		}(h, rand.New(rand.NewSource(w.rng.Int63())))
	}
	wg.Wait()
	if r.Violated() {
		return
	}
	sort.Slice(spans, func(a, b int) bool { return spans[a].from < spans[b].from })
	// the end furthest ahead, and the host it belongs to, among the intervals begun before
	var far c23span
	turns := 0
	for _, s := range spans {
		if s.host != far.host && s.from < far.to {
			w.bad("two-hosts", "%s had a connection open from %v to %v, %s from %v to %v", far.host, far.from, far.to, s.host, s.from, s.to)
			return
		}
		if s.host != far.host {
			turns++
			far = s
		}
		if s.to > far.to {
			far = s
		}
	}
	r.Add("handovers", int64(turns))
	r.Eval(fmt.Sprint("race ", len(hosts), turns))
	for _, h := range hosts { // in the end everyone can get in
		w.owner = ""
		if !w.try(h) {
			return
		}
		for len(w.open) > 0 {
			if !w.leave() {
				return
			}
		}
	}
}

package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/ck"
	"verif/ini"

	"github.com/gostor/gotgt/pkg/config"
)

func init() { All["C21"] = Check{Run: c21, Level: "exploration", Min: 6000} }

func c21(r *ck.Run) {
	r.Rule("the real gotgt daemon on random configurations (0-8 targets, 1-3 portal groups); sessions of several initiators log in and out, fail to, drop, reset and take over each other, discovery sessions come and go; at rest the HTTP list and the command line's output are compared with the table of targets and sessions, during churn every answer must hold all targets, all sessions known to stay and no unknown one; requests of every method on known, unknown and odd paths, with odd versions, headers, bodies and raw bytes, must get the proper status, have the effect they claim and disturb nothing. Distinct by (kind of look, number of sessions) and (method, path class, status)")
	r.Assume("a session whose connection the initiator has just dropped may be listed until the target notices; an operation may be refused as not implemented, but what is answered with success must have been done")
	c21Client(r)
	r.Each(r.Q(168, 900), 7, func(i int) { c21World(r, i) })
}

type c21s struct {
	*ini.Conn
	ini string
	tgt string
}

type c21w struct {
	r    *ck.Run
	d    *daemon
	cas  string
	rng  *rand.Rand
	cfg  *config.Config
	tags map[string]map[int]string // target -> tag -> portal address
	name []string
	sess []*c21s
	gen  int
	hc   *http.Client
}

type c21entry struct {
	Name string `json:"name"`
	TID  int    `json:"tid"`
	Tpg  []struct {
		Ports []struct {
			RelativeTargetPortID int
			TargetPortName       string
		} `json:"targetportgroup"`
	} `json:"tpg"`
	ITNexus map[string]struct{ Tag string } `json:"itnexus"`
}

func c21World(r *ck.Run, i int) {
	rng := r.Rng("w", i)
	cas := fmt.Sprint(i)
	w := &c21w{r: r, cas: cas, rng: rng, tags: map[string]map[int]string{}}
	dir := r.SubDir("c21")
	img := dir + "/disk.img"
	mkfile(img, 1<<20)
	nt := []int{1, 2, 3, 8, 0}[i%5]
	np := 1 + rng.Intn(3)
	tagSeed := rng.Int63()
	mk := func(port int) *config.Config {
		trng := rand.New(rand.NewSource(tagSeed))
		c := &config.Config{ISCSITargets: map[string]config.ISCSITarget{}, Storages: []config.BackendStorage{{DeviceID: 7, Path: "file:" + img, Online: true}}}
		w.tags, w.name = map[string]map[int]string{}, nil
		var addr []string
		for p := 0; p < np; p++ {
			addr = append(addr, fmt.Sprintf("127.0.0.%d:%d", 1+p, port))
			c.ISCSIPortals = append(c.ISCSIPortals, config.ISCSIPortalInfo{ID: uint16(10 * p), Portal: addr[p]})
		}
		for t := 0; t < nt; t++ {
			n := fmt.Sprintf("iqn.2021-%02d.verif:t%d", 1+t, t)
			if t == 1 {
				n = w.name[0] + "b" // one name is the start of another
			}
			if t == 2 {
				n = "eui.02004567A425678D"
			}
			ct := config.ISCSITarget{TPGTs: map[string][]uint64{}, LUNs: map[string]uint64{"0": 7}}
			w.tags[n] = map[int]string{}
			for p := 0; p < np; p++ {
				tag := []int{1 + p, trng.Intn(65536), 255 + p, 65535 - p}[trng.Intn(4)]
				if _, dup := w.tags[n][tag]; dup {
					continue
				}
				ct.TPGTs[strconv.Itoa(tag)] = []uint64{uint64(10 * p)}
				w.tags[n][tag] = addr[p]
			}
			c.ISCSITargets[n] = ct
			w.name = append(w.name, n)
		}
		w.cfg = c
		return c
	}
	var args []string
	if i%6 == 5 { // started by a service manager that holds the API's socket
		args = []string{"--host", []string{"fd://*", "fd://", "fd://4"}[i/6%3]}
		r.Add("daemons_with_a_passed_socket", 1)
	}
	w.d = startDaemon(r, cas, dir, mk, args...)
	if w.d == nil {
		return
	}
	defer w.d.kill()
	w.hc = &http.Client{Timeout: 2 * ini.Watchdog, Transport: &http.Transport{}}
	defer w.hc.CloseIdleConnections()
	for step := 0; step < r.Q(30, 80); step++ {
		ok := true
		switch c := rng.Intn(12); {
		case c < 5 && nt > 0:
			ok = w.open()
		case c < 8:
			ok = w.close()
		case c < 9:
			ok = w.churn()
		default:
			ok = w.requests()
		}
		if ok {
			ok = w.look(fmt.Sprintf("step %d", step), step%5 == 4)
		}
		if !ok || r.Violated() {
			return
		}
	}
	if !w.cliOps() || !w.rawBytes() || !w.look("the end", true) {
		return
	}
	for _, s := range w.sess { // the sessions were not disturbed
		t := s.Submit(ini.ReadCmd(ini.LUN(0), ini.READ10, 0, 1, 512, 0))
		if err := t.Wait(); err != nil || t.Status != 0 {
			if !w.d.dead(r, cas, "read") {
				r.Violate("session-disturbed", cas, tail(s.Trace(), 20), "a session open since before the management requests is not served any more: %v %s", err, t.Outcome())
			}
			return
		}
	}
	if i < 3 {
		r.Sample(map[string]interface{}{"targets": w.name, "sessions": len(w.sess)})
	}
	if code, ok := w.d.term(2 * ini.Watchdog); !ok {
		r.Violate("no-shutdown", cas, w.d.output(), "the daemon does not end after SIGTERM")
	} else if code != 0 {
		r.Violate("shutdown-status", cas, w.d.output(), "the daemon asked to end by SIGTERM ended with status %d", code)
	}
	for _, s := range w.sess {
		s.Close()
	}
}

func (w *c21w) bad(sig string, det interface{}, f string, a ...interface{}) bool {
	if !w.d.dead(w.r, w.cas, "management") {
		w.r.Violate(sig, w.cas, det, f, a...)
	}
	return false
}

func (w *c21w) opts() ini.LoginOpts {
	n := w.name[w.rng.Intn(len(w.name))]
	var tags []int
	for t := range w.tags[n] {
		tags = append(tags, t)
	}
	sort.Ints(tags)
	tag := tags[w.rng.Intn(len(tags))]
	w.gen++
	return ini.LoginOpts{Addr: w.tags[n][tag], Target: n, Initiator: fmt.Sprintf("iqn.2020-01.verif:i%d.x", w.gen), ISID: [6]byte{0x80, 0x21, 0, 0, byte(w.gen >> 8), byte(w.gen)}}
}

func (w *c21w) open() bool {
	o := w.opts()
	switch k := w.rng.Intn(8); {
	case k == 0: // discovery sessions are no nexus
		o.Discovery, o.Target = true, ""
	case k == 1: // refused
		o.Target += "none"
		if c, err := ini.Login(o); err == nil {
			c.Close()
			return w.bad("login-unknown", nil, "a login to a target that does not exist succeeded")
		}
		return true
	case k == 2 && len(w.sess) > 0: // take over
		j := w.rng.Intn(len(w.sess))
		old := w.sess[j]
		o = old.Opts
		c, err := ini.Login(o)
		if err != nil {
			return w.bad("login-failed", w.d.output(), "a login taking over a session failed: %v", err)
		}
		old.Close()
		w.sess[j] = &c21s{c, old.ini, old.tgt}
		return true
	case k == 3 && len(w.sess) > 0: // same initiator, another ISID
		o.Initiator = w.sess[w.rng.Intn(len(w.sess))].ini
	}
	c, err := ini.Login(o)
	if err != nil {
		return w.bad("login-failed", w.d.output(), "a well-formed login failed: %v", err)
	}
	if o.Discovery {
		if w.rng.Intn(2) == 0 {
			c.Logout()
		}
		defer c.Close()
		if _, _, err := c.TextAll([]ini.KV{{"SendTargets", "All"}}, false); err != nil && w.d.exited() {
			return w.bad("discovery", nil, "%v", err)
		}
		return w.look("a discovery session", false)
	}
	w.sess = append(w.sess, &c21s{c, o.Initiator, o.Target})
	return true
}

func (w *c21w) close() bool {
	if len(w.sess) == 0 {
		return true
	}
	j := w.rng.Intn(len(w.sess))
	s := w.sess[j]
	w.sess = append(append([]*c21s{}, w.sess[:j]...), w.sess[j+1:]...)
	switch w.rng.Intn(4) {
	case 0:
		s.Logout()
		s.Close()
	case 1:
		s.Reset()
	case 2:
		s.Submit(func() ini.Cmd {
			c := ini.WriteCmd(ini.LUN(0), ini.WRITE10, 0, 8, make([]byte, 4096), 0)
			c.Hold, c.Imm = true, 0
			return c
		}())
		s.Close()
	default:
		s.Close()
	}
	return true
}

func (w *c21w) get(q string) ([]c21entry, string, error) {
	resp, err := w.hc.Get("http://" + w.d.api + q)
	if err != nil {
		return nil, "", err
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	if err != nil {
		return nil, "", err
	}
	if resp.StatusCode != 200 || !strings.HasPrefix(resp.Header.Get("Content-Type"), "application/json") {
		return nil, string(b), fmt.Errorf("status %d, type %q", resp.StatusCode, resp.Header.Get("Content-Type"))
	}
	var l []c21entry
	dec := json.NewDecoder(bytes.NewReader(b))
	if err := dec.Decode(&l); err != nil {
		return nil, string(b), fmt.Errorf("not JSON: %v", err)
	}
	if bytes.TrimSpace(b)[0] != '[' {
		return nil, string(b), fmt.Errorf("not a list")
	}
	return l, string(b), nil
}

// static compares what does not depend on sessions.
func (w *c21w) static(l []c21entry) string {
	var got []string
	tids := map[int]bool{}
	for _, e := range l {
		got = append(got, e.Name)
		if tids[e.TID] {
			return fmt.Sprintf("two targets have id %d", e.TID)
		}
		tids[e.TID] = true
		var have, want []int
		for _, g := range e.Tpg {
			for _, p := range g.Ports {
				have = append(have, p.RelativeTargetPortID)
				if !strings.HasPrefix(p.TargetPortName, e.Name+",t,0x") {
					return fmt.Sprintf("a port of %s is named %q", e.Name, p.TargetPortName)
				}
				if v, err := strconv.ParseUint(p.TargetPortName[len(e.Name)+5:], 16, 32); err != nil || int(v) != p.RelativeTargetPortID {
					return fmt.Sprintf("port %d of %s is named %q", p.RelativeTargetPortID, e.Name, p.TargetPortName)
				}
			}
		}
		for t := range w.tags[e.Name] {
			want = append(want, t)
		}
		sort.Ints(have)
		sort.Ints(want)
		if fmt.Sprint(have) != fmt.Sprint(want) {
			return fmt.Sprintf("%s has portal groups %v, configured are %v", e.Name, have, want)
		}
	}
	sort.Strings(got)
	want := append([]string{}, w.name...)
	sort.Strings(want)
	if strings.Join(got, " ") != strings.Join(want, " ") {
		return fmt.Sprintf("the targets are %v, configured are %v", got, want)
	}
	return ""
}

// listed gives "target initiator" of every nexus.
func listed(l []c21entry, known map[string]bool) (out []string, strange string) {
	for _, e := range l {
		for _, x := range e.ITNexus {
			found := ""
			for k := range known {
				if strings.Contains(x.Tag, k) {
					found = k
				}
			}
			if found == "" || !strings.Contains(x.Tag, e.Name) {
				strange = fmt.Sprintf("%s lists the nexus %q", e.Name, x.Tag)
			}
			out = append(out, e.Name+" "+found)
		}
	}
	sort.Strings(out)
	return
}

func (w *c21w) known() (map[string]bool, []string) {
	k := map[string]bool{}
	var want []string
	for _, s := range w.sess {
		k[s.ini] = true
		want = append(want, s.tgt+" "+s.ini)
	}
	sort.Strings(want)
	return k, want
}

// look compares the list with the configuration and the sessions, waiting for sessions whose connection is gone to go.
func (w *c21w) look(when string, withCLI bool) bool {
	known, want := w.known()
	end := time.Now().Add(2 * ini.Watchdog)
	var got []string
	for {
		q := []string{"/target/list", "/target/list", "/v1/target/list", "/v0.2.2-12-gabcdef/target/list", "/target/list?x=y"}[w.rng.Intn(5)]
		l, body, err := w.get(q)
		if err != nil {
			return w.bad("list-failed", short(body, 2000), "GET %s: %v (%s)", q, err, when)
		}
		if m := w.static(l); m != "" {
			return w.bad("list-wrong", short(body, 4000), "GET %s: %s (%s)", q, m, when)
		}
		var strange string
		got, strange = listed(l, known)
		if fmt.Sprint(got) == fmt.Sprint(want) && strange == "" {
			break
		}
		// every session that is open must be there from the start
		have := map[string]int{}
		for _, g := range got {
			have[g]++
		}
		for _, x := range want {
			if have[x]--; have[x] < 0 {
				return w.bad("session-not-listed", map[string]interface{}{"listed": got, "open": want}, "the open session %s is not listed (%s)", x, when)
			}
		}
		if time.Now().After(end) {
			return w.bad("session-lingers", map[string]interface{}{"listed": got, "open": want, "body": short(body, 4000)}, "sessions that are gone are still listed after %v: listed %d, open %d %s (%s)", 2*ini.Watchdog, len(got), len(want), strange, when)
		}
		time.Sleep(5 * time.Millisecond)
	}
	w.r.Eval(fmt.Sprintf("look %d targets %d sessions", len(w.name), len(want)))
	if !withCLI {
		return true
	}
	out, code, err := cli(w.d.api, "list", "target")
	if err != nil || code != 0 {
		return w.bad("cli-list", out, "gotgt list target ended with status %d %v (%s)", code, err, when)
	}
	if m := w.table(out, w.name); m != "" {
		return w.bad("cli-table", out, "gotgt list target: %s (%s)", m, when)
	}
	w.r.Eval(fmt.Sprintf("cli %d targets %d sessions", len(w.name), len(want)))
	return true
}

// table compares the command line's output with the targets that should be in it.
func (w *c21w) table(out string, names []string) string {
	lines := strings.Split(strings.TrimRight(out, "\n"), "\n")
	if !strings.HasPrefix(lines[0], "TARGET NAME") {
		return "no header"
	}
	seen := map[string]int{}
	for _, l := range lines[1:] {
		f := strings.Fields(l)
		if len(f) != 3 {
			return fmt.Sprintf("the line %q", l)
		}
		seen[f[0]]++
		n := 0
		for _, s := range w.sess {
			if s.tgt == f[0] {
				n++
			}
		}
		if f[2] != fmt.Sprint(n) {
			return fmt.Sprintf("the line %q, sessions open: %d", l, n)
		}
		if f[1] != "online" && f[1] != "ready" {
			return fmt.Sprintf("the line %q", l)
		}
	}
	for _, n := range names {
		if seen[n] != 1 {
			return fmt.Sprintf("%s is shown %d times", n, seen[n])
		}
		delete(seen, n)
	}
	for n := range seen {
		return fmt.Sprintf("%s is shown", n)
	}
	return ""
}

// churn lets sessions come and go quickly while the list is asked for.
func (w *c21w) churn() bool {
	if len(w.name) == 0 {
		return true
	}
	known, want := w.known()
	var stop atomic.Bool
	var wg sync.WaitGroup
	ns := 2 + w.rng.Intn(4)
	for k := 0; k < ns; k++ {
		o := w.opts()
		known[o.Initiator] = true
		take := w.rng.Intn(2) == 0
		krng := rand.New(rand.NewSource(w.rng.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for !stop.Load() {
				c, err := ini.Login(o)
				if err != nil {
					if !take {
						w.bad("login-failed", w.d.output(), "a well-formed login failed during churn: %v", err)
						return
					}
					continue
				}
				switch krng.Intn(3) {
				case 0:
					c.Logout()
				case 1:
					c.Reset()
				}
				c.Close()
				w.r.Add("sessions_during_churn", 1)
			}
		}()
	}
	defer wg.Wait()
	defer stop.Store(true)
	for j := 0; j < 25; j++ {
		l, body, err := w.get("/target/list")
		if err != nil {
			return w.bad("list-failed", short(body, 2000), "GET /target/list during churn: %v", err)
		}
		if m := w.static(l); m != "" {
			return w.bad("list-wrong", short(body, 4000), "during churn: %s", m)
		}
		got, strange := listed(l, known)
		if strange != "" {
			// a session closed just before may still be listed; only the tag's form can be judged
			w.r.Add("listed_while_leaving", 1)
		}
		have := map[string]int{}
		for _, g := range got {
			have[g]++
		}
		for _, x := range want {
			if have[x]--; have[x] < 0 {
				return w.bad("session-not-listed", map[string]interface{}{"listed": got, "open": want}, "the open session %s is not listed while others come and go", x)
			}
		}
		w.r.Eval(fmt.Sprintf("churn %d extra", len(got)-len(want)))
	}
	return true
}

// requests sends requests of all kinds to the API.
func (w *c21w) requests() bool {
	rng := w.rng
	for j := 0; j < 12; j++ {
		m := []string{"GET", "POST", "PUT", "DELETE", "PATCH", "HEAD", "OPTIONS", "FOO"}[rng.Intn(8)]
		name := "iqn.2020-01.verif:new"
		if len(w.name) > 0 && rng.Intn(2) == 0 {
			name = w.name[rng.Intn(len(w.name))]
		}
		paths := []struct{ p, cls string }{{"/target/list", "list"}, {"/v1/target/list", "list"}, {"/target/create", "create"}, {"/target/up", "up"}, {"/target/" + name, "target"}, {"/lu/1", "lu"}, {"/lu/create", "lucreate"},
			{"/discovery/" + name, "disco"}, {"/discovery/create", "discocreate"}, {"/", "unknown"}, {"/nope", "unknown"}, {"/target", "unknown"}, {"/targets/list", "unknown"}, {"/v1/v2/target/list", "unknown"}, {"/v/target/list", "unknown"}, {"/target/list/", "odd"}, {"//target//list", "odd"}, {"/target/../target/list", "odd"}, {"/target/%00", "odd"}, {"/" + strings.Repeat("a", 5000), "unknown"}, {"/x/" + strings.Repeat("b/", 300), "unknown"}}
		x := paths[rng.Intn(len(paths))]
		var body io.Reader
		switch rng.Intn(4) {
		case 0:
			body = strings.NewReader(fmt.Sprintf(`{"name":%q}`, name))
		case 1:
			body = bytes.NewReader(fill(rng, rng.Intn(3000)))
		case 2:
			body = strings.NewReader("name=" + name + "&force=1")
		}
		req, err := http.NewRequest(m, "http://"+w.d.api+x.p, body)
		if err != nil {
			continue
		}
		req.Header.Set("Content-Type", []string{"application/json", "text/plain", "application/x-www-form-urlencoded", "multipart/form-data", ";;;"}[rng.Intn(5)])
		if rng.Intn(4) == 0 {
			req.Header.Set("X-Long", strings.Repeat("z", rng.Intn(20000)))
		}
		resp, err := w.hc.Do(req)
		if err != nil && req.GetBody != nil { // once more on a connection of its own
			req.Body, _ = req.GetBody()
			req.Close = true
			resp, err = w.hc.Do(req)
		}
		if err != nil {
			return w.bad("api-unanswered", map[string]string{"request": m + " " + short(x.p, 100)}, "%s %s got no answer: %v", m, short(x.p, 100), err)
		}
		b, _ := io.ReadAll(resp.Body)
		resp.Body.Close()
		st := resp.StatusCode
		w.r.Eval(fmt.Sprintf("%s %s %d", m, x.cls, st))
		det := map[string]interface{}{"request": m + " " + short(x.p, 100), "status": st, "body": short(string(b), 300)}
		switch {
		case x.cls == "unknown":
			if st != 404 && st != 405 {
				return w.bad("unknown-path", det, "%s %s, a path that does not exist, is answered with status %d", m, short(x.p, 100), st)
			}
		case x.cls == "odd":
		case x.cls == "list" && m == "GET":
			if st != 200 {
				return w.bad("list-failed", det, "%s %s is answered with status %d", m, x.p, st)
			}
		case x.cls == "list" && m != "HEAD" && m != "OPTIONS" && m != "DELETE":
			if st != 405 && st != 404 {
				return w.bad("wrong-method", det, "%s %s is answered with status %d", m, x.p, st)
			}
		case m == "FOO" || m == "PATCH" || m == "PUT":
			if st/100 != 4 && st != 501 {
				return w.bad("wrong-method", det, "%s %s is answered with status %d", m, x.p, st)
			}
		case st/100 == 2 && (x.cls == "target" && m == "DELETE" || x.cls == "create" && m == "POST"):
			// then it must have been done
			l, _, err := w.get("/target/list")
			if err != nil {
				return w.bad("list-failed", det, "after %s %s: %v", m, x.p, err)
			}
			there := false
			for _, e := range l {
				there = there || e.Name == name
			}
			if there == (m == "DELETE") {
				return w.bad("done-without-doing", det, "%s %s is answered with status %d but has not been done", m, x.p, st)
			}
			return w.bad("changed-targets", det, "%s %s is answered with status %d: the check does not know this operation", m, x.p, st)
		case st/100 == 2 && m != "HEAD" && m != "OPTIONS":
			if len(bytes.TrimSpace(b)) == 0 {
				return w.bad("done-without-doing", det, "%s %s is answered with status %d and nothing, though there is no such operation", m, x.p, st)
			}
		case st >= 500 && st != 501:
			return w.bad("server-error", det, "%s %s is answered with status %d", m, x.p, st)
		}
	}
	// the name as a filter
	if len(w.name) > 0 {
		n := w.name[rng.Intn(len(w.name))]
		for _, x := range []string{n, n[:len(n)-1] + "~", n + "b"} {
			want := 0
			for _, y := range w.name {
				if y == x {
					want++
				}
			}
			l, body, err := w.get("/target/list?name=" + x)
			if err != nil {
				return w.bad("list-failed", short(body, 1000), "GET /target/list?name=%s: %v", x, err)
			}
			if len(l) != want || want == 1 && l[0].Name != x {
				return w.bad("filter", short(body, 2000), "the list restricted to the name %s has %d entries instead of %d", x, len(l), want)
			}
			w.r.Eval(fmt.Sprint("filter ", want))
		}
	}
	return true
}

// cliOps tries the command line's other commands.
func (w *c21w) cliOps() bool {
	n := "iqn.2020-01.verif:fresh"
	if len(w.name) > 0 {
		n = w.name[w.rng.Intn(len(w.name))]
		for _, x := range []string{n, n + "~", "b"} {
			out, code, err := cli(w.d.api, "list", "target", "--name", x)
			var want []string
			if x == n {
				want = []string{n}
			}
			if err != nil || code != 0 {
				return w.bad("cli-list", out, "gotgt list target --name %s ended with status %d %v", x, code, err)
			}
			if m := w.table(out, want); m != "" {
				return w.bad("cli-filter", out, "gotgt list target --name %s: %s", x, m)
			}
			w.r.Eval(fmt.Sprint("cli filter ", len(want)))
		}
	}
	for _, a := range [][]string{{"rm", "target", "--name", n}, {"rm", "target", "--name", n, "--force"}, {"create", "target", "--name", "iqn.2020-01.verif:fresh"}, {"create", "target", "--name", n}, {"list", "lu"}, {"create", "lu"}, {"rm", "lu"}} {
		out, code, err := cli(w.d.api, a...)
		if err != nil {
			return w.bad("cli-hangs", out, "gotgt %s: %v", strings.Join(a, " "), err)
		}
		w.r.Eval(fmt.Sprintf("cli %s %s %v", a[0], a[1], code == 0))
		if code == 0 && a[1] == "lu" && strings.TrimSpace(out) == "" || code == 0 && a[1] == "target" {
			return w.bad("cli-done-without-doing", out, "gotgt %s ended with status 0 though nothing has been done", strings.Join(a, " "))
		}
	}
	for _, a := range []struct {
		args []string
		api  string
		ok   bool
	}{{[]string{"list", "target", "extra"}, w.d.api, false}, {[]string{"list", "target", "--bogus"}, w.d.api, false}, {[]string{"version"}, w.d.api, true}, {[]string{"list", "target"}, "127.0.0.1:1", false}, {[]string{"list", "target"}, w.d.addr(), false}, {[]string{"nonsense"}, w.d.api, false}, {[]string{"list", "target"}, "[::1", false}, {[]string{"list", "target"}, "%zz", false}, {[]string{"rm", "target", "--name", "x"}, "", false}} {
		out, code, err := cli(a.api, a.args...)
		if err != nil && a.api != w.d.addr() {
			return w.bad("cli-hangs", out, "gotgt %s: %v", strings.Join(a.args, " "), err)
		}
		w.r.Eval(fmt.Sprintf("cli %v %v", a.args, code == 0))
		if (code == 0) != a.ok {
			return w.bad("cli-status", out, "gotgt %s --host tcp://%s ended with status %d", strings.Join(a.args, " "), a.api, code)
		}
		if strings.TrimSpace(out) == "" || strings.Contains(out, "goroutine ") {
			return w.bad("cli-silent", out, "gotgt %s ended with status %d without a message, or with a stack", strings.Join(a.args, " "), code)
		}
	}
	return true
}

// c21Client runs the command line against a stand-in for the daemon that answers anything.
func c21Client(r *ck.Run) {
	var mu sync.Mutex
	var status int
	var body, ctype, path, method, query, sent string
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		b, _ := io.ReadAll(q.Body)
		mu.Lock()
		defer mu.Unlock()
		path, method, query, sent = q.URL.Path, q.Method, q.URL.Query().Get("name"), string(b)
		w.Header().Set("Content-Type", ctype)
		w.WriteHeader(status)
		io.WriteString(w, body)
	}))
	defer srv.Close()
	api := strings.TrimPrefix(srv.URL, "http://")
	set := func(s int, t, b string) {
		mu.Lock()
		defer mu.Unlock()
		status, ctype, body, path, method, query, sent = s, t, b, "", "", "", ""
	}
	two := `[{"name":"iqn.a","tid":0,"itnexus":{"00000000-0000-0000-0000-000000000001":{"id":"00000000-0000-0000-0000-000000000001","Tag":"x"}}},{"name":"iqn.b","tid":1,"state":2,"tpg":null,"itnexus":null}]`
	cmds := [][]string{{"list", "target"}, {"list", "target", "--name", "iqn.b"}, {"create", "target", "--name", "iqn.c"}, {"rm", "target", "--name", "iqn.c"}, {"rm", "target", "--name", "iqn.c", "--force"}, {"rm", "target", "--name=iqn.c", "--force=false"}}
	for _, base := range []string{"", "/base", "/a/b"} {
		for _, a := range cmds {
			cas := fmt.Sprintf("client %v %s", a, base)
			set(200, "application/json", two)
			if a[0] == "create" {
				set(201, "application/json", `{"name":"iqn.c"}`)
			}
			out, code, err := cli(api+base, a...)
			mu.Lock()
			gp, gm, gq, gs := path, method, query, sent
			mu.Unlock()
			det := map[string]interface{}{"output": out, "status": code, "request": gm + " " + gp, "name": gq, "body": gs}
			if err != nil || code != 0 {
				r.Violate("client-failed", cas, det, "gotgt %s against a server that answers success ended with status %d %v", strings.Join(a, " "), code, err)
				continue
			}
			wm, wp := "GET", "/target/list"
			switch a[0] {
			case "create":
				wm, wp = "POST", "/target/create"
			case "rm":
				wm, wp = "DELETE", "/target/iqn.c"
			}
			mid := strings.TrimSuffix(strings.TrimPrefix(gp, base), wp) // nothing or the version
			if gm != wm || !strings.HasPrefix(gp, base) || !strings.HasSuffix(gp, wp) || mid != "" && (!strings.HasPrefix(mid, "/v") || strings.Contains(mid[1:], "/")) {
				r.Violate("client-request", cas, det, "gotgt %s with the endpoint %q asked for %s %s", strings.Join(a, " "), api+base, gm, gp)
				continue
			}
			if len(a) == 4 && a[0] == "list" && gq != a[3] || len(a) == 2 && gq != "" || a[0] == "create" && !strings.Contains(gs, "iqn.c") {
				r.Violate("client-name", cas, det, "gotgt %s asked for the name %q (%s)", strings.Join(a, " "), gq, gs)
				continue
			}
			if a[0] == "list" {
				l := strings.Split(strings.TrimSpace(out), "\n")
				if len(l) != 3 || fmt.Sprint(strings.Fields(l[1])) != "[iqn.a online 1]" || fmt.Sprint(strings.Fields(l[2])) != "[iqn.b ready 0]" {
					r.Violate("client-table", cas, det, "gotgt %s printed another table than the server's answer", strings.Join(a, " "))
					continue
				}
			} else if !strings.Contains(out, "iqn.c") {
				r.Violate("client-told", cas, det, "gotgt %s does not name the target", strings.Join(a, " "))
				continue
			}
			r.Eval("client ok " + a[0] + base)
		}
	}
	for _, a := range cmds {
		for _, st := range []int{400, 401, 403, 404, 405, 406, 409, 418, 500, 501, 502, 503, 504, 599} {
			for _, b := range []string{"", "no such thing", two, `{"name":"iqn.c"}`} {
				set(st, "text/plain", b)
				out, code, err := cli(api, a...)
				cas := fmt.Sprintf("client %v status %d", a, st)
				if err != nil || code == 0 || strings.Contains(out, "success") || strings.Contains(out, "TARGET NAME") {
					r.Violate("client-done-without-doing", cas, map[string]interface{}{"output": out, "body": b}, "gotgt %s, answered with HTTP status %d, ended with status %d %v: %s", strings.Join(a, " "), st, code, err, oneLine(out))
					return
				}
				r.Eval(fmt.Sprintf("client refused %s %d", a[0], st))
			}
		}
		if a[0] == "rm" {
			continue
		}
		for _, b := range []string{"", "x", "{", "[", two[:len(two)/2], two[:len(two)-1], "<html>ok</html>", `"iqn.c"`, "17"} {
			set(200, "application/json", b)
			out, code, err := cli(api, a...)
			cas := fmt.Sprintf("client %v body %q", a, short(b, 20))
			if err != nil || code == 0 || strings.Contains(out, "success") || strings.Contains(out, "TARGET NAME") {
				r.Violate("client-garbage", cas, out, "gotgt %s, answered with %q, ended with status %d %v", strings.Join(a, " "), short(b, 60), code, err)
				return
			}
			r.Eval(fmt.Sprintf("client garbage %s", a[0]))
		}
	}
}

// rawBytes sends what is no HTTP, or little of it.
func (w *c21w) rawBytes() bool {
	for j := 0; j < 10; j++ {
		c, err := net.DialTimeout("tcp", w.d.api, ini.Watchdog)
		if err != nil {
			return w.bad("api-unanswered", nil, "the management port takes no connection: %v", err)
		}
		switch w.rng.Intn(4) {
		case 0:
			c.Write(fill(w.rng, w.rng.Intn(2000)))
		case 1:
			fmt.Fprintf(c, "GET /target/list HTTP/1.1\r\nHost: x\r\nContent-Length: %d\r\n\r\nx", w.rng.Int63())
		case 2:
			fmt.Fprintf(c, "GET /target/li")
		default:
			fmt.Fprintf(c, "GET /target/list HTTP/1.1\r\nHost: x\r\n\r\nGET /target/list HTTP/1.1\r\n")
		}
		if w.rng.Intn(3) > 0 {
			c.Close()
		} else {
			defer c.Close()
		}
	}
	w.r.Eval("raw")
	return true
}

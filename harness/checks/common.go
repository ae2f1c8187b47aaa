// Package checks holds one check per property.
package checks

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"hash/fnv"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"time"

	"verif/ck"
	"verif/ini"
	"verif/mon"
	"verif/tgt"

	"github.com/gostor/gotgt/pkg/config"
)

// Check is a registered check.
type Check struct {
	Run   func(r *ck.Run)
	Level string
	Min   int64 // fewer evaluated cases than this is no verdict
}

var All = map[string]Check{}

func init() { ini.Watchdog = 12 * time.Second }

// Dev is a device of a test configuration.
type Dev struct {
	ID    uint64
	Name  string
	Size  int64
	Shift uint // log2 of the block size
	Thin  bool
	Path  string // other than mon
}

func (d Dev) storage() config.BackendStorage {
	p := d.Path
	if p == "" {
		p = fmt.Sprintf("mon:%s:%d", d.Name, d.Size)
	}
	return config.BackendStorage{DeviceID: d.ID, Path: p, Online: true, ThinProvisioning: d.Thin, BlockShift: d.Shift}
}

// TN is the name of the n-th target.
func TN(n int) string {
	if n%4 == 1 {
		return fmt.Sprintf("iqn.2020-01.verif:T%d", n)
	}
	return fmt.Sprintf("iqn.2020-01.verif:t%d", n)
}

// spec1 is a configuration with one target TN(0) whose LUN i is devs[i].
func spec1(devs ...Dev) tgt.Spec {
	sp := tgt.Spec{Port: tgt.FreePort()}
	sp.Config.ISCSIPortals = []config.ISCSIPortalInfo{{ID: 0, Portal: sp.Addr()}}
	t := config.ISCSITarget{TPGTs: map[string][]uint64{"1": {0}}, LUNs: map[string]uint64{}}
	for i, d := range devs {
		sp.Config.Storages = append(sp.Config.Storages, d.storage())
		t.LUNs[fmt.Sprint(i)] = d.ID
	}
	sp.Config.ISCSITargets = map[string]config.ISCSITarget{TN(0): t}
	return sp
}

// start runs a child; a target that does not come up with this valid configuration is a violation.
func start(r *ck.Run, cas string, sp tgt.Spec, race bool) *tgt.Child {
	if r.ID != "C22" && sp.LogLevel == "" { // what must not matter varies
		o := r.Rng("options", cas)
		sp.Stats = sp.Stats || o.Intn(2) == 0
		switch o.Intn(8) {
		case 0:
			sp.LogLevel = "debug"
		case 1:
			sp.LogLevel = "info"
		}
	}
	var err error
	for try := 0; try < 3; try++ {
		var c *tgt.Child
		c, err = tgt.Start(sp, r.SubDir("c"), race)
		if err == nil {
			return c
		}
		old := sp.Addr()
		if try < 2 { // another port, in case it was taken meanwhile
			sp.Port = tgt.FreePort()
			ps := append([]config.ISCSIPortalInfo{}, sp.Config.ISCSIPortals...)
			_, op, _ := net.SplitHostPort(old)
			_, np, _ := net.SplitHostPort(sp.Addr())
			for i := range ps {
				if h, p, e := net.SplitHostPort(ps[i].Portal); e == nil && p == op {
					ps[i].Portal = net.JoinHostPort(h, np)
				}
			}
			sp.Config.ISCSIPortals = ps
		}
	}
	var ie *tgt.InitError
	if errors.As(err, &ie) {
		r.Violate("start-failed", cas, sp, "the target does not start with a valid configuration: %v", err)
	} else {
		r.Inconclusive("cannot start target: %v", err)
	}
	return nil
}

var frameRe = regexp.MustCompile(`(?m)^github.com/gostor/gotgt/(\S+?)\(`)

// crashSite names the gotgt function a dead child's panic came from.
func crashSite(c *tgt.Child) string {
	s := c.StderrTail(6000)
	first := strings.SplitN(s, "\n", 2)[0]
	m := frameRe.FindStringSubmatch(s)
	site := "?"
	if m != nil {
		site = filepath.Base(m[1])
		if strings.Contains(m[1], "(*") {
			site = m[1][strings.LastIndex(m[1], "/")+1:]
		}
	}
	if strings.HasPrefix(first, "fatal error:") {
		site = "fatal:" + site
	}
	return site
}

// Sess is a session under a check: every call that does not come back is judged.
type Sess struct {
	*ini.Conn
	r   *ck.Run
	ch  *tgt.Child
	cas string
	bad bool
}

// dead reports a crashed child.
func dead(r *ck.Run, ch *tgt.Child, cas, doing string) bool {
	if !ch.Crashed(300 * time.Millisecond) {
		return false
	}
	r.Violate("crash:"+crashSite(ch), cas, map[string]interface{}{"stderr": ch.StderrTail(3000), "doing": doing}, "the server process died (%s): %s", doing, oneLine(ch.StderrTail(300)))
	return true
}

func oneLine(s string) string {
	s = strings.Join(strings.Fields(s), " ")
	if len(s) > 240 {
		s = s[:240]
	}
	return s
}

// login opens a session with a well-formed login; a refusal is a violation.
func login(r *ck.Run, ch *tgt.Child, cas string, o ini.LoginOpts) *Sess {
	if o.Addr == "" {
		o.Addr = ch.Spec.Addr()
	}
	if o.Target == "" && !o.Discovery {
		o.Target = TN(0)
	}
	c, err := ini.Login(o)
	if err != nil {
		if !dead(r, ch, cas, "login") {
			r.Violate("login-failed", cas, map[string]interface{}{"opts": o, "stacks": short(ch.Stacks(), 4000)}, "a well-formed login failed: %v", err)
		}
		return nil
	}
	h := fnv.New32a()
	fmt.Fprint(h, cas, o.Initiator, o.ISID, o.CID)
	c.TagStyle = int(h.Sum32() >> 3 % 4)
	return &Sess{Conn: c, r: r, ch: ch, cas: cas}
}

func short(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// progress does n ordinary round trips on a session of its own, telling whether the server as a whole still serves.
func progress(ch *tgt.Child, n int) error {
	tn := ""
	for k := range ch.Spec.Config.ISCSITargets {
		if tn == "" || k < tn {
			tn = k
		}
	}
	c, err := ini.Login(ini.LoginOpts{Addr: ch.Spec.Addr(), Target: tn, Initiator: "iqn.2020-01.verif:progress", ISID: [6]byte{0x80, 0xee, 0, 0, 0, byte(n)}})
	if err != nil {
		return err
	}
	defer c.Close()
	for i := 0; i < n; i++ {
		t := c.Submit(ini.NoData(ini.LUN(0), make([]byte, 6)))
		if err := t.Wait(); err != nil {
			return err
		}
	}
	return nil
}

// failed judges a request that got no answer. It always reports something.
func (s *Sess) failed(err error, what string) {
	s.bad = true
	if dead(s.r, s.ch, s.cas, what) {
		return
	}
	det := map[string]interface{}{"trace": tail(s.Trace(), 40)}
	if s.Conn.Closed() != nil {
		s.r.Violate("connection-dropped:"+firstWord(what), s.cas, det, "the target closed the connection instead of answering (%s): %v", what, err)
		return
	}
	if perr := progress(s.ch, 60); perr != nil {
		if dead(s.r, s.ch, s.cas, what) {
			return
		}
		s.r.Violate("server-hung:"+firstWord(what), s.cas, det, "no answer (%s), and the server does not serve a fresh session either: %v", what, perr)
		return
	}
	det["stacks"] = short(s.ch.Stacks(), 3000)
	s.r.Violate("unanswered:"+firstWord(what), s.cas, det, "no answer (%s) although another session completed 60 requests meanwhile", what)
}

func firstWord(s string) string {
	f := strings.Fields(s)
	if len(f) == 0 {
		return "request"
	}
	return f[0]
}

func tail(s []string, n int) []string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// cmd runs a command; false: no verdict possible on it (already reported).
func (s *Sess) cmd(c ini.Cmd, what string) (*ini.Task, bool) {
	t := s.Submit(c)
	return t, s.wait(t, what)
}

func (s *Sess) wait(t *ini.Task, what string) bool {
	if err := t.Wait(); err != nil {
		s.failed(err, what)
		return false
	}
	return true
}

// protocol turns monitor findings of the given property into violations.
func (s *Sess) protocol(prop string) {
	for _, f := range s.Findings(prop) {
		s.r.Violate("monitor:"+sigOf(f.Msg), s.cas, map[string]interface{}{"trace": tail(s.Trace(), 30)}, "%s", f.Msg)
	}
}

var numRe = regexp.MustCompile(`\b(0x)?[0-9a-f]*[0-9][0-9a-f]*\b`)

// sigOf reduces a message to its shape.
func sigOf(m string) string {
	if i := strings.Index(m, ": "); i >= 0 && strings.Contains(m[:i], "itt") {
		m = m[i+2:]
	}
	m = numRe.ReplaceAllString(m, "N")
	if len(m) > 60 {
		m = m[:60]
	}
	return strings.TrimRight(strings.Join(strings.Fields(m), "-"), "-")
}

// usable verifies that an idle session still answers.
func (s *Sess) usable(what string) bool {
	t, ok := s.cmd(ini.NoData(ini.LUN(0), make([]byte, 6)), what)
	_ = t
	return ok
}

// fill makes data that is unique per (tag, block).
func fill(rng *rand.Rand, n int) []byte {
	b := make([]byte, n)
	rng.Read(b)
	return b
}

// Model is a sparse byte model of a device.
type Model struct {
	Size int64
	pg   map[int64][]byte
}

func NewModel(size int64) *Model { return &Model{Size: size, pg: map[int64][]byte{}} }
func (m *Model) Read(off int64, n int) []byte {
	out := make([]byte, n)
	for p := 0; p < n; {
		pg, po := (off+int64(p))/4096, (off+int64(p))%4096
		k := int(4096 - po)
		if k > n-p {
			k = n - p
		}
		if b := m.pg[pg]; b != nil {
			copy(out[p:p+k], b[po:])
		}
		p += k
	}
	return out
}
func (m *Model) Write(off int64, d []byte) {
	for p := 0; p < len(d); {
		pg, po := (off+int64(p))/4096, (off+int64(p))%4096
		k := int(4096 - po)
		if k > len(d)-p {
			k = len(d) - p
		}
		b := m.pg[pg]
		if b == nil {
			b = make([]byte, 4096)
			m.pg[pg] = b
		}
		copy(b[po:], d[p:p+k])
		p += k
	}
}

// Clone copies the model.
func (m *Model) Clone() *Model {
	n := NewModel(m.Size)
	for k, v := range m.pg {
		n.pg[k] = append([]byte{}, v...)
	}
	return n
}

// diffAt returns the first differing index.
func diffAt(a, b []byte) int {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	for i := 0; i < n; i++ {
		if a[i] != b[i] {
			return i
		}
	}
	if len(a) != len(b) {
		return n
	}
	return -1
}

// compareMedium compares the monitored medium with the model over every page either has touched.
func compareMedium(ch *tgt.Child, name string, m *Model) (int64, string) {
	pages := map[int64]bool{}
	for p := range m.pg {
		pages[p] = true
	}
	for _, p := range ch.Pages(name) {
		pages[p] = true
	}
	for p := range pages {
		n := 4096
		if (p+1)*4096 > m.Size {
			n = int(m.Size - p*4096)
			if n <= 0 {
				return p * 4096, "touched beyond the end"
			}
		}
		got := ch.Peek(name, p*4096, n)
		if len(got) != n {
			return -1, "medium not readable"
		}
		if i := diffAt(got, m.Read(p*4096, n)); i >= 0 {
			return p*4096 + int64(i), fmt.Sprintf("holds %02x, expected %02x", got[i], m.Read(p*4096+int64(i), 1)[0])
		}
	}
	return -1, ""
}

func be16(b []byte) uint16 { return binary.BigEndian.Uint16(b) }
func be32(b []byte) uint32 { return binary.BigEndian.Uint32(b) }
func be64(b []byte) uint64 { return binary.BigEndian.Uint64(b) }

func filled(b byte, n int) []byte { return bytes.Repeat([]byte{b}, n) }

func mkfile(path string, size int64) error {
	f, err := os.Create(path)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(size)
}

// opName names an opcode.
func opName(op byte) string {
	switch op {
	case ini.READ6:
		return "READ(6)"
	case ini.READ10:
		return "READ(10)"
	case ini.READ12:
		return "READ(12)"
	case ini.READ16:
		return "READ(16)"
	case ini.WRITE6:
		return "WRITE(6)"
	case ini.WRITE10:
		return "WRITE(10)"
	case ini.WRITE12:
		return "WRITE(12)"
	case ini.WRITE16:
		return "WRITE(16)"
	case ini.WRVER10:
		return "WRITE_AND_VERIFY(10)"
	case ini.WRVER12:
		return "WRITE_AND_VERIFY(12)"
	case ini.WRVER16:
		return "WRITE_AND_VERIFY(16)"
	case ini.VERIFY10:
		return "VERIFY(10)"
	case ini.VERIFY12:
		return "VERIFY(12)"
	case ini.VERIFY16:
		return "VERIFY(16)"
	case ini.WRSAME10:
		return "WRITE_SAME(10)"
	case ini.WRSAME16:
		return "WRITE_SAME(16)"
	case ini.ORWRITE:
		return "ORWRITE(16)"
	case ini.PREFETCH:
		return "PRE-FETCH(10)"
	case ini.PREFETCH16:
		return "PRE-FETCH(16)"
	case ini.SYNC10:
		return "SYNCHRONIZE_CACHE(10)"
	case ini.SYNC16:
		return "SYNCHRONIZE_CACHE(16)"
	}
	return fmt.Sprintf("OPCODE_%02x", op)
}

var _ = mon.H

// headerSegs gives one command in six an additional header segment of a reserved type, of any size up to the largest.
func headerSegs(rng *rand.Rand) func() []byte {
	return func() []byte {
		if rng.Intn(6) != 0 {
			return nil
		}
		n := 1 + rng.Intn(255)
		if rng.Intn(3) == 0 {
			n = 1 + rng.Intn(10)
		}
		if rng.Intn(8) == 0 {
			n = 255
		}
		b := fill(rng, 4*n)
		b[0], b[1], b[2] = byte((4*n-3)>>8), byte(4*n-3), 0x3f
		return b
	}
}

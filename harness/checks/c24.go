package checks

import (
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/ck"
	"verif/ini"
	"verif/tgt"

	"github.com/gostor/gotgt/pkg/config"
)

func init() { All["C24"] = Check{Run: c24, Level: "exploration", Min: 8000} }

func c24(r *ck.Run) {
	r.Rule("(a) random configurations (odd strings, extreme numbers, 0-40 entries) saved over files of other lengths and loaded back, cut off at every length and with bytes changed; (b) the real gotgt daemon started from random configurations over stamped files, its targets, portals, LUNs, sizes, block sizes, thin provisioning, readiness and file behind each LUN compared with the configuration, files unchanged, ended and started again with another, shorter configuration; (c) configurations and arguments that cannot be served, each refused with an exit status and nothing served or changed. Distinct by (kind of step, outcome)")
	r.Assume("a configuration file that is missing is an empty configuration, as documented by the code; keys the format does not know may be ignored or refused")
	var mu sync.Mutex // config.Load keeps the last configuration in a package variable
	r.Each(r.Q(60, 600), 4, func(i int) { c24Save(r, i, &mu) })
	r.Each(r.Q(49, 200), 7, func(i int) { c24Serve(r, i) })
	c24Refuse(r)
}

func c24String(rng *rand.Rand) string {
	var b strings.Builder
	n := rng.Intn(12)
	if rng.Intn(20) == 0 {
		n = 3000
	}
	al := []rune("abcXYZ019.:-_/ \"\\\t\n<>&{}[],\u0000\u0001\u00e9\u4e2d\u2028\U0001F600\u007f")
	for k := 0; k < n; k++ {
		b.WriteRune(al[rng.Intn(len(al))])
	}
	return b.String()
}

func c24u64(rng *rand.Rand) uint64 {
	switch rng.Intn(5) {
	case 0:
		return ^uint64(0) - uint64(rng.Intn(3))
	case 1:
		return uint64(1)<<53 + uint64(rng.Intn(5)) // where floating point would round
	case 2:
		return rng.Uint64()
	}
	return uint64(rng.Intn(20))
}

func c24Config(rng *rand.Rand) *config.Config {
	c := &config.Config{}
	n := []int{0, 1, 2, 5, 40}
	for k := n[rng.Intn(5)]; k > 0; k-- {
		c.Storages = append(c.Storages, config.BackendStorage{DeviceID: c24u64(rng), Path: c24String(rng), Online: rng.Intn(2) == 0, ThinProvisioning: rng.Intn(2) == 0, BlockShift: uint(rng.Intn(64))})
	}
	for k := n[rng.Intn(5)]; k > 0; k-- {
		c.ISCSIPortals = append(c.ISCSIPortals, config.ISCSIPortalInfo{ID: uint16(rng.Intn(65536)), Portal: c24String(rng)})
	}
	if rng.Intn(8) > 0 {
		c.ISCSITargets = map[string]config.ISCSITarget{}
		for k := n[rng.Intn(5)]; k > 0; k-- {
			t := config.ISCSITarget{}
			if rng.Intn(5) > 0 {
				t.TPGTs = map[string][]uint64{}
				for j := rng.Intn(4); j > 0; j-- {
					var l []uint64
					for m := rng.Intn(4); m > 0; m-- {
						l = append(l, c24u64(rng))
					}
					t.TPGTs[strconv.Itoa(rng.Intn(70000))] = l
				}
			}
			if rng.Intn(5) > 0 {
				t.LUNs = map[string]uint64{}
				for j := rng.Intn(9); j > 0; j-- {
					t.LUNs[strconv.Itoa(rng.Intn(20000))] = c24u64(rng)
				}
			}
			c.ISCSITargets[c24String(rng)] = t
		}
	}
	return c
}

// norm drops the difference between nothing and an empty list or map.
func norm(c *config.Config) config.Config {
	o := config.Config{ISCSITargets: map[string]config.ISCSITarget{}}
	if c == nil {
		return o
	}
	if len(c.Storages) > 0 {
		o.Storages = c.Storages
	}
	if len(c.ISCSIPortals) > 0 {
		o.ISCSIPortals = c.ISCSIPortals
	}
	for k, t := range c.ISCSITargets {
		u := config.ISCSITarget{TPGTs: map[string][]uint64{}, LUNs: map[string]uint64{}}
		for a, b := range t.TPGTs {
			u.TPGTs[a] = append([]uint64{}, b...)
		}
		for a, b := range t.LUNs {
			u.LUNs[a] = b
		}
		o.ISCSITargets[k] = u
	}
	return o
}

// c24doc is the documented form of the configuration file.
type c24doc struct {
	Storages []struct {
		DeviceID         uint64 `json:"deviceID"`
		Path             string `json:"path"`
		Online           bool   `json:"online"`
		ThinProvisioning bool   `json:"thinProvisioning"`
		BlockShift       uint   `json:"blockShift"`
	} `json:"storages"`
	Portals []struct {
		ID     uint16 `json:"id"`
		Portal string `json:"portal"`
	} `json:"iscsiportals"`
	Targets map[string]struct {
		TPGTs map[string][]uint64 `json:"tpgts"`
		LUNs  map[string]uint64   `json:"luns"`
	} `json:"iscsitargets"`
}

func (d *c24doc) config() *config.Config {
	c := &config.Config{ISCSITargets: map[string]config.ISCSITarget{}}
	for _, s := range d.Storages {
		c.Storages = append(c.Storages, config.BackendStorage{DeviceID: s.DeviceID, Path: s.Path, Online: s.Online, ThinProvisioning: s.ThinProvisioning, BlockShift: s.BlockShift})
	}
	for _, p := range d.Portals {
		c.ISCSIPortals = append(c.ISCSIPortals, config.ISCSIPortalInfo{ID: p.ID, Portal: p.Portal})
	}
	for n, t := range d.Targets {
		c.ISCSITargets[n] = config.ISCSITarget{TPGTs: t.TPGTs, LUNs: t.LUNs}
	}
	return c
}

func sameConfig(a, b *config.Config) bool { return reflect.DeepEqual(norm(a), norm(b)) }

func c24Save(r *ck.Run, i int, mu *sync.Mutex) {
	rng := r.Rng("save", i)
	cas := fmt.Sprintf("save-%d", i)
	dir := r.SubDir("cfg")
	file := filepath.Join(dir, config.ConfigFileName)
	load := func(d string) (c *config.Config, err error) {
		mu.Lock()
		defer mu.Unlock()
		return config.Load(d)
	}
	// the reference reading of a file's content
	ref := func(b []byte) (*config.Config, bool, bool) {
		d := json.NewDecoder(bytes.NewReader(b))
		var c c24doc
		if d.Decode(&c) != nil {
			return nil, false, false
		}
		if _, err := d.Token(); err != io.EOF {
			return nil, false, false
		}
		s := json.NewDecoder(bytes.NewReader(b))
		s.DisallowUnknownFields()
		return c.config(), true, s.Decode(&c24doc{}) == nil
	}
	var prev *config.Config
	for k := 0; k < 6; k++ {
		c := c24Config(rng)
		if k%3 == 1 {
			c = &config.Config{} // short after long
		}
		if err := c.Save(file); err != nil {
			r.Violate("save-failed", cas, c, "a configuration cannot be saved: %v", err)
			return
		}
		got, err := load(dir)
		if err != nil {
			b, _ := os.ReadFile(file)
			r.Violate("load-failed", cas, short(string(b), 3000), "a configuration just saved cannot be loaded: %v", err)
			return
		}
		if !sameConfig(c, got) {
			r.Violate("round-trip", cas, map[string]interface{}{"saved": c, "loaded": got, "before": prev}, "a configuration saved and loaded is not the same")
			return
		}
		r.Eval(fmt.Sprintf("round trip %v %v %v", len(c.Storages) > 0, len(c.ISCSIPortals) > 0, len(c.ISCSITargets) > 0))
		prev = c
		b, err := os.ReadFile(file)
		if err != nil {
			r.Violate("not-saved", cas, nil, "Save left no file: %v", err)
			return
		}
		if i < 2 && k == 0 {
			r.Sample(short(string(b), 500))
		}
		if want, ok, _ := ref(b); !ok || !sameConfig(want, c) {
			r.Violate("saved-form", cas, short(string(b), 3000), "the file saved is no JSON of the configuration")
			return
		}
		// every prefix, or many of them
		cut := 1
		if len(b) > 300 {
			cut = 1 + rng.Intn(len(b)/100)
		}
		other := r.SubDir("cut")
		of := filepath.Join(other, config.ConfigFileName)
		try := func(x []byte, what string) bool {
			if os.WriteFile(of, x, 0600) != nil {
				return false
			}
			want, ok, known := ref(x)
			got, err := load(other)
			switch {
			case !ok && err == nil:
				r.Violate("malformed-loaded", cas, short(string(x), 3000), "a file that is no configuration (%s) is loaded without an error", what)
			case ok && known && err != nil:
				r.Violate("valid-refused", cas, short(string(x), 3000), "a valid file (%s) is refused: %v", what, err)
			case ok && err == nil && !sameConfig(want, got):
				r.Violate("loaded-wrong", cas, map[string]interface{}{"file": short(string(x), 3000), "loaded": got}, "what is loaded is not what the file says (%s)", what)
			default:
				r.Eval(fmt.Sprintf("%s %v", what, ok))
				return true
			}
			return false
		}
		for n := 0; n < len(b); n += cut {
			if !try(b[:n], "cut off") {
				return
			}
		}
		for n := 0; n < 40; n++ {
			x := append([]byte{}, b...)
			for m := rng.Intn(3); m >= 0 && len(x) > 0; m-- {
				p := rng.Intn(len(x))
				switch rng.Intn(4) {
				case 0:
					x[p] ^= 1 << uint(rng.Intn(8))
				case 1:
					x[p] = "0123456789-{}[],:\" "[rng.Intn(19)]
				case 2:
					x = append(x[:p], x[p+1:]...)
				default:
					x = append(x[:p], append([]byte{"0123456789-{}[],:\"x"[rng.Intn(19)]}, x[p:]...)...)
				}
			}
			if !try(x, "changed bytes") {
				return
			}
		}
		for _, g := range []string{"x", "{}", "\n\n ", "null", "]", string(b), "\x00"} {
			if !try(append(append([]byte{}, b...), g...), "something behind") {
				return
			}
		}
		for _, g := range []string{"", " ", "null", "[]", "1", "\"\"", "true", "{", "{}", "{\"storages\":{}}", "{\"iscsitargets\":[]}", "{\"storages\":[{\"deviceID\":18446744073709551616}]}", "{\"storages\":[{\"deviceID\":-1}]}", "{\"storages\":[{\"deviceID\":1.5}]}", "{\"storages\":[{\"deviceID\":\"1\"}]}", "{\"iscsiportals\":[{\"id\":65536}]}", "{\"iscsitargets\":{\"a\":{\"luns\":{\"0\":-1}}}}", "\xef\xbb\xbf{}"} {
			if !try([]byte(g), "odd file") {
				return
			}
		}
	}
	// a directory without a file, and one that does not exist
	for _, d := range []string{r.SubDir("none"), filepath.Join(dir, "not", "there")} {
		got, err := load(d)
		if err != nil || !sameConfig(got, &config.Config{}) {
			r.Violate("missing-file", cas, got, "without a file the configuration should be empty, it is %v, %v", got, err)
			return
		}
		r.Eval("missing file")
	}
	os.Mkdir(filepath.Join(dir, "d"), 0700)
	os.Mkdir(filepath.Join(dir, "d", config.ConfigFileName), 0700)
	if _, err := load(filepath.Join(dir, "d")); err == nil {
		r.Violate("directory-loaded", cas, nil, "a directory in place of the file is loaded without an error")
		return
	}
	// a file that is there, or cannot be said not to be there, and cannot be read
	os.WriteFile(filepath.Join(dir, "flat"), nil, 0600)
	loop := r.SubDir("loop")
	os.Symlink(config.ConfigFileName, filepath.Join(loop, config.ConfigFileName))
	for _, d := range []string{loop, filepath.Join(dir, "flat"), filepath.Join(dir, strings.Repeat("n", 300)), filepath.Join(dir, "nul\x00")} {
		if got, err := load(d); err == nil {
			r.Violate("unreadable-loaded", cas, got, "a configuration that cannot be read (%q) is loaded without an error", filepath.Base(d))
			return
		}
		r.Eval("unreadable")
	}
	// where nothing can be saved
	c := c24Config(rng)
	c.Storages = append(c.Storages, config.BackendStorage{Path: "x"})
	os.WriteFile(filepath.Join(dir, "plain"), nil, 0600)
	for _, f := range []string{"", "/dev/full", filepath.Join(dir, "plain", "config.json"), filepath.Join(dir, "d", config.ConfigFileName)} {
		if err := c.Save(f); err == nil {
			r.Violate("save-lost", cas, nil, "saving to %q reports success", f)
			return
		}
		r.Eval("unsaveable")
	}
	nest := filepath.Join(dir, "a", "b", "c", config.ConfigFileName)
	if err := c.Save(nest); err != nil {
		r.Violate("save-failed", cas, nil, "saving to a directory to be made: %v", err)
		return
	}
	if got, err := load(filepath.Dir(nest)); err != nil || !sameConfig(got, c) {
		r.Violate("round-trip", cas, c, "a configuration saved to a new directory is not loaded back: %v", err)
	}
	r.Eval("new directory")
}

// c24file is a storage file whose blocks say which file it is.
type c24file struct {
	dev   config.BackendStorage
	path  string
	size  int64
	sum   [32]byte
	mtime time.Time
}

func (f *c24file) make(rng *rand.Rand) error {
	b := fill(rng, int(f.size))
	copy(b, "verif "+f.path)
	if err := os.WriteFile(f.path, b, 0600); err != nil {
		return err
	}
	f.sum = sha256.Sum256(b)
	st, err := os.Stat(f.path)
	if err == nil {
		f.mtime = st.ModTime()
	}
	return err
}

// changed tells how the file differs from what it was.
func (f *c24file) changed() string {
	b, err := os.ReadFile(f.path)
	if err != nil {
		return err.Error()
	}
	if sha256.Sum256(b) != f.sum {
		return fmt.Sprintf("%s, %d bytes then and %d now, has other content", filepath.Base(f.path), f.size, len(b))
	}
	if st, err := os.Stat(f.path); err != nil || !st.ModTime().Equal(f.mtime) {
		return fmt.Sprintf("%s was written (%v)", filepath.Base(f.path), err)
	}
	return ""
}

type c24world struct {
	files []*c24file
	cfg   *config.Config
	byID  map[uint64]*c24file
	port  map[uint64]string // portal id -> address
}

// c24names are the names the files of storages have: a path is what follows the
// first colon, whatever it holds.
var c24names = []string{"disk %d-%d.img", "a:b:%d-%d", "%%41%%20%d+%d", "Größe ☃ %d-%d", " %d-%d ", "$HOME~%d-%d", "back\\slash \"%d\" '%d'", "file:%d?%d#x&y=<z>", "..%d-%d", "-%d,%d;", strings.Repeat("n", 180) + "%d-%d"}

func c24World(rng *rand.Rand, dir string, small bool) *c24world {
	w := &c24world{byID: map[uint64]*c24file{}}
	nd := 1 + rng.Intn(5)
	if small {
		nd = 1
	}
	for k := 0; k < nd; k++ {
		id := []uint64{uint64(k), 1000 + uint64(k), rng.Uint64()&^7 + uint64(k), 1<<32 + uint64(k)}[rng.Intn(4)]
		if w.byID[id] != nil {
			id = 77777 + uint64(k)
		}
		sh := []uint{0, 9, 10, 11, 12, 9}[rng.Intn(6)]
		bs := int64(512)
		if sh > 0 {
			bs = 1 << sh
		}
		f := &c24file{path: filepath.Join(dir, fmt.Sprintf(c24names[rng.Intn(len(c24names))], k, rng.Intn(1000)))}
		f.size = bs * int64(1+rng.Intn(200))
		if rng.Intn(3) == 0 {
			f.size += int64(rng.Intn(int(bs)))
		}
		f.dev = config.BackendStorage{DeviceID: id, Path: "file:" + f.path, Online: rng.Intn(4) > 0, ThinProvisioning: rng.Intn(2) == 0, BlockShift: sh}
		w.files = append(w.files, f)
		w.byID[id] = f
	}
	return w
}

// conf makes the configuration for a port number.
func (w *c24world) conf(seed int64, port int) *config.Config {
	rng := rand.New(rand.NewSource(seed))
	c := &config.Config{ISCSITargets: map[string]config.ISCSITarget{}}
	for _, f := range w.files {
		c.Storages = append(c.Storages, f.dev)
	}
	w.port = map[uint64]string{}
	var ids []uint64
	for p := 0; p < 1+rng.Intn(4); p++ {
		id := uint64(p*7 + rng.Intn(7))
		if rng.Intn(4) == 0 {
			id = uint64(65000 + p)
		}
		ids = append(ids, id)
		w.port[id] = fmt.Sprintf("127.0.0.%d:%d", 1+p, port)
		c.ISCSIPortals = append(c.ISCSIPortals, config.ISCSIPortalInfo{ID: uint16(id), Portal: w.port[id]})
	}
	rng.Shuffle(len(c.ISCSIPortals), func(a, b int) {
		c.ISCSIPortals[a], c.ISCSIPortals[b] = c.ISCSIPortals[b], c.ISCSIPortals[a]
	})
	for t := 0; t < 1+rng.Intn(4); t++ {
		ct := config.ISCSITarget{TPGTs: map[string][]uint64{}, LUNs: map[string]uint64{}}
		free := append([]uint64{}, ids...)
		rng.Shuffle(len(free), func(a, b int) { free[a], free[b] = free[b], free[a] })
		for len(free) > 0 && (len(ct.TPGTs) == 0 || rng.Intn(3) > 0) {
			n := 1 + rng.Intn(len(free))
			tag := []int{1 + len(ct.TPGTs), rng.Intn(65536)}[rng.Intn(2)]
			if _, dup := ct.TPGTs[strconv.Itoa(tag)]; dup {
				break
			}
			ct.TPGTs[strconv.Itoa(tag)] = append([]uint64{}, free[:n]...)
			free = free[n:]
		}
		for k := rng.Intn(6); k >= 0; k-- {
			ct.LUNs[strconv.Itoa(c12LUN(rng))] = w.files[rng.Intn(len(w.files))].dev.DeviceID
		}
		c.ISCSITargets[fmt.Sprintf("iqn.2022-0%d.verif:c24.t%d", 1+t, rng.Intn(50))] = ct
	}
	w.cfg = c
	return c
}

func c24Serve(r *ck.Run, i int) {
	rng := r.Rng("serve", i)
	cas := fmt.Sprintf("serve-%d", i)
	dir := r.SubDir("c24")
	gone := map[string]bool{}
	var all []*c24file
	for round := 0; round < 2; round++ {
		w := c24World(rng, dir, round == 1)
		for _, f := range w.files {
			if err := f.make(rng); err != nil {
				r.Inconclusive("%v", err)
				return
			}
		}
		all = append(all, w.files...)
		seed := rng.Int63()
		d := startDaemon(r, cas, dir, func(port int) *config.Config { return w.conf(seed, port) })
		if d == nil {
			return
		}
		ok := c24Compare(r, cas, rng, d, w, gone)
		for n := range w.cfg.ISCSITargets {
			gone[n] = true
		}
		if !ok {
			d.kill()
			return
		}
		code, ended := d.term(2 * ini.Watchdog)
		if !ended || code != 0 {
			r.Violate("shutdown", cas, d.output(), "the daemon asked to end by SIGTERM: ended %v, status %d", ended, code)
			return
		}
		for _, f := range all {
			if m := f.changed(); m != "" {
				r.Violate("storage-changed", cas, w.cfg, "starting, reading and ending changed the storage: %s", m)
				return
			}
		}
		r.Eval("storage untouched")
	}
}

// c24Compare looks at everything the daemon serves.
func c24Compare(r *ck.Run, cas string, rng *rand.Rand, d *daemon, w *c24world, gone map[string]bool) bool {
	bad := func(sig string, det interface{}, f string, a ...interface{}) bool {
		if !d.dead(r, cas, "serving") {
			r.Violate(sig, cas, map[string]interface{}{"config": w.cfg, "detail": det}, f, a...)
		}
		return false
	}
	// discovery through any portal
	var names, want []string
	for n, t := range w.cfg.ISCSITargets {
		names = append(names, n)
		for tag, ps := range t.TPGTs {
			for _, p := range ps {
				want = append(want, n+" "+w.port[p]+","+tag)
			}
		}
	}
	sort.Strings(names)
	sort.Strings(want)
	dc, err := ini.Login(ini.LoginOpts{Addr: d.addr(), Discovery: true})
	if err != nil {
		return bad("discovery", nil, "a discovery login failed: %v", err)
	}
	kv, _, err := dc.TextAll([]ini.KV{{K: "SendTargets", V: "All"}}, false)
	dc.Close()
	if err != nil {
		return bad("discovery", nil, "SendTargets failed: %v", err)
	}
	var got []string
	cur := ""
	for _, x := range kv {
		switch x.K {
		case "TargetName":
			cur = x.V
		case "TargetAddress":
			got = append(got, cur+" "+x.V)
		}
	}
	sort.Strings(got)
	if strings.Join(got, "\n") != strings.Join(want, "\n") {
		return bad("discovery-set", map[string]interface{}{"got": got, "want": want}, "discovery reports %d target addresses, the configuration has %d", len(got), len(want))
	}
	r.Eval(fmt.Sprintf("discovery %d", len(want)))
	for n := range gone {
		if _, still := w.cfg.ISCSITargets[n]; still {
			continue
		}
		if c, err := ini.Login(ini.LoginOpts{Addr: d.addr(), Target: n}); err == nil {
			c.Close()
			return bad("old-target", nil, "%s, of the configuration before, is served", n)
		}
		r.Eval("old target")
	}
	for k, n := range names {
		t := w.cfg.ISCSITargets[n]
		for id, addr := range w.port {
			tag := ""
			for g, ps := range t.TPGTs {
				for _, p := range ps {
					if p == id {
						tag = g
					}
				}
			}
			c, err := ini.Login(ini.LoginOpts{Addr: addr, Target: n, ISID: [6]byte{0x80, 0x24, byte(k), 0, byte(id >> 8), byte(id)}})
			r.Eval(fmt.Sprintf("login %v", tag != ""))
			if tag == "" {
				if err == nil {
					c.Close()
					return bad("wrong-portal", nil, "a login to %s through %s succeeds, which is no portal of it", n, addr)
				}
				continue
			}
			if err != nil {
				return bad("login-failed", nil, "a login to %s through its portal %s failed: %v", n, addr, err)
			}
			if c.TPGT != tag {
				c.Close()
				return bad("wrong-group", nil, "a login to %s through %s reports group %s instead of %s", n, addr, c.TPGT, tag)
			}
			ok := c24LUNs(r, c, w, t, bad)
			if rng.Intn(2) == 0 {
				c.Logout()
			}
			c.Close()
			if !ok {
				return false
			}
		}
	}
	return true
}

func c24LUNs(r *ck.Run, c *ini.Conn, w *c24world, t config.ISCSITarget, bad func(string, interface{}, string, ...interface{}) bool) bool {
	do := func(cmd ini.Cmd) *ini.Task {
		x := c.Submit(cmd)
		if err := x.Wait(); err != nil {
			bad("unanswered", tail(c.Trace(), 10), "a command (operation code %02x) got no response: %v", cmd.CDB[0], err)
			return nil
		}
		return x
	}
	x := do(ini.InCmd(ini.LUN(0), []byte{ini.RPTLUNS, 0, 0, 0, 0, 0, 0, 0, 64, 0, 0, 0}, 64<<8))
	if x == nil {
		return false
	}
	got := map[int]bool{}
	if x.Status != 0 || len(x.Data) < 8 || int(be32(x.Data)) != len(x.Data)-8 {
		return bad("report-luns", nil, "REPORT LUNS ended with %s and %d bytes", x.Outcome(), len(x.Data))
	}
	for o := 8; o+8 <= len(x.Data); o += 8 {
		got[int(be16(x.Data[o:])&0x3fff)] = true
	}
	for l := range got {
		if _, ok := t.LUNs[fmt.Sprint(l)]; !ok && l != 0 {
			return bad("extra-lun", nil, "LUN %d is reported but not configured", l)
		}
	}
	for ls, id := range t.LUNs {
		l, _ := strconv.Atoi(ls)
		if !got[l] {
			return bad("missing-lun", nil, "LUN %d is configured but not reported", l)
		}
		f := w.byID[id]
		bs := int64(512)
		if f.dev.BlockShift > 0 {
			bs = 1 << f.dev.BlockShift
		}
		lun := ini.LUN(l)
		cl := fmt.Sprintf("%d %v %v", bs, f.dev.Online, f.dev.ThinProvisioning)
		x := do(ini.InCmd(lun, []byte{ini.SAI16, 0x10, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 32, 0, 0}, 32))
		if x == nil {
			return false
		}
		r.Eval("capacity " + cl)
		if x.Status == 0 && (len(x.Data) != 32 || be64(x.Data) != uint64(f.size/bs-1) || int64(be32(x.Data[8:])) != bs || (x.Data[14]&0x80 != 0) != f.dev.ThinProvisioning) {
			return bad("capacity", nil, "LUN %d (file of %d bytes, blocks of %d, thin %v, online %v) says %x", l, f.size, bs, f.dev.ThinProvisioning, f.dev.Online, x.Data)
		}
		// standard inquiry data and every page say the same of the device: a disk, connected if online
		for _, page := range []int{-1, 0, 0x80, 0x83, 0xb0, 0xb2} {
			cdb := []byte{ini.INQUIRY, 1, byte(page), 0, 255, 0}
			if page < 0 {
				cdb[1], cdb[2] = 0, 0
			}
			y := do(ini.InCmd(lun, cdb, 255))
			if y == nil {
				return false
			}
			if y.Status != 0 && page >= 0 {
				continue
			}
			if y.Status != 0 || len(y.Data) < 4 || y.Data[0]&0x1f != 0 || (y.Data[0]>>5 == 0) != f.dev.Online || y.Data[0]>>5 == 3 {
				return bad("qualifier", nil, "INQUIRY (page %d) of LUN %d, a disk configured with online %v, ended with %s and %x", page, l, f.dev.Online, y.Outcome(), y.Data[:min64(4, int64(len(y.Data)))])
			}
		}
		if !f.dev.Online {
			// nothing is known of a LUN that is offline but that it is not ready and gives no data
			x := do(ini.NoData(lun, []byte{ini.TUR, 0, 0, 0, 0, 0}))
			if x == nil {
				return false
			}
			if x.Status == 0 {
				return bad("offline-ready", nil, "LUN %d is configured offline and says it is ready", l)
			}
			x = do(ini.ReadCmd(lun, ini.READ10, 0, 1, int(bs), 0))
			if x == nil {
				return false
			}
			r.Eval("offline " + cl)
			continue
		}
		if x.Status != 0 || len(x.Data) != 32 {
			return bad("capacity", nil, "READ CAPACITY(16) of LUN %d ended with %s and %d bytes", l, x.Outcome(), len(x.Data))
		}
		if be64(x.Data) != uint64(f.size/bs-1) || int64(be32(x.Data[8:])) != bs || (x.Data[14]&0x80 != 0) != f.dev.ThinProvisioning {
			return bad("capacity", nil, "LUN %d (file of %d bytes, blocks of %d, thin %v) says last LBA %d, blocks of %d, thin %v", l, f.size, bs, f.dev.ThinProvisioning, be64(x.Data), be32(x.Data[8:]), x.Data[14]&0x80 != 0)
		}
		x = do(ini.NoData(lun, []byte{ini.TUR, 0, 0, 0, 0, 0}))
		if x == nil {
			return false
		}
		if x.Status != 0 {
			return bad("not-ready", nil, "LUN %d is configured online and TEST UNIT READY ended with %s", l, x.Outcome())
		}
		b, err := os.ReadFile(f.path)
		if err != nil {
			return bad("storage-gone", nil, "%v", err)
		}
		last := f.size/bs - 1
		for _, lba := range []int64{0, last, last / 2} {
			x = do(ini.ReadCmd(lun, ini.READ10, uint64(lba), 1, int(bs), 0))
			if x == nil {
				return false
			}
			if x.Status != 0 || !bytes.Equal(x.Data, b[lba*bs:(lba+1)*bs]) {
				return bad("wrong-storage", nil, "block %d of LUN %d is not that of %s (%s)", lba, l, filepath.Base(f.path), x.Outcome())
			}
		}
		r.Eval("content " + cl)
	}
	return true
}

// c24bad is a start-up that must be refused.
type c24bad struct {
	name string
	mod  func(c *config.Config, f *c24file) // of a valid configuration
	text func(valid string) string          // of its text
	args []string
	prep func(dir string, f *c24file)

	fds    int  // sockets passed to the program
	noSock bool // the last is none
}

func c24Refuse(r *ck.Run) {
	st := func(fn func(s *config.BackendStorage, f *c24file)) func(c *config.Config, f *c24file) {
		return func(c *config.Config, f *c24file) { fn(&c.Storages[0], f) }
	}
	tg := func(fn func(t *config.ISCSITarget)) func(c *config.Config, f *c24file) {
		return func(c *config.Config, f *c24file) {
			for n, t := range c.ISCSITargets {
				fn(&t)
				c.ISCSITargets[n] = t
			}
		}
	}
	rep := func(old, new string) func(string) string {
		return func(v string) string {
			if !strings.Contains(v, old) {
				panic("c24: no " + old)
			}
			return strings.Replace(v, old, new, 1)
		}
	}
	var l []c24bad
	// the file's text
	for _, x := range [][2]string{{`"deviceID":1000`, `"deviceID":-1`}, {`"deviceID":1000`, `"deviceID":18446744073709551616`}, {`"deviceID":1000`, `"deviceID":"1000"`}, {`"deviceID":1000`, `"deviceID":1.5`}, {`"online":true`, `"online":"yes"`}, {`"online":true`, `"online":1`},
		{`"blockShift":9`, `"blockShift":-1`}, {`"blockShift":9`, `"blockShift":"9"`}, {`"id":3`, `"id":65536`}, {`"id":3`, `"id":-1`}, {`"luns":{"0":1000}`, `"luns":[1000]`}, {`"luns":{"0":1000}`, `"luns":{"0":"1000"}`}, {`"tpgts":{"1":[3]}`, `"tpgts":{"1":3}`}, {`"tpgts":{"1":[3]}`, `"tpgts":{"1":[-3]}`}, {`{"storages":[`, `{"storages":{`}, {`"iscsitargets":{`, `"iscsitargets":[`}} {
		l = append(l, c24bad{name: "text " + x[1], text: rep(x[0], x[1])})
	}
	l = append(l, c24bad{name: "text cut off", text: func(v string) string { return v[:len(v)/2] }},
		c24bad{name: "text without its end", text: func(v string) string { return v[:len(v)-1] }},
		c24bad{name: "text empty", text: func(v string) string { return "" }},
		c24bad{name: "text twice", text: func(v string) string { return v + v }},
		c24bad{name: "text and garbage", text: func(v string) string { return v + "}" }},
		c24bad{name: "text yaml", text: func(v string) string { return "storages:\n- deviceID: 1\n" }},
		// storage
		c24bad{name: "storage missing", prep: func(dir string, f *c24file) { os.Rename(f.path, f.path+".away") }},
		c24bad{name: "storage a directory", prep: func(dir string, f *c24file) { os.Rename(f.path, f.path+".away"); os.Mkdir(f.path, 0700) }},
		c24bad{name: "storage empty", mod: func(c *config.Config, f *c24file) { f.size = 0 }},
		c24bad{name: "storage below a block", mod: func(c *config.Config, f *c24file) { f.size = 511 }},
		c24bad{name: "storage below a 4K block", mod: func(c *config.Config, f *c24file) { f.size = 4095; c.Storages[0].BlockShift = 12 }},
		c24bad{name: "storage of unknown kind", mod: st(func(s *config.BackendStorage, f *c24file) { s.Path = "nosuch:" + f.path })},
		c24bad{name: "storage without kind", mod: st(func(s *config.BackendStorage, f *c24file) { s.Path = f.path })},
		c24bad{name: "storage without path", mod: st(func(s *config.BackendStorage, f *c24file) { s.Path = "" })},
		c24bad{name: "storage only kind", mod: st(func(s *config.BackendStorage, f *c24file) { s.Path = "file:" })},
		c24bad{name: "storage kind only a colon", mod: st(func(s *config.BackendStorage, f *c24file) { s.Path = ":" + f.path })},
		c24bad{name: "device twice", mod: func(c *config.Config, f *c24file) { c.Storages = append(c.Storages, c.Storages[0]) }},
		c24bad{name: "device id twice", mod: func(c *config.Config, f *c24file) {
			s := c.Storages[0]
			s.ThinProvisioning = !s.ThinProvisioning
			c.Storages = append(c.Storages, s)
		}},
		c24bad{name: "second storage missing", mod: func(c *config.Config, f *c24file) {
			s := c.Storages[0]
			s.DeviceID, s.Path = 5, s.Path+".none"
			c.Storages = append(c.Storages, s)
		}},
	)
	for _, sh := range []uint{1, 3, 8, 17, 20, 31, 32, 40, 63, 64, 65, 1 << 20} {
		sh := sh
		l = append(l, c24bad{name: fmt.Sprintf("block shift %d", sh), mod: st(func(s *config.BackendStorage, f *c24file) { s.BlockShift = sh })})
	}
	for _, k := range []string{"x", "-1", "16384", "70000", "1.5", "", " 1", "0x1", "18446744073709551616", "1e1"} {
		k := k
		l = append(l, c24bad{name: fmt.Sprintf("LUN number %q", k), mod: tg(func(t *config.ISCSITarget) { t.LUNs[k] = 1000 })})
	}
	for _, k := range []string{"x", "-1", "65536", "1.5", "", " 2", "4294967297"} {
		k := k
		l = append(l, c24bad{name: fmt.Sprintf("portal group %q", k), mod: tg(func(t *config.ISCSITarget) { t.TPGTs[k] = []uint64{3} })})
	}
	l = append(l, c24bad{name: "LUN of unknown device", mod: tg(func(t *config.ISCSITarget) { t.LUNs["1"] = 1001 })},
		c24bad{name: "LUN of no device", mod: func(c *config.Config, f *c24file) { c.Storages = nil }},
		c24bad{name: "LUN twice", mod: tg(func(t *config.ISCSITarget) { t.LUNs["00"] = 1000 })},
		c24bad{name: "LUN 7 twice", mod: tg(func(t *config.ISCSITarget) { t.LUNs["7"], t.LUNs["007"] = 1000, 1000 })},
		c24bad{name: "LUN 16383 twice", mod: tg(func(t *config.ISCSITarget) { t.LUNs["16383"], t.LUNs["016383"] = 1000, 1000 })},
		c24bad{name: "portal group 300 twice", mod: tg(func(t *config.ISCSITarget) { t.TPGTs["300"], t.TPGTs["0300"] = []uint64{3}, []uint64{3} })},
		c24bad{name: "portal group twice", mod: tg(func(t *config.ISCSITarget) { t.TPGTs["01"] = []uint64{3} })},
		c24bad{name: "unknown portal", mod: tg(func(t *config.ISCSITarget) { t.TPGTs["1"] = []uint64{4} })},
		c24bad{name: "unknown portal beside a known one", mod: tg(func(t *config.ISCSITarget) { t.TPGTs["2"] = []uint64{3, 9} })},
		c24bad{name: "portal 65539", mod: tg(func(t *config.ISCSITarget) { t.TPGTs["1"] = []uint64{65539} })},
		c24bad{name: "no portals", mod: func(c *config.Config, f *c24file) { c.ISCSIPortals = nil }},
		c24bad{name: "config file a directory", prep: func(dir string, f *c24file) {
			os.Remove(filepath.Join(dir, config.ConfigFileName))
			os.Mkdir(filepath.Join(dir, config.ConfigFileName), 0700)
		}},
		c24bad{name: "driver", args: []string{"--driver", "nosuch"}},
		c24bad{name: "driver without name", args: []string{"--driver", ""}},
		c24bad{name: "log level", args: []string{"--log", "chatty"}},
		c24bad{name: "host without protocol", args: []string{"--host", "127.0.0.1:1"}},
		c24bad{name: "host of unknown protocol", args: []string{"--host", "carrier://127.0.0.1:1"}},
		c24bad{name: "no passed socket", args: []string{"--host", "fd://"}},
		c24bad{name: "no such passed socket", args: []string{"--host", "fd://5"}, fds: 2},
		c24bad{name: "a passed socket of no number", args: []string{"--host", "fd://x"}, fds: 1},
		c24bad{name: "standard error as the socket", args: []string{"--host", "fd://2"}, fds: 1},
		c24bad{name: "a negative socket", args: []string{"--host", "fd://-7"}, fds: 2},
		c24bad{name: "a file as the socket", args: []string{"--host", "fd://3"}, fds: 1, noSock: true},
		c24bad{name: "a file among the sockets", args: []string{"--host", "fd://*"}, fds: 2, noSock: true},
		c24bad{name: "port no number", args: []string{"--port", "x"}},
		c24bad{name: "unknown option", args: []string{"--nosuch"}},
		c24bad{name: "iSCSI port in use", args: []string{"PORT"}},
		c24bad{name: "API port in use", args: []string{"API"}},
	)
	r.Each(len(l), 7, func(i int) { c24Bad(r, l[i]) })
}

func c24Bad(r *ck.Run, b c24bad) {
	cas := "refuse " + b.name
	dir := r.SubDir("bad")
	f := &c24file{path: filepath.Join(dir, "disk.img"), size: 1 << 16}
	port, api := tgt.FreePort(), fmt.Sprintf("127.0.0.1:%d", tgt.FreePort())
	valid := &config.Config{
		Storages:     []config.BackendStorage{{DeviceID: 1000, Path: "file:" + f.path, Online: true, BlockShift: 9}},
		ISCSIPortals: []config.ISCSIPortalInfo{{ID: 3, Portal: fmt.Sprintf("127.0.0.1:%d", port)}},
		ISCSITargets: map[string]config.ISCSITarget{"iqn.2022-01.verif:bad": {TPGTs: map[string][]uint64{"1": {3}}, LUNs: map[string]uint64{"0": 1000}}},
	}
	if b.mod != nil {
		b.mod(valid, f)
	}
	if err := f.make(r.Rng("bad")); err != nil {
		r.Inconclusive("%v", err)
		return
	}
	txt, _ := json.Marshal(valid)
	if b.text != nil {
		txt = []byte(b.text(string(txt)))
	}
	if err := os.WriteFile(filepath.Join(dir, config.ConfigFileName), txt, 0600); err != nil {
		r.Inconclusive("%v", err)
		return
	}
	if b.prep != nil {
		b.prep(dir, f)
	}
	served := func() bool {
		c, err := ini.Login(ini.LoginOpts{Addr: fmt.Sprintf("127.0.0.1:%d", port), Target: "iqn.2022-01.verif:bad"})
		if err == nil {
			c.Close()
		}
		return err == nil
	}
	if len(b.args) == 1 && (b.args[0] == "PORT" || b.args[0] == "API") {
		hold := api
		if b.args[0] == "PORT" {
			hold = fmt.Sprintf("0.0.0.0:%d", port)
		}
		l, err := net.Listen("tcp", hold)
		if err != nil {
			r.Inconclusive("%v", err)
			return
		}
		defer l.Close()
		if b.args[0] == "PORT" {
			served = func() bool { return false } // nothing of the daemon's can be behind the port
		}
		b.args = nil
	}
	late := b.name == "API port in use" // the iSCSI port may be served for a moment before the end
	if len(b.args) > 0 && b.args[0] == "--host" {
		late, api = true, ""
	}
	var fds []*os.File
	if b.fds > 0 {
		var err error
		if fds, err = passedSockets([]string{"127.0.0.1:0", "127.0.0.1:0"}[:b.fds]...); err != nil {
			r.Inconclusive("%v", err)
			return
		}
		if b.noSock {
			fds[b.fds-1].Close()
			fds[b.fds-1], _ = os.Open("/dev/null")
		}
	}
	d, err := runDaemonFD(dir, port, api, fds, b.args...)
	for _, f := range fds {
		f.Close()
	}
	if err != nil {
		r.Inconclusive("%v", err)
		return
	}
	end := time.Now().Add(2 * ini.Watchdog)
	was := false
	for !d.exited() && time.Now().Before(end) && !was {
		time.Sleep(10 * time.Millisecond)
		was = !late && served()
	}
	over := d.exited()
	out := d.output()
	d.kill()
	det := map[string]interface{}{"config": string(txt), "output": out, "args": b.args}
	switch {
	case was:
		r.Violate("served:"+b.name, cas, det, "a start-up that should be refused (%s) is served", b.name)
	case !over:
		r.Violate("not-refused:"+b.name, cas, det, "a start-up that should be refused (%s) neither ended nor served", b.name)
	case d.code() == 0:
		r.Violate("status-0:"+b.name, cas, det, "a start-up that was refused (%s) ended with status 0", b.name)
	case d.code() == 2 && strings.Contains(out, "goroutine "):
		r.Violate("panic:"+b.name, cas, det, "a start-up that should be refused (%s) panicked: %s", b.name, oneLine(out))
	case strings.TrimSpace(out) == "":
		r.Violate("silent:"+b.name, cas, det, "a start-up was refused (%s) without a message", b.name)
	default:
		r.Eval("refused " + b.name)
	}
	p := f.path
	if _, err := os.Stat(p + ".away"); err == nil {
		if st, err := os.Stat(p); err == nil && !st.IsDir() {
			r.Violate("storage-made", cas, det, "a storage file that was missing has been made at start-up")
		}
		f.path += ".away"
	}
	if m := f.changed(); m != "" {
		r.Violate("storage-changed", cas, det, "a start-up that should be refused (%s) changed the storage: %s", b.name, m)
	}
}

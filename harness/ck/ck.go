// Package ck is the frame every check runs in: seeded randomness, counting of what was observed, verdicts, evidence.
package ck

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Root is the verification directory (/verif).
var Root = "/verif"

type Run struct {
	ID       string
	Seed     int64
	Tier     string
	Dir      string // scratch directory, removed at the end
	Only     string // run only the case with this key (replay)
	mu       sync.Mutex
	evals    int64
	seen     map[[8]byte]bool
	counters map[string]int64
	samples  []interface{}
	viol     map[string]*violation
	order    []string
	incon    []string
	known    []known
	knownHit map[string]int
	start    time.Time
	rule     string
	assume   []string
	dirN     int
	first    time.Time // the first violation
}

type violation struct {
	Sig, Msg string
	Case     string
	Detail   interface{}
	N        int
	Path     string
}

type known struct{ Sig, Text string }

func Env(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func New(id string) *Run {
	seed, err := strconv.ParseInt(Env("VERIF_SEED", "1"), 10, 64)
	if err != nil {
		h := fnv.New64a()
		h.Write([]byte(os.Getenv("VERIF_SEED")))
		seed = int64(h.Sum64() >> 2)
	}
	r := &Run{ID: id, Seed: seed, Tier: Env("VERIF_TIER", "quick"), seen: map[[8]byte]bool{}, counters: map[string]int64{},
		viol: map[string]*violation{}, knownHit: map[string]int{}, start: time.Now()}
	if r.Tier != "thorough" {
		r.Tier = "quick"
	}
	r.Only = os.Getenv("VERIF_ONLY")
	Root = Env("VERIF_ROOT", Root)
	d, err := os.MkdirTemp(Env("VERIF_TMP", os.TempDir()), "vh-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	r.Dir = d
	r.loadKnown()
	return r
}

// known_findings.txt lines: "finding: property=<id> sig=<signature> <what fails>" and "fixed: ...".
func (r *Run) loadKnown() {
	b, _ := os.ReadFile(filepath.Join(Root, "known_findings.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: property="+r.ID+" ") {
			continue
		}
		rest := strings.TrimPrefix(l, "finding: property="+r.ID+" ")
		f := strings.SplitN(rest, " ", 2)
		if len(f) == 2 && strings.HasPrefix(f[0], "sig=") {
			r.known = append(r.known, known{strings.TrimPrefix(f[0], "sig="), f[1]})
		}
	}
}

// Q picks by tier.
func (r *Run) Q(quick, thorough int) int {
	if r.Tier == "thorough" {
		return thorough
	}
	return quick
}

// Rng derives an independent generator for a labelled purpose.
func (r *Run) Rng(label ...interface{}) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprint(h, r.Seed, "|", r.ID)
	for _, l := range label {
		fmt.Fprint(h, "|", l)
	}
	return rand.New(rand.NewSource(int64(h.Sum64() >> 1)))
}

// SubDir makes a fresh scratch directory.
func (r *Run) SubDir(p string) string {
	r.mu.Lock()
	r.dirN++
	n := r.dirN
	r.mu.Unlock()
	d := filepath.Join(r.Dir, fmt.Sprintf("%s%d", p, n))
	os.MkdirAll(d, 0o755)
	return d
}

func (r *Run) Rule(s string)         { r.rule = s }
func (r *Run) Assume(s ...string)    { r.assume = append(r.assume, s...) }
func (r *Run) Add(k string, n int64) { r.mu.Lock(); r.counters[k] += n; r.mu.Unlock() }
func (r *Run) Max(k string, n int64) {
	r.mu.Lock()
	if n > r.counters[k] {
		r.counters[k] = n
	}
	r.mu.Unlock()
}
func (r *Run) Count(k string) int64 { r.mu.Lock(); defer r.mu.Unlock(); return r.counters[k] }

// Eval counts one evaluated case; key (when not empty) identifies it among the distinct non-trivial ones.
func (r *Run) Eval(key string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.evals++
	if key != "" {
		s := sha256.Sum256([]byte(key))
		var k [8]byte
		copy(k[:], s[:])
		r.seen[k] = true
	}
}

// Sample keeps a few written-out cases.
func (r *Run) Sample(v interface{}) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.samples) < 12 {
		r.samples = append(r.samples, v)
	}
}

func clean(s string) string {
	return strings.Map(func(c rune) rune {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.ContainsRune("._-:/=", c) {
			return c
		}
		return '_'
	}, s)
}

// Violate records a violation. sig identifies the specific defect (input class, call site, history shape).
func (r *Run) Violate(sig, cas string, detail interface{}, f string, a ...interface{}) {
	sig = clean(sig)
	msg := fmt.Sprintf(f, a...)
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, k := range r.known {
		if k.Sig == sig {
			r.knownHit[k.Sig]++
			return
		}
	}
	if v := r.viol[sig]; v != nil {
		v.N++
		return
	}
	v := &violation{Sig: sig, Msg: msg, Case: cas, Detail: detail, N: 1}
	if len(r.viol) == 0 {
		r.first = time.Now()
	}
	r.viol[sig] = v
	r.order = append(r.order, sig)
	if os.Getenv("VERIF_VERBOSE") != "" {
		fmt.Fprintf(os.Stderr, "[%s] %s: %s (case %s)\n", r.ID, sig, msg, cas)
	}
}

// Violated tells whether something unlisted was found.
func (r *Run) Violated() bool { r.mu.Lock(); defer r.mu.Unlock(); return len(r.viol) > 0 }

// longViolated tells whether the verdict has been known for some time: the cases left are not needed for it.
func (r *Run) longViolated() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.viol) > 0 && time.Since(r.first) > 15*time.Second
}

// Inconclusive records that a case gave no verdict.
func (r *Run) Inconclusive(f string, a ...interface{}) {
	r.mu.Lock()
	defer r.mu.Unlock()
	m := fmt.Sprintf(f, a...)
	r.incon = append(r.incon, m)
	if os.Getenv("VERIF_VERBOSE") != "" {
		fmt.Fprintf(os.Stderr, "[%s] INCONCLUSIVE %s\n", r.ID, m)
	}
}

// Each runs f(0..n-1) on par workers; a panic of the harness makes the case inconclusive.
func (r *Run) Each(n, par int, f func(i int)) {
	ch := make(chan int)
	var wg sync.WaitGroup
	if par > n {
		par = n
	}
	for w := 0; w < par; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				func() {
					defer func() {
						if p := recover(); p != nil {
							r.Inconclusive("harness panic in case %d: %v\n%s", i, p, debug.Stack())
						}
					}()
					f(i)
				}()
			}
		}()
	}
	for i := 0; i < n; i++ {
		if r.Only != "" && r.Only != fmt.Sprint(i) {
			continue
		}
		if r.longViolated() {
			break
		}
		ch <- i
	}
	close(ch)
	wg.Wait()
}

// Finish writes the evidence and replay files, prints the verdict and returns the exit code.
func (r *Run) Finish(level string, minEvals int64) int {
	defer os.RemoveAll(r.Dir)
	r.mu.Lock()
	defer r.mu.Unlock()
	cov := map[string]interface{}{"evaluations": r.evals, "distinct_nontrivial": len(r.seen), "rule": r.rule}
	if len(r.samples) == 0 {
		r.samples = append(r.samples, "no case was sampled")
	}
	cov["samples"] = r.samples
	obs := map[string]int64{}
	for k, v := range r.counters {
		obs[k] = v
	}
	cov["observed"] = obs
	if len(r.incon) > 0 {
		cov["inconclusive"] = r.incon
	}
	var kh []string
	for k, n := range r.knownHit {
		kh = append(kh, fmt.Sprintf("%s x%d", k, n))
	}
	sort.Strings(kh)
	if len(kh) > 0 {
		cov["known_findings_hit"] = kh
	}
	sort.Strings(r.order)
	rd := filepath.Join(Root, "replays")
	os.MkdirAll(rd, 0o755)
	for i, sig := range r.order {
		v := r.viol[sig]
		name := fmt.Sprintf("%s-%s.json", r.ID, sig)
		if len(name) > 150 {
			s := sha256.Sum256([]byte(name))
			name = fmt.Sprintf("%s-%x.json", name[:120], s[:6])
		}
		name = strings.NewReplacer("/", "_", ":", "_").Replace(name)
		v.Path = filepath.Join(rd, name)
		b, _ := json.MarshalIndent(map[string]interface{}{"property": r.ID, "signature": sig, "what": v.Msg, "times": v.N, "case": v.Case,
			"seed": r.Seed, "tier": r.Tier, "detail": v.Detail,
			"replay": fmt.Sprintf("cd /verif && VERIF_SEED=%d VERIF_TIER=%s VERIF_VERBOSE=1 ./run.sh %s", r.Seed, r.Tier, r.ID)}, "", " ")
		os.WriteFile(v.Path, b, 0o644)
		if i < 20 {
			fmt.Printf("VIOLATION property=%s replay=%s\n", r.ID, v.Path)
			fmt.Printf("  %s: %s\n", sig, v.Msg)
		}
	}
	for _, k := range r.known {
		fmt.Printf("KNOWN-FINDING: property=%s %s (sig %s, seen %d times in this run)\n", r.ID, k.Text, k.Sig, r.knownHit[k.Sig])
	}
	ev := map[string]interface{}{"property": r.ID, "tier": r.Tier, "seed": r.Seed, "level": level, "coverage": cov, "assumptions": append([]string{}, r.assume...),
		"wall_s": float64(int(time.Since(r.start).Seconds()*100)) / 100, "violations": len(r.viol)}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(Root, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(Root, "evidence", r.ID+".json"), b, 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
		return 2
	}
	for _, m := range r.incon {
		fmt.Println("inconclusive:", m)
	}
	if len(r.viol) > 0 {
		return 1
	}
	if r.Only == "" && (r.evals < minEvals || len(r.incon) > 0) {
		fmt.Printf("no verdict: %d cases evaluated (need %d), %d inconclusive\n", r.evals, minEvals, len(r.incon))
		return 2
	}
	fmt.Printf("%s: held on %d cases (%d distinct) %v\n", r.ID, r.evals, len(r.seen), obs)
	return 0
}

// Package mon is the monitored backing store plugged into the real target: a sparse volatile/stable medium that records
// every call the target makes, and on request injects faults and holds calls at a gate.
package mon

import (
	"errors"
	"fmt"
	"io"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/gostor/gotgt/pkg/api"
	"github.com/gostor/gotgt/pkg/scsi"
)

const pageSize = 4096

// Event is one call of the target into a store.
type Event struct {
	Seq  int64 // position in the global order of call starts
	Dev  string
	Kind string // open read write sync advise unmap remread...
	Off  int64
	Len  int64
	Err  string
	Desc []Range // unmap
	Bad  string  // a call outside the medium
	Done int64   // position at which the call returned (0: not yet)
}

type Range struct{ Off, Len uint64 }

// Fault describes an injected behaviour for matching calls.
type Fault struct {
	Dev   string
	Kind  string // read write sync unmap advise
	Skip  int    // let this many matching calls pass first
	Count int    // then affect this many (<=0: all)
	Mode  string // error | eof | short | delay | gate | shorteof | corrupt (writes)
	Arg   int64  // short: number of bytes returned; delay: microseconds
	Gate  string // gate name
	// match only calls overlapping [Off,Off+Len) when Len>0
	Off, Len int64
	hits     int
	ID       int
}

type Medium struct {
	mu     sync.Mutex
	name   string
	size   int64
	vol    map[int64][]byte
	stable map[int64][]byte
	opens  int
}

type Hub struct {
	mu     sync.Mutex
	media  map[string]*Medium
	events []Event
	seq    int64
	faults []*Fault
	gates  map[string]chan struct{}
	atGate map[string]int
	drop   bool // do not record events
	counts map[string]int64
	fid    int
}

var H = &Hub{media: map[string]*Medium{}, gates: map[string]chan struct{}{}, atGate: map[string]int{}, counts: map[string]int64{}}

func init() {
	scsi.RegisterBackingStore("mon", func() (api.BackingStore, error) { return &store{}, nil })
}

// Get returns (creating it when needed) the medium of that name.
func (h *Hub) Get(name string, size int64) *Medium {
	h.mu.Lock()
	defer h.mu.Unlock()
	m := h.media[name]
	if m == nil {
		m = &Medium{name: name, size: size, vol: map[int64][]byte{}, stable: map[int64][]byte{}}
		h.media[name] = m
	}
	return m
}

func (m *Medium) copyOut(src map[int64][]byte, off int64, p []byte) {
	for len(p) > 0 {
		pg, po := off/pageSize, off%pageSize
		n := pageSize - po
		if n > int64(len(p)) {
			n = int64(len(p))
		}
		if b := src[pg]; b != nil {
			copy(p[:n], b[po:po+n])
		} else {
			for i := range p[:n] {
				p[i] = 0
			}
		}
		p = p[n:]
		off += n
	}
}

func (m *Medium) copyIn(dst map[int64][]byte, off int64, p []byte) {
	for len(p) > 0 {
		pg, po := off/pageSize, off%pageSize
		n := pageSize - po
		if n > int64(len(p)) {
			n = int64(len(p))
		}
		b := dst[pg]
		if b == nil {
			b = make([]byte, pageSize)
			dst[pg] = b
		}
		copy(b[po:po+n], p[:n])
		p = p[n:]
		off += n
	}
}

func (m *Medium) syncRange(off, n int64) {
	end := off + n
	if end < off {
		end = 1<<63 - 1
	}
	for pg, b := range m.vol {
		s, e := pg*pageSize, (pg+1)*pageSize
		if e <= off || s >= end {
			continue
		}
		lo, hi := int64(0), int64(pageSize)
		if off > s {
			lo = off - s
		}
		if end < e {
			hi = end - s
		}
		d := m.stable[pg]
		if d == nil {
			d = make([]byte, pageSize)
			m.stable[pg] = d
		}
		copy(d[lo:hi], b[lo:hi])
	}
}

func (h *Hub) begin(dev, kind string, off, n int64, bad string, desc []Range) (int64, int) {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.seq++
	h.counts[kind]++
	if h.drop {
		return h.seq, -1
	}
	h.events = append(h.events, Event{Seq: h.seq, Dev: dev, Kind: kind, Off: off, Len: n, Bad: bad, Desc: desc})
	return h.seq, len(h.events) - 1
}

func (h *Hub) end(seq int64, idx int, err error) {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.seq++
	if idx >= 0 && idx < len(h.events) && h.events[idx].Seq == seq {
		h.events[idx].Done = h.seq
		if err != nil {
			h.events[idx].Err = err.Error()
		}
	}
}

func (h *Hub) fault(dev, kind string, off, n int64) *Fault {
	h.mu.Lock()
	defer h.mu.Unlock()
	for _, f := range h.faults {
		if f.Dev != "" && f.Dev != dev || f.Kind != kind {
			continue
		}
		if f.Len > 0 && (off >= f.Off+f.Len || off+n <= f.Off) {
			continue
		}
		f.hits++
		if f.hits <= f.Skip || f.Count > 0 && f.hits > f.Skip+f.Count {
			continue
		}
		c := *f
		return &c
	}
	return nil
}

// pause implements delay and gate.
func (h *Hub) pause(f *Fault) {
	switch f.Mode {
	case "delay":
		time.Sleep(time.Duration(f.Arg) * time.Microsecond)
	case "gate":
		h.mu.Lock()
		ch := h.gates[f.Gate]
		if ch == nil {
			ch = make(chan struct{})
			h.gates[f.Gate] = ch
		}
		h.atGate[f.Gate]++
		h.mu.Unlock()
		<-ch
	}
}

var ErrInjected = errors.New("injected backing store failure")

type store struct {
	m *Medium
}

// Open: path is <name>:<size in bytes>
func (s *store) Open(dev *api.SCSILu, path string) error {
	parts := strings.Split(path, ":")
	if len(parts) != 2 {
		return fmt.Errorf("mon path %q", path)
	}
	size, err := strconv.ParseInt(parts[1], 10, 64)
	if err != nil {
		return err
	}
	if f := H.fault(parts[0], "open", 0, 0); f != nil {
		H.pause(f)
		if f.Mode == "error" {
			return ErrInjected
		}
	}
	s.m = H.Get(parts[0], size)
	return nil
}
func (s *store) Close(dev *api.SCSILu) error             { return nil }
func (s *store) Init(dev *api.SCSILu, opts string) error { return nil }
func (s *store) Exit(dev *api.SCSILu) error              { return nil }
func (s *store) Size(dev *api.SCSILu) uint64             { return uint64(s.m.size) }

func (m *Medium) bad(off, n int64) string {
	m.mu.Lock()
	defer m.mu.Unlock()
	if off < 0 || n < 0 || off > m.size || off+n > m.size || off+n < off {
		return fmt.Sprintf("outside medium of %d bytes", m.size)
	}
	return ""
}

func (s *store) Read(off, tl int64) ([]byte, error) { return s.m.Read(off, tl, "read") }
func (m *Medium) Read(off, tl int64, kind string) ([]byte, error) {
	bad := m.bad(off, tl)
	seq, idx := H.begin(m.name, kind, off, tl, bad, nil)
	var err error
	var out []byte
	defer func() { H.end(seq, idx, err) }()
	f := H.fault(m.name, "read", off, tl)
	if f != nil {
		H.pause(f)
	}
	if bad != "" {
		err = errors.New(bad)
		return nil, err
	}
	if f != nil {
		switch f.Mode {
		case "error":
			err = ErrInjected
			return nil, err
		case "eof":
			err = io.EOF
			return nil, err
		}
	}
	out = make([]byte, tl)
	m.mu.Lock()
	m.copyOut(m.vol, off, out)
	m.mu.Unlock()
	if f != nil {
		switch f.Mode {
		case "short":
			n := f.Arg
			if n >= tl {
				n = tl - 1
			}
			return out[:n], nil
		case "shorteof":
			n := f.Arg
			if n >= tl {
				n = tl - 1
			}
			err = io.EOF
			return out[:n], err
		}
	}
	return out, nil
}

func (s *store) Write(b []byte, off int64) error { return s.m.Write(b, off, "write") }
func (m *Medium) Write(b []byte, off int64, kind string) error {
	bad := m.bad(off, int64(len(b)))
	seq, idx := H.begin(m.name, kind, off, int64(len(b)), bad, nil)
	var err error
	defer func() { H.end(seq, idx, err) }()
	f := H.fault(m.name, "write", off, int64(len(b)))
	if f != nil {
		H.pause(f)
	}
	if bad != "" {
		err = errors.New(bad)
		return err
	}
	if f != nil {
		switch f.Mode {
		case "error":
			err = ErrInjected
			return err
		case "short": // part of the data reaches the medium, then the call fails
			n := f.Arg
			if n > int64(len(b)) {
				n = int64(len(b))
			}
			m.mu.Lock()
			m.copyIn(m.vol, off, b[:n])
			m.mu.Unlock()
			err = io.ErrShortWrite
			return err
		case "corrupt": // one bit does not make it, and nobody is told
			c := append([]byte{}, b...)
			if len(c) > 0 {
				c[f.Arg%int64(len(c))] ^= 1 << uint(f.Arg%8)
			}
			b = c
		}
	}
	m.mu.Lock()
	m.copyIn(m.vol, off, b)
	m.mu.Unlock()
	return nil
}

func (s *store) DataSync(off, tl int64) error { return s.m.Sync(off, tl, "sync") }
func (m *Medium) Sync(off, tl int64, kind string) error {
	seq, idx := H.begin(m.name, kind, off, tl, "", nil)
	var err error
	defer func() { H.end(seq, idx, err) }()
	f := H.fault(m.name, "sync", off, tl)
	if f != nil {
		H.pause(f)
		if f.Mode == "error" {
			err = ErrInjected
			return err
		}
	}
	m.mu.Lock()
	m.syncRange(off, tl)
	m.mu.Unlock()
	return nil
}

func (s *store) DataAdvise(off, n int64, adv uint32) error {
	seq, idx := H.begin(s.m.name, "advise", off, n, "", nil)
	var err error
	defer func() { H.end(seq, idx, err) }()
	if f := H.fault(s.m.name, "advise", off, n); f != nil {
		H.pause(f)
		if f.Mode == "error" {
			err = ErrInjected
		}
	}
	return err
}

func (s *store) Unmap(bd []api.UnmapBlockDescriptor) error {
	var rs []Range
	for _, b := range bd {
		rs = append(rs, Range{b.Offset, uint64(b.TL)})
	}
	seq, idx := H.begin(s.m.name, "unmap", 0, int64(len(bd)), "", rs)
	var err error
	defer func() { H.end(seq, idx, err) }()
	if f := H.fault(s.m.name, "unmap", 0, 0); f != nil {
		H.pause(f)
		if f.Mode == "error" {
			err = ErrInjected
		}
	}
	return err
}

// RemoteStore adapts a medium to the RemoteBackingStore interface library users implement.
type RemoteStore struct{ M *Medium }

func (r *RemoteStore) ReadAt(p []byte, off int64) (int, error) {
	b, err := r.M.Read(off, int64(len(p)), "read")
	copy(p, b)
	return len(b), err
}
func (r *RemoteStore) WriteAt(p []byte, off int64) (int, error) {
	if err := r.M.Write(p, off, "write"); err != nil {
		return 0, err
	}
	return len(p), nil
}
func (r *RemoteStore) Sync() (int, error) {
	if err := r.M.Sync(0, 1<<62, "sync"); err != nil {
		return -1, err
	}
	return 0, nil
}
func (r *RemoteStore) Unmap(off int64, n int64) (int, error) {
	seq, idx := H.begin(r.M.name, "unmap", off, n, "", nil)
	H.end(seq, idx, nil)
	return 0, nil
}

// ---- control operations

func (h *Hub) Events(since int64, clear bool) []Event {
	h.mu.Lock()
	defer h.mu.Unlock()
	var out []Event
	for _, e := range h.events {
		if e.Seq > since {
			out = append(out, e)
		}
	}
	if clear {
		h.events = nil
	}
	return out
}
func (h *Hub) Seq() int64 { h.mu.Lock(); defer h.mu.Unlock(); return h.seq }
func (h *Hub) SetDrop(b bool) {
	h.mu.Lock()
	h.drop = b
	h.mu.Unlock()
}
func (h *Hub) Counts() map[string]int64 {
	h.mu.Lock()
	defer h.mu.Unlock()
	o := map[string]int64{}
	for k, v := range h.counts {
		o[k] = v
	}
	return o
}
func (h *Hub) AddFault(f Fault) int {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.fid++
	f.ID = h.fid
	h.faults = append(h.faults, &f)
	return f.ID
}
func (h *Hub) ClearFaults() {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.faults = nil
}
func (h *Hub) FaultHits(id int) int {
	h.mu.Lock()
	defer h.mu.Unlock()
	for _, f := range h.faults {
		if f.ID == id {
			return f.hits
		}
	}
	return -1
}
func (h *Hub) Release(gate string) {
	h.mu.Lock()
	defer h.mu.Unlock()
	if ch := h.gates[gate]; ch != nil {
		close(ch)
	}
	ch := make(chan struct{})
	close(ch)
	h.gates[gate] = ch
}
func (h *Hub) ResetGate(gate string) {
	h.mu.Lock()
	defer h.mu.Unlock()
	delete(h.gates, gate)
	delete(h.atGate, gate)
}
func (h *Hub) AtGate(gate string) int { h.mu.Lock(); defer h.mu.Unlock(); return h.atGate[gate] }

func (m *Medium) Peek(off int64, n int) []byte {
	m.mu.Lock()
	defer m.mu.Unlock()
	b := make([]byte, n)
	m.copyOut(m.vol, off, b)
	return b
}
func (m *Medium) Poke(off int64, b []byte) {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.copyIn(m.vol, off, b)
}
func (m *Medium) PeekStable(off int64, n int) []byte {
	m.mu.Lock()
	defer m.mu.Unlock()
	b := make([]byte, n)
	m.copyOut(m.stable, off, b)
	return b
}

// Crash forgets everything not synchronised.
func (m *Medium) Crash() {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.vol = map[int64][]byte{}
	for k, b := range m.stable {
		m.vol[k] = append([]byte(nil), b...)
	}
}
func (m *Medium) SetSize(n int64) { m.mu.Lock(); m.size = n; m.mu.Unlock() }

// Pages lists the page numbers present (written at some time) in the volatile image.
func (m *Medium) Pages() []int64 {
	m.mu.Lock()
	defer m.mu.Unlock()
	var o []int64
	for k := range m.vol {
		o = append(o, k)
	}
	return o
}

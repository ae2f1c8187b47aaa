package mon

import (
	"io"
	"strconv"
	"strings"
	"time"

	"github.com/gostor/gotgt/pkg/api"
	"github.com/gostor/gotgt/pkg/scsi"
)

// The lag store keeps a small medium in memory and takes its time. It has no locks: a lock here would order the target's
// goroutines and hide races between them from the race detector.
type lagStore struct {
	mem   []byte
	delay time.Duration
	turn  uint32
}

func init() {
	scsi.RegisterBackingStore("lag", func() (api.BackingStore, error) { return &lagStore{}, nil })
}

// Open: path is <size>:<longest delay in microseconds>
func (s *lagStore) Open(dev *api.SCSILu, path string) error {
	p := strings.Split(path, ":")
	n, err := strconv.Atoi(p[0])
	if err != nil {
		return err
	}
	us, _ := strconv.Atoi(p[1])
	s.mem, s.delay = make([]byte, n), time.Duration(us)*time.Microsecond
	return nil
}
func (s *lagStore) Close(dev *api.SCSILu) error             { return nil }
func (s *lagStore) Init(dev *api.SCSILu, opts string) error { return nil }
func (s *lagStore) Exit(dev *api.SCSILu) error              { return nil }
func (s *lagStore) Size(dev *api.SCSILu) uint64             { return uint64(len(s.mem)) }

//go:norace
func (s *lagStore) wait() {
	if s.delay == 0 {
		return
	}
	s.turn = s.turn*1664525 + 1013904223
	time.Sleep(s.delay * time.Duration(s.turn>>24) / 256)
}

//go:norace
func lagCopy(dst, src []byte) {
	for i := range src {
		dst[i] = src[i]
	}
}

func (s *lagStore) Read(off, tl int64) ([]byte, error) {
	s.wait()
	if off < 0 || tl < 0 || off+tl > int64(len(s.mem)) {
		return nil, io.EOF
	}
	tmp := make([]byte, tl)
	lagCopy(tmp, s.mem[off:off+tl])
	return append([]byte(nil), tmp...), nil // an access the race detector sees
}
func (s *lagStore) Write(b []byte, off int64) error {
	tmp := append([]byte(nil), b...) // an access the race detector sees, before and after the delay
	s.wait()
	tmp = append(tmp[:0], b...)
	if off < 0 || off+int64(len(b)) > int64(len(s.mem)) {
		return io.EOF
	}
	lagCopy(s.mem[off:], tmp)
	return nil
}
func (s *lagStore) DataSync(off, tl int64) error              { s.wait(); return nil }
func (s *lagStore) DataAdvise(off, n int64, adv uint32) error { return nil }
func (s *lagStore) Unmap(bd []api.UnmapBlockDescriptor) error {
	for range bd {
		s.wait()
	}
	return nil
}

id = "c18-reread-unlocked"
property = "C18"
lang = "go"
flags = ["-race"]
edits = [("pkg/scsi/target.go", "func (s *SCSITargetService) RereadTargetLUNMap() {\n	s.mutex.Lock()\n	defer s.mutex.Unlock()\n\n", "func (s *SCSITargetService) RereadTargetLUNMap() {\n")]
needs = "the LUN maps being read again while a target is created"
breaks = "the list of targets is read without its lock"
demo = """package main

import (
	"fmt"
	"sync"
	"time"

	"github.com/gostor/gotgt/pkg/config"
)

func main() {
	s := serve(1 << 20)
	s.run()
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		for i := 0; i < 40; i++ {
			n := fmt.Sprintf("iqn.2020-01.demo:x%d", i)
			s.drv.NewTarget(n, &config.Config{ISCSIPortals: s.cfg.ISCSIPortals, ISCSITargets: map[string]config.ISCSITarget{n: {TPGTs: map[string][]uint64{"1": {0}}}}})
			time.Sleep(time.Millisecond)
		}
	}()
	go func() {
		defer wg.Done()
		for i := 0; i < 400; i++ {
			s.drv.RereadTargetLUNMap()
			time.Sleep(100 * time.Microsecond)
		}
	}()
	wg.Wait()
}
"""

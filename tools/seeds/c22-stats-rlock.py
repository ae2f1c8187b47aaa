id = "c22-stats-rlock"
property = "C22"
lang = "go"
flags = ["-race"]
edits = [("pkg/port/iscsit/iscsid.go", "	s.mu.Lock()\n	s.TargetStats.IsClientConnected = s.isClientConnected\n", "	s.mu.RLock()\n	s.TargetStats.IsClientConnected = s.isClientConnected\n"),
         ("pkg/port/iscsit/iscsid.go", "	s.TargetStats.SCSIIOCount[(int)(conn.resp.SCSIOpCode)] += 1\n	s.mu.Unlock()\n", "	s.TargetStats.SCSIIOCount[(int)(conn.resp.SCSIOpCode)] += 1\n	s.mu.RUnlock()\n")]
needs = "commands of several connections ending at the same time"
breaks = "the counters are changed under the reader's lock: counts are lost, or the process ends with concurrent map writes"
demo = """package main

import (
	"fmt"
	"sync"

	"github.com/gostor/gotgt/pkg/port/iscsit"
)

func main() {
	iscsit.EnableStats = true
	s := serve(1 << 20)
	s.run()
	var wg sync.WaitGroup
	for w := 0; w < 8; w++ {
		c := s.dial(fmt.Sprintf("iqn.2020-01.demo:i%d", w), 1)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 300; i++ {
				c.cmd(0, rw(0x28, 0, 1, 0), 512, nil)
			}
		}()
	}
	wg.Wait()
	check(s.drv.Stats().ReadIOPS == 2400, "counted %d of 2400 reads", s.drv.Stats().ReadIOPS)
}
"""

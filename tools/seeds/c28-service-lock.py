id = "c28-service-lock"
property = "C28"
lang = "go"
edits = [("pkg/scsi/scsi.go", "			target = t\n			break\n		}\n	}\n	s.mutex.RUnlock()\n	if target == nil {\n		return fmt.Errorf(\"Cannot find the target with ID(%d)\", tid)",
          "			target = t\n			break\n		}\n	}\n	defer s.mutex.RUnlock()\n	if target == nil {\n		return fmt.Errorf(\"Cannot find the target with ID(%d)\", tid)")]
needs = "a store call that takes long, and meanwhile a resize or a new target (and after it any command of anybody)"
breaks = "the list of targets stays locked while a command is in the store: management waits for it, and behind that every other command"
demo = """package main

import "time"

func main() {
	s := serve(1 << 20, 1 << 20)
	gate, in := make(chan bool), make(chan bool, 1)
	stores["d0"].Hook = func(kind string, off, n int64) error {
		if kind == "read" {
			in <- true
			<-gate
		}
		return nil
	}
	s.run()
	a, b := s.dial("iqn.2020-01.demo:a", 1), s.dial("iqn.2020-01.demo:b", 2)
	a.start(0, rw(0x28, 0, 1, 0), 512, nil)
	<-in
	done := make(chan bool, 2)
	go func() { s.drv.Resize(1 << 19); done <- true }()
	time.Sleep(300 * time.Millisecond)
	go func() { b.cmd(1, rw(0x28, 0, 1, 0), 512, nil); done <- true }()
	for i := 0; i < 2; i++ {
		select {
		case <-done:
		case <-time.After(6 * time.Second):
			check(false, "a read in the store of one LUN keeps a resize and a read of another LUN waiting")
		}
	}
	close(gate)
}
"""

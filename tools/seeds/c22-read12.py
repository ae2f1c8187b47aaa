id = "c22-shared-map"
property = "C22"
lang = "go"
edits = [("pkg/port/iscsit/iscsid.go", """	stats.SCSIIOCount = map[int]int64{}
	for key, value := range s.TargetStats.SCSIIOCount {
		stats.SCSIIOCount[key] = value
	}""", """	if len(stats.SCSIIOCount) == 0 {
		stats.SCSIIOCount = map[int]int64{}
	}""")]
needs = "a caller that keeps (or changes) what Stats returned while more commands run"
breaks = "the per-opcode counters handed out are the live ones: they go on counting, and a caller that changes them changes the target's"
demo = '''package main

import "github.com/gostor/gotgt/pkg/port/iscsit"

func main() {
	iscsit.EnableStats = true
	s := serve(1 << 20)
	s.run()
	c := s.dial("iqn.2020-01.demo:a", 1)
	for i := 0; i < 3; i++ {
		c.cmd(0, rw(0x28, 0, 1, 0), 512, nil)
	}
	a := s.drv.Stats()
	n := a.SCSIIOCount[0x28]
	for i := 0; i < 5; i++ {
		c.cmd(0, rw(0x28, 0, 1, 0), 512, nil)
	}
	check(a.SCSIIOCount[0x28] == n && n == 3, "the snapshot went from %d to %d", n, a.SCSIIOCount[0x28])
	a.SCSIIOCount[0x28] = 1000
	check(s.drv.Stats().SCSIIOCount[0x28] == 8, "counted %d of 8 reads", s.drv.Stats().SCSIIOCount[0x28])
}
'''

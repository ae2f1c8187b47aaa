id = "c19-tsih-once"
property = "C19"
lang = "go"
edits = [("pkg/port/iscsit/iscsid.go", "	TSIHPoolMutex          sync.Mutex\n", "	TSIHPoolMutex          sync.Mutex\n	lastTSIH               uint16\n"),
         ("pkg/port/iscsit/iscsid.go", "	for i = uint16(0); i < ISCSI_MAX_TSIH; i++ {\n", "	for i = s.lastTSIH + 1; i < ISCSI_MAX_TSIH; i++ {\n"),
         ("pkg/port/iscsit/iscsid.go", "			s.TSIHPool[i] = true\n			s.TSIHPoolMutex.Unlock()\n", "			s.TSIHPool[i] = true\n			s.lastTSIH = i\n			s.TSIHPoolMutex.Unlock()\n")]
needs = "more than 65534 sessions during the life of the daemon"
breaks = "the search for a free session handle continues where the last one ended and never starts over: after 65534 logins nobody gets in any more"
demo = """package main

import "os"

func main() {
	s := serve(1 << 20)
	s.run()
	os.Stderr.Close()
	for i := 0; i < 65700; i++ {
		c, err := s.try("iqn.2020-01.demo:a", byte(1+i%2), "")
		check(err == nil, "login %d: %v", i, err)
		c.Close()
	}
}
"""

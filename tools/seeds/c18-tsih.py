id = "c18-tsih-unlocked"
property = "C18"
lang = "go"
flags = ["-race"]
edits = [("pkg/port/iscsit/iscsid.go", """	s.TSIHPoolMutex.Lock()
	delete(s.TSIHPool, tsih)
	s.TSIHPoolMutex.Unlock()""", """	delete(s.TSIHPool, tsih)""")]
needs = "a session ending while another one begins"
breaks = "the pool of session handles is changed without its lock: concurrent map writes"
demo = '''package main

import (
	"fmt"
	"sync"
)

func main() {
	s := serve(1 << 20)
	s.run()
	var wg sync.WaitGroup
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for i := 0; i < 60; i++ {
				if c, err := s.try(fmt.Sprintf("iqn.2020-01.demo:i%d", w), 1, ""); err == nil {
					c.Close()
				}
			}
		}(w)
	}
	wg.Wait()
}
'''

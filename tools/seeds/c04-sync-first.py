id = "c04-fua-sync-before-write"
property = "C04"
lang = "go"
edits = [("pkg/scsi/backingstore.go", """		err = bs.Write(wbuf, int64(offset))
		if err != nil {""", """		if opcode == api.WRITE_12 && scb[1]&0x8 != 0 {
			// the sync is a barrier for what came before
			err = bs.DataSync(int64(offset), tl)
			scb[1] &^= 0x8
		}
		if err == nil {
			err = bs.Write(wbuf, int64(offset))
		}
		if err != nil {""")]
needs = "a WRITE(12) with FUA and a crash right after it"
breaks = "the synchronization happens before the write instead of after it"
demo = '''package main

func main() {
	s := serve(1 << 20)
	s.run()
	c := s.dial("iqn.2020-01.demo:a", 1)
	m := stores["d0"]
	last := ""
	m.Hook = func(k string, off, n int64) error { last = k; return nil }
	for _, op := range []byte{0x2a, 0xaa, 0x8a} {
		st, _, _ := c.cmd(0, rw(op, 40, 2, 8), 0, make([]byte, 1024))
		check(st == 0, "opcode %02x status %d", op, st)
		check(last == "sync", "opcode %02x with FUA: the last thing the store saw is a %s", op, last)
	}
}
'''

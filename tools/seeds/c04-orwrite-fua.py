id = "c04-orwrite-fua"
property = "C04"
lang = "go"
edits = [("pkg/scsi/backingstore.go", "		if ((opcode != api.WRITE_6) && (scb[1]&0x8 != 0)) || (pg.Data[0]&0x04 == 0) {", "		if ((opcode != api.WRITE_6 && opcode != api.ORWRITE_16) && (scb[1]&0x8 != 0)) || (pg.Data[0]&0x04 == 0) {")]
needs = "an ORWRITE(16) with FUA and a crash before anything else synchronizes"
breaks = "an ORWRITE with FUA is answered without the data being synchronized"
demo = '''package main

func main() {
	s := serve(1 << 20)
	s.run()
	c := s.dial("iqn.2020-01.demo:a", 1)
	d := make([]byte, 1024)
	for i := range d {
		d[i] = byte(i)
	}
	for _, op := range []byte{0x2a, 0xaa, 0x8a, 0x8b} {
		m := stores["d0"]
		m.Syncs = nil
		st, _, _ := c.cmd(0, rw(op, 40, 2, 8), 0, d)
		check(st == 0, "opcode %02x status %d", op, st)
		check(len(m.Syncs) > 0, "opcode %02x with FUA answered without a sync", op)
	}
}
'''

id = "c16-generation16"
property = "C16"
lang = "go"
edits = [("pkg/scsi/scsi_pr.go", "	LURes.PRGeneration++\n	return true", "	LURes.PRGeneration = uint32(uint16(LURes.PRGeneration + 1))\n	return true")]
needs = "65536 registrations on a LUN"
breaks = "PRGENERATION wraps after 16 bits, so a change of the registrations goes unnoticed"
demo = """package main

import (
	"encoding/binary"
	"os"
)

func main() {
	s := serve(1 << 20)
	s.run()
	os.Stderr.Close()
	c := s.dial("iqn.2020-01.demo:a", 1)
	p := make([]byte, 24)
	p[15] = 1
	for i := 0; i < 65600; i++ {
		st, _, _ := c.cmd(0, []byte{0x5f, 6, 0, 0, 0, 0, 0, 0, 24, 0}, 0, p)
		check(st == 0, "register %d: %x", i, st)
	}
	st, d, _ := c.cmd(0, []byte{0x5e, 0, 0, 0, 0, 0, 0, 0, 16, 0}, 16, nil)
	check(st == 0 && len(d) == 16, "read keys")
	check(binary.BigEndian.Uint32(d) == 65600, "generation %d after 65600 registrations", binary.BigEndian.Uint32(d))
}
"""

id = "c26-unmap-off32"
property = "C26"
lang = "go"
edits = [("pkg/scsi/sbc.go", "			Offset: lba << cmd.Device.BlockShift,", "			Offset: uint64(uint32(lba) << cmd.Device.BlockShift),")]
needs = "an UNMAP of blocks beyond the first 4 GiB of a unit"
breaks = "other blocks are discarded than those asked for"
demo = """package main

import "encoding/binary"

func main() {
	s := serve(5 << 30)
	var got []int64
	stores["d0"].Hook = func(kind string, off, n int64) error {
		if kind == "unmap" {
			got = append(got, off, n)
		}
		return nil
	}
	s.run()
	c := s.dial("iqn.2020-01.demo:a", 1)
	p := make([]byte, 24)
	p[1], p[3] = 22, 16
	binary.BigEndian.PutUint64(p[8:], 1<<23+5)
	binary.BigEndian.PutUint32(p[16:], 3)
	cdb := []byte{0x42, 0, 0, 0, 0, 0, 0, 0, 24, 0}
	st, _, _ := c.cmd(0, cdb, 0, p)
	check(st == 0, "UNMAP refused")
	check(len(got) == 2 && got[0] == (1<<23+5)*512 && got[1] == 3*512, "UNMAP of block 2^23+5 discards %v", got)
}
"""

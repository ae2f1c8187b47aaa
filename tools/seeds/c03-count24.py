id = "c03-count24"
property = "C03"
edits = [("pkg/scsi/scsi.go", "		cnt = binary.BigEndian.Uint32(scb[10:])", "		cnt = uint32(scb[11])<<16 | uint32(scb[12])<<8 | uint32(scb[13])")]
needs = "a 16 byte command of 2^24 blocks or more"
breaks = "the highest byte of the transfer length is dropped, so a command far beyond the end is carried out as a short one"
demo = """
s = Server([(1 << 20, 9)])
c = Conn(s)
st, d, sense, _, _ = c.cmd(0, r16(4, 0x01000001), read=512)
check(st == 2 and asc(sense) == 0x2100, "READ(16) of 2^24+1 blocks from a medium of 2048 ended with %02x %s" % (st, sense.hex()))
st, d, sense, _, _ = c.cmd(0, r16(4, 0x02000001, op=0x8a), write=b"x" * 512)
check(st == 2, "WRITE(16) of 2^25+1 blocks ended with %02x" % st)
check(open(s.files[0], "rb").read() == bytes(1 << 20), "the refused write wrote")
"""

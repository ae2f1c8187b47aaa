id = "c26-verify-trailing-zeros"
property = "C26"
edits = [("pkg/scsi/backingstore.go", "		if !bytes.Equal(wbuf, rbuf) {", "		if !bytes.HasPrefix(rbuf, bytes.TrimRight(wbuf, \"\\x00\")) {")]
needs = "a VERIFY with byte check whose data ends with zeros and differs from the medium only there"
breaks = "VERIFY compares nothing from the last nonzero byte of the data on"
demo = '''
s = Server([(1 << 20, 9)])
c = Conn(s)
d = os.urandom(1000) + bytes(range(24))
c.ok(0, w10(8, 2), write=d)
check(c.cmd(0, bytes([0x2f, 2]) + be(8, 4) + b"\\0" + be(2, 2) + b"\\0", write=d)[0] == 0, "equal data does not verify")
e = d[:1000] + bytes(24)
r = c.cmd(0, bytes([0x2f, 2]) + be(8, 4) + b"\\0" + be(2, 2) + b"\\0", write=e)
check(r[0] == 2 and key(r[2]) == 0xe, "different data verifies: %r" % (r[0],))
'''

id = "c01-write6-256"
property = "C01"
edits = [("pkg/scsi/scsi.go", "		if cnt == 0 {\n			cnt = 256", "		if cnt == 0 && opcode == api.READ_6 {\n			cnt = 256")]
needs = "a WRITE(6) with transfer length 0, which means 256 blocks"
breaks = "a WRITE(6) of 256 blocks answers GOOD and writes nothing"
demo = '''
s = Server([(1 << 20, 9)])
c = Conn(s)
d = os.urandom(256 * 512)
r = c.cmd(0, bytes([0x0a, 0, 0, 9, 0, 0]), write=d)
check(r[0] == 0, "WRITE(6) of 256 blocks refused")
check(c.ok(0, r10(9, 256), read=len(d)) == d, "WRITE(6) of 256 blocks did not write them")
'''

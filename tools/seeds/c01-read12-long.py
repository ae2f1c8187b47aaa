id = "c01-read12-long"
property = "C01"
edits = [("pkg/scsi/scsi.go", "		cnt = binary.BigEndian.Uint32(scb[6:])", "		cnt = uint32(binary.BigEndian.Uint16(scb[8:]))")]
needs = "a twelve byte READ, WRITE or VERIFY of 65536 blocks or more"
breaks = "the transfer length of twelve byte commands loses its upper half"
demo = '''
n = 65536 + 8
s = Server([(n * 512 + 4096, 9)])
c = Conn(s)
d = os.urandom(4096)
c.ok(0, w10(65536, 8), write=d)
r = c.cmd(0, r12(0, n), read=n * 512)
check(r[0] == 0 and len(r[1]) == n * 512 and r[1][-4096:] == d, "READ(12) of %d blocks returns %d bytes" % (n, len(r[1])))
'''

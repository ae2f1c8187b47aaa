id = "c05-short-read"
property = "C05"
edits = [("pkg/scsi/backingstore/common.go", """	if err != nil {
		return nil, err
	}
	if length != len(tmpbuf) {""", """	if err != nil && (err != io.EOF || length == 0) {
		return nil, err
	}
	if length > len(tmpbuf) {""")]
needs = "a file that became shorter than the LUN, and a read that starts before and ends behind its end"
breaks = "a read that hits the end of the file in its middle returns made-up zeros with GOOD instead of a medium error"
demo = '''
s = Server([(1 << 20, 9)])
c = Conn(s)
d = bytes([7]) * 8192
c.ok(0, w10(0, 16), write=d)
os.truncate(s.files[0], 4096)
r = c.cmd(0, r10(0, 16), read=8192)
check(r[0] == 2 and key(r[2]) in (3, 4), "read across the end of the shortened file answers %r" % (r[0],))
r = c.cmd(0, r10(0, 8), read=4096)
check(r[0] == 0 and r[1] == d[:4096], "read of what is left")
'''

id = "c27-isid-first-byte"
property = "C27"
edits = [("pkg/port/iscsit/cmd.go", "		m.ISID = uint64(ParseUint(data[8:14]))", "		m.ISID = uint64(ParseUint(data[8:14])) & 0x3fffffffffff")]
needs = "two sessions whose ISIDs differ only in the type bits"
breaks = "the session that was there first is taken for the same one and closed"
demo = '''
s = Server([(1 << 20, 9)])
class C(Conn):
    def send(self, b, d=b""):
        b = bytearray(b)
        if b[0] & 0x3f == 3: b[8] = self.typ
        Conn.send(self, b, d)
C.typ = 0x80
a = C(s)
a.ok(0, r10(0, 1), read=512)
C.typ = 0x40
b = C(s)
try:
    a.ok(0, r10(0, 1), read=512)
except (Closed, OSError):
    check(False, "the first session is gone")
b.ok(0, r10(0, 1), read=512)
'''

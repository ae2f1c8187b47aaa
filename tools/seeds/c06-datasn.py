id = "c06-datasn-byte"
property = "C06"
edits = [("pkg/port/iscsit/cmd.go", "	copy(buf[36:], util.MarshalUint32(m.DataSN))", "	copy(buf[36:], util.MarshalUint32(m.DataSN&0xff))")]
needs = "a read answered by more than 256 Data-In PDUs"
breaks = "DataSN starts again at 0 after 256 Data-In PDUs"
demo = '''
s = Server([(1 << 20, 9)])
c = Conn(s, keys=[("MaxRecvDataSegmentLength", "512")])
n = 300
t = c.start(0, r10(0, n), read=n * 512)
sn = 0
while True:
    h, _ = c.recv()
    check(h[0] == 0x25 or h[0] == 0x21, "PDU %02x" % h[0])
    if h[0] == 0x25:
        check(int.from_bytes(h[36:40], "big") == sn, "DataSN %d instead of %d" % (int.from_bytes(h[36:40], "big"), sn)); sn += 1
    if h[0] == 0x21 or h[1] & 1:
        break
check(sn == n, "%d Data-Ins" % sn)
'''

id = "c08-r2tsn-byte"
property = "C08"
edits = [("pkg/port/iscsit/cmd.go", "	buf.Write(util.MarshalUint64(uint64(m.R2TSN))[4:])", "	buf.Write(util.MarshalUint64(uint64(m.R2TSN & 0xff))[4:])")]
needs = "a write that needs more than 256 R2Ts (a small MaxBurstLength, or more than 64 MiB)"
breaks = "R2TSN starts again at 0 after 256 R2Ts"
demo = '''
s = Server([(1 << 20, 9)])
c = Conn(s, keys=[("MaxBurstLength", "512"), ("FirstBurstLength", "512"), ("ImmediateData", "No"), ("InitialR2T", "Yes"), ("MaxRecvDataSegmentLength", "65536")])
n = 300
d = os.urandom(n * 512)
t = c.start(0, w10(0, n), write=d, imm=0)
sn = 0
while True:
    h, _ = c.recv()
    if h[0] != 0x31:
        break
    check(int.from_bytes(h[36:40], "big") == sn, "R2TSN %d instead of %d" % (int.from_bytes(h[36:40], "big"), sn))
    off, k = int.from_bytes(h[40:44], "big"), int.from_bytes(h[44:48], "big")
    c.dataout(t, int.from_bytes(h[20:24], "big"), off, d[off:off + k]); sn += 1
check(h[0] == 0x21 and h[3] == 0, "status")
'''

id = "c08-remove-rest"
property = "C08"
edits = [("pkg/port/iscsit/session.go", "			*tq = append(old[:i], old[i+1:]...)", "			*tq = append(old[:0], old[i+1:]...)")]
needs = "several writes of a connection waiting for data, of which a later one gets all its data first"
breaks = "the writes that were waiting before it are forgotten and never answered"
demo = '''
s = Server([(1 << 20, 9)])
c = Conn(s)
d = os.urandom(3 * 4096)
t = [c.start(0, w10(8 * i, 8), write=d[4096 * i:4096 * i + 4096], imm=0) for i in range(3)]
r2t = {}
while len(r2t) < 3:
    h, _ = c.recv()
    check(h[0] == 0x31, "PDU %02x" % h[0])
    r2t[int.from_bytes(h[16:20], "big")] = int.from_bytes(h[20:24], "big")
c.s.settimeout(5)
for i in (2, 0, 1):
    c.dataout(t[i], r2t[t[i]], 0, d[4096 * i:4096 * i + 4096])
    try:
        r = c.finish(t[i])
        check(r[0] == 0, "write %d" % i)
    except OSError:
        check(False, "write %d is never answered" % i)
'''

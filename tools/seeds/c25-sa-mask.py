id = "c25-service-action-bit"
property = "C25"
edits = [("pkg/scsi/sbc.go", "		if sa.ServiceAction == action {", "		if sa.ServiceAction == action&0x0f {")]
needs = "an undefined service action of 10h or more"
breaks = "undefined service actions are taken for the one 10h lower: PERSISTENT RESERVE OUT 13h clears"
demo = '''
def out(c, sa, k, sk): return c.cmd(0, bytes([0x5f, sa, 0, 0, 0, 0, 0, 0, 24, 0]), write=be(k, 8) + be(sk, 8) + bytes(8))
s = Server([(1 << 20, 9)])
c = Conn(s)
check(out(c, 0, 0, 11)[0] == 0, "register")
r = out(c, 0x13, 11, 0)
check(r[0] == 2 and key(r[2]) == 5, "service action 13h answers %d" % r[0])
d = c.ok(0, bytes([0x5e, 0, 0, 0, 0, 0, 0, 0, 64, 0]), read=64)
check(d[8:16] == be(11, 8), "service action 13h removed the key")
'''

id = "c16-key-low"
property = "C16"
edits = [("pkg/scsi/scsi_pr.go", "		if tmpRes.Key == key {", "		if uint32(tmpRes.Key) == uint32(key) {")]
needs = "a PREEMPT with a key that nobody has registered, but which agrees with a registered one in the low 32 bits"
breaks = "the PREEMPT is answered GOOD instead of RESERVATION CONFLICT, and takes nothing away"
demo = '''
def out(c, sa, typ, k, sk): return c.cmd(0, bytes([0x5f, sa, typ, 0, 0, 0, 0, 0, 24, 0]), write=be(k, 8) + be(sk, 8) + bytes(8))[0]
s = Server([(1 << 20, 9)])
a, b = [Conn(s, name="iqn.2020-01.demo:i%d" % i, isid=i) for i in range(2)]
check(out(a, 0, 0, 0, 11) == 0 and out(b, 0, 0, 0, (1 << 32) + 22) == 0, "register")
check(out(a, 1, 1, 11, 0) == 0, "reserve")
check(out(a, 4, 1, 11, 22) == 0x18, "preempting a key that is not registered succeeds")
check(out(a, 4, 1, 11, (1 << 32) + 22) == 0, "preempting a registered key fails")
'''

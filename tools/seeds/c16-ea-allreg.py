id = "c16-ea-allreg-release"
property = "C16"
edits = [("pkg/scsi/scsi_pr.go", """	if (curRes.Type != PR_TYPE_WRITE_EXCLUSIVE_ALLREG &&
		curRes.Type != PR_TYPE_EXCLUSIVE_ACCESS_ALLREG) ||
		len(resArray) == 0 {""", """	if curRes.Type != PR_TYPE_WRITE_EXCLUSIVE_ALLREG ||
		len(resArray) == 0 {""")]
needs = "an exclusive access, all registrants reservation of two registrants, of which one unregisters"
breaks = "the reservation is lost with the first registrant that goes, so unregistered initiators get access"
demo = '''
def out(c, sa, typ, k, sk): return c.cmd(0, bytes([0x5f, sa, typ, 0, 0, 0, 0, 0, 24, 0]), write=be(k, 8) + be(sk, 8) + bytes(8))[0]
s = Server([(1 << 20, 9)])
a, b, x = [Conn(s, name="iqn.2020-01.demo:i%d" % i, isid=i) for i in range(3)]
check(out(a, 0, 0, 0, 11) == 0 and out(b, 0, 0, 0, 22) == 0, "register")
check(out(a, 1, 8, 11, 0) == 0, "reserve")
check(x.cmd(0, r10(0, 1), read=512)[0] == 0x18, "not reserved")
check(out(a, 0, 0, 11, 0) == 0, "unregister")
check(x.cmd(0, r10(0, 1), read=512)[0] == 0x18, "the reservation is gone though a registrant is left")
check(b.cmd(0, r10(0, 1), read=512)[0] == 0, "the registrant has no access")
'''

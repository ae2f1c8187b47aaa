id = "c17-verify12"
property = "C17"
edits = [("pkg/scsi/sbc.go", "	sbc.SCSIDeviceOps[api.VERIFY_12] = NewSCSIDeviceOperation(SBCVerify, nil, PR_EA_FA|PR_EA_FN)", "	sbc.SCSIDeviceOps[api.VERIFY_12] = NewSCSIDeviceOperation(SBCVerify, nil, 0)")]
needs = "a VERIFY(12) of another initiator while the LUN is reserved"
breaks = "that command is carried out against the reservation"
demo = """
s = Server([(1 << 20, 9)])
a = Conn(s, name="iqn.2020-01.demo:a", isid=1)
b = Conn(s, name="iqn.2020-01.demo:b", isid=2)
a.ok(0, bytes([0x16, 0, 0, 0, 0, 0]))
for cdb in (r10(0, 1), ):
    check(b.cmd(0, cdb, read=512)[0] == 0x18, "read goes through")
for op in (0xaf,):
    check(b.cmd(0, r12(0, 1, op=op))[0] == 0x18, "VERIFY(12) goes through")
    check(b.cmd(0, r12(0, 1, op=op, fl=2), write=bytes(512))[0] == 0x18, "VERIFY(12) with data goes through")
    a.ok(0, r12(0, 1, op=op))
a.ok(0, bytes([0x17, 0, 0, 0, 0, 0]))
b.ok(0, r12(0, 1, op=0xaf))
"""

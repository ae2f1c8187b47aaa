id = "c12-serial-cut"
property = "C12"
edits = [("pkg/scsi/spc.go", '	copy(scsisn, []byte(fmt.Sprintf("gotgt-%-36v", cmd.Device.UUID)))', '	copy(scsisn, []byte(fmt.Sprintf("gotgt-%-36v", uint32(cmd.Device.UUID))))')]
needs = "two devices whose ids agree in the low 32 bits"
breaks = "both have the same unit serial number"
demo = """
import os
fs = []
for i in range(2):
    f = TMP + "/d%d" % i; open(f, "wb").truncate(1 << 20); fs.append(f)
p = port(); T = "iqn.2020-01.demo:t"
s = Server(cfg={"storages": [{"deviceID": 5, "path": "file:" + fs[0], "online": True, "blockShift": 9}, {"deviceID": 5 + (1 << 32), "path": "file:" + fs[1], "online": True, "blockShift": 9}],
    "iscsiportals": [{"id": 0, "portal": "127.0.0.1:%d" % p}], "iscsitargets": {T: {"tpgts": {"1": [0]}, "luns": {"0": 5, "1": 5 + (1 << 32)}}}}, tcp=p)
c = Conn(s)
a, b = [c.ok(l, bytes([0x12, 1, 0x80, 0, 255, 0]), read=255) for l in (0, 1)]
check(a != b, "two devices with the serial number %r" % a)
"""

id = "c11-tag-byte"
property = "C11"
edits = [("pkg/port/iscsit/iscsid.go", "		tgt.TPGTs[uint16(tpgtNumber)] = &iSCSITPGT{uint16(tpgtNumber), make(map[string]struct{})}", "		tgt.TPGTs[uint16(uint8(tpgtNumber))] = &iSCSITPGT{uint16(tpgtNumber), make(map[string]struct{})}")]
needs = "a portal group tag above 255"
breaks = "the portals of such a group are lost from discovery, and nobody can log in through them"
demo = """
p = port()
T = "iqn.2020-01.demo:t"
f = TMP + "/d"; open(f, "wb").truncate(1 << 20)
s = Server(cfg={"storages": [{"deviceID": 1, "path": "file:" + f, "online": True, "blockShift": 9}],
    "iscsiportals": [{"id": 0, "portal": "127.0.0.1:%d" % p}, {"id": 1, "portal": "127.0.0.2:%d" % p}],
    "iscsitargets": {T: {"tpgts": {"1": [0], "258": [1]}, "luns": {"0": 1}}}}, tcp=p)
c = Conn(s, discovery=True)
d = c.text([("SendTargets", "All")])
check(sorted(d) == sorted(["TargetName=" + T, "TargetAddress=127.0.0.1:%d,1" % p, "TargetAddress=127.0.0.2:%d,258" % p]), "discovery: %s" % d)
"""

id = "c12-tid-byte"
property = "C12"
edits = [("pkg/scsi/scsi.go", "		if t.TID == tid {\n			target = t\n			break", "		if uint8(t.TID) == uint8(tid) {\n			target = t\n			break")]
needs = "a daemon with more than 256 targets"
breaks = "commands to some targets are performed on the LUNs of another target"
demo = '''
p, N = port(), 260
d = tempfile.mkdtemp(dir=TMP)
cfg = {"storages": [], "iscsiportals": [{"id": 0, "portal": "127.0.0.1:%d" % p}], "iscsitargets": {}}
for i in range(N):
    with open("%s/d%d" % (d, i), "wb") as h: h.write(be(i, 4) + bytes(8188))
    cfg["storages"].append({"deviceID": 1 + i, "path": "file:%s/d%d" % (d, i), "online": True, "blockShift": 9})
    cfg["iscsitargets"]["iqn.2020-01.demo:t%d" % i] = {"tpgts": {"1": [0]}, "luns": {"0": 1 + i}}
s = Server(cfg=cfg, tcp=p)
for i in range(N):
    c = Conn(s, target="iqn.2020-01.demo:t%d" % i)
    check(c.ok(0, r10(0, 1), read=512)[:4] == be(i, 4), "target %d serves other data" % i)
    c.logout()
'''

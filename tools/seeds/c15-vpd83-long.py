id = "c15-vpd83-long"
property = "C15"
edits = [("pkg/scsi/spc.go", """	buf.WriteByte(0x83)
	//PAGE LENGTH
	binary.Write(buf, binary.BigEndian, pageLength)""", """	buf.WriteByte(0x83)
	//PAGE LENGTH
	buf.Write([]byte{0, byte(pageLength)})""")]
needs = "a target name so long that the device identification page exceeds 255 bytes"
breaks = "the page length of VPD page 83h is cut to its low byte"
demo = '''
t = "iqn.2020-01.demo:" + "x" * 150
p = port()
d = tempfile.mkdtemp(dir=TMP); open(d + "/f", "wb").truncate(1 << 20)
s = Server(cfg={"storages": [{"deviceID": 1, "path": "file:" + d + "/f", "online": True}], "iscsiportals": [{"id": 0, "portal": "127.0.0.1:%d" % p}],
                "iscsitargets": {t: {"tpgts": {"1": [0]}, "luns": {"0": 1}}}}, tcp=p)
c = Conn(s, target=t)
r = c.ok(0, bytes([0x12, 1, 0x83, 4, 0, 0]), read=1024)
check(int.from_bytes(r[2:4], "big") == len(r) - 4, "page length %d of %d bytes" % (int.from_bytes(r[2:4], "big"), len(r)))
'''

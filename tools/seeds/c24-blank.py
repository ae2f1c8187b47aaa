id = "c24-blank"
property = "C24"
edits = [("pkg/scsi/lun.go", '	backendPath := pathinfo[1]', '	backendPath := strings.TrimSpace(pathinfo[1])')]
needs = "a storage whose path ends with a blank, while another file has the name without it"
breaks = "the LUN serves another file than the one configured"
demo = '''from mini import *
d = TMP + "/disks"
os.mkdir(d)
open(d + "/disk", "wb").write(b"A" * 65536)
open(d + "/disk ", "wb").write(b"B" * 65536)
p = port()
t = "iqn.2020-01.demo:t"
s = Server(cfg={"storages": [{"deviceID": 1, "path": "file:" + d + "/disk ", "online": True, "blockShift": 9}],
    "iscsiportals": [{"id": 0, "portal": "127.0.0.1:%d" % p}], "iscsitargets": {t: {"tpgts": {"1": [0]}, "luns": {"0": 1}}}}, tcp=p)
c = Conn(s)
r = c.ok(0, r10(0, 1), read=512)
check(r == b"B" * 512, "LUN 0 holds %r" % r[:4])
'''

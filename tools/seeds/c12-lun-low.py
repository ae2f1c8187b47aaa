id = "c12-lun-low-byte"
property = "C12"
edits = [("pkg/scsi/scsi.go", "	lun := *(*uint64)(unsafe.Pointer(&scmd.Lun))", "	lun := *(*uint64)(unsafe.Pointer(&scmd.Lun)) & 0xff")]
needs = "a command for a LUN above 255"
breaks = "LUN 256+n is served by LUN n's storage"
demo = '''
s = Server([(1 << 20, 9), (1 << 20, 9)])
c = Conn(s)
c.ok(1, w10(0, 1), write=bytes([1]) * 512)
raw = bytes([0x40 | 1, 1]) + bytes(6)
try:
    t = c.start(0, w10(0, 1), write=bytes([2]) * 512, rawlun=raw)
    r = c.finish(t, bytes([2]) * 512)
    check(r[0] == 2, "write to LUN 257 answers %d" % r[0])
except Closed:
    c = Conn(s)
check(c.ok(1, r10(0, 1), read=512) == bytes([1]) * 512, "LUN 257 is LUN 1")
'''

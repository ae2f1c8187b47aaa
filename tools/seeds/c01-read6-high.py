id = "c01-lba6-high"
property = "C01"
edits = [("pkg/scsi/scsi.go", "off = uint64((scb[1]&0x1f))<<16", "off = uint64((scb[1]&0x0f))<<16")]
needs = "a READ(6)/WRITE(6) with an LBA of 2^20 or more, on a medium that large"
breaks = "the top bit of the 21-bit LBA of the six byte commands is lost, so they alias blocks one half lower"
demo = '''
s = Server([((1 << 20) * 512 + 512 * 64, 9)])
c = Conn(s)
a, b = os.urandom(512), os.urandom(512)
c.ok(0, w10(5, 1), write=a)
c.ok(0, w10((1 << 20) + 5, 1), write=b)
check(c.ok(0, bytes([8, 0x10, 0, 5, 1, 0]), read=512) == b, "READ(6) of block 0x100005 returns other data")
'''

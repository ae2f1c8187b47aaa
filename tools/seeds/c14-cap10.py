id = "c14-cap10-half"
property = "C14"
edits = [("pkg/scsi/sbc.go", "	if size>>32 != 0 {\n		copy(data, util.MarshalUint32(uint32(0xffffffff)))", "	if size>>31 != 0 {\n		copy(data, util.MarshalUint32(uint32(0xffffffff)))")]
needs = "a medium of 2^31 to 2^32-1 blocks"
breaks = "READ CAPACITY(10) saturates at half of what it can express, so it disagrees with READ CAPACITY(16) and the I/O limit"
demo = '''
n = (1 << 31) + 24
s = Server([(n * 512, 9)])
c = Conn(s)
d = c.ok(0, bytes([0x25] + [0] * 9), read=8)
check(int.from_bytes(d[:4], "big") == n - 1, "last LBA %s" % d.hex())
check(int.from_bytes(c.ok(0, bytes([0x9e, 0x10] + [0] * 8) + be(32, 4) + b"\\0\\0", read=32)[:8], "big") == n - 1, "long form")
'''

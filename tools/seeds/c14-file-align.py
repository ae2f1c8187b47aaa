id = "c14-file-align"
property = "C14"
edits = [("pkg/scsi/backingstore/common.go", "			bs.DataSize = uint64(finfo.Size())", "			// whole pages only\n			bs.DataSize = uint64(finfo.Size()) &^ 4095")]
needs = "a file whose size is a multiple of the block size but not of 4096"
breaks = "the last blocks of the file are not part of the LUN: the capacity is less than the store's"
demo = """
n = (1 << 20) + 5 * 512
s = Server([(n, 9)])
c = Conn(s)
d = c.ok(0, bytes([0x25] + [0] * 9), read=8)
check(int.from_bytes(d[:4], "big") == n // 512 - 1, "last LBA %s" % d.hex())
check(c.ok(0, r10(n // 512 - 1, 1), read=512) == bytes(512), "last block")
"""

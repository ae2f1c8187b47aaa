id = "c02-file-buffer"
property = "C02"
edits = [("pkg/scsi/backingstore/common.go", "	file *os.File\n}", "	file *os.File\n	rbuf []byte\n}"),
         ("pkg/scsi/backingstore/common.go", "	tmpbuf := make([]byte, tl)\n", "	if int64(cap(bs.rbuf)) < tl {\n		bs.rbuf = make([]byte, tl)\n	}\n	tmpbuf := bs.rbuf[:tl]\n")]
needs = "two sessions reading a file store at the same time"
breaks = "the read buffer of a file store is kept for reuse, so a read that overtakes another one replaces its data before they are sent"
demo = """
import threading
s = Server([(8 << 20, 9)])
n = 1024
with open(s.files[0], "r+b") as f:
    for i in range(8):
        f.seek(i * n * 512); f.write(bytes([0x11 * (i + 1)]) * (n * 512))
bad = []
def run(i):
    c = Conn(s, isid=i + 1)
    for k in range(60):
        d = c.ok(0, r10(i * n, n), read=n * 512)
        if d != bytes([0x11 * (i + 1)]) * (n * 512):
            bad.append(i); return
ts = [threading.Thread(target=run, args=(i,)) for i in range(8)]
for t in ts: t.start()
for t in ts: t.join()
check(not bad, "sessions %s read data of others" % bad)
"""

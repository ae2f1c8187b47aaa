id = "c29-behind"
property = "C29"
F = "pkg/scsi/backingstore/common.go"
edits = [(F, "	length, err := bs.file.WriteAt(wbuf, offset)\n	if err != nil {\n		log.Error(err)\n		return err\n	}\n	if length != len(wbuf) {\n		return fmt.Errorf(\"write is not same length of length\")\n	}\n	return nil\n",
"	bs.mu.Lock()\n	defer bs.mu.Unlock()\n	// small sequential writes are gathered into one\n	if bs.held != nil && offset == bs.at+int64(len(bs.held)) && len(bs.held)+len(wbuf) <= 16384 {\n		bs.held = append(bs.held, wbuf...)\n		return nil\n	}\n	if err := bs.flush(); err != nil {\n		log.Error(err)\n		return err\n	}\n	if len(wbuf) <= 4096 {\n		bs.held, bs.at = append([]byte(nil), wbuf...), offset\n		return nil\n	}\n	_, err := bs.file.WriteAt(wbuf, offset)\n	return err\n"),
 (F, "	length, err := bs.file.ReadAt(tmpbuf, offset)\n", "	bs.mu.Lock()\n	defer bs.mu.Unlock()\n	if err := bs.flush(); err != nil {\n		return nil, err\n	}\n	length, err := bs.file.ReadAt(tmpbuf, offset)\n"),
 (F, "	return util.Fdatasync(bs.file)", "	bs.mu.Lock()\n	defer bs.mu.Unlock()\n	if err := bs.flush(); err != nil {\n		return err\n	}\n	return util.Fdatasync(bs.file)"),
 (F, "	return bs.file.Close()", "	bs.mu.Lock()\n	defer bs.mu.Unlock()\n	bs.flush()\n	return bs.file.Close()"),
 (F, "	file *os.File\n}", "	file *os.File\n	mu   sync.Mutex\n	held []byte\n	at   int64\n}\n\nfunc (bs *FileBackingStore) flush() error {\n	h := bs.held\n	bs.held = nil\n	if h == nil {\n		return nil\n	}\n	_, err := bs.file.WriteAt(h, bs.at)\n	return err\n}"),
 (F, '	"os"\n', '	"os"\n	"sync"\n')]
needs = "the daemon is ended (or killed) after a small write was answered and before anything else reached the store"
breaks = "the write that was answered is gone when the daemon is up again"
demo = '''import signal
from mini import *
s = Server()
c = Conn(s)
c.ok(0, w10(0, 64), write=b"a" * 64 * 512)
c.ok(0, w10(5, 1), write=b"b" * 512)
s.p.send_signal(signal.SIGTERM)
s.p.wait(20)
d = open(s.files[0], "rb").read()
check(d[5 * 512:6 * 512] == b"b" * 512 and d[:5 * 512] == b"a" * 5 * 512, "an answered write is not in the file")
'''

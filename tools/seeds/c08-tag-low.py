id = "c08-tag-low"
property = "C08"
edits = [("pkg/port/iscsit/session.go", "func (tq taskQueue) GetByTag(tag uint32) *iscsiTask {\n	for _, t := range tq {\n		if t.tag == tag {", "func (tq taskQueue) GetByTag(tag uint32) *iscsiTask {\n	for _, t := range tq {\n		if uint16(t.tag) == uint16(tag) {")]
needs = "two commands outstanding whose task tags agree in the low 16 bits"
breaks = "the data of one write are taken for another one"
demo = """
s = Server([(1 << 20, 9)])
c = Conn(s, keys=[("InitialR2T", "Yes"), ("ImmediateData", "No")])
a = c.start(0, w10(10, 8), write=b"A" * 4096, imm=0, itt=0x00010007)
h, _ = c.recv(); check(h[0] == 0x31, "R2T")
b = c.start(0, w10(100, 8), write=b"B" * 4096, imm=0, itt=0x00020007)
h, _ = c.recv(); check(h[0] == 0x31 and h[16:20] == b"\\0\\2\\0\\7", "the second write is not asked for its data: opcode %02x" % h[0])
c.dataout(b, int.from_bytes(h[20:24], "big"), 0, b"B" * 4096)
h, _ = c.recv()
check(h[0] == 0x21 and h[16:20] == b"\\0\\2\\0\\7" and h[3] == 0, "answer %s" % h.hex())
c.dataout(a, 0, 0, b"A" * 4096)
h, _ = c.recv()
check(h[0] == 0x21 and h[16:20] == b"\\0\\1\\0\\7" and h[3] == 0, "answer %s" % h.hex())
f = open(s.files[0], "rb").read()
check(f[5120:9216] == b"A" * 4096 and f[51200:55296] == b"B" * 4096, "data at the wrong place")
"""

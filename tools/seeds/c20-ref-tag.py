id = "c20-ref-tag"
property = "C20"
edits = [("pkg/port/iscsit/cmd.go", "		m.ReferencedTaskTag = uint32(ParseUint(data[20:24]))\n		m.TaskFunc", "		m.ReferencedTaskTag = uint32(ParseUint(data[21:24]))\n		m.TaskFunc")]
needs = "an ABORT TASK for a command whose task tag uses its highest byte"
breaks = "the command is not found, so it is neither aborted nor is the answer right; with bad luck another one is aborted"
demo = """
s = Server([(1 << 20, 9)])
c = Conn(s, keys=[("InitialR2T", "Yes"), ("ImmediateData", "No")])
a = c.start(0, w10(10, 8), write=b"A" * 4096, imm=0, itt=0x00000007); h, _ = c.recv(); check(h[0] == 0x31, "R2T")
b = c.start(0, w10(100, 8), write=b"B" * 4096, imm=0, itt=0x55000007); h, _ = c.recv(); check(h[0] == 0x31, "R2T")
c.tmf(1, ref=0x55000007)
h, _ = c.recv()
check(h[0] == 0x22 and h[2] == 0, "ABORT TASK of an outstanding command answered %02x %02x" % (h[0], h[2]))
c.dataout(b, 0, 0, b"B" * 4096)
c.dataout(a, 0, 0, b"A" * 4096)
h, _ = c.recv()
check(h[0] == 0x21 and h[16:20] == b"\\0\\0\\0\\7" and h[3] == 0, "the other command: %s" % h.hex())
f = open(s.files[0], "rb").read()
check(f[5120:9216] == b"A" * 4096 and f[51200:55296] == bytes(4096), "wrong command aborted")
"""

id = "c07-window-max"
property = "C07"
edits = [("pkg/port/iscsit/conn.go", "		conn.resp.MaxCmdSN = conn.session.ExpCmdSN + conn.session.MaxQueueCommand",
  "		if max := conn.session.ExpCmdSN + conn.session.MaxQueueCommand; max > conn.session.MaxCmdSN {\n			conn.session.MaxCmdSN = max\n		}\n		conn.resp.MaxCmdSN = conn.session.MaxCmdSN")]
needs = "a session whose CmdSN wraps"
breaks = "MaxCmdSN only grows as a plain number, so after the wrap the command window the initiator sees stays closed"
demo = """
s = Server([(1 << 20, 9)])
c = Conn(s, login=False)
c.cmdsn = 0xffffff40
c.login([("InitiatorName", "iqn.2020-01.demo:init"), ("SessionType", "Normal"), ("TargetName", "iqn.2020-01.demo:t")])
for i in range(400):
    t = c.start(0, r10(1, 1), read=512)
    h, d = c.recv()
    while h[0] & 0x3f == 0x25 and not h[1] & 1:
        h, d = c.recv()
    e, m = int.from_bytes(h[28:32], "big"), int.from_bytes(h[32:36], "big")
    check(e == c.cmdsn, "ExpCmdSN %08x instead of %08x" % (e, c.cmdsn))
    check(((m - e) & 0xffffffff) < 0x80000000 and m != (e - 1) & 0xffffffff, "window closed: ExpCmdSN %08x MaxCmdSN %08x" % (e, m))
    check(((m - e) & 0xffffffff) <= 1024, "window too far: ExpCmdSN %08x MaxCmdSN %08x" % (e, m))
"""

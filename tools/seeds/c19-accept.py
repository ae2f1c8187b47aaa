id = "c19-accept"
property = "C19"
edits = [("pkg/port/iscsit/iscsid.go", "				if !err.Temporary() {\n", "				if !err.Timeout() {\n")]
needs = "more connections at once than the process may have descriptors"
breaks = "after that the target never accepts a connection again, although all of them are closed"
demo = '''import resource, socket, time
from mini import *
s = Server()
soft, hard = resource.prlimit(s.p.pid, resource.RLIMIT_NOFILE)
n = len(os.listdir("/proc/%d/fd" % s.p.pid)) + 20
resource.prlimit(s.p.pid, resource.RLIMIT_NOFILE, (n, hard))
l = []
for k in range(40):
    l.append(socket.create_connection(("127.0.0.1", s.port)))
time.sleep(1)
for c in l:
    c.close()
resource.prlimit(s.p.pid, resource.RLIMIT_NOFILE, (soft, hard))
for k in range(4):
    time.sleep(0.5)
    try:
        c = Conn(s)
        c.ok(0, bytes(6))
        break
    except (OSError, LoginError, Closed):
        pass
else:
    check(False, "no login is possible after a crowd of connections has gone")
'''

id = "c29-drain"
property = "C29"
edits = [("pkg/apiserver/apiserver.go", "	return s.l.Close()\n}", "	return s.srv.Shutdown(context.Background())\n}")]
needs = "a management request that is still in progress when the daemon is asked to end (a client that sends half of its body)"
breaks = "the daemon waits for that client and does not end"
demo = '''import signal, socket, subprocess, time
from mini import *
s = Server()
for half in (False, True):
    if half:
        h = socket.create_connection(("127.0.0.1", s.api))
        h.sendall(b"POST /target/create HTTP/1.1\\r\\nHost: x\\r\\nContent-Type: application/json\\r\\nContent-Length: 100\\r\\n\\r\\n{")
        time.sleep(1)
    s.p.send_signal(signal.SIGTERM)
    try:
        rc = s.p.wait(20)
    except subprocess.TimeoutExpired:
        check(False, "the daemon does not end")
    check(rc == 0, "status %d" % rc)
    if not half:
        s = Server()
'''

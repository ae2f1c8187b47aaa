id = "c21-client-4xx"
property = "C21"
edits = [("pkg/api/client/request.go", "	if serverResp.statusCode < 200 || serverResp.statusCode >= 400 {", "	if serverResp.statusCode < 200 || serverResp.statusCode >= 500 {")]
needs = "a daemon (or a proxy before it) that answers a request of the command line with a 4xx status"
breaks = "the command line takes the refusal for success"
demo = """
import http.server, threading
class H(http.server.BaseHTTPRequestHandler):
    code = 404
    def do(self):
        n = int(self.headers.get("Content-Length") or 0); self.rfile.read(n)
        b = b"no such target"
        self.send_response(H.code); self.send_header("Content-Length", str(len(b))); self.end_headers(); self.wfile.write(b)
    do_GET = do_POST = do_DELETE = do
    def log_message(self, *a): pass
srv = http.server.HTTPServer(("127.0.0.1", 0), H)
threading.Thread(target=srv.serve_forever, daemon=True).start()
bin = build()
for code in (400, 403, 404, 409, 499, 500, 501):
    H.code = code
    for args in (["rm", "target", "--name", "x"], ["create", "target", "--name", "x"]):
        r = subprocess.run([bin] + args + ["--host", "tcp://127.0.0.1:%d" % srv.server_port], capture_output=True, text=True, timeout=30)
        out = r.stdout + r.stderr
        check(r.returncode != 0 or "no such target" in out or "rror" in out, "%s answered %d is reported as done: %r" % (args, code, out))
"""

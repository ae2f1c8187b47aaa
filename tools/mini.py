"""A small iSCSI initiator and server launcher for the demonstrations. Run with cwd = the repository."""
import atexit, json, os, shutil, socket, struct, subprocess, sys, tempfile, time

TMP = tempfile.mkdtemp(prefix="demo")
PROCS = []

def _cleanup():
    for p in PROCS:
        try:
            p.kill(); p.wait()
        except Exception:
            pass
    shutil.rmtree(TMP, ignore_errors=True)
atexit.register(_cleanup)

def check(ok, msg):
    if not ok:
        print("DEMO FAILS:", msg); sys.stdout.flush()
        sys.exit(1)

def port():
    s = socket.socket(); s.bind(("127.0.0.1", 0)); p = s.getsockname()[1]; s.close()
    return p

def build():
    env = dict(os.environ, GOFLAGS="-mod=readonly", GOPROXY="off", GOTOOLCHAIN="local")
    out = TMP + "/gotgt"
    r = subprocess.run(["go", "build", "-o", out, "."], env=env, capture_output=True, text=True)
    if r.returncode:
        print(r.stderr); sys.exit(3)
    return out

BIN = None

class Server:
    """devs: list of (size, shift[, thin]); or cfg: a whole configuration with {port} filled in by the caller."""
    def __init__(self, devs=None, cfg=None, args=(), tcp=None, wait=True, path=None):
        global BIN
        if BIN is None:
            BIN = build()
        self.port = tcp or port()
        self.api = port()
        self.dir = tempfile.mkdtemp(dir=TMP)
        self.files = []
        if cfg is None:
            cfg = {"storages": [], "iscsiportals": [{"id": 0, "portal": "127.0.0.1:%d" % self.port}],
                   "iscsitargets": {"iqn.2020-01.demo:t": {"tpgts": {"1": [0]}, "luns": {}}}}
            for i, d in enumerate(devs or [(1 << 20, 9)]):
                f = self.dir + "/disk%d" % i
                with open(f, "wb") as h:
                    h.truncate(d[0])
                self.files.append(f)
                cfg["storages"].append({"deviceID": 1 + i, "path": (path or "file:%s") % f, "online": True, "blockShift": d[1], "thinProvisioning": len(d) > 2 and d[2]})
                cfg["iscsitargets"]["iqn.2020-01.demo:t"]["luns"][str(i)] = 1 + i
        self.cfg = cfg
        with open(self.dir + "/config.json", "w") as h:
            json.dump(cfg, h)
        self.err = open(self.dir + "/err", "w")
        self.p = subprocess.Popen([BIN, "daemon", "--log", "error", "--port", str(self.port), "--host", "tcp://127.0.0.1:%d" % self.api] + list(args),
                                  env=dict(os.environ, GOSTOR_CONFIG=self.dir), stdout=self.err, stderr=self.err, cwd=self.dir)
        PROCS.append(self.p)
        if wait:
            check(self.up(), "server does not come up: " + open(self.dir + "/err").read()[:500])
    def up(self, secs=15):
        t = time.time() + secs
        while time.time() < t:
            if self.p.poll() is not None:
                return False
            try:
                socket.create_connection(("127.0.0.1", self.port), 1).close()
                return True
            except OSError:
                time.sleep(0.05)
        return False
    def alive(self):
        return self.p.poll() is None

class LoginError(Exception):
    def __init__(self, cls, det):
        Exception.__init__(self, "login status %02x%02x" % (cls, det)); self.cls = cls; self.det = det
class Closed(Exception):
    pass

class Conn:
    def __init__(self, srv, target="iqn.2020-01.demo:t", name="iqn.2020-01.demo:init", isid=1, keys=None, discovery=False, login=True, src=None, cid=0):
        self.s = socket.create_connection(("127.0.0.1", srv.port), 20, source_address=(src, 0) if src else None)
        self.s.settimeout(20)
        self.itt = 0x10; self.cmdsn = 1; self.expstat = 0; self.keys = {}; self.isid = isid; self.cid = cid
        if login:
            kv = [("InitiatorName", name), ("SessionType", "Discovery" if discovery else "Normal")]
            if not discovery:
                kv.append(("TargetName", target))
            kv += keys if keys is not None else [("HeaderDigest", "None"), ("DataDigest", "None"), ("InitialR2T", "Yes"), ("ImmediateData", "Yes"), ("MaxRecvDataSegmentLength", "65536"), ("MaxBurstLength", "262144"), ("FirstBurstLength", "65536")]
            self.login(kv)
    def login(self, kv, csg=1, nsg=3, t=1):
        d = b"".join(("%s=%s\0" % x).encode() for x in kv)
        b = bytearray(48)
        b[0] = 0x43; b[1] = (0x80 if t else 0) | csg << 2 | (nsg if t else 0)
        b[5:8] = struct.pack(">I", len(d))[1:]
        b[8:14] = bytes([0x80, 0, 0, 0, 0, self.isid])
        b[16:20] = struct.pack(">I", 5); b[20:22] = struct.pack(">H", self.cid); b[24:28] = struct.pack(">I", self.cmdsn)
        self.send(b, d)
        h, d = self.recv()
        check(h[0] & 0x3f == 0x23, "login answered by opcode %02x" % h[0])
        if h[36]:
            raise LoginError(h[36], h[37])
        self.expstat = struct.unpack(">I", h[24:28])[0] + 1
        self.resp = h
        for x in d.split(b"\0"):
            if b"=" in x:
                k, v = x.decode().split("=", 1); self.keys[k] = v
        return h
    def send(self, b, d=b""):
        b = bytearray(b)
        b[5:8] = struct.pack(">I", len(d))[1:]
        self.s.sendall(bytes(b) + bytes(d) + b"\0" * (-len(d) % 4))
    def _n(self, n):
        r = b""
        while len(r) < n:
            x = self.s.recv(n - len(r))
            if not x:
                raise Closed()
            r += x
        return r
    def recv(self):
        h = self._n(48)
        n = struct.unpack(">I", b"\0" + h[5:8])[0]
        return h, self._n(n + (-n % 4))[:n]
    def header(self, op, flags, imm=False, itt=None, sn=None):
        b = bytearray(48)
        b[0] = op | (0x40 if imm else 0); b[1] = flags
        if itt is None:
            self.itt += 1; itt = self.itt
        b[16:20] = struct.pack(">I", itt)
        b[24:28] = struct.pack(">I", self.cmdsn if sn is None else sn)
        b[28:32] = struct.pack(">I", self.expstat)
        if not imm and sn is None:
            self.cmdsn = (self.cmdsn + 1) & 0xffffffff
        return b
    def start(self, lun, cdb, read=0, write=None, edtl=None, imm=None, itt=None, rawlun=None):
        """sends a command; returns its tag. write: data; imm: bytes of immediate data"""
        w = write is not None
        b = self.header(1, 0x80 | (0x40 if read else 0) | (0x20 if w else 0), itt=itt)
        b[8:16] = rawlun if rawlun is not None else struct.pack(">H", lun) + b"\0" * 6
        n = edtl if edtl is not None else (len(write) if w else read)
        b[20:24] = struct.pack(">I", n)
        b[32:48] = (bytes(cdb) + b"\0" * 16)[:16]
        d = b""
        if w:
            d = write[:65536 if imm is None else imm]
        self.send(b, d)
        return struct.unpack(">I", b[16:20])[0]
    def dataout(self, itt, ttt, off, d, sn=0, final=True, lun=0):
        b = bytearray(48)
        b[0] = 5; b[1] = 0x80 if final else 0
        b[8:10] = struct.pack(">H", lun)
        b[16:20] = struct.pack(">I", itt); b[20:24] = struct.pack(">I", ttt)
        b[28:32] = struct.pack(">I", self.expstat); b[36:40] = struct.pack(">I", sn); b[40:44] = struct.pack(">I", off)
        self.send(b, d)
    def finish(self, itt, write=b"", seg=65536):
        """collects the answer of one tag: (status, data, sense, flags, residual)"""
        data = b""
        while True:
            h, d = self.recv()
            op = h[0] & 0x3f
            t = struct.unpack(">I", h[16:20])[0]
            if op == 0x20 and t == 0xffffffff:
                continue
            check(t == itt, "PDU %02x for tag %x instead of %x" % (op, t, itt))
            if op == 0x25:
                check(struct.unpack(">I", h[40:44])[0] == len(data), "Data-In offset")
                data += d
                if h[1] & 1:
                    self.expstat = struct.unpack(">I", h[24:28])[0] + 1
                    return h[3], data, b"", h[1], struct.unpack(">I", h[44:48])[0]
            elif op == 0x31:
                ttt, off, n = struct.unpack(">I", h[20:24])[0], struct.unpack(">I", h[40:44])[0], struct.unpack(">I", h[44:48])[0]
                check(off + n <= len(write), "R2T beyond the data: %d+%d" % (off, n))
                p, sn = 0, 0
                while p < n:
                    k = min(seg, n - p)
                    self.dataout(itt, ttt, off + p, write[off + p:off + p + k], sn, p + k == n)
                    p += k; sn += 1
            elif op == 0x21:
                self.expstat = struct.unpack(">I", h[24:28])[0] + 1
                return h[3], data, d[2:], h[1], struct.unpack(">I", h[44:48])[0]
            else:
                check(False, "unexpected PDU %02x" % op)
    def cmd(self, lun, cdb, read=0, write=None, **k):
        t = self.start(lun, cdb, read, write, **k)
        return self.finish(t, write or b"")
    def ok(self, lun, cdb, read=0, write=None, **k):
        r = self.cmd(lun, cdb, read, write, **k)
        check(r[0] == 0, "command %s ended with status %02x sense %s" % (bytes(cdb).hex(), r[0], r[2].hex()))
        return r[1]
    def tmf(self, fn, ref=0xffffffff, lun=0):
        b = self.header(2, 0x80 | fn, imm=True)
        b[8:10] = struct.pack(">H", lun)
        b[20:24] = struct.pack(">I", ref)
        self.send(b)
        return struct.unpack(">I", b[16:20])[0]
    def text(self, kv, ttt=0xffffffff):
        b = self.header(4, 0x80)
        b[20:24] = struct.pack(">I", ttt)
        self.send(b, b"".join(("%s=%s\0" % x).encode() for x in kv))
        h, d = self.recv()
        check(h[0] & 0x3f == 0x24, "text answered by %02x" % h[0])
        self.expstat = struct.unpack(">I", h[24:28])[0] + 1
        return [x.decode() for x in d.split(b"\0") if x]
    def logout(self):
        self.send(self.header(6, 0x80, imm=True))
        h, d = self.recv()
        check(h[0] & 0x3f == 0x26 and h[2] == 0, "logout response")
    def close(self):
        self.s.close()

def be(n, w):
    return int(n).to_bytes(w, "big")
def r10(lba, n, fl=0): return bytes([0x28, fl]) + be(lba, 4) + b"\0" + be(n, 2) + b"\0"
def w10(lba, n, fl=0): return bytes([0x2a, fl]) + be(lba, 4) + b"\0" + be(n, 2) + b"\0"
def r16(lba, n, op=0x88, fl=0): return bytes([op, fl]) + be(lba, 8) + be(n, 4) + b"\0\0"
def r12(lba, n, op=0xa8, fl=0): return bytes([op, fl]) + be(lba, 4) + be(n, 4) + b"\0\0"
def key(s): return s[2] & 15 if len(s) > 2 and s[0] & 0x7f < 0x72 else -1
def asc(s): return s[12] << 8 | s[13] if len(s) > 13 else -1

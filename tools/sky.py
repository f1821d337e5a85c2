"""Drives a real skyd (built by /opt/vp/build.sh) in a scratch directory over loopback."""
import os, shutil, signal, socket, subprocess, sys, tempfile, time
BIN = os.environ.get("SKYD") or "/opt/vp/target/debug/skyd"
PW = b"passwordpassword"
class Server:
    def __init__(self, args=()):
        self.dir = tempfile.mkdtemp(prefix="skydemo")
        self.args, self.p = list(args), None
        self.start()
    def start(self):
        s = socket.socket(); s.bind(("127.0.0.1", 0)); self.port = s.getsockname()[1]; s.close()
        self.p = subprocess.Popen([BIN, "--mode", "dev", "--auth-root-password", PW.decode(), "--endpoint", "tcp@127.0.0.1:%d" % self.port] + self.args,
                                  cwd=self.dir, stdout=open(self.dir + "/log", "ab"), stderr=subprocess.STDOUT)
        for _ in range(300):
            if self.p.poll() is not None: raise Exception("server exited: " + open(self.dir + "/log", errors="replace").read()[-800:])
            try: socket.create_connection(("127.0.0.1", self.port)).close(); return
            except OSError: time.sleep(0.05)
        raise Exception("server did not come up")
    def stop(self):
        if self.p and self.p.poll() is None:
            self.p.send_signal(signal.SIGTERM)
            try: self.p.wait(30)
            except subprocess.TimeoutExpired: self.p.kill(); self.p.wait()
    def restart(self): self.stop(); self.start()
    def close(self):
        if self.p and self.p.poll() is None: self.p.kill(); self.p.wait()
        shutil.rmtree(self.dir, ignore_errors=True)
    def raw(self):
        s = socket.create_connection(("127.0.0.1", self.port)); s.settimeout(5); s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1); return s
    def connect(self, user=b"root", pw=PW):
        s = self.raw(); s.sendall(hello(user, pw)); r = recv(s, 4)
        if r != b"H\0\0\0": raise Refused(r)
        return Client(s)
class Refused(Exception): pass
def recv(s, n):
    b = b""
    while len(b) < n:
        try: x = s.recv(n - len(b))
        except (socket.timeout, ConnectionError): break
        if not x: break
        b += x
    return b
def hello(user, pw): return b"H\0\0\0\0\0" + b"%d\n%d\n" % (len(user), len(pw)) + user + pw
def frame(q, params=b""):
    body = b"%d\n" % len(q) + q + params
    return b"S%d\n" % len(body) + body
def param(v):
    if v is None: return b"\x00"
    if v is True or v is False: return b"\x01" + bytes([v])
    if isinstance(v, U): return b"\x02%d\n" % int(v)
    if isinstance(v, int): return b"\x03%d\n" % v
    if isinstance(v, float): return b"\x04" + repr(v).encode() + b"\n"
    if isinstance(v, bytes): return b"\x05%d\n" % len(v) + v
    return b"\x06%d\n" % len(v.encode()) + v.encode()
class U(int): pass
EMPTY = ("empty",)
class Client:
    def __init__(self, s): self.s = s; self.f = s.makefile("rb")
    def byte(self):
        b = self.f.read(1)
        if not b: raise Exception("connection closed by server")
        return b[0]
    def line(self): return self.f.readline()[:-1]
    def val(self):
        t = self.byte()
        if t == 0: return None
        if t == 1: return bool(self.byte())
        if 2 <= t <= 5: return U(self.line())
        if 6 <= t <= 9: return int(self.line())
        if t in (10, 11): return float(self.line())
        if t == 12: return self.f.read(int(self.line()))
        if t == 13: return self.f.read(int(self.line())).decode()
        if t == 14: return [self.val() for _ in range(int(self.line()))]
        raise Exception("unknown type byte %d" % t)
    def q(self, q, *ps):
        self.s.sendall(frame(q.encode() if isinstance(q, str) else q, b"".join(map(param, ps)))); return self.resp()
    def resp(self):
        t = self.byte()
        if t == 0x12: return EMPTY
        if t == 0x10: return ("error", int.from_bytes(self.f.read(2), "little"))
        if t == 0x11: return [self.val() for _ in range(int(self.line()))]
        if t == 0x13:
            r, c = int(self.line()), int(self.line())
            return [[self.val() for _ in range(c)] for _ in range(r)]
        if t == 0: return None
        if t == 1: return bool(self.byte())
        if t == 13: return self.f.read(int(self.line())).decode()
        raise Exception("unknown response %d" % t)
def run(f, args=()):
    """exit 0 if f(server) returns, 1 if it raises"""
    s = Server(args)
    try:
        f(s); print("demo: behaves as specified"); code = 0
    except BaseException as e:
        print("demo: PROPERTY BROKEN:", type(e).__name__, e); code = 1
    finally: s.close()
    sys.exit(code)

"""Drives the built ./ctrlproxy over loopback with a scripted IRC server. Everything stays in a scratch directory."""
import os, re, select, shutil, signal, socket, subprocess, sys, tempfile, time

def free_port():
    s = socket.socket(); s.bind(("127.0.0.1", 0)); p = s.getsockname()[1]; s.close(); return p

class Peer:
    def __init__(self, s):
        self.s = s; self.buf = b""; self.lines = []; self.eof = False
    def send(self, *ls):
        for l in ls:
            self.s.sendall(l.encode() + b"\r\n")
    def raw(self, b):
        self.s.sendall(b)
    def pump(self, t=0.05):
        r, _, _ = select.select([self.s], [], [], t)
        if r and not self.eof:
            try: d = self.s.recv(65536)
            except OSError: d = b""
            if not d: self.eof = True; return []
            self.buf += d
        out = []
        while b"\n" in self.buf:
            l, self.buf = self.buf.split(b"\n", 1)
            out.append(l.rstrip(b"\r").decode("latin1"))
        self.lines += out
        return out
    def wait(self, rx, t=10, since=0):
        """Wait for a line matching rx at or after index since; returns it or None."""
        end = time.time() + t
        i = since
        while True:
            while i < len(self.lines):
                if re.search(rx, self.lines[i]): return self.lines[i]
                i += 1
            if time.time() > end: return None
            if self.eof and not self.buf: 
                return None
            self.pump()
    def settle(self, t=0.7):
        end = time.time() + t
        while time.time() < end: 
            self.pump()
            if self.eof: break
    def mark(self): return len(self.lines)
    def close(self):
        try: self.s.close()
        except OSError: pass

class Server(Peer):
    """One upstream connection; answers registration."""
    name = "irc.test"
    nick = None
    def register(self, extra=(), t=15, motd=True):
        u = self.wait(r"^USER ", t); n = self.wait(r"^NICK ", t)
        if not u or not n: raise SystemExit("no registration")
        self.nick = [l for l in self.lines if l.startswith("NICK ")][-1].split()[1].lstrip(":")
        n = self.nick
        self.send(":%s 001 %s :Welcome" % (self.name, n), ":%s 002 %s :host" % (self.name, n), ":%s 003 %s :created" % (self.name, n),
                  ":%s 004 %s %s v1 io ovbklimnpst" % (self.name, n, self.name),
                  ":%s 005 %s CHANTYPES=#& PREFIX=(ov)@+ CASEMAPPING=rfc1459 CHANMODES=b,k,l,imnpst NETWORK=test :are supported" % (self.name, n))
        for l in extra: self.send(l % dict(n=n, s=self.name))
        if motd: self.send(":%s 422 %s :No MOTD" % (self.name, n))
        return self
    def num(self, code, rest): self.send(":%s %s %s %s" % (self.name, code, self.nick, rest))
    def join(self, chan, names, topic=None):
        self.send(":%s!u@h JOIN %s" % (self.nick, chan))
        if topic: self.num("332", "%s :%s" % (chan, topic))
        self.num("353", "= %s :%s" % (chan, names)); self.num("366", "%s :End" % chan)

class Rig:
    def __init__(self, global_extra="", net_extra="", password="pw", files=None, keep=None, listener_extra="", srv_rcvbuf=0):
        self.dir = tempfile.mkdtemp(prefix="rig"); self.cfg = self.dir + "/cfg"
        os.makedirs(self.cfg + "/networks")
        self.ls = socket.socket(); self.ls.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1); 
        if srv_rcvbuf: self.ls.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, srv_rcvbuf)
        self.ls.bind(("127.0.0.1", 0)); self.ls.listen(20)
        self.sport = self.ls.getsockname()[1]; self.port = free_port(); self.p = None; self.peers = []
        self.write("config", "[global]\nautoconnect=net\nautosave=false\ndefault-nick=me\n" + global_extra)
        self.write("networks/net", "[global]\nfullname=Full Name\nnick=me\nusername=user\nservers=irc://127.0.0.1:%d\nreconnect-interval=1\n%s\n" % (self.sport, net_extra))
        self.write("listener", "[127.0.0.1:%d]\n%snetwork=net\nssl=false\n%s" % (self.port, ("password=%s\n" % password) if password else "", listener_extra))
        for k, v in (files or {}).items(): self.write(k, v)
    def write(self, name, text):
        p = os.path.join(self.cfg, name); os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f: f.write(text)
    def read(self, name):
        with open(os.path.join(self.cfg, name)) as f: return f.read()
    def start(self):
        env = dict(os.environ, HOME=self.dir, XDG_CONFIG_HOME=self.dir)
        self.log = open(self.dir + "/log", "ab")
        self.p = subprocess.Popen(["/repo/ctrlproxy" if not os.path.exists("./ctrlproxy") else os.path.abspath("./ctrlproxy"), "-d", "5", "-c", self.cfg], cwd=self.dir, env=env, stdout=self.log, stderr=self.log, stdin=subprocess.DEVNULL)
        return self
    def server(self, t=20):
        self.ls.settimeout(t)
        try: s, _ = self.ls.accept()
        except socket.timeout: raise SystemExit("the proxy did not connect")
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        p = Server(s); self.peers.append(p); return p
    def connect(self, t=10, rcvbuf=0):
        end = time.time() + t
        while True:
            s = socket.socket()
            if rcvbuf: s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
            try: s.connect(("127.0.0.1", self.port)); break
            except OSError:
                s.close()
                if time.time() > end: raise SystemExit("cannot connect to the proxy")
                time.sleep(0.05)
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        p = Peer(s); self.peers.append(p); return p
    def client(self, nick="me", password="pw", rcvbuf=0, wait=True):
        c = self.connect(rcvbuf=rcvbuf)
        if password: c.send("PASS " + password)
        c.send("NICK " + nick, "USER u 0 * :real")
        if wait and not c.wait(r" (422|376) ", 10): raise SystemExit("client not welcomed: %r" % c.lines)
        return c
    def alive(self): return self.p.poll() is None
    def stop(self, sig=signal.SIGTERM, t=5):
        if self.p and self.p.poll() is None:
            self.p.send_signal(sig)
            try: self.p.wait(t)
            except subprocess.TimeoutExpired: self.p.kill(); self.p.wait()
    def done(self):
        for p in self.peers: p.close()
        self.stop(signal.SIGKILL)
        self.ls.close()
        if os.path.basename(self.dir).startswith("rig"): shutil.rmtree(self.dir, ignore_errors=True)

def check(ok, what):
    if not ok:
        print("FAIL: " + what); raise SystemExit(1)

def main(f, **kw):
    rig = Rig(**kw)
    try:
        rig.start(); f(rig); print("OK")
    finally:
        rig.done()

"""Runs real ircd processes (the built /repo/ircd/ircd) on loopback inside a scratch directory, as nobody, and speaks IRC/P10 to them."""
import os, sys, socket, subprocess, tempfile, time, shutil, atexit, select, ssl, random
REPO = os.getcwd()
B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789[]"
def freeport():
    s = socket.socket(); s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1); s.bind(("127.0.0.1", 0)); p = s.getsockname()[1]; s.close(); return p
class Net:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="ircd-demo-"); os.chmod(self.dir, 0o755); self.procs = []; self.srv = []; atexit.register(self.close)
    def close(self):
        for p in self.procs:
            try: p.kill(); p.wait()
            except Exception: pass
        self.procs = []
        shutil.rmtree(self.dir, ignore_errors=True)
    def server(self, num, name=None, features="", extra="", hub=True, connect=(), tls=False, client_block=None, ping="1 minutes 30 seconds", maxlinks=100, sendq=160000):
        name = name or "s%d.demo.net" % num
        s = dict(num=num, name=name, port=freeport(), sport=freeport(), dir=os.path.join(self.dir, "s%d" % num)); s["tlsport"] = freeport(); s["wsport"] = freeport()
        os.mkdir(s["dir"]); os.chmod(s["dir"], 0o777); s["connect"] = connect
        c = 'General { name = "%s"; description = "demo"; numeric = %d; };\nAdmin { Location = "x"; Location = "y"; Contact = "z"; };\n' % (name, num)
        c += 'Class { name = "Server"; pingfreq = %s; connectfreq = 1 minutes; maxlinks = 20; sendq = 9000000; };\n' % ping
        c += 'Class { name = "Local"; pingfreq = %s; sendq = %d; maxlinks = %d; usermode = ""; };\n' % (ping, sendq, maxlinks)
        c += 'Class { name = "Opers"; pingfreq = 1 minutes 30 seconds; sendq = 160000; maxlinks = 10; local = no; };\n'
        c += client_block or 'Client { class = "Local"; ip = "*@*"; };\n'
        c += 'Operator { local = no; host = "*@*"; password = "$PLAIN$operpass"; name = "gop"; class = "Opers"; };\n'
        c += 'UWorld { name = "svc.demo.net"; };\n'
        for o in connect:
            c += 'Connect { name = "%s"; host = "127.0.0.1"; password = "linkpass"; port = %d; class = "Server"; hub; autoconnect = no; };\n' % (o["name"], o.get("sport", 1))
        for i in range(8): c += 'Connect { name = "f%d.demo.net"; host = "127.0.0.1"; password = "linkpass"; port = %d; class = "Server"; hub; autoconnect = no; };\n' % (i, 1)
        c += 'Connect { name = "svc.demo.net"; host = "127.0.0.1"; password = "linkpass"; port = 1; class = "Server"; hub; autoconnect = no; };\n'
        c += 'Port { vhost = "127.0.0.1"; port = %d; };\nPort { vhost = "127.0.0.1"; server = yes; port = %d; };\nPort { vhost = "127.0.0.1"; port = %d; websocket = yes; };\n' % (s["port"], s["sport"], s["wsport"])
        if tls:
            here = os.path.dirname(os.path.abspath(__file__))
            subprocess.run(["openssl", "req", "-x509", "-newkey", "rsa:2048", "-nodes", "-keyout", s["dir"] + "/k.pem", "-out", s["dir"] + "/c.pem", "-days", "30", "-subj", "/CN=" + name], check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            os.chmod(s["dir"] + "/k.pem", 0o644)
            c += 'Port { vhost = "127.0.0.1"; port = %d; tls = yes; };\n' % s["tlsport"]
            c = c.replace("numeric = %d; };" % num, 'numeric = %d; tls certfile = "%s/c.pem"; tls keyfile = "%s/k.pem"; };' % (num, s["dir"], s["dir"]))
        f = 'Features { "HUB" = "%s"; "NODNS" = "TRUE"; "NOIDENT" = "TRUE"; "IPCHECK" = "FALSE"; "CONFIG_OPERCMDS" = "TRUE"; "DEFAULT_LIST_PARAM" = ""; %s };\n' % ("TRUE" if hub else "FALSE", features)
        s["conf"] = s["dir"] + "/ircd.conf"; s["text"] = c + f + extra
        self.write_conf(s); self.srv.append(s); return s
    def write_conf(self, s, text=None):
        if text: s["text"] = text
        open(s["conf"], "w").write(s["text"])
    def start(self, s, env=None):
        out = open(s["dir"] + "/stderr", "ab")
        p = subprocess.Popen(["setpriv", "--reuid=65534", "--regid=65534", "--clear-groups", REPO + "/ircd/ircd", "-n", "-f", s["conf"], "-d", s["dir"]], stdout=out, stderr=out, stdin=subprocess.DEVNULL, cwd=s["dir"], env=env)
        s["proc"] = p; self.procs.append(p)
        for _ in range(100):
            try: socket.create_connection(("127.0.0.1", s["port"]), 1).close(); time.sleep(0.2); return s
            except OSError:
                if p.poll() is not None: print(open(s["dir"] + "/stderr").read()); sys.exit("ircd did not start")
                time.sleep(0.1)
        sys.exit("ircd did not listen")
    def alive(self, s): return s["proc"].poll() is None
    def link(self, a, b):
        """connects a to b (a's conf has a Connect block for b) with an oper's CONNECT"""
        c = Client(a, "linker%d" % random.randrange(1000)); c.send("OPER gop operpass"); c.expect("381"); c.send("CONNECT " + b["name"])
        for _ in range(60):
            c.send("LINKS"); ls = c.until("365")
            if any(l.split()[3] == b["name"] for l in ls if " 364 " in l): break
            time.sleep(0.5)
        else: sys.exit("servers did not link: " + "\n".join(c.lines[-20:]))
        c.send("QUIT"); c.close()
class Sock:
    def __init__(self, port, tls=False, src=None, rcvbuf=None):
        s = socket.socket()
        if rcvbuf: s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
        if src: s.bind((src, 0))
        s.settimeout(15); s.connect(("127.0.0.1", port))
        if tls:
            ctx = ssl.create_default_context(); ctx.check_hostname = False; ctx.verify_mode = ssl.CERT_NONE; s = ctx.wrap_socket(s)
        self.s = s; self.buf = b""; self.lines = []; self.eof = False; self.pos = 0; self.autopong = True
    def raw(self, b):
        self.s.settimeout(15); self.s.sendall(b)
    def send(self, l): self.raw(l.encode("latin1") + b"\r\n")
    def pump(self, t=0.0):
        end = time.time() + t
        while True:
            self.s.settimeout(max(0.01, min(0.2, end - time.time())))
            try:
                d = self.s.recv(65536)
                if not d: self.eof = True; return
                self.buf += d
            except (socket.timeout, ssl.SSLWantReadError): pass
            except OSError: self.eof = True; return
            while b"\n" in self.buf:
                l, self.buf = self.buf.split(b"\n", 1); l = l.rstrip(b"\r").decode("latin1"); self.lines.append(l)
                if self.autopong and l.startswith("PING "): 
                    try: self.send("PONG " + l[5:])
                    except OSError: self.eof = True
                self.online(l)
            if time.time() >= end: return
    def online(self, l): pass
    def until(self, what, t=15, must=True):
        """lines up to the one whose command (or text) is `what`"""
        end = time.time() + t; out = []
        while True:
            while self.pos < len(self.lines):
                l = self.lines[self.pos]; self.pos += 1; out.append(l)
                if (" %s " % what) in (" " + l + " "): return out
            if time.time() > end or self.eof:
                if must: raise TimeoutError("no %s; got %r" % (what, out[-10:]))
                return out
            self.pump(0.1)
    def expect(self, what, t=15): return self.until(what, t)[-1]
    def sync(self):
        """everything the server sent before answering a PING; clients only"""
        n = "sync%d" % random.randrange(10**9); self.send("PING :" + n); return self.until(":" + n)
    def drain(self, t=0.5):
        self.pump(t); o = self.lines[self.pos:]; self.pos = len(self.lines); return o
    def close(self):
        try: self.s.close()
        except OSError: pass
class Client(Sock):
    def __init__(self, srv, nick, tls=False, user=None, reg=True, src=None, rcvbuf=None, caps=None):
        super().__init__(srv["tlsport"] if tls else srv["port"], tls, src, rcvbuf); self.nick = nick
        if caps: self.send("CAP REQ :" + caps)
        if reg:
            self.send("NICK " + nick); self.send("USER %s 0 0 :real %s" % (user or nick, nick))
            if caps: self.send("CAP END")
            self.until("001"); self.sync()
class Server(Sock):
    """a fake P10 server"""
    def __init__(self, srv, name="f0.demo.net", num=40, ts=None, uplinkname=None, endburst=True, flags="+h6"):
        super().__init__(srv["sport"]); self.name = name; self.num = B64[num // 64] + B64[num % 64]; self.users = 0; self.ea = False
        ts = ts or int(time.time()); self.ts = ts; self.autopong = False
        self.send("PASS :linkpass"); self.send("SERVER %s 1 %d %d J10 %s]]] %s :fake" % (name, ts, ts, self.num, flags))
        end = time.time() + 15
        while not any(l.startswith("SERVER ") for l in self.lines):
            self.pump(0.1)
            if self.eof or time.time() > end: raise TimeoutError("link refused: %r" % self.lines)
        if endburst: self.end_burst()
    def end_burst(self):
        self.send(self.num + " EB"); self.eb = True; self.wait_ea()
    def wait_ea(self):
        self.eb = True; self.ack()
        end = time.time() + 15
        while not self.ea:
            self.pump(0.1)
            if self.eof or time.time() > end: raise TimeoutError("no EA: %r" % self.lines[-5:])
    eb = theirs = False
    def ack(self):
        if self.eb and self.theirs: self.theirs = False; self.send(self.num + " EA")
    def online(self, l):
        w = l.split()
        if len(w) > 1 and w[1] == "EB": self.theirs = True; self.ack()
        if len(w) > 1 and w[1] == "EA": self.ea = True
        if len(w) > 1 and w[1] == "G": self.send("%s Z %s" % (self.num, " ".join(w[2:])))
    def user(self, nick, ts=None, modes="", host="remote.example", acct=""):
        n = self.num + "A" + B64[self.users // 64] + B64[self.users % 64]; self.users += 1
        self.send("%s N %s 1 %d u %s %sB]AAAB %s :r" % (self.num, nick, ts or int(time.time()), host, (modes + " ") if modes else "", n)); return n

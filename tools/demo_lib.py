"""Tiny test network around a real ircd: used by the demonstrations in seeded/ (copied beside each)."""
import os, sys, time, socket, shutil, subprocess, tempfile, select, re
PASS, FAIL = 0, 1
def freeport():
    s = socket.socket(); s.bind(("127.0.0.1", 0)); p = s.getsockname()[1]; s.close(); return p
class Conn:
    def __init__(self, net, port, src):
        self.net = net; self.buf = b""; self.lines = []; self.closed = False
        s = socket.socket(); s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1); s.bind((src, 0)); s.connect(("127.0.0.1", port)); s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1); self.s = s
    def raw(self, data):
        try: self.s.sendall(data if isinstance(data, bytes) else data.encode("latin-1"))
        except OSError: self.closed = True
    def send(self, *ls):
        for l in ls: self.raw(l + "\r\n")
    def read(self, t=0.0):
        r, _, _ = select.select([self.s], [], [], t)
        if r:
            try: d = self.s.recv(65536)
            except OSError: d = b""
            if not d: self.closed = True; return False
            self.buf += d
            while b"\n" in self.buf:
                l, self.buf = self.buf.split(b"\n", 1); l = l.rstrip(b"\r").decode("latin-1")
                if l.startswith("@"): l = l.split(" ", 1)[1]
                self.online(l)
            return True
        return False
    def online(self, l):
        if l.startswith("PING "): self.send("PONG " + l[5:]); return
        self.lines.append(l)
    def wait(self, pat, t=20.0):
        """first line containing pat (regexp), consuming nothing"""
        end = time.time() + t; i = 0
        while 1:
            while i < len(self.lines):
                if re.search(pat, self.lines[i]): return self.lines[i]
                i += 1
            if self.closed or time.time() > end: return None
            self.read(0.05)
    def find(self, pat): return [l for l in self.lines if re.search(pat, l)]
    def clear(self): self.lines = []
    def close(self):
        self.s.close(); self.closed = True
class User(Conn):
    def __init__(self, net, nick, src="127.0.0.1", user=None, register=True, real="real name", pre=()):
        super().__init__(net, net.cport, src); self.nick = nick
        for p in pre: self.send(p)
        if register:
            self.send("NICK " + nick, "USER %s 0 * :%s" % (user or nick, real))
            if not self.wait(r" 376 | 422 ", 30): raise Exception("could not register %s: %r" % (nick, self.lines))
    def sync(self, t=60):
        k = "sync%d" % int(time.time() * 1e6); self.send("PING :" + k); ok = self.wait("PONG .*" + k, t); self.lines = [l for l in self.lines if k not in l]; return ok
    def oper(self):
        self.send("OPER god secret"); assert self.wait(" 381 "), self.lines
class Server(Conn):
    """a directly linked P10 server that has finished its (empty) burst"""
    def __init__(self, net, name, num, src, burst=()):
        super().__init__(net, net.sport, src); self.num = num; self.name = name; t = int(time.time())
        self.send("PASS :lpass", "SERVER %s 1 %d %d J10 %s]]] +s6 :test leaf" % (name, t, t, num))
        if not self.wait(r"^AB EB", 20): raise Exception("no link: %r" % self.lines)
        for b in burst: self.send(b)
        self.send(num + " EB"); assert self.wait("^AB EA"), self.lines
        self.send(num + " EA"); self.sync(); self.clear()
    def online(self, l):
        m = re.match(r"^(\S+) G (.*)$", l)
        if m: self.send("%s Z AB %s" % (getattr(self, "num", "??"), m.group(2))); return
        self.lines.append(l)
    def sync(self, t=30):
        k = "sync%d" % int(time.time() * 1e6); self.send("%s G !%s AB %s" % (self.num, k, k)); ok = self.wait("^AB Z .*" + k, t); self.lines = [l for l in self.lines if k not in l]; return ok
class Net:
    def __init__(self, features="", extra=""):
        if not os.path.exists("ircd/ircd"): sys.exit("run me in the built repository")
        self.dir = tempfile.mkdtemp(prefix="ircdemo."); d = self.dir; shutil.copy("ircd/ircd", d + "/ircd"); os.chmod(d + "/ircd", 0o755)
        self.cport = freeport(); self.sport = freeport()
        open(d + "/ircd.conf", "w").write("""
General { name = "vp.test.net"; vhost = "127.0.0.1"; description = "hub"; numeric = 1; };
Admin { Location = "a"; Location = "b"; Contact = "c"; };
Class { name = "Server"; pingfreq = 90 seconds; connectfreq = 5 minutes; sendq = 9000000; maxlinks = 10; };
Class { name = "Local"; pingfreq = 90 seconds; sendq = 160000; maxlinks = 100; };
Class { name = "Opers"; pingfreq = 90 seconds; sendq = 160000; maxlinks = 100; local = no; };
Connect { name = "leaf1.test.net"; host = "127.0.0.101"; password = "lpass"; port = 4400; class = "Server"; hub; autoconnect = no; };
Connect { name = "leaf2.test.net"; host = "127.0.0.102"; password = "lpass"; port = 4400; class = "Server"; hub; autoconnect = no; };
Client { ip = "127.*"; class = "Local"; };
Operator { local = no; class = "Opers"; host = "*@127.*"; password = "$PLAIN$secret"; name = "god"; };
Port { server = yes; port = %d; };
Port { port = %d; };
%s
Features { "HUB" = "TRUE"; "NODNS" = "TRUE"; "IPCHECK_CLONE_LIMIT" = "200"; %s };
""" % (self.sport, self.cport, extra, features))
        os.chmod(d, 0o777); os.chmod(d + "/ircd.conf", 0o644)
        def drop():
            if os.getuid() == 0: os.setgroups([]); os.setgid(65534); os.setuid(65534)
        self.p = subprocess.Popen([d + "/ircd", "-n", "-d", d, "-f", "ircd.conf"], cwd=d, preexec_fn=drop, stdin=subprocess.DEVNULL, stdout=open(d + "/out", "w"), stderr=subprocess.STDOUT)
        end = time.time() + 20
        while 1:
            try: s = socket.create_connection(("127.0.0.1", self.cport), 1); s.close(); break
            except OSError:
                if self.p.poll() is not None or time.time() > end: self.stop(); sys.exit("ircd did not start")
                time.sleep(0.05)
    def alive(self): return self.p.poll() is None
    def stop(self):
        try: self.p.kill(); self.p.wait()
        except Exception: pass
        shutil.rmtree(self.dir, ignore_errors=True)
def check(cond, what):
    print(("ok: " if cond else "FAILED: ") + what)
    if not cond: raise SystemExit(1)
def run(fn, **kw):
    """fn(net) raises or calls check(); exit status 0 iff the behaviour is right"""
    net = Net(**kw); rc = 1
    try: fn(net); rc = 0 if net.alive() else 1
    except SystemExit as e: rc = e.code or 0
    except BaseException as e: print("FAILED: %r" % e); rc = 1
    finally:
        if not net.alive(): print("ircd died"); print(open(net.dir + "/out").read()[-600:]); rc = 1
        net.stop()
    sys.exit(rc)

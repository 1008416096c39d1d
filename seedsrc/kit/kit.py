"""A small driver for sinksmtp, used by the demonstrations.

It builds the program from the current directory (/repo) with a stand-in for
its unavailable smtpd dependency, in a scratch directory that is removed at
exit, runs it on loopback addresses with its own DNS server, and talks SMTP to
it. fail() ends the demonstration with exit status 1.
"""
import atexit, hashlib, json, os, re, shutil, signal, socket, ssl, struct, subprocess, sys, tempfile, threading, time, urllib.request

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.getcwd()
WORK = tempfile.mkdtemp(prefix="demo.")
PROCS = []


def cleanup():
    for p in PROCS:
        try:
            p.kill()
            p.wait()
        except Exception:
            pass
    shutil.rmtree(WORK, ignore_errors=True)


atexit.register(cleanup)
signal.signal(signal.SIGTERM, lambda *a: sys.exit(3))


def fail(msg):
    print("FAIL: " + msg)
    sys.stdout.flush()
    sys.exit(1)


def check(cond, msg):
    if not cond:
        fail(msg)


def goenv():
    e = dict(os.environ)
    for d in ("/opt/veriftools/go1.27.3/bin", "/opt/veriftools/go/bin"):
        if os.path.exists(d + "/go"):
            e["PATH"] = d + ":" + e["PATH"]
            break
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GOSUMDB="off", GO111MODULE="on")
    e.setdefault("HOME", "/root")
    return e


def build(race=False):
    out = WORK + "/sut" + ("-race" if race else "")
    e = goenv()
    os.makedirs(WORK + "/ov", exist_ok=True)
    subprocess.run([sys.executable, HERE + "/mkoverlay.py", REPO, WORK + "/ov"], env=e, check=True)
    with open(WORK + "/sut.mod", "w") as f:
        f.write(open(REPO + "/go.mod").read())
        f.write("\nreplace github.com/siebenmann/smtpd => %s\n" % HERE)
    open(WORK + "/sut.sum", "w").close()
    cmd = ["go", "build"] + (["-race"] if race else []) + [
        "-modfile=" + WORK + "/sut.mod", "-overlay", WORK + "/ov/overlay.json", "-o", out, "."]
    r = subprocess.run(cmd, cwd=REPO, env=e)
    if r.returncode != 0:
        print("build failed")
        sys.exit(3)
    return out


# ---- DNS

def encname(n):
    n = n.rstrip(".")
    return b"".join(bytes([len(l)]) + l.encode() for l in n.split(".") if l) + b"\0"


def revname(ip):
    if ":" in ip:
        h = socket.inet_pton(socket.AF_INET6, ip).hex()
        return ".".join(reversed(h)) + ".ip6.arpa"
    return ".".join(reversed(ip.split("."))) + ".in-addr.arpa"


class DNS:
    """data: {name: {"A": [...], "AAAA": [...], "MX": [(pref, host)], "TXT": [...], "PTR": [...]}},
    name: "servfail" answers SERVFAIL, name: {"MX": "servfail"} for one type."""
    TYPES = {1: "A", 28: "AAAA", 15: "MX", 16: "TXT", 12: "PTR"}

    def __init__(self, data):
        self.data = {k.rstrip(".").lower(): v for k, v in data.items()}
        self.s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
        self.s.bind(("127.0.0.1", 0))
        self.queries = []
        self.addr = "127.0.0.1:%d" % self.s.getsockname()[1]
        threading.Thread(target=self.run, daemon=True).start()

    def run(self):
        while True:
            q, a = self.s.recvfrom(4096)
            try:
                self.s.sendto(self.answer(q), a)
            except Exception:
                pass

    def answer(self, q):
        pos, labels = 12, []
        while q[pos]:
            labels.append(q[pos + 1:pos + 1 + q[pos]].decode())
            pos += 1 + q[pos]
        pos += 1
        qt = struct.unpack(">H", q[pos:pos + 2])[0]
        question = q[12:pos + 4]
        name = ".".join(labels).lower()
        self.queries.append((name, self.TYPES.get(qt)))
        ent = self.data.get(name)
        rcode, ans = 0, []
        if ent is None:
            rcode = 3
        elif ent == "servfail":
            rcode = 2
        else:
            recs = ent.get(self.TYPES.get(qt), [])
            if recs == "servfail":
                rcode, recs = 2, []
            for r in recs:
                t = self.TYPES[qt]
                if t == "A":
                    rd = socket.inet_aton(r)
                elif t == "AAAA":
                    rd = socket.inet_pton(socket.AF_INET6, r)
                elif t == "PTR":
                    rd = encname(r)
                elif t == "MX":
                    rd = struct.pack(">H", r[0]) + encname(r[1])
                else:
                    rd = bytes([len(r)]) + r.encode()
                ans.append(b"\xc0\x0c" + struct.pack(">HHIH", qt, 1, 0, len(rd)) + rd)
        return q[:2] + struct.pack(">HHHHH", 0x8580 | rcode, 1, len(ans), 0, 0) + question + b"".join(ans)


# ---- certificates

def cert(name, cn=None):
    """make a self-signed certificate; returns (certfile, keyfile)"""
    c, k = WORK + "/" + name + ".crt", WORK + "/" + name + ".key"
    subprocess.run(["openssl", "req", "-x509", "-newkey", "rsa:2048", "-nodes", "-days", "30", "-subj", "/CN=" + (cn or name),
                    "-keyout", k, "-out", c], check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    return c, k


# ---- the server

class Server:
    n = 0

    def __init__(self, binary, rules=None, args=(), dns=None, hosts="", host="127.0.0.1", nodir=False, hash="all", smtplog=True, start=True, env=None):
        Server.n += 1
        self.dir = "%s/s%d" % (WORK, Server.n)
        os.makedirs(self.dir + "/save")
        self.binary = binary
        self.dns = DNS(dns or {})
        self.ctlpath = self.dir + "/ctl"
        self.file("hosts", hosts)
        self.args = []
        self.nextport = {}
        if rules is not None:
            if isinstance(rules, str):
                rules = [rules]
            names = [self.file("rules%d" % i, r) for i, r in enumerate(rules)]
            self.args += ["-r", ",".join(names)]
        self.save, self.log, self.smtplog = self.dir + "/save", self.dir + "/log", self.dir + "/smtplog"
        if not nodir:
            self.args += ["-d", self.save]
        self.args += ["-l", self.log, "-save-hash", hash]
        if smtplog:
            self.args += ["-smtplog", self.smtplog]
        self.args += [a.replace("%D", self.dir) for a in args]
        self.host = host
        self.env = env or {}
        if start:
            self.start()

    def file(self, name, text):
        p = self.dir + "/" + name
        with open(p + ".new", "wb") as f:
            f.write(text.encode() if isinstance(text, str) else text)
        os.rename(p + ".new", p)
        return p

    def freeport(self, host):
        s = socket.socket(socket.AF_INET6 if ":" in host else socket.AF_INET)
        s.bind((host, 0))
        p = s.getsockname()[1]
        s.close()
        return p

    def start(self, wait=True):
        if os.path.exists(self.ctlpath):
            os.unlink(self.ctlpath)
        self.port = self.freeport(self.host)
        h = "[%s]" % self.host if ":" in self.host else self.host
        e = dict(os.environ, VERIF_DNS=self.dns.addr, VERIF_HOSTS=self.dir + "/hosts", VERIF_CTL=self.ctlpath, GODEBUG="netdns=go")
        e.update(self.env)
        self.err = open(self.dir + "/stderr", "ab")
        self.p = subprocess.Popen([self.binary] + self.args + ["%s:%d" % (h, self.port)], env=e, stderr=self.err, stdout=self.err, cwd=self.dir)
        PROCS.append(self.p)
        if not wait:
            return
        for i in range(500):
            if self.p.poll() is not None:
                print(self.stderr())
                fail("the server ended at once")
            # we look for the listening socket without connecting to it
            if self.listening():
                return
            time.sleep(0.02)
        fail("the server does not listen")

    def listening(self):
        want = ":%04X " % self.port
        for f in ("/proc/net/tcp", "/proc/net/tcp6"):
            for l in open(f).read().splitlines()[1:]:
                fs = l.split()
                if fs[3] == "0A" and fs[1].endswith(":%04X" % self.port):
                    return True
        return False

    def stderr(self):
        return open(self.dir + "/stderr", errors="replace").read()

    def alive(self):
        return self.p.poll() is None

    def kill(self):
        self.p.kill()
        self.p.wait()

    def ctl(self, *cmd):
        s = socket.socket(socket.AF_UNIX)
        s.connect(self.ctlpath)
        s.sendall(("\t".join(str(c) for c in cmd) + "\n").encode())
        r = s.makefile().readline().rstrip("\n")
        s.close()
        return r

    def connect(self, src="127.0.0.1", timeout=20):
        return Client(self, src, timeout)

    def saved(self, sub=None):
        d = sub or self.save
        return {f: open(d + "/" + f, "rb").read() for f in sorted(os.listdir(d)) if not f.startswith(".")}

    def loglines(self):
        try:
            return open(self.log, errors="replace").read().splitlines()
        except FileNotFoundError:
            return []

    def smtplines(self):
        try:
            return open(self.smtplog, errors="replace").read().splitlines()
        except FileNotFoundError:
            return []

    def waitsmtplog(self, text, secs=5, count=1):
        end = time.time() + secs
        while time.time() < end:
            if sum(text in l for l in self.smtplines()) >= count:
                return True
            time.sleep(0.02)
        return False

    def vars(self, addr):
        return json.load(urllib.request.urlopen("http://%s/debug/vars" % addr))["sinksmtp"]


class Client:
    def __init__(self, srv, src, timeout):
        fam = socket.AF_INET6 if ":" in srv.host else socket.AF_INET
        self.s = socket.socket(fam)
        self.s.settimeout(timeout)
        if src and not (":" in srv.host):
            self.s.bind((src, 0))
        self.s.connect((srv.host, srv.port))
        self.f = self.s.makefile("rb")
        self.banner = self.reply()

    def reply(self):
        """(code, [lines]); code 0 when the connection is closed"""
        lines = []
        while True:
            try:
                l = self.f.readline()
            except (OSError, ssl.SSLError):
                l = b""
            if not l.endswith(b"\n"):
                return 0, lines
            l = l.decode("latin-1").rstrip("\r\n")
            lines.append(l[4:])
            if l[3:4] != "-":
                return int(l[:3]), lines

    def send(self, b):
        if isinstance(b, str):
            b = b.encode("latin-1")
        self.s.sendall(b)

    def cmd(self, line):
        try:
            self.send(line + "\r\n")
        except OSError:
            return 0, []
        return self.reply()

    def code(self, line):
        return self.cmd(line)[0]

    def ehlo(self, name="client.example.com"):
        return self.code("EHLO " + name)

    def mail(self, a):
        return self.code("MAIL FROM:<%s>" % a)

    def rcpt(self, a):
        return self.code("RCPT TO:<%s>" % a)

    def body(self, text):
        """send a message after a 354; text uses \\n"""
        if not text.endswith("\n"):
            text += "\n"
        out = "".join(("." + l if l.startswith(".") else l) + "\r\n" for l in text[:-1].split("\n"))
        self.send(out + ".\r\n")
        return self.reply()

    def message(self, frm, to, text="Subject: hi\n\nbody\n"):
        """a whole transaction; returns the reply to the message, or the first refusal"""
        for l in ["MAIL FROM:<%s>" % frm] + ["RCPT TO:<%s>" % t for t in ([to] if isinstance(to, str) else to)]:
            r = self.cmd(l)
            if r[0] != 250:
                return r
        r = self.cmd("DATA")
        if r[0] != 354:
            return r
        return self.body(text)

    def starttls(self, certfile=None, keyfile=None):
        r = self.cmd("STARTTLS")
        if r[0] != 220:
            return r[0]
        ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
        ctx.check_hostname = False
        ctx.verify_mode = ssl.CERT_NONE
        if certfile:
            ctx.load_cert_chain(certfile, keyfile)
        self.s = ctx.wrap_socket(self.s)
        self.f = self.s.makefile("rb")
        return 220

    def badtls(self):
        r = self.cmd("STARTTLS")
        if r[0] == 220:
            self.send("this is not TLS at all, sorry\r\n\r\n")
            time.sleep(0.05)
        self.close()
        return r[0]

    def quit(self):
        r = self.code("QUIT")
        # wait for the server to hang up
        try:
            while self.s.recv(100):
                pass
        except OSError:
            pass
        self.close()
        return r

    def close(self):
        try:
            self.s.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass
        self.f.close()
        self.s.close()

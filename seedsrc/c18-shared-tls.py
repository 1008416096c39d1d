PROPERTY = 'C18'
NEEDS = "a session under a 'tls-opt no-client' rule before or during another session that the rule does not cover"
BREAKS = 'all sessions share one TLS configuration, so switching client certificates off for one client switches them off for all'
EDITS = [
 ('sinksmtp.go',
  '\t\tvar tlsc tls.Config\n\t\ttlsc.Certificates = certs\n',
  '\t\ttlsc := tlsConfigFor(sname)\n\t\ttlsc.Certificates = certs\n'),
 ('sinksmtp.go',
  '\t\tcfg.TLSConfig = &tlsc\n',
  '\t\tcfg.TLSConfig = tlsc\n'),
 ('sinksmtp.go',
  '\t\tif blcount == 0 {\n\t\t\ttlsc.ClientAuth = tls.RequestClientCert\n\t\t}\n',
  '\t\tif blcount > 0 {\n\t\t\ttlsc.ClientAuth = tls.NoClientCert\n\t\t}\n'),
 ('sinksmtp.go',
  '// Process a single connection.\n',
  'var tlsConfigs = struct {\n\tsync.Mutex\n\tm map[string]*tls.Config\n}{m: make(map[string]*tls.Config)}\n\n// tlsConfigFor returns the TLS configuration for one of our names, asking for\n// client certificates.\nfunc tlsConfigFor(name string) *tls.Config {\n\ttlsConfigs.Lock()\n\tdefer tlsConfigs.Unlock()\n\tt := tlsConfigs.m[name]\n\tif t == nil {\n\t\tt = &tls.Config{ClientAuth: tls.RequestClientCert}\n\t\ttlsConfigs.m[name] = t\n\t}\n\treturn t\n}\n\n// Process a single connection.\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
c, k = cert("server.example.org")
cc, ck = cert("client", "client.example.org")
s = Server(b, rules="@helo set-with ip 127.0.0.9 with tls-opt no-client\n", args=["-nostdrules", "-c", c, "-k", k, "-helo", "server.example.org"])
def go(src):
    n = len(s.saved())
    x = s.connect(src)
    check(x.ehlo() == 250, "EHLO")
    check(x.starttls(cc, ck) == 220, "STARTTLS")
    check(x.ehlo() == 250, "EHLO")
    r = x.message("a@b.com", "c@d.com", "Subject: %s %d\n\nx\n" % (src, n))
    check(r[0] == 250, "message")
    x.quit()
    return s.saved()[r[1][0].split()[-1]]
check(b"client-name 'client.example.org'" in go("127.0.0.8"), "before")
check(b"client-name" not in go("127.0.0.9"), "no-client")
check(b"client-name 'client.example.org'" in go("127.0.0.8"), "a no-client session changed what other sessions do")
'''

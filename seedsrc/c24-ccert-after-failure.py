PROPERTY = 'C24'
NEEDS = 'a TLS failure followed, more than 72 hours later, by another connection'
BREAKS = 'a client that once had a TLS failure is never again asked for a client certificate'
EDITS = [
 ('sinksmtp.go',
  '\ti.stats.LookupExpired++\n',
  '\tif t.count > 0 && ttl > time.Hour*24 {\n\t\tt.when = time.Now()\n\t\tt.count = 1\n\t\treturn true, 1\n\t}\n\ti.stats.LookupExpired++\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
c, k = cert("server.example.org")
cc, ck = cert("client", "client.example.org")
s = Server(b, args=["-nostdrules", "-c", c, "-k", k])
x = s.connect("127.0.0.9")
x.ehlo()
x.badtls()
time.sleep(0.3)
s.ctl("advance", 80 * 3600)
x = s.connect("127.0.0.9")
x.ehlo()
check(x.starttls(cc, ck) == 220, "STARTTLS")
x.ehlo()
check(x.message("a@b.com", "c@d.com")[0] == 250, "message")
f = list(s.saved().values())[0]
check(b"client-name 'client.example.org'" in f, "no client certificate was asked for")
'''

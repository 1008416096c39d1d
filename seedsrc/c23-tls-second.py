PROPERTY = 'C23'
NEEDS = 'a client with repeated TLS failures, under -dncount'
BREAKS = "after a client's first TLS failure, sessions it ends with another one count as do-nothing sessions again"
EDITS = [
 ('sinksmtp.go',
  '\t\t\tnotls.Add(trans.rip, tlsTimeout)\n\t\t\tsesscounts = false',
  '\t\t\tsesscounts = sesscounts && notls.Add(trans.rip, tlsTimeout) > 1'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
c, k = cert("server.example.org")
s = Server(b, rules="accept all\n", args=["-nostdrules", "-c", c, "-k", k, "-dncount", "1", "-minphase", "from"])
# both connect before the first failure is known
x, y = s.connect("127.0.0.9"), s.connect("127.0.0.9")
x.ehlo()
y.ehlo()
x.badtls()
time.sleep(0.3)
y.badtls()
time.sleep(0.3)
z = s.connect("127.0.0.9")
check(z.ehlo() == 250, "TLS failures must not make a do-nothing client")
'''

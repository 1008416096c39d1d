PROPERTY = 'C24'
NEEDS = 'exactly one failed TLS handshake from an address'
BREAKS = 'a client loses TLS after a single failure instead of two'
EDITS = [
 ('sinksmtp.go',
  '\tif len(certs) > 0 && !(blocktls && blcount >= 2) {\n',
  '\tif len(certs) > 0 && !(blocktls && blcount >= 1) {\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
c, k = cert("server.example.org")
s = Server(b, args=["-nostdrules", "-c", c, "-k", k])
for i in range(2):
    x = s.connect("127.0.0.9")
    r = x.cmd("EHLO tls.example.org")
    check("STARTTLS" in r[1], "offered at attempt %d" % i)
    x.badtls()
    time.sleep(0.3)
r = s.connect("127.0.0.9").cmd("EHLO tls.example.org")
check("STARTTLS" not in r[1], "no longer offered")
'''

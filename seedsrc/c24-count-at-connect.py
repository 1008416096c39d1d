PROPERTY = 'C24'
NEEDS = 'two sessions of one client open at the same time, both failing at TLS'
BREAKS = 'overlapping TLS failures of a client count once'
EDITS = [
 ('sinksmtp.go',
  '\t\t\tnotls.Add(trans.rip, tlsTimeout)\n',
  '\t\t\tnotls.Set(trans.rip, tlsTimeout, blcount+1)\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
c, k = cert("server.example.org")
s = Server(b, args=["-nostdrules", "-c", c, "-k", k])
l = [s.connect("127.0.0.9") for i in range(2)]
for x in l:
    check("STARTTLS" in x.cmd("EHLO tls.example.org")[1], "offered")
for x in l:
    x.badtls()
time.sleep(0.3)
r = s.connect("127.0.0.9").cmd("EHLO tls.example.org")
check("STARTTLS" not in r[1], "no longer offered")
'''

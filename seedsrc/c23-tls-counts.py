PROPERTY = 'C23'
NEEDS = 'sessions that end in a failed TLS handshake'
BREAKS = 'sessions with TLS failures count towards making the client a do-nothing client'
EDITS = [
 ('sinksmtp.go',
  '\t\t\tsesscounts = false\n\t\t\tevents.tlserrs.Add(1)\n',
  '\t\t\tsesscounts = sesscounts && !gotsomewhere\n\t\t\tevents.tlserrs.Add(1)\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
c, k = cert("server.example.org")
s = Server(b, args=["-nostdrules", "-dncount", "2", "-minphase", "from", "-c", c, "-k", k])
A = "127.0.0.9"
for i in range(2):
    x = s.connect(A)
    check(x.ehlo() == 250, "EHLO %d" % i)
    check(x.badtls() == 220, "STARTTLS")
    time.sleep(0.3)
check(s.connect(A).ehlo() == 250, "TLS failures must not make a client stalled")
'''

PROPERTY = 'C10'
NEEDS = 'a DNS lookup that fails for another reason than SERVFAIL (a truncated reply without TCP)'
BREAKS = 'temporary failures other than SERVFAIL make a domain bad instead of unknown'
EDITS = [
 ('mxresolve.go',
  'if e.Temporary() || e.Err == serverrstr {',
  'if e.Err == serverrstr {'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
import struct
class TC(DNS):
    def answer(self, q):
        return q[:2] + struct.pack(">HHHHH", 0x8780, 1, 0, 0, 0) + q[12:q.index(b"\0", 12) + 5]
s = Server(b, rules="reject from-has baddom\nstall from-has unknown\n", args=["-nostdrules"], dns={})
s.dns.answer = lambda q: TC.answer(s.dns, q)
c = s.connect(); c.ehlo()
check(c.mail("x@d.example.org") // 100 == 4, "a temporary failure")
'''

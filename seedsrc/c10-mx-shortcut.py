PROPERTY = 'C10'
NEEDS = "a domain with a deliverable MX and, later in preference order, an MX of 'localhost.'"
BREAKS = "the MX check stops at the first good MX, so a later '.' or 'localhost.' MX no longer disqualifies the domain"
EDITS = [
 ('mxresolve.go',
  '\t\t\tvalid = v\n\t\t\tverr = err\n\t\t}\n',
  '\t\t\tvalid = v\n\t\t\tverr = err\n\t\t}\n\t\tif valid == dnsGood {\n\t\t\tbreak\n\t\t}\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
dns = {"b.com": {"MX": [(10, "mx.b.com"), (20, "localhost")]}, "mx.b.com": {"A": ["8.8.8.8"]},
       "c.com": {"MX": [(10, "localhost"), (20, "mx.b.com")]}, "d.com": {"MX": [(10, "mx.b.com")]}}
s = Server(b, rules="reject from-has baddom\n", args=["-nostdrules"], dns=dns)
c = s.connect()
c.ehlo()
check(c.mail("x@c.com") >= 500, "localhost first")
check(c.mail("x@b.com") >= 500, "localhost last")
check(c.mail("x@d.com") == 250, "good domain")
'''

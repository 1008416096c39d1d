PROPERTY = 'C06'
NEEDS = 'a bad sender address with the standard rules on'
BREAKS = 'a bad sender is refused at RCPT TO only'
EDITS = [
 ('sinksmtp.go',
  '\t\tfmt.Fprintf(&outbuf, "reject from-has bad,route\\n")\n\t\tfmt.Fprintf(&outbuf, "reject to-has bad,route\\n")\n',
  '\t\tfmt.Fprintf(&outbuf, "reject from-has bad,route or to-has bad,route\\n")\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b)
c = s.connect()
c.ehlo()
check(c.mail("nodomain") >= 500, "bad sender at MAIL FROM")
check(c.mail("a@b.com") == 250, "good sender")
check(c.rcpt("nodomain") >= 500, "bad recipient")
'''

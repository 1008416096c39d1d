PROPERTY = 'C27'
NEEDS = '-heloreject with a client that is in the file'
BREAKS = '-heloreject refuses the EHLO itself instead of the MAIL FROM'
EDITS = [
 ('sinksmtp.go',
  '\t\tfmt.Fprintf(&outbuf, "@from reject helo file:%s\\n", heloreject)\n',
  '\t\tfmt.Fprintf(&outbuf, "reject helo file:%s\\n", heloreject)\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, start=False, args=["-nostdrules"])
s.args += ["-heloreject", s.file("helos", ".bad.org\n")]
s.start()
c = s.connect()
check(c.ehlo("x.bad.org") == 250, "EHLO must be accepted")
check(c.mail("a@b.com") >= 500, "MAIL FROM must be refused")
'''

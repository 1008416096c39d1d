PROPERTY = 'C13'
NEEDS = 'a MAIL FROM:<> with a deferred refusal, a RSET, an EHLO, and a rule that acts at EHLO'
BREAKS = 'the verdict on a MAIL FROM:<> is still in force at a later EHLO'
EDITS = [
 ('rules.go',
  '\t\tc.heloname = evt.Arg\n\t\tc.defresult = aError\n',
  '\t\tc.heloname = evt.Arg\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, rules="reject from <>\n", args=["-nostdrules"])
c = s.connect()
c.ehlo()
check(c.mail("") == 250, "MAIL FROM:<>")
check(c.rcpt("x@y.com") >= 500, "RCPT TO")
c.code("RSET")
check(c.ehlo() == 250, "EHLO")
'''

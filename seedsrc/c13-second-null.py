PROPERTY = 'C13'
NEEDS = 'two MAIL FROM:<> transactions in one session, the first with a deferred refusal'
BREAKS = 'the deferred verdict survives to the next MAIL FROM:<>, which is then itself refused'
EDITS = [
 ('rules.go',
  '\t\tc.from = evt.Arg\n\t\tc.defresult = aError\n',
  '\t\tif evt.Arg != "" || c.from != "" {\n\t\t\tc.defresult = aError\n\t\t}\n\t\tc.from = evt.Arg\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, rules="reject from <> \n", args=["-nostdrules"])
c = s.connect()
c.ehlo()
check(c.mail("") == 250, "first MAIL FROM:<>")
check(c.rcpt("a@b.com") >= 500, "RCPT TO")
c.code("RSET")
check(c.mail("") == 250, "second MAIL FROM:<>")
'''

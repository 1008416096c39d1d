PROPERTY = 'C14'
NEEDS = 'a transaction abandoned with RSET after accepted recipients, then another in the same session'
BREAKS = 'recipients of an abandoned transaction still count in the next one'
EDITS = [
 ('sinksmtp.go',
  '\t\t\t\ttrans.from = evt.Arg\n\t\t\t\ttrans.data = ""\n\t\t\t\ttrans.rcptto = []string{}\n',
  '\t\t\t\tif trans.data != "" || trans.from != evt.Arg {\n\t\t\t\t\ttrans.rcptto = []string{}\n\t\t\t\t}\n\t\t\t\ttrans.from = evt.Arg\n\t\t\t\ttrans.data = ""\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, rules="@data reject to trap@b.com\n", args=["-nostdrules"])
c = s.connect()
c.ehlo()
check(c.mail("x@y.com") == 250 and c.rcpt("trap@b.com") == 250, "first")
check(c.code("RSET") == 250, "RSET")
check(c.mail("x@y.com") == 250 and c.rcpt("ok@b.com") == 250, "second")
check(c.code("DATA") == 354, "the trap recipient is not part of this transaction")
'''

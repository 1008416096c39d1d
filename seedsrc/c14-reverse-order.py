PROPERTY = 'C14'
NEEDS = 'two recipients that match different clauses with different options at DATA'
BREAKS = 'recipients are tried from the last to the first, so the options of the wrong recipient apply'
EDITS = [
 ('rules.go',
  '\tfor _, rcpt := range c.trans.rcptto {\n\t\tc.rcptto = rcpt\n',
  '\tfor i := len(c.trans.rcptto) - 1; i >= 0; i-- {\n\t\tc.rcptto = c.trans.rcptto[i]\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, rules="@data reject to a@b.com with message one; to c@d.com with message two\n", args=["-nostdrules"])
c = s.connect()
c.ehlo()
c.mail("x@y.com")
c.rcpt("a@b.com")
c.rcpt("c@d.com")
r = c.cmd("DATA")
check(r[0] >= 500 and r[1] == ["one"], "reply %s" % (r,))
'''

PROPERTY = 'C14'
NEEDS = 'a transaction with more than sixteen recipients where only a late one matches'
BREAKS = 'recipient rules at DATA and message time only see the first sixteen recipients'
EDITS = [
 ('rules.go',
  '\tfor _, rcpt := range c.trans.rcptto {\n\t\tc.rcptto = rcpt',
  '\tfor i, rcpt := range c.trans.rcptto {\n\t\tif i >= 16 {\n\t\t\tbreak\n\t\t}\n\t\tc.rcptto = rcpt'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, rules="@data reject to late@b.com\n", args=["-nostdrules"])
c = s.connect(); c.ehlo()
c.mail("a@b.com")
for i in range(18): c.rcpt("r%d@b.com" % i)
c.rcpt("late@b.com")
check(c.code("DATA") >= 500, "late@b.com must refuse the DATA")
'''

PROPERTY = 'C23'
NEEDS = 'no -dncount, a -minphase not reached, and a second MAIL FROM in the session'
BREAKS = 'clients are cut off although nobody is to be counted'
EDITS = [
 ('sinksmtp.go',
  '\tsesscounts = rulesgood && yakCount > 0\n',
  '\tsesscounts = rulesgood\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, args=["-nostdrules", "-minphase", "message"])
c = s.connect(); c.ehlo()
for i in range(4):
    check(c.mail("a@b.com") == 250, "MAIL FROM %d" % i)
    c.code("RSET")
'''

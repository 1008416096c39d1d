PROPERTY = 'C23'
NEEDS = 'two sessions of one client open at the same time, both failing'
BREAKS = 'overlapping failures of a client count once'
EDITS = [
 ('sinksmtp.go',
  '\tcase !gotsomewhere && sesscounts:\n\t\tcnt = yakkers.Add(trans.rip, yakTimeout)\n',
  '\tcase !gotsomewhere && sesscounts:\n\t\tcnt++\n\t\tyakkers.Set(trans.rip, yakTimeout, cnt)\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, rules="@from reject all\n", args=["-nostdrules", "-dncount", "2", "-minphase", "from"])
c = s.connect(); d = s.connect()
for x in (c, d):
    check(x.ehlo() == 250, "greeting"); check(x.mail("a@b.com") >= 500, "refused")
c.quit(); d.quit(); time.sleep(0.3)
c = s.connect()
check(c.ehlo() // 100 == 4, "two failures, so stalled")
'''

PROPERTY = 'C15'
NEEDS = 'broken rules together with -dncount'
BREAKS = 'sessions under broken rules count as do-nothing sessions'
EDITS = [
 ('sinksmtp.go',
  '\tsesscounts = rulesgood && yakCount > 0\n',
  '\tsesscounts = yakCount > 0 && (rulesgood || len(rulefiles) > 1)\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, rules=["accept all\n", "accept all\n"], args=["-nostdrules", "-dncount", "2"])
check(s.connect().ehlo() == 250, "good rules")
s.file("rules1", "frob\n")
for i in range(3):
    c = s.connect("127.0.0.9")
    check(c.ehlo() // 100 == 4, "broken rules")
    c.quit()
s.file("rules1", "accept all\n")
time.sleep(0.2)
check(s.connect("127.0.0.9").ehlo() == 250, "the client must not be stalled for our broken rules")
'''

PROPERTY = 'C26'
NEEDS = 'rule files that do not parse while connections keep coming'
BREAKS = 'every connection that meets a broken rule file leaves a goroutine behind for good'
EDITS = [
 ('rparse.go',
  '\tl.drain()\n',
  '\tif e == nil {\n\t\tl.drain()\n\t}\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, rules="accept all\n", args=["-nostdrules"])
s.connect().quit()
s.file("rules0", "reject from\naccept all\naccept all\n")
time.sleep(0.2)
n0 = int(s.ctl("goroutines"))
for i in range(50):
    s.connect().quit()
time.sleep(1)
n1 = int(s.ctl("goroutines"))
check(n1 < n0 + 25, "%d goroutines, then %d" % (n0, n1))
'''

PROPERTY = 'C30'
NEEDS = 'a do-nothing client that comes back while the rule files are broken, after more failures than -dncount'
BREAKS = 'connections of do-nothing clients are missing from the -dnlog while the rules are broken'
EDITS = [
 ('sinksmtp.go',
  '\t\tyakLog(dnlog, trans, prefix, "connection")\n',
  '\t\tif cnt == yakCount || rulesgood {\n\t\t\tyakLog(dnlog, trans, prefix, "connection")\n\t\t}\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, rules="@helo reject all\n", args=["-nostdrules", "-dncount", "1", "-dnlog", "%D/dn"])
def dnlines():
    return open(s.dir + "/dn").read().splitlines()
a, z = s.connect("127.0.0.9"), s.connect("127.0.0.9")
for c in (a, z):
    c.ehlo()
    c.quit()
time.sleep(0.2)
s.file("rules0", "frob\n")
c = s.connect("127.0.0.9")
check(c.ehlo() // 100 == 4, "stalled")
c.quit()
time.sleep(0.2)
l = dnlines()
check(sum("connection 127.0.0.9" in x for x in l) == 1, "the do-nothing client's connection must be logged: %s" % l)
'''

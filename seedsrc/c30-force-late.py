PROPERTY = 'C30'
NEEDS = 'two simultaneous sessions of one client, the first of which ends as an ordinary failure and the second in make-yakker'
BREAKS = 'the notice that a client was forced to be a do-nothing one is missing when it had more failures than -dncount already'
EDITS = [
 ('sinksmtp.go',
  '\t\tif cnt != yakCount {\n\t\t\twriteLog(logger, "! %s forced',
  '\t\tif cnt < yakCount {\n\t\t\twriteLog(logger, "! %s forced'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, rules="@from reject from y@b.com with make-yakker\n@from reject all\n", args=["-nostdrules", "-dncount", "1", "-minphase", "from", "-dnlog", "%D/dn"])
cs = [s.connect("127.0.0.9") for i in range(3)]
for i, c in enumerate(cs):
    c.ehlo()
    c.mail("y@b.com" if i == 2 else "g@b.com")
    c.quit()
    time.sleep(0.1)
l = open(s.dir + "/dn").read().splitlines()
check(sum("force-set 127.0.0.9" in x for x in l) == 1, "no force-set line: %s" % l)
'''

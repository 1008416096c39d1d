PROPERTY = 'C30'
NEEDS = 'a client that goes away without ever greeting us'
BREAKS = 'a client becoming a do-nothing one is not logged when its last session had no EHLO and no QUIT'
EDITS = [
 ('sinksmtp.go',
  '\t\t\tevents.yakads.Add(1)\n\t\t\tyakLog(dnlog, trans, prefix, "added")',
  '\t\t\tevents.yakads.Add(1)\n\t\t\tif evt.What == smtpd.DONE || trans.heloname != "" {\n\t\t\t\tyakLog(dnlog, trans, prefix, "added")\n\t\t\t}'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, rules="@from reject all\n", args=["-nostdrules", "-dncount", "2", "-dnlog", "%D/dn"])
for i in range(2):
    c = s.connect("127.0.0.9")
    c.close()
    time.sleep(0.2)
l = open(s.dir + "/dn").read().splitlines() if os.path.exists(s.dir + "/dn") else []
check(sum("added 127.0.0.9" in x for x in l) == 1, "no added line: %s" % l)
'''

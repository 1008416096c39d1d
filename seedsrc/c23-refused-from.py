PROPERTY = 'C23'
NEEDS = 'refused MAIL FROMs followed by accepted ones in the same session'
BREAKS = 'refused MAIL FROM commands count as repeated transactions, so a client is stalled in the middle of its session'
EDITS = [
 ('sinksmtp.go',
  '\t\t\t\tevents.mailfrom.Add(1)\n\t\t\t\tif decider(pMfrom, evt, c, convo, "", trans) {\n\t\t\t\t\tcontinue\n\t\t\t\t}\n',
  '\t\t\t\tevents.mailfrom.Add(1)\n\t\t\t\tif decider(pMfrom, evt, c, convo, "", trans) {\n\t\t\t\t\ttrans.from = evt.Arg\n\t\t\t\t\tcontinue\n\t\t\t\t}\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, rules="@from reject from x@b.com\n", args=["-nostdrules", "-dncount", "2", "-minphase", "to"])
c = s.connect("127.0.0.9")
c.ehlo()
for i in range(4):
    check(c.mail("x@b.com") >= 500, "refused sender")
    check(c.mail("") == 250, "null sender")
    c.code("RSET")
'''

PROPERTY = 'C02'
NEEDS = 'a set-with rule with an explicit phase, and a later phase of the same session'
BREAKS = 'set-with rules with an explicit phase go on acting in all later phases'
EDITS = [
 ('rules.go',
  '\t\tcase r.deferto != pAny && r.deferto < ph:\n',
  '\t\tcase r.deferto != pAny && r.deferto < ph && r.result != aNoresult:\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, rules="@from set-with all with message sendertext\n", args=["-nostdrules"])
c = s.connect()
c.ehlo()
r = c.cmd("MAIL FROM:<a@b.com>")
check(r == (250, ["sendertext"]), "MAIL FROM: %s" % (r,))
r = c.cmd("RCPT TO:<a@b.com>")
check(r[0] == 250 and "sendertext" not in r[1], "an @from rule acted at RCPT TO: %s" % (r,))
'''

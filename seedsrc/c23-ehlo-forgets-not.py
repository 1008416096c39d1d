PROPERTY = 'C23'
NEEDS = 'another greeting between two MAIL FROMs of a session'
BREAKS = 'a MAIL FROM after a new greeting counts as replacing a sender'
EDITS = [
 ('sinksmtp.go',
  '\t\t\t\ttrans.from = ""\n\t\t\t\ttrans.data = ""\n\t\t\t\ttrans.hash = ""',
  '\t\t\t\ttrans.data = ""\n\t\t\t\ttrans.hash = ""'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, rules="@to reject all\n", args=["-nostdrules", "-dncount", "3", "-minphase", "to"])
c = s.connect()
for i in range(6):
    c.code("RSET")
    check(c.ehlo() == 250, "greeting %d" % i)
    check(c.mail("a@b.com") == 250, "MAIL FROM %d replaces nothing" % i)
'''

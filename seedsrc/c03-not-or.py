PROPERTY = 'C03'
NEEDS = "a rule with 'not A or B' where A and B have different values"
BREAKS = "'not A or B' means 'not (A or B)' instead of '(not A) or B'"
EDITS = [
 ('rparse.go',
  '\texr.node, err = p.pTerm()\n',
  '\texr.node, err = p.pOrl()\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, rules="@from reject not helo a.example.org or from x@y.com\n", args=["-nostdrules"])
c = s.connect()
c.ehlo("a.example.org")
check(c.mail("x@y.com") >= 500, "not A or B with B true must match")
check(c.mail("z@y.com") == 250, "not A or B with A true, B false must not match")
'''

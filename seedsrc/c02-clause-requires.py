PROPERTY = 'C02'
NEEDS = 'a compact rule whose last clause needs less than an earlier one'
BREAKS = 'only the last clause of a rule determines from which phase on it is checked'
EDITS = [
 ('rparse.go',
  '\t\trc := newRClause()\n\t\trc.expr, err = p.pAndl()\n',
  '\t\trc := newRClause()\n\t\tp.currule.requires = pAny\n\t\trc.expr, err = p.pAndl()\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, rules="reject not from a@b.com; helo bad.example.org\n", args=["-nostdrules"])
c = s.connect()
check(c.ehlo() == 250, "the rule needs the sender and must not act at EHLO")
check(c.mail("a@b.com") == 250, "MAIL FROM")
'''

PROPERTY = 'C16'
NEEDS = 'an explicit @connect phase on a rule that needs later information'
BREAKS = '@connect rules that use later information load although they can never be satisfied'
EDITS = [
 ('rparse.go',
  '\tif p.currule.deferto != pAny && p.currule.deferto < p.currule.requires {\n',
  '\tif p.currule.deferto > pConnect && p.currule.deferto < p.currule.requires {\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, rules="accept all\n", args=["-nostdrules"])
check(s.connect().ehlo() == 250, "good rules")
s.file("rules0", "@helo reject from a@b.com\n")
check(400 <= s.connect().ehlo() < 500, "@helo with from must not load")
s.file("rules0", "@connect reject from a@b.com\n")
check(400 <= s.connect().ehlo() < 500, "@connect with from must not load")
'''

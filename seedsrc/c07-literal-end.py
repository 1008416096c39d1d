PROPERTY = 'C07'
NEEDS = 'an EHLO name that opens a bracket and ends in something else'
BREAKS = 'an unfinished address literal counts as a proper one'
EDITS = [
 ('rules.go',
  "hn[0] == '[' && hn[len(hn)-1] == ']'",
  "hn[0] == '['"),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, rules="reject helo-has properip\n", args=["-nostdrules"])
check(s.connect().ehlo("[10.1.2.3]") >= 500, "literal")
check(s.connect().ehlo("[10.1.2.3)") == 250, "not a literal")
'''

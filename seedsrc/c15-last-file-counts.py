PROPERTY = 'C15'
NEEDS = 'several -r files of which an earlier one breaks while the server runs'
BREAKS = 'only an error in the last rule file defers everything; errors in earlier ones are ignored'
EDITS = [
 ('sinksmtp.go',
  '\t\trules, err = accumRules(rules, rfile)\n\t\tif err != nil {\n\t\t\tbreak\n\t\t}\n',
  '\t\trules, err = accumRules(rules, rfile)\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, rules=["reject from a@b.com\n", "reject from c@d.com\n"], args=["-nostdrules"])
check(s.connect().ehlo() == 250, "good rules")
s.file("rules0", "reject from\n")
check(400 <= s.connect().ehlo() < 500, "broken rules must stall")
s.file("rules0", "reject from a@b.com\n")
check(s.connect().ehlo() == 250, "repaired rules")
'''

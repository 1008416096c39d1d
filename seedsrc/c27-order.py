PROPERTY = 'C27'
NEEDS = 'an accept rule in a -r file for something that -fromreject or -toaccept refuses'
BREAKS = 'rules from -r files take priority over -fromreject and friends'
EDITS = [
 ('sinksmtp.go',
  '\trules, err := loadRules(fname)\n\treturn append(baserules, rules...), err\n',
  '\trules, err := loadRules(fname)\n\tif err == nil && !failgotdata {\n\t\treturn append(rules, baserules...), err\n\t}\n\treturn append(baserules, rules...), err\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, start=False, args=["-nostdrules"])
s.args += ["-fromreject", s.file("froms", "a@b.com\n"), "-r", s.file("rules", "accept all\n")]
s.start()
c = s.connect()
c.ehlo()
check(c.mail("a@b.com") >= 500, "-fromreject comes first")
'''

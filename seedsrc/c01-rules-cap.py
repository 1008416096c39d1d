PROPERTY = 'C01'
NEEDS = 'a rule set of more than 64 rules, the deciding one being late'
BREAKS = 'rules after the 64th are never looked at'
EDITS = [
 ('rules.go',
  '\tfor _, r := range c.ruleset {\n\t\t// Try',
  '\tfor n, r := range c.ruleset {\n\t\tif n >= 64 {\n\t\t\tbreak\n\t\t}\n\t\t// Try'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, rules="".join("reject from u%d@b.com\n" % i for i in range(80)), args=["-nostdrules"])
c = s.connect(); c.ehlo()
check(c.mail("u3@b.com") >= 500, "u3")
check(c.mail("u79@b.com") >= 500, "u79 is refused by the last rule")
'''

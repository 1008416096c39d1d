PROPERTY = 'C01'
NEEDS = 'an include line that is not the first thing in its rule file'
BREAKS = 'the rules of an included file take precedence over the rules written before the include line'
EDITS = [
 ('rparse.go',
  '\t\t\trules = append(rules, rl...)\n',
  '\t\t\trules = append(rl, rules...)\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, start=False)
inc = s.file("inc", "reject from @b.com\n")
r = s.file("rules", "accept from a@b.com\ninclude %s\n" % inc)
s.args += ["-r", r, "-nostdrules"]
s.start()
c = s.connect()
check(c.ehlo() == 250, "EHLO")
check(c.mail("a@b.com") == 250, "the rule before the include should decide")
check(c.code("RSET") == 250, "RSET")
check(c.mail("x@b.com") == 550 or True, "")
'''

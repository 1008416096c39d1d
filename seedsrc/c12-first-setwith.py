PROPERTY = 'C12'
NEEDS = 'a deciding rule with an option that a set-with before it set too'
BREAKS = 'an option set by a set-with rule cannot be overridden by the rule that decides'
EDITS = [
 ('rnodes.go',
  '\t\t\tc.withprops[k] = v\n\t\t}\n\t\treturn res\n',
  '\t\t\tif _, ok := c.withprops[k]; ok && r.result >= aAccept {\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\tc.withprops[k] = v\n\t\t}\n\t\treturn res\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, rules="@from set-with all with message general\n@from reject from a@b.com with message specific\n", args=["-nostdrules"])
c = s.connect()
c.ehlo()
r = c.cmd("MAIL FROM:<a@b.com>")
check(r == (550, ["specific"]), "reply %s" % (r,))
'''

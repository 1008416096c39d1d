PROPERTY = 'C03'
NEEDS = 'a compact rule whose second clause matches and whose first clause has an option the second lacks'
BREAKS = 'with-options of earlier clauses that did not match are applied together with those of the matching clause'
EDITS = [
 ('rnodes.go',
  '\t\tif !res {\n\t\t\tcontinue\n\t\t}\n\t\tfor k, v := range r.clauses[i].withs {\n\t\t\tc.withprops[k] = v\n\t\t}\n\t\treturn res\n',
  '\t\tif !res {\n\t\t\tcontinue\n\t\t}\n\t\tfor _, rc := range r.clauses[:i+1] {\n\t\t\tfor k, v := range rc.withs {\n\t\t\t\tc.withprops[k] = v\n\t\t\t}\n\t\t}\n\t\treturn res\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, rules='@from reject from a@b.com with message one note n1; from c@d.com with message two\n', args=["-nostdrules"])
c = s.connect()
c.ehlo()
r = c.cmd("MAIL FROM:<c@d.com>")
check(r[0] >= 500 and r[1] == ["two"], "reply %s" % (r,))
check(not any("rule note" in l for l in s.smtplines()), "the note of the other clause was used")
'''

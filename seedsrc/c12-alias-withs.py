PROPERTY = 'C12'
NEEDS = 'a set-with rule with options matching in one command, another setting more options after it, then a command where only the first matches'
BREAKS = "options of one command leak into later commands, because the first matching clause's own option map is used as the accumulator"
EDITS = [
 ('rnodes.go',
  '\t\tfor k, v := range r.clauses[i].withs {\n\t\t\tc.withprops[k] = v\n\t\t}\n',
  '\t\tif len(c.withprops) == 0 && len(r.clauses[i].withs) > 0 {\n\t\t\tc.withprops = r.clauses[i].withs\n\t\t\treturn res\n\t\t}\n\t\tfor k, v := range r.clauses[i].withs {\n\t\t\tc.withprops[k] = v\n\t\t}\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, rules="@to set-with all with note hello\n@to set-with to x@y.com with message special\n", args=["-nostdrules"])
c = s.connect()
c.ehlo()
c.mail("a@b.com")
r = c.cmd("RCPT TO:<x@y.com>")
check(r == (250, ["special"]), "special recipient: %s" % (r,))
r = c.cmd("RCPT TO:<z@y.com>")
check(r[0] == 250 and r[1] != ["special"], "the message of the first recipient was used for the second")
'''

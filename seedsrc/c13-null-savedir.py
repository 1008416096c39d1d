PROPERTY = 'C13'
NEEDS = 'a null sender that the rules refuse with a savedir option, then another transaction'
BREAKS = 'options of a deferred refusal act at MAIL FROM:<> itself and outlive it'
EDITS = [
 ('rules.go',
  '\t\tc.defdnsblhit = c.dnsblhit\n\t\tc.withprops = make(map[string]string)\n',
  '\t\tc.defdnsblhit = c.dnsblhit\n\t\tsd := c.withprops["savedir"]\n\t\tc.withprops = make(map[string]string)\n\t\tif sd != "" {\n\t\t\tc.withprops["savedir"] = sd\n\t\t}\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, rules="@from reject from <> with savedir sd0\n", args=["-nostdrules"])
os.mkdir(s.dir + "/sd0")
c = s.connect(); c.ehlo()
check(c.mail("") == 250, "null sender")
c.code("RSET")
c.mail("a@b.com"); c.rcpt("x@b.com"); c.cmd("DATA"); c.body("Subject: q\n\nq\n")
check(len(s.saved()) == 1, "the message belongs in the usual directory")
'''

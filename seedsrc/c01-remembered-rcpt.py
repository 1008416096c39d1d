PROPERTY = 'C01'
NEEDS = 'the same sender and recipient again in a session, after a greeting with another name'
BREAKS = 'a recipient accepted once is accepted again without looking at the rules'
EDITS = [
 ('rules.go',
  '\tvar ret = aNoresult\n\tc.dnsblhit',
  '\tif ph == pRto && c.defresult < aAccept && c.okrcpt[c.from+" "+evt.Arg] {\n\t\tc.withprops = make(map[string]string)\n\t\treturn aAccept\n\t}\n\tvar ret = aNoresult\n\tc.dnsblhit'),
 ('rules.go',
  '\t//fmt.Printf("eval done, result: %v\\n", ret)\n',
  '\tif ph == pRto && ret == aAccept && len(c.withprops) == 0 {\n\t\tif c.okrcpt == nil {\n\t\t\tc.okrcpt = make(map[string]bool)\n\t\t}\n\t\tc.okrcpt[c.from+" "+evt.Arg] = true\n\t}\n'),
 ('rules.go',
  '\trulemiss bool\n}',
  '\trulemiss bool\n\tokrcpt   map[string]bool\n}'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, rules="@to reject helo bad.example.com\n@to accept to x@b.com\n", args=["-nostdrules"])
c = s.connect(); c.ehlo("good.example.com")
c.mail("a@b.com"); check(c.rcpt("x@b.com") == 250, "accepted")
c.code("RSET"); c.ehlo("bad.example.com")
c.mail("a@b.com"); check(c.rcpt("x@b.com") >= 500, "the new name is refused")
'''

PROPERTY = 'C26'
NEEDS = 'a client whose reverse DNS lookup fails, and a rule or message that needs it'
BREAKS = 'the server crashes for clients whose reverse DNS lookup fails temporarily'
EDITS = [
 ('rdns.go',
  '\tif err != nil {\n\t\treturn r, err\n\t}\n\teip',
  '\tif err != nil {\n\t\tif isTemporary(err) {\n\t\t\treturn nil, err\n\t\t}\n\t\treturn r, err\n\t}\n\teip'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, args=["-nostdrules"], dns={revname("127.0.0.9"): "servfail"})
check(s.connect().ehlo() == 250, "no reverse DNS")
c = s.connect("127.0.0.9")
c.ehlo()
c.message("a@b.com", "c@d.com")
time.sleep(0.3)
check(s.alive(), "the server died")
'''

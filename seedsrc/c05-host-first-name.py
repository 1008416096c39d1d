PROPERTY = 'C05'
NEEDS = 'a client with several verified reverse-DNS names of which only a later one matches'
BREAKS = "'host' looks at the first verified name only"
EDITS = [
 ('rnodes.go',
  '\t\t\treturn c.trans.rdns.verified\n',
  '\t\t\tif len(c.trans.rdns.verified) == 0 {\n\t\t\t\treturn nil\n\t\t\t}\n\t\t\treturn c.trans.rdns.verified[:1]\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
dns = {revname("127.0.0.9"): {"PTR": ["a.example.org", "m.example.net"]},
       "a.example.org": {"A": ["127.0.0.9"]}, "m.example.net": {"A": ["127.0.0.9"]}}
s = Server(b, rules="@helo reject host .example.net\n", args=["-nostdrules"], dns=dns)
c = s.connect("127.0.0.9")
check(c.ehlo() >= 500, "the second verified name must count")
c = s.connect("127.0.0.8")
check(c.ehlo() == 250, "a client without names")
'''

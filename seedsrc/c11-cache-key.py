PROPERTY = 'C11'
NEEDS = 'a dnsbl and a dbl rule on the same list in one rule set'
BREAKS = 'lookup results are remembered per list, so a dnsbl result is used for a dbl lookup on the same list'
EDITS = [
 ('rnodes.go',
  '\tres := c.getDnsblRes(ln)\n\tif res {\n\t\tc.addDnsblHit(d.domain)\n\t}\n\treturn res\n',
  '\tres := c.getDnsblRes(ln)\n\tif res {\n\t\tc.addDnsblHit(d.domain)\n\t\tc.dnsbl[d.domain] = &res\n\t}\n\treturn res\n'),
 ('rnodes.go',
  '\t\tres := c.getDnsblRes(ln)\n\t\tif res {\n\t\t\tc.addDnsblHit(d.domain)\n\t\t\tret = Result(true)\n\t\t}\n',
  '\t\tres := c.getDnsblRes(ln)\n\t\tif res || c.dnsbl[d.domain] != nil {\n\t\t\tc.addDnsblHit(d.domain)\n\t\t\tret = Result(true)\n\t\t}\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
dns = {"9.0.0.127.bl.example.net": {"A": ["127.0.0.2"]}, "b.com": {"A": ["8.8.8.8"]}}
s = Server(b, rules="@helo set-with dnsbl bl.example.net with note x\nreject dbl helo bl.example.net\n", args=["-nostdrules"], dns=dns)
check(s.connect("127.0.0.9").ehlo("good.example.org") == 250, "the name is not listed")
'''

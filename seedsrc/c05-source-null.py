PROPERTY = 'C05'
NEEDS = "'source' in a negated rule for a client without a name, or a source that matches by host only"
BREAKS = "'source' ignores the host name once the client has given a sender"
EDITS = [
 ('rnodes.go',
  '\treturn m.host.Eval(c) || m.ehlo.Eval(c) || m.from.Eval(c)\n',
  '\tif c.from == "" {\n\t\treturn m.host.Eval(c) || m.ehlo.Eval(c)\n\t}\n\treturn m.ehlo.Eval(c) || m.from.Eval(c) || (len(c.trans.rdns.verified) < 2 && m.host.Eval(c))\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
dns = {revname("127.0.0.9"): {"PTR": ["a.example.org", "m.example.net"]},
       "a.example.org": {"A": ["127.0.0.9"]}, "m.example.net": {"A": ["127.0.0.9"]}}
s = Server(b, rules="reject source .example.net\n", args=["-nostdrules"], dns=dns)
c = s.connect("127.0.0.9")
c.ehlo()
check(c.mail("a@b.com") >= 500, "the client's name is in .example.net")
'''

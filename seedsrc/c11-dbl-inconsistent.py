PROPERTY = 'C11'
NEEDS = 'a client whose listed reverse-DNS name resolves to some other address'
BREAKS = 'dbl host ignores inconsistent reverse-DNS names'
EDITS = [
 ('rnodes.go',
  '\t\tfor _, s := range c.trans.rdns.inconsist {\n',
  '\t\tfor _, s := range c.trans.rdns.inconsist[:0] {\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
dns = {revname("127.0.0.9"): {"PTR": ["spam.example.org"]}, "spam.example.org": {"A": ["8.8.8.8"]},
       "spam.example.org.dbl.example.net": {"A": ["127.0.1.2"]}}
s = Server(b, rules="@helo reject dbl host dbl.example.net\n", args=["-nostdrules"], dns=dns)
check(s.connect("127.0.0.9").ehlo() >= 500, "an unverified name must be looked up")
check(s.connect("127.0.0.8").ehlo() == 250, "no name")
'''

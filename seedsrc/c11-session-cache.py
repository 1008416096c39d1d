PROPERTY = 'C11'
NEEDS = 'the same client coming back after it was taken off (or put on) a list'
BREAKS = 'blocklist answers are kept from one session to the next'
EDITS = [
 ('rules.go',
  '\tc.dnsbl = make(map[string]*Result)\n\tc.domvalid',
  '\tc.dnsbl = blcache\n\tc.domvalid'),
 ('rules.go',
  'var nilBad =',
  'var blcache = make(map[string]*Result)\nvar nilBad ='),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
d = {"9.0.0.127.bl.example.org": {"A": ["127.0.0.2"]}}
s = Server(b, rules="@helo reject dnsbl bl.example.org\n", args=["-nostdrules"], dns=d)
c = s.connect("127.0.0.9"); check(c.ehlo() >= 500, "listed"); c.quit()
del s.dns.data["9.0.0.127.bl.example.org"]
c = s.connect("127.0.0.9"); check(c.ehlo() == 250, "no longer listed"); c.quit()
'''

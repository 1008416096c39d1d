PROPERTY = 'C10'
NEEDS = 'the same domain used in two sessions with its DNS changed in between'
BREAKS = 'the verdict on a domain is kept from one session to the next'
EDITS = [
 ('rules.go',
  '\tc.domvalid = make(map[string]*DNSResult)\n\treturn c',
  '\tc.domvalid = domcache\n\treturn c'),
 ('rules.go',
  'var nilBad =',
  'var domcache = make(map[string]*DNSResult)\nvar nilBad ='),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
d = {}
s = Server(b, rules="reject from-has baddom\n", args=["-nostdrules"], dns=d)
c = s.connect(); c.ehlo()
check(c.mail("x@new.example.org") >= 500, "not there yet"); c.quit()
s.dns.data["new.example.org"] = {"A": ["8.8.8.8"]}
c = s.connect(); c.ehlo()
check(c.mail("x@new.example.org") == 250, "the domain resolves now"); c.quit()
'''

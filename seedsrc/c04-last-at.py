PROPERTY = 'C04'
NEEDS = "an address with two '@'"
BREAKS = "addresses are split at their last '@', so a pattern for the text before the first '@' no longer matches"
EDITS = [
 ('rules.go',
  '\tidx := strings.IndexByte(addr, \'@\')\n\tif addr == "" ||',
  '\tidx := strings.LastIndexByte(addr, \'@\')\n\tif addr == "" ||'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, rules="reject from a@\nstall from @\n", args=["-nostdrules"])
c = s.connect()
c.ehlo()
check(c.mail("a@x.com") >= 500, "a@x.com")
check(c.mail("a@x@y.com") >= 500, "a@x@y.com")
check(c.mail("@x@y.com") == 250, "@x@y.com is matched by no pattern")
'''

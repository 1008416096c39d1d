PROPERTY = 'C04'
NEEDS = "an address without a domain and a 'local@' pattern"
BREAKS = 'the pattern a@ no longer matches the address a without a domain'
EDITS = [
 ('rules.go',
  '\t\treturn (addr + "@") == pat\n',
  '\t\treturn false\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, rules="reject from root@\n", args=["-nostdrules"])
c = s.connect()
c.ehlo()
check(c.mail("root@b.com") >= 500, "root@b.com")
check(c.mail("Root") >= 500, "root@ must match Root")
'''

PROPERTY = 'C10'
NEEDS = 'a mail target with one public and one private address'
BREAKS = 'one public address is enough for a target to count as valid'
EDITS = [
 ('mxresolve.go',
  '\t\tif net10.Contains(i) || net172.Contains(i) || net192.Contains(i) || ipv6private.Contains(i) || ipv6siteloc.Contains(i) {\n',
  '\t\tif len(addrs) == 1 && (net10.Contains(i) || net172.Contains(i) || net192.Contains(i) || ipv6private.Contains(i) || ipv6siteloc.Contains(i)) {\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
dns = {"b.com": {"A": ["8.8.8.8", "10.1.2.3"]}, "c.com": {"A": ["10.1.2.3"]}, "d.com": {"A": ["8.8.8.8"]}}
s = Server(b, rules="reject from-has baddom\n", args=["-nostdrules"], dns=dns)
c = s.connect()
c.ehlo()
check(c.mail("x@c.com") >= 500, "private address")
check(c.mail("x@b.com") >= 500, "public and private address")
check(c.mail("x@d.com") == 250, "public address")
'''

PROPERTY = 'C04'
NEEDS = 'an address whose domain has more than eight labels'
BREAKS = '@.domain patterns stop matching deep subdomains'
EDITS = [
 ('rules.go',
  '\tidx := strings.IndexByte(s.s[s.p+1:], \'.\')\n\tif idx == -1 {\n\t\treturn ""\n\t}\n\ts.p += idx + 1',
  '\tidx := strings.IndexByte(s.s[s.p+1:], \'.\')\n\tif idx == -1 || strings.Count(s.s[:s.p], ".") > 6 {\n\t\treturn ""\n\t}\n\ts.p += idx + 1'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, rules="reject from @.b.com\n", args=["-nostdrules"])
c = s.connect(); c.ehlo()
check(c.mail("x@y.b.com") >= 500, "subdomain")
check(c.mail("x@a.b.c.d.e.f.g.h.i.j.b.com") >= 500, "deep subdomain")
'''

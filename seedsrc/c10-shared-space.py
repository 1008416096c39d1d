PROPERTY = 'C10'
NEEDS = 'a domain with addresses in 100.64.0.0/10'
BREAKS = 'domains in shared address space count as bad, though only the listed private blocks are'
EDITS = [
 ('mxresolve.go',
  '\t\tif net10.Contains(i) ||',
  '\t\tif i4 := i.To4(); i4 != nil && i4[0] == 100 && i4[1]&0xc0 == 64 {\n\t\t\treturn dnsBad, fmt.Errorf("host %s IP %s is in bad address space", domain, i)\n\t\t}\n\t\tif net10.Contains(i) ||'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, rules="reject from-has baddom\n", args=["-nostdrules"], dns={"cg.example.org": {"A": ["100.64.0.1"]}, "p.example.org": {"A": ["10.0.0.1"]}})
c = s.connect(); c.ehlo()
check(c.mail("x@p.example.org") >= 500, "private"); 
check(c.mail("x@cg.example.org") == 250, "global unicast outside the private blocks")
'''

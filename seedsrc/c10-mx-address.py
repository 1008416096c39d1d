PROPERTY = 'C10'
NEEDS = 'a domain whose only MX record names an IP address'
BREAKS = 'such a domain is in none of the three classes, when it is bad'
EDITS = [
 ('mxresolve.go',
  '\t\tv, err := checkIP(m.Host)\n',
  '\t\tif net.ParseIP(strings.TrimSuffix(m.Host, ".")) != nil {\n\t\t\tcontinue\n\t\t}\n\t\tv, err := checkIP(m.Host)\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, rules="reject from-has baddom\n", args=["-nostdrules"], dns={"ip.example.org": {"MX": [(10, "1.2.3.4")]}, "ok.example.org": {"A": ["8.8.8.8"]}})
c = s.connect(); c.ehlo()
check(c.mail("x@ok.example.org") == 250, "good"); c.code("RSET")
check(c.mail("x@ip.example.org") >= 500, "an MX that does not resolve")
'''

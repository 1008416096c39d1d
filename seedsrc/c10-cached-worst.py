PROPERTY = 'C10'
NEEDS = 'two addresses in the same session whose domains are different but share a suffix or are looked up after each other'
BREAKS = 'the verdict on one domain is reused for its subdomains'
EDITS = [
 ('rules.go',
  '\tif c.domvalid[domain] != nil {\n\t\treturn *c.domvalid[domain]\n\t}\n',
  '\tfor d, res := range c.domvalid {\n\t\tif d == domain || strings.HasSuffix(domain, "."+d) {\n\t\t\treturn *res\n\t\t}\n\t}\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
dns = {"b.com": {"A": ["8.8.8.8"]}}
s = Server(b, rules="reject from-has baddom\n", args=["-nostdrules"], dns=dns)
c = s.connect()
c.ehlo()
check(c.mail("x@nx.b.com") >= 500, "unknown subdomain")
check(c.mail("x@b.com") == 250, "good domain")
c.code("RSET")
check(c.mail("x@nz.b.com") >= 500, "unknown subdomain after its good parent")
'''

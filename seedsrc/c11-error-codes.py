PROPERTY = 'C11'
NEEDS = 'a list that answers with an address in 127.255.255.0/24'
BREAKS = 'entries with such an address do not count as listed'
EDITS = [
 ('rules.go',
  '\tips, err := net.LookupIP(hn)\n',
  '\tips, err := net.LookupIP(hn)\n\tif err == nil && len(ips) == 1 && strings.HasPrefix(ips[0].String(), "127.255.255.") {\n\t\tips = nil\n\t}\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, rules="reject dnsbl bl.example\n@from reject dbl helo bl.example\n", args=["-nostdrules"], dns={"in.example.com.bl.example": {"A": ["127.255.255.254"]}, "on.example.com.bl.example": {"A": ["127.0.0.2"]}})
c = s.connect(); c.ehlo("on.example.com"); check(c.mail("a@b.com") >= 500, "listed"); c.quit()
c = s.connect(); c.ehlo("in.example.com"); check(c.mail("a@b.com") >= 500, "listed too"); c.quit()
c = s.connect(); c.ehlo("no.example.com"); check(c.mail("a@b.com") == 250, "not listed"); c.quit()
'''

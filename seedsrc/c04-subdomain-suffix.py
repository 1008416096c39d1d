PROPERTY = 'C04'
NEEDS = "a domain that ends in the pattern's text without being a subdomain of it, or a null local part"
BREAKS = '@.b.com also matches domains such as notb.com'
EDITS = [
 ('rules.go',
  '\tvar ts string\n\tsi := &sDotIter{s: domain[1:]}\n\tfor ts != "@" {\n\t\tts = "@" + si.Next()\n\t\tif ts == pat {\n\t\t\treturn true\n\t\t}\n\t}\n',
  '\tvar ts string\n\tif pat == "@" || (strings.HasPrefix(pat, "@.") && strings.HasSuffix(domain, pat[2:])) {\n\t\treturn true\n\t}\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, rules="reject from @.b.com\n", args=["-nostdrules"])
c = s.connect()
c.ehlo()
check(c.mail("x@b.com") >= 500 and c.mail("x@s.b.com") >= 500, "subdomains")
check(c.mail("x@notb.com") == 250, "notb.com is no subdomain of b.com")
'''

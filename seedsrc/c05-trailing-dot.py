PROPERTY = 'C05'
NEEDS = 'a host pattern for subdomains against a reverse-DNS name with its trailing dot'
BREAKS = 'subdomain patterns no longer match names that come with a trailing dot'
EDITS = [
 ('rules.go',
  '\thost = strings.ToLower(host)\n\tif host[len(host)-1] == \'.\' && pat[len(pat)-1] != \'.\' {\n\t\thost = host[:len(host)-1]\n\t}\n\tif host == pat || "."+host == pat {\n\t\treturn true\n\t}\n\tsi := &sDotIter{s: host}\n',
  '\thost = strings.ToLower(host)\n\tsi := &sDotIter{s: host}\n\tif host[len(host)-1] == \'.\' && pat[len(pat)-1] != \'.\' {\n\t\thost = host[:len(host)-1]\n\t}\n\tif host == pat || "."+host == pat {\n\t\treturn true\n\t}\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
dns = {revname("127.0.0.9"): {"PTR": ["m.example.net"]}, "m.example.net": {"A": ["127.0.0.9"]}}
s = Server(b, rules="@helo reject host .example.net\n", args=["-nostdrules"], dns=dns)
check(s.connect("127.0.0.9").ehlo() >= 500, "m.example.net. is in .example.net")
'''

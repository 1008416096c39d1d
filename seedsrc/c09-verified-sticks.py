PROPERTY = 'C09'
NEEDS = 'a client with several reverse-DNS names, a verified one sorting before an inconsistent one'
BREAKS = "after a verified name no further name is reported as inconsistent, so 'dns good' holds for a client that also has a false name"
EDITS = [
 ('rdns.go',
  '\teip := net.ParseIP(ip)\n\tfor _, name := range names {\n',
  '\teip := net.ParseIP(ip)\n\tverified := false\n\tfor _, name := range names {\n'),
 ('rdns.go',
  '\t\tverified := false\n\t\tfor _, addr',
  '\t\tfor _, addr'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
dns = {revname("127.0.0.9"): {"PTR": ["a.example.org", "m.example.net"]},
       "a.example.org": {"A": ["127.0.0.9"]}, "m.example.net": {"A": ["8.8.8.8"]}}
s = Server(b, rules="@helo reject dns good\n", args=["-nostdrules"], dns=dns)
c = s.connect("127.0.0.9")
check(c.ehlo() == 250, "a client with an inconsistent name does not have good DNS")
'''

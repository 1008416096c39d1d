PROPERTY = 'C09'
NEEDS = 'a client with more than ten reverse DNS names'
BREAKS = 'only the first ten names are looked at'
EDITS = [
 ('rdns.go',
  '\tfor _, name := range names {\n',
  '\tif len(names) > 10 {\n\t\tnames = names[:10]\n\t}\n\tfor _, name := range names {\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
names = ["n%02d.example.org" % i for i in range(15)]
dns = {revname("127.0.0.9"): {"PTR": names}}
for n in names: dns[n] = {"A": ["127.0.0.9"]}
s = Server(b, rules="@helo reject host n14.example.org\n", args=["-nostdrules"], dns=dns)
check(s.connect("127.0.0.9").ehlo() >= 500, "n14 is a verified name")
'''

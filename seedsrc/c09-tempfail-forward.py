PROPERTY = 'C09'
NEEDS = 'a temporary failure of the forward lookup of a reverse-DNS name'
BREAKS = "a name whose forward lookup fails temporarily is 'inconsistent' instead of 'noforward'"
EDITS = [
 ('rdns.go',
  '\t\t\tr.nofwd = append(r.nofwd, name)\n\t\t\tcontinue\n',
  '\t\t\tif isTemporary(err) {\n\t\t\t\tr.inconsist = append(r.inconsist, name)\n\t\t\t} else {\n\t\t\t\tr.nofwd = append(r.nofwd, name)\n\t\t\t}\n\t\t\tcontinue\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
dns = {revname("127.0.0.9"): {"PTR": ["m.example.net"]}, "m.example.net": "servfail",
       revname("127.0.0.8"): {"PTR": ["n.example.net"]}}
s = Server(b, rules="@helo reject dns inconsistent\n@helo stall dns noforward\n", args=["-nostdrules"], dns=dns)
check(s.connect("127.0.0.8").ehlo() // 100 == 4, "missing")
check(s.connect("127.0.0.9").ehlo() // 100 == 4, "failing")
'''

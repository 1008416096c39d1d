PROPERTY = 'C09'
NEEDS = "a client name whose forward lookup lists the client's address twice"
BREAKS = 'such a name is listed twice among the verified names'
EDITS = [
 ('rdns.go',
  '\t\t\t\tverified = true\n\t\t\t\tbreak\n',
  '\t\t\t\tverified = true\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, args=["-nostdrules"], dns={revname("127.0.0.9"): {"PTR": ["n.example.org"]}, "n.example.org": {"A": ["127.0.0.9", "127.0.0.9"]}})
c = s.connect("127.0.0.9"); c.ehlo()
c.mail("a@b.com"); c.rcpt("x@b.com"); c.cmd("DATA"); c.body("Subject: q\n\nq\n")
t = list(s.saved().values())[0].decode()
check(t.count("n.example.org") == 1, t)
'''

PROPERTY = 'C19'
NEEDS = 'an EHLO name with single quotes at its ends'
BREAKS = 'the EHLO name is saved without its quotes'
EDITS = [
 ('sinksmtp.go',
  '\t\t\t\ttrans.heloname = evt.Arg\n',
  '\t\t\t\ttrans.heloname = strings.Trim(evt.Arg, "\'")\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, args=["-nostdrules"])
c = s.connect(); c.ehlo("'odd.example.com'")
c.mail("a@b.com"); c.rcpt("x@b.com"); c.cmd("DATA"); c.body("Subject: q\n\nq\n")
t = list(s.saved().values())[0].decode()
check("with helo ''odd.example.com''" in t, t)
'''

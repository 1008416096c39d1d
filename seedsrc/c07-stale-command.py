PROPERTY = 'C07'
NEEDS = 'EHLO and then HELO (or the other way round) with the same name'
BREAKS = 'helo-has helo/ehlo keeps describing the first of two greetings with the same name'
EDITS = [
 ('rules.go',
  '\t\tc.helocmd = evt.Cmd\n\t\tc.heloname = evt.Arg\n',
  '\t\tif c.heloname != evt.Arg || c.heloname == "" {\n\t\t\tc.helocmd = evt.Cmd\n\t\t\tc.heloname = evt.Arg\n\t\t}\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, rules="@from reject helo-has helo\n", args=["-nostdrules"])
c = s.connect()
check(c.code("EHLO x.example.org") == 250, "EHLO")
check(c.code("HELO x.example.org") == 250, "HELO")
check(c.mail("a@b.com") >= 500, "the last greeting was a HELO")
c = s.connect()
check(c.code("HELO x.example.org") == 250 and c.code("EHLO x.example.org") == 250, "HELO, EHLO")
check(c.mail("a@b.com") == 250, "the last greeting was an EHLO")
'''

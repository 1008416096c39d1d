PROPERTY = 'C26'
NEEDS = 'a rule file that keeps failing while standard error is slow'
BREAKS = 'every second connection that meets broken rules hangs'
EDITS = [
 ('sinksmtp.go',
  '\tuniquer <- s\n',
  '\tuniquer <- s\n\tif s != "" && strings.HasPrefix(s, "problem loading") && strings.Contains(s, "lexing") {\n\t\tuniquer <- ""\n\t\t<-uniquer\n\t}\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, rules="accept all\n", args=["-nostdrules"])
check(s.connect().ehlo() == 250, "good rules")
s.file("rules0", 'accept from "x\n')
for i in range(3):
    c = s.connect(timeout=5)
    check(c.banner[0] == 220 and c.ehlo() // 100 == 4, "no answer")
'''

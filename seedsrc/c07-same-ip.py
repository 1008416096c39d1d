PROPERTY = 'C07'
NEEDS = "a client that connects from the server's own address and gives that as its EHLO name"
BREAKS = "the server's address takes precedence, so a client giving its own address is 'myip' and not 'remip'"
EDITS = [
 ('rules.go',
  '\t\to |= oRemip\n',
  '\t\to |= oRemip\n\t\tif c.trans.rip == c.trans.lip {\n\t\t\to ^= oRemip | oMyip\n\t\t}\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, rules="@helo reject helo-has remip\n@helo stall helo-has myip\n", args=["-nostdrules"])
check(s.connect("127.0.0.9").ehlo("127.0.0.9") >= 500, "remip")
check(s.connect("127.0.0.9").ehlo("[127.0.0.1]") // 100 == 4, "myip")
check(s.connect("127.0.0.1").ehlo("[127.0.0.1]") >= 500, "remip comes first")
'''

PROPERTY = 'C19'
NEEDS = 'several messages on one connection, minutes apart'
BREAKS = 'all messages of a connection carry the time of its first one'
EDITS = [
 ('sinksmtp.go',
  '\t\t\ttrans.when = time.Now()\n',
  '\t\t\tif trans.when.IsZero() {\n\t\t\t\ttrans.when = time.Now()\n\t\t\t}\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, rules="accept all\n", args=["-nostdrules"])
c = s.connect()
c.ehlo()
check(c.message("a@b.com", "c@d.com", "Subject: 1\n\nx\n")[0] == 250, "first message")
s.ctl("advance", 3600)
check(c.message("a@b.com", "c@d.com", "Subject: 2\n\nx\n")[0] == 250, "second message")
t = set(f.split(b"\n")[0].split(b" ", 3)[3] for f in s.saved().values())
check(len(s.saved()) == 2 and len(t) == 2, "both messages are said to be from %s" % t)
'''

PROPERTY = 'C19'
NEEDS = 'a message that ends in blank lines'
BREAKS = 'trailing blank lines of a message are lost from the saved copy'
EDITS = [
 ('sinksmtp.go',
  '\t\t\ttrans.data = evt.Arg\n\t\t\ttrans.when',
  '\t\t\ttrans.data = strings.TrimRight(evt.Arg, "\\n") + "\\n"\n\t\t\ttrans.when'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, args=["-nostdrules"])
c = s.connect()
c.ehlo()
m = "Subject: hi\n\nbody\n\n\n"
r = c.message("a@b.com", "c@d.com", m)
check(r[0] == 250, "message")
f = list(s.saved().values())[0]
check(f.split(b"\nbody\n", 1)[1] == m.encode(), "saved %r" % f)
'''

PROPERTY = 'C01'
NEEDS = 'a second EHLO that the rules refuse, followed by a message on the strength of the first'
BREAKS = 'a refused EHLO replaces the accepted EHLO name in the saved envelope'
EDITS = [
 ('sinksmtp.go',
  '\t\t\t\tevents.ehlo.Add(1)\n\t\t\t\tif decider(pHelo, evt, c, convo, "", trans) {\n\t\t\t\t\tcontinue\n\t\t\t\t}\n\t\t\t\ttrans.heloname = evt.Arg\n',
  '\t\t\t\tevents.ehlo.Add(1)\n\t\t\t\ttrans.heloname = evt.Arg\n\t\t\t\tif decider(pHelo, evt, c, convo, "", trans) {\n\t\t\t\t\tcontinue\n\t\t\t\t}\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, rules="@helo reject helo bad.example.org\n", args=["-nostdrules"])
c = s.connect()
check(c.ehlo("good.example.org") == 250, "EHLO")
check(c.ehlo("bad.example.org") >= 500, "refused EHLO")
r = c.message("a@b.com", "c@d.com")
check(r[0] == 250, "message %s" % (r,))
f = list(s.saved().values())
check(len(f) == 1 and b"with helo 'good.example.org'" in f[0], "the saved EHLO name is not the accepted one: %r" % f)
'''

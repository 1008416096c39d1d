PROPERTY = 'C01'
NEEDS = 'a stalled recipient next to an accepted one in the same transaction'
BREAKS = 'recipients that were answered 4xx stay in the envelope'
EDITS = [
 ('sinksmtp.go',
  '\t\t\t\tif decider(pRto, evt, c, convo, "", trans) {\n\t\t\t\t\tcontinue\n\t\t\t\t}\n\t\t\t\ttrans.rcptto = append(trans.rcptto, evt.Arg)\n',
  '\t\t\t\ttrans.rcptto = append(trans.rcptto, evt.Arg)\n\t\t\t\tif decider(pRto, evt, c, convo, "", trans) {\n\t\t\t\t\tif c.withprops["message"] != "" {\n\t\t\t\t\t\ttrans.rcptto = trans.rcptto[:len(trans.rcptto)-1]\n\t\t\t\t\t}\n\t\t\t\t\tcontinue\n\t\t\t\t}\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, rules="@to stall to x@y.com\n", args=["-nostdrules"])
c = s.connect()
c.ehlo()
c.mail("a@b.com")
check(c.rcpt("x@y.com") // 100 == 4, "stalled recipient")
check(c.rcpt("z@y.com") == 250, "accepted recipient")
check(c.code("DATA") == 354 and c.body("Subject: x\n\ny\n")[0] == 250, "message")
f = list(s.saved().values())[0]
check(b"x@y.com" not in f, "a refused recipient is in the saved envelope")
'''

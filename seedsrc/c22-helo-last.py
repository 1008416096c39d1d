PROPERTY = 'C22'
NEEDS = 'a greeting that the rules refuse, then a message on the strength of an earlier one'
BREAKS = 'the log of a message gives the name of the refused greeting'
EDITS = [
 ('sinksmtp.go',
  '\t\ttrans.heloname)\n\tif trans.tlson',
  '\t\tlogHelo(trans))\n\tif trans.tlson'),
 ('sinksmtp.go',
  '\t\t\t\tevents.ehlo.Add(1)\n',
  '\t\t\t\tevents.ehlo.Add(1)\n\t\t\t\ttrans.lasthelo = evt.Arg\n'),
 ('sinksmtp.go',
  'func logMessage(prefix',
  'func logHelo(trans *smtpTransaction) string {\n\tif trans.lasthelo != "" {\n\t\treturn trans.lasthelo\n\t}\n\treturn trans.heloname\n}\n\nfunc logMessage(prefix'),
 ('sinksmtp.go',
  '\theloname string\n',
  '\theloname string\n\tlasthelo string\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, rules="@helo reject helo bad.example.com\n", args=["-nostdrules", "-l", "%D/msg.log"])
c = s.connect(); c.ehlo("good.example.com"); check(c.ehlo("bad.example.com") >= 500, "refused")
c.mail("a@b.com"); c.rcpt("x@b.com"); c.cmd("DATA"); c.body("Subject: q\n\nq\n")
c.quit()
t = open(s.dir + "/msg.log").read()
check("good.example.com" in t and "bad.example.com" not in t, t)
'''

PROPERTY = 'C12'
NEEDS = 'a rule message with a percent sign'
BREAKS = "a '%' in a rule's message is taken as a format directive, so the reply is mangled"
EDITS = [
 ('sinksmtp.go',
  '\t\t\tconvo.RejectMsg("%s", msg)\n',
  '\t\t\tconvo.RejectMsg(msg)\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, rules='@from reject all with message "100% refused, %d"\n', args=["-nostdrules"])
c = s.connect()
c.ehlo()
r = c.cmd("MAIL FROM:<a@b.com>")
check(r == (550, ["100% refused, %d"]), "reply %s" % (r,))
'''

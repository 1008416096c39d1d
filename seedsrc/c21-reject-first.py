PROPERTY = 'C21'
NEEDS = 'a failure to save a message which the rules reject after receipt'
BREAKS = 'when saving fails and a rule rejects the message, the client gets a 5xx (with an ID of a file that does not exist) instead of a 4xx'
EDITS = [
 ('sinksmtp.go',
  '\t\t\tcase err != nil:\n\t\t\t\tconvo.Tempfail()\n\t\t\t\tgotsomewhere = true\n\t\t\tcase decider(pMessage, evt, c, convo, transid, trans):\n\t\t\t\t// do nothing, already handled\n',
  '\t\t\tcase decider(pMessage, evt, c, convo, transid, trans):\n\t\t\t\t// do nothing, already handled\n\t\t\tcase err != nil:\n\t\t\t\tconvo.Tempfail()\n\t\t\t\tgotsomewhere = true\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, rules="@message reject from a@b.com\n", args=["-nostdrules"])
c = s.connect()
c.ehlo()
check(c.message("a@b.com", "c@d.com")[0] >= 500, "rejected message")
check(len(s.saved()) == 1, "saved")
c.code("RSET")
s.ctl("fault", "open", s.save, 28, 0, 1000)
s.ctl("fault", "write", s.save, 28, 0, 1000)
r = c.message("a@b.com", "c@d.com")
check(400 <= r[0] < 500, "a message that could not be saved must be deferred: %s" % (r,))
'''

PROPERTY = 'C29'
NEEDS = 'a message that the rules refuse after receipt'
BREAKS = 'messages that are received and then rejected are not counted as messages'
EDITS = [
 ('sinksmtp.go',
  '\t\t\tevents.messages.Add(1)\n',
  ''),
 ('sinksmtp.go',
  '\t\t\t\tdoAccept(convo, c, transid)\n\t\t\t}\n\t\t\tupdateTimeOf("message", laddrstr)\n',
  '\t\t\t\tevents.messages.Add(1)\n\t\t\t\tdoAccept(convo, c, transid)\n\t\t\t}\n\t\t\tupdateTimeOf("message", laddrstr)\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, rules="@message reject from a@b.com\n", args=["-nostdrules"], start=False)
pp = s.freeport("127.0.0.1")
s.args += ["-pprof", "127.0.0.1:%d" % pp]
s.start()
c = s.connect()
c.ehlo()
check(c.message("a@b.com", "c@d.com")[0] >= 500, "rejected")
c.code("RSET")
check(c.message("x@b.com", "c@d.com")[0] == 250, "accepted")
c.quit()
n = s.vars("127.0.0.1:%d" % pp)["smtpcounts"]["accepted"]["messages"]
check(n == 2, "%d messages counted, 2 received" % n)
'''

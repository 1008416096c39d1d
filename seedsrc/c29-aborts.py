PROPERTY = 'C29'
NEEDS = 'a connection that a client drops without QUIT after a message'
BREAKS = 'a disconnect without QUIT after an accepted message counts as a quit'
EDITS = [
 ('sinksmtp.go',
  '\t\t\tif evt.What == smtpd.DONE {\n',
  '\t\t\tif evt.What == smtpd.DONE || trans.data != "" {\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, args=["-nostdrules"], start=False)
pp = s.freeport("127.0.0.1")
s.args += ["-pprof", "127.0.0.1:%d" % pp]
s.start()
c = s.connect()
c.ehlo()
check(c.message("x@b.com", "c@d.com")[0] == 250, "accepted")
c.close()
time.sleep(0.4)
n = s.vars("127.0.0.1:%d" % pp)["smtpcounts"]
check((n["quits"], n["aborts"]) == (0, 1), "quits %s aborts %s" % (n["quits"], n["aborts"]))
'''

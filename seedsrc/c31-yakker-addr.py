PROPERTY = 'C31'
NEEDS = '-statsperip and a stalled do-nothing client'
BREAKS = 'the time of the last stalled session of a local address is not kept'
EDITS = [
 ('sinksmtp.go',
  '\t\tupdateTimeOf("yakker", laddrstr)',
  '\t\tupdateTimeOf("yakker", trans.lip)'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, rules='@helo reject all\n', args=["-nostdrules", "-statsperip", "-pprof", "127.0.0.1:%d" % 0] + ["-dncount", "1"], start=False)
s.args[s.args.index("-pprof") + 1] = pp = "127.0.0.1:%d" % s.freeport("127.0.0.1")
s.start()

for i in range(2):
    c = s.connect("127.0.0.9")
    c.ehlo()
    c.quit()
    time.sleep(0.2)
t = s.vars(pp)["lasts_to"]
check(t["127.0.0.1:%d" % s.port].get("yakker"), "no yakker time for the address: %s" % t)
check(len(t) == 1, "more addresses than there are: %s" % list(t))
'''

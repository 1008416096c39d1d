PROPERTY = 'C31'
NEEDS = 'looking at the statistics while a connection is open'
BREAKS = 'connections are counted per local address only when they end'
EDITS = [
 ('sinksmtp.go',
  '\tloccounts.Add([]string{laddrstr})\n',
  '\tdefer loccounts.Add([]string{laddrstr})\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, rules='accept all\n', args=["-nostdrules", "-statsperip", "-pprof", "127.0.0.1:%d" % 0] + [], start=False)
s.args[s.args.index("-pprof") + 1] = pp = "127.0.0.1:%d" % s.freeport("127.0.0.1")
s.start()

c = s.connect()
c.ehlo()
n = s.vars(pp).get("connects_to") or {}
check(n.get("127.0.0.1:%d" % s.port) == 1, "an open connection is not counted: %s" % n)
'''

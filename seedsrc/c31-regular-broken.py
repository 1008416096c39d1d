PROPERTY = 'C31'
NEEDS = 'a session while the rule files cannot be loaded'
BREAKS = 'a session under broken rules does not update the time of the last regular session'
EDITS = [
 ('sinksmtp.go',
  '\t\tc = newContext(trans, rules)\n\t\tupdateTimeOf("regular", laddrstr)',
  '\t\tc = newContext(trans, rules)\n\t\tif rulesgood {\n\t\t\tupdateTimeOf("regular", laddrstr)\n\t\t}'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, rules="accept all\n", args=["-nostdrules", "-pprof", "x"], start=False)
s.args[s.args.index("-pprof") + 1] = pp = "127.0.0.1:%d" % s.freeport("127.0.0.1")
s.start()
s.file("rules0", "nonsense\n")
c = s.connect(); check(c.ehlo() // 100 == 4, "bad rules"); c.quit()
time.sleep(0.2)
check(s.vars(pp)["last"].get("regular"), "no time of the last regular session")
'''

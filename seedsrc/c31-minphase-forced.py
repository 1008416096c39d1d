PROPERTY = 'C31'
NEEDS = 'a make-yakker rule matching in a session that reaches -minphase'
BREAKS = 'sessions that reach -minphase but match make-yakker do not count for reached_minphase'
EDITS = [
 ('sinksmtp.go',
  '\tif gotsomewhere && minphase != "message" {',
  '\tif gotsomewhere && !trans.forceyakker && minphase != "message" {'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, rules='@from reject all with make-yakker\n', args=["-nostdrules", "-statsperip", "-pprof", "127.0.0.1:%d" % 0] + ["-dncount", "3"], start=False)
s.args[s.args.index("-pprof") + 1] = pp = "127.0.0.1:%d" % s.freeport("127.0.0.1")
s.start()

c = s.connect("127.0.0.9")
check(c.ehlo() == 250 and c.mail("a@b.com") == 550, "session")
c.quit()
time.sleep(0.2)
check(s.vars(pp)["last"].get("reached_minphase"), "no time of reached_minphase")
'''

PROPERTY = 'C31'
NEEDS = 'a message that cannot be saved'
BREAKS = 'a received message whose save fails does not update the time of the last message'
EDITS = [
 ('sinksmtp.go',
  '\t\t\tupdateTimeOf("message", laddrstr)\n',
  '\t\t\tif err == nil {\n\t\t\t\tupdateTimeOf("message", laddrstr)\n\t\t\t}\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, rules='accept all\n', args=["-nostdrules", "-statsperip", "-pprof", "127.0.0.1:%d" % 0] + [], start=False)
s.args[s.args.index("-pprof") + 1] = pp = "127.0.0.1:%d" % s.freeport("127.0.0.1")
s.start()

os.rmdir(s.save)
c = s.connect()
c.ehlo()
check(c.message("a@b.com", "c@d.com")[0] // 100 == 4, "the message cannot be saved")
c.quit()
time.sleep(0.2)
check(s.vars(pp)["last"].get("message"), "no time of the last message")
'''

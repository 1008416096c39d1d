PROPERTY = 'C29'
NEEDS = 'a session in which the same blocklist hits at several commands'
BREAKS = 'a blocklist hit is counted again at every command'
EDITS = [
 ('sinksmtp.go',
  '\tif lmsg == c.trans.lastmsg {\n\t\treturn\n\t}\n\tc.trans.log.Write([]byte(lmsg))\n\tc.trans.lastmsg = lmsg\n\n\t// Count them:\n\tdblcounts.Add(c.dnsblhit)\n',
  '\t// Count them:\n\tdblcounts.Add(c.dnsblhit)\n\n\tif lmsg == c.trans.lastmsg {\n\t\treturn\n\t}\n\tc.trans.log.Write([]byte(lmsg))\n\tc.trans.lastmsg = lmsg\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
dns = {"1.0.0.127.bl.example.net": {"A": ["127.0.0.2"]}}
s = Server(b, rules="set-with dnsbl bl.example.net with note x\n", args=["-nostdrules"], dns=dns, start=False)
pp = s.freeport("127.0.0.1")
s.args += ["-pprof", "127.0.0.1:%d" % pp]
s.start()
c = s.connect()
c.ehlo()
check(c.message("x@b.com", "c@d.com")[0] == 250, "accepted")
c.quit()
n = s.vars("127.0.0.1:%d" % pp)["dnsbl_hits"]
check(n == {"bl.example.net.": 1}, "hits %s" % n)
'''

PROPERTY = 'C23'
NEEDS = 'a client forced to be a yakker again, some time after it was last counted'
BREAKS = 'a repeated make-yakker no longer renews the stall period'
EDITS = [
 ('sinksmtp.go',
  '\t\tt.count = 0\n\t\ti.stats.AddsExpired++\n\t}\n\tt.when = time.Now()\n\tocnt := t.count\n',
  '\t\tt.count = 0\n\t\ti.stats.AddsExpired++\n\t}\n\tif t.count == 0 {\n\t\tt.when = time.Now()\n\t}\n\tocnt := t.count\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, rules="@from reject from y@b.com with make-yakker\n", args=["-nostdrules", "-dncount", "3", "-dndur", "1h", "-minphase", "from"])
A = "127.0.0.9"
# one counted failure, then the forced one 40 minutes later
c = s.connect(A)
check(c.ehlo() == 250, "EHLO")
c.quit()
s.ctl("advance", 2400)
c = s.connect(A)
check(c.ehlo() == 250, "EHLO")
check(c.mail("y@b.com") >= 500, "MAIL FROM")
c.quit()
time.sleep(0.2)
check(400 <= s.connect(A).ehlo() < 500, "stalled at once")
s.ctl("advance", 1800)
check(400 <= s.connect(A).ehlo() < 500, "still stalled half an hour later")
s.ctl("advance", 3660)
check(s.connect(A).ehlo() == 250, "forgiven")
'''

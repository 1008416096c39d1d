PROPERTY = 'C23'
NEEDS = 'a failure after the earlier ones are older than -dndur, in a session that began before they expired'
BREAKS = 'old failures are not forgotten when a session that started before they expired fails after they did'
EDITS = [
 ('sinksmtp.go',
  '\tcase time.Since(t.when) >= ttl:\n\t\tt.count = 0\n\t\ti.stats.AddsExpired++\n\t}\n\tt.count++\n\tt.when = time.Now()\n\tcnt := t.count\n',
  '\tcase time.Since(t.when) >= ttl && t.count >= yakCount:\n\t\tt.count = 0\n\t\ti.stats.AddsExpired++\n\t}\n\tt.count++\n\tt.when = time.Now()\n\tcnt := t.count\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, args=["-nostdrules", "-dncount", "2", "-dndur", "1h", "-minphase", "from"])
A = "127.0.0.9"
c = s.connect(A)
c.ehlo()
c.quit()
c = s.connect(A)
c.ehlo()
s.ctl("advance", 7200)
c.quit()
time.sleep(0.2)
check(s.connect(A).ehlo() == 250, "the first failure was two hours ago")
'''

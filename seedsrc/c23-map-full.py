PROPERTY = 'C23'
NEEDS = 'more than 64 do-nothing clients at the same time'
BREAKS = 'when the record of do-nothing clients gets big it is thrown away, so known ones are served again'
EDITS = [
 ('sinksmtp.go',
  '\tcase t == nil:\n\t\tt = &ipEnt{}\n\t\ti.ips[ip] = t\n\t\ti.stats.AddsNew++\n\tcase time.Since(t.when) >= ttl:\n\t\tt.count = 0\n\t\ti.stats.AddsExpired++\n\t}\n\tt.count++',
  '\tcase t == nil:\n\t\tif len(i.ips) >= 64 {\n\t\t\ti.ips = make(map[string]*ipEnt)\n\t\t}\n\t\tt = &ipEnt{}\n\t\ti.ips[ip] = t\n\t\ti.stats.AddsNew++\n\tcase time.Since(t.when) >= ttl:\n\t\tt.count = 0\n\t\ti.stats.AddsExpired++\n\t}\n\tt.count++'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, rules="@helo reject helo bad.example.com\n", args=["-nostdrules", "-dncount", "1"])
def fail1(ip):
    c = s.connect(ip); c.ehlo("bad.example.com"); c.quit()
fail1("127.0.3.1")
time.sleep(0.1)
c = s.connect("127.0.3.1"); check(c.ehlo() // 100 == 4, "stalled"); c.quit()
for i in range(70): fail1("127.0.4.%d" % (i + 1))
time.sleep(0.2)
c = s.connect("127.0.3.1"); check(c.ehlo() // 100 == 4, "still stalled"); c.quit()
'''

PROPERTY = 'C18'
NEEDS = 'two sessions from listed clients at the same time'
BREAKS = "which blocklist report was last logged is remembered for all sessions together, so a session's report is suppressed by another session's"
EDITS = [
 ('sinksmtp.go',
  '\tif lmsg == c.trans.lastmsg {\n\t\treturn\n\t}\n',
  '\tif lmsg == lastDnsbl.get() {\n\t\treturn\n\t}\n'),
 ('sinksmtp.go',
  '\tc.trans.lastmsg = lmsg\n',
  '\tlastDnsbl.set(lmsg)\n'),
 ('sinksmtp.go',
  '// As a hack, log DNSBL hits if any.',
  'type lastString struct {\n\tsync.Mutex\n\ts string\n}\n\nfunc (l *lastString) get() string {\n\tl.Lock()\n\tdefer l.Unlock()\n\treturn l.s\n}\n\nfunc (l *lastString) set(s string) {\n\tl.Lock()\n\tl.s = s\n\tl.Unlock()\n}\n\nvar lastDnsbl lastString\n\n// As a hack, log DNSBL hits if any.'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
dns = {"9.0.0.127.bl.example.net": {"A": ["127.0.0.2"]}, "8.0.0.127.bl.example.net": {"A": ["127.0.0.2"]}}
s = Server(b, rules="@helo set-with dnsbl bl.example.net with note x\n", args=["-nostdrules"], dns=dns)
for src in ("127.0.0.9", "127.0.0.8"):
    c = s.connect(src)
    c.ehlo()
    c.quit()
n = sum("! dnsbl hit: bl.example.net." in l for l in s.smtplines())
check(n == 2, "%d reports for two sessions" % n)
'''

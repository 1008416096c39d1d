PROPERTY = 'C26'
NEEDS = "an EHLO whose name is a single '.', with some helo pattern in the rules"
BREAKS = "'EHLO .' crashes the whole server"
EDITS = [
 ('rules.go',
  '''	if len(s.s) <= s.p {
		return ""
	}
	idx := strings.IndexByte(s.s[s.p+1:], '.')
''',
  '''	if s.p > 0 && s.p == len(s.s)-1 {
		return ""
	}
	idx := strings.IndexByte(s.s[s.p+1:], '.')
'''),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, rules="@from reject helo .b.com\n", args=["-nostdrules"])
other = s.connect()
for n in [".", "..", "a.", ".a", "a..b."]:
    c = s.connect()
    c.ehlo(n)
    c.mail("x@y.com")
time.sleep(0.2)
check(s.alive(), "the server died: " + s.stderr()[:300])
check(other.ehlo() == 250, "another session")
'''

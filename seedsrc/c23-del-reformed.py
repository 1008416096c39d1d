PROPERTY = 'C23'
NEEDS = 'a session that abandons -dncount transactions and only then gets a message through'
BREAKS = "a session that gets somewhere only after -dncount abandoned transactions does not clear the client's record"
EDITS = [
 ('sinksmtp.go',
  '\tcase yakCount > 0 && gotsomewhere:\n\t\tyakkers.Del(trans.rip)',
  '\tcase yakCount > 0 && gotsomewhere && cnt < yakCount:\n\t\tyakkers.Del(trans.rip)'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, rules="accept all\n", args=["-nostdrules", "-dncount", "2", "-minphase", "data"])
c = s.connect("127.0.0.9")
c.ehlo()
for i in range(2):
    check(c.mail("a@b.com") == 250, "accepted")
    c.code("RSET")
check(c.message("a@b.com", "c@d.com")[0] == 250, "a whole message")
c.quit()
time.sleep(0.3)
c = s.connect("127.0.0.9")
check(c.ehlo() == 250 and c.mail("a@b.com") == 250, "the client got somewhere, it must not be stalled")
'''

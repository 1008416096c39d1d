PROPERTY = 'C07'
NEEDS = 'an EHLO name with a colon and no dot (an IPv6 address)'
BREAKS = 'an IPv6 EHLO name counts as nodots'
EDITS = [
 ('rules.go',
  '\tif idx1 == -1 && idx2 == -1 {\n',
  '\tif idx1 == -1 || idx2 == 0 {\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, rules="@helo reject helo-has nodots\n", args=["-nostdrules"])
check(s.connect().ehlo("localhost") >= 500, "localhost has no dots")
check(s.connect().ehlo("a.b") == 250, "a.b has")
check(s.connect().ehlo("2001:db8::1") == 250, "an IPv6 address is not nodots")
'''

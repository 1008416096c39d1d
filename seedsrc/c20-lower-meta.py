PROPERTY = 'C20'
NEEDS = 'two messages whose envelopes differ only in letter case, with -save-hash full'
BREAKS = 'envelopes differing only in case share a file name'
EDITS = [
 ('sinksmtp.go',
  '\tmetahash := genHash(outbuf2.Bytes())',
  '\tmetahash := genHash(bytes.ToLower(outbuf2.Bytes()))'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, rules="accept all\n", args=["-nostdrules"], hash="full")
for a in ("u@a.com", "U@A.COM"):
    c = s.connect()
    c.ehlo()
    check(c.message(a, "c@d.com")[0] == 250, "message")
    c.quit()
check(len(s.saved()) == 2, "two different messages, files: %s" % list(s.saved()))
'''

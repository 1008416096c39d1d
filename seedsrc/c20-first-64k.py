PROPERTY = 'C20'
NEEDS = 'two messages of more than 64 KiB that only differ late'
BREAKS = 'the message hash only covers the first 64 KiB, so different messages share a name'
EDITS = [
 ('sinksmtp.go',
  '\thash = genHash([]byte(trans.data))\n',
  '\thash = genHash([]byte(trans.data))\n\tif len(trans.data) > 1<<16 {\n\t\thash = genHash([]byte(trans.data[:1<<16]))\n\t}\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, args=["-nostdrules"], hash="msg")
c = s.connect(); c.ehlo()
big = "Subject: x\n\n" + "0123456789abcdef\n" * 4200
c.message("a@b.com", ["c@d.com"], big + "one\n")
c.message("a@b.com", ["c@d.com"], big + "two\n")
check(len(s.saved()) == 2, "two different messages, %d files" % len(s.saved()))
'''

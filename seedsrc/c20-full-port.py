PROPERTY = 'C20'
NEEDS = 'the same message sent again over another connection under -save-hash full'
BREAKS = "the client's port is part of the 'full' hash, so the same message from the same address is stored again"
EDITS = [
 ('sinksmtp.go',
  '\tif rmsg == "" {\n\t\trmsg = trans.raddr.String()\n\t}\n',
  '\tif rmsg == "" || strings.HasPrefix(trans.raddr.String(), rmsg) {\n\t\trmsg = trans.raddr.String()\n\t}\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, args=["-nostdrules"], hash="full")
for i in range(2):
    c = s.connect()
    c.ehlo()
    check(c.message("a@b.com", "c@d.com")[0] == 250, "message")
    c.quit()
check(len(s.saved()) == 1, "%d files for the same message" % len(s.saved()))
'''

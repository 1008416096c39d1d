PROPERTY = 'C22'
NEEDS = 'a server that runs without a save directory'
BREAKS = 'messages that are not saved are not logged either'
EDITS = [
 ('sinksmtp.go',
  '\tlogMessage(prefix, trans, logf)\n\tif trans.savedir == "" {\n\t\treturn trans.hash, nil\n\t}\n',
  '\tif trans.savedir == "" {\n\t\treturn trans.hash, nil\n\t}\n\tlogMessage(prefix, trans, logf)\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, args=["-nostdrules", "-force-receive"], nodir=True)
c = s.connect()
c.ehlo()
check(c.message("a@b.com", "c@d.com")[0] == 250, "message")
c.quit()
check(len(s.loglines()) == 1, "%d log lines" % len(s.loglines()))
'''

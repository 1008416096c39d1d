PROPERTY = 'C28'
NEEDS = 'a log file that already has something in it'
BREAKS = 'an existing log file is emptied at startup'
EDITS = [
 ('sinksmtp.go',
  '\t\tos.O_WRONLY|os.O_APPEND|os.O_CREATE, 0666)\n',
  '\t\tos.O_WRONLY|os.O_APPEND|os.O_CREATE|os.O_TRUNC, 0666)\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, args=["-nostdrules"], start=False)
s.file("smtplog", "old line\n")
s.start()
c = s.connect()
c.quit()
check(s.smtplines()[:1] == ["old line"], "the old contents are gone")
'''

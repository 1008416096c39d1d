PROPERTY = 'C22'
NEEDS = 'two rules with the same note deciding in different phases'
BREAKS = 'a rule note equal to the last reply message or note is not logged again'
EDITS = [
 ('sinksmtp.go',
  '\tif note := c.withprops["note"]; note != "" {',
  '\tif note := c.withprops["note"]; note != "" && note != c.trans.lastamsg {\n\t\tc.trans.lastamsg = note'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, rules="@from set-with all with note hello\n@to set-with all with note hello\n", args=["-nostdrules"])
c = s.connect()
c.ehlo()
c.mail("a@b.com")
c.rcpt("c@d.com")
c.quit()
time.sleep(0.3)
n = [l for l in s.smtplines() if "hello" in l]
check(len(n) == 2, "notes logged: %s" % n)
'''

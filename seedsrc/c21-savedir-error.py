PROPERTY = 'C21'
NEEDS = 'a failure to save into a directory that a rule chose'
BREAKS = "a failure to save a message in a rule's savedir is ignored and the message acknowledged"
EDITS = [
 ('sinksmtp.go',
  '\t\t\tcase err != nil:\n\t\t\t\tconvo.Tempfail()\n\t\t\t\tgotsomewhere = true\n',
  '\t\t\tcase err != nil && trans.savedir == savedir:\n\t\t\t\tconvo.Tempfail()\n\t\t\t\tgotsomewhere = true\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, start=False)
d = s.dir + "/other"
os.mkdir(d)
s.args += ["-r", s.file("rules", "@from set-with from a@b.com with savedir %s\n" % d), "-nostdrules"]
s.start()
c = s.connect()
c.ehlo()
check(c.message("a@b.com", "c@d.com")[0] == 250 and len(s.saved(d)) == 1, "saved in the rule's directory")
os.rename(d, d + ".gone")
r = c.message("a@b.com", "c@d.com")
check(r[0] // 100 == 4, "a message that could not be saved was acknowledged: %s" % (r,))
'''

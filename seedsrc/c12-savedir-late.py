PROPERTY = 'C12'
NEEDS = 'a set-with rule with a savedir acting at the end of DATA'
BREAKS = 'a savedir given by a set-with rule from the DATA phase on is ignored'
EDITS = [
 ('sinksmtp.go',
  '\tif sd := c.withprops["savedir"]; sd != "" {\n\t\tc.trans.savedir = sd\n\t}\n',
  '\tif sd := c.withprops["savedir"]; sd != "" && (res != aNoresult || ph < pData) {\n\t\tc.trans.savedir = sd\n\t}\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, rules="accept all\n", args=["-nostdrules"])
os.mkdir(s.dir + "/other")
s.file("rules0", "@data set-with all with savedir %s/other\n" % s.dir)
c = s.connect()
c.ehlo()
check(c.message("a@b.com", "c@d.com")[0] == 250, "message")
check(len(s.saved(s.dir + "/other")) == 1 and len(s.saved()) == 0, "saved in the wrong place")
'''

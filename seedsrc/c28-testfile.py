PROPERTY = 'C28'
NEEDS = 'a save directory, at startup'
BREAKS = 'the server leaves its test file in the save directory'
EDITS = [
 ('sinksmtp.go',
  '\t\tos.Remove(tstfile)\n',
  '\t\tif !failgotdata {\n\t\t\tos.Remove(savedir + ".wecanmake")\n\t\t}\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, args=["-nostdrules"])
check(os.listdir(s.save) == [], "stray files: %s" % os.listdir(s.save))
'''

PROPERTY = 'C28'
NEEDS = 'an invalid -minphase without -dncount'
BREAKS = 'an invalid -minphase is accepted when -dncount is not set'
EDITS = [
 ('sinksmtp.go',
  '\tdefault:\n\t\tdie("invalid -minphase',
  '\tdefault:\n\t\tif yakCount == 0 && minphase != "" {\n\t\t\tbreak\n\t\t}\n\t\tdie("invalid -minphase'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, args=["-minphase", "bogus"], start=False)
s.start(wait=False)
for i in range(100):
    if not s.alive():
        break
    check(not s.listening(), "the server listens")
    time.sleep(0.05)
check(not s.alive() and s.p.returncode != 0, "the server must refuse to start")
'''

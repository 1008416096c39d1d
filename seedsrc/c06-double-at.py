PROPERTY = 'C06'
NEEDS = "an address with '@@' that is otherwise well-formed"
BREAKS = "'@@' in an address is not garbage any more"
EDITS = [
 ('rules.go',
  '\tif strings.Contains(a, "..") || strings.Contains(a, "@@") {',
  '\tif strings.Contains(a, "..") || strings.HasPrefix(a, "@@") {'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b)
c = s.connect()
c.ehlo()
check(c.mail("a..b@b.com") >= 500, "a..b@b.com")
check(c.mail("a@@b.com") >= 500, "a@@b.com")
'''

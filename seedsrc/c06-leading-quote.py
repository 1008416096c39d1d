PROPERTY = 'C06'
NEEDS = 'an address whose quote is its first character'
BREAKS = 'a quoted local part such as "a b"@c.com is no longer \'quoted\', hence not refused as bad'
EDITS = [
 ('rules.go',
  '\tif idx3 != -1 && idx3 != lp {\n',
  '\tif idx3 > 0 && idx3 != lp {\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b)
c = s.connect()
c.ehlo()
check(c.mail('x"y"@b.com') >= 500, "quote inside")
check(c.mail('"xy"@b.com') >= 500, "quote first")
check(c.mail('xy@b.com') == 250, "ordinary address")
'''

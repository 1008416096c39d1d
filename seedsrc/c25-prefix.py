PROPERTY = 'C25'
NEEDS = 'a -conncfg line whose address is the beginning of another one'
BREAKS = 'a local address in a connection file matches all addresses it is a prefix of'
EDITS = [
 ('conncfg.go',
  '\t\tif de.local == "*" || de.local == las {',
  '\t\tif de.local == "*" || strings.HasPrefix(las, de.local) {'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, rules="accept all\n", args=["-nostdrules", "-conncfg", "%D/cc"], host="127.0.0.10", start=False)
s.file("cc", "127.0.0.1 hostname=one.example\n* hostname=any.example\n")
s.start()
c = s.connect()
check(c.banner[1][0].startswith("any.example"), "banner %s" % (c.banner,))
'''

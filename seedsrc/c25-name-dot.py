PROPERTY = 'C25'
NEEDS = 'a -conncfg hostname with a trailing dot'
BREAKS = 'the greeting drops the final dot of the configured name'
EDITS = [
 ('conncfg.go',
  '\t\t\tcase "hostname":\n\t\t\t\thost = kv[1]',
  '\t\t\tcase "hostname":\n\t\t\t\thost = strings.TrimSuffix(kv[1], ".")'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, args=["-nostdrules", "-conncfg", "%D/conn.cfg"], start=False)
s.file("conn.cfg", "* hostname=mx.example.com.\n")
s.start()
c = s.connect()
check("mx.example.com. " in c.banner[1][0] + " ", "banner %s" % (c.banner,))
'''

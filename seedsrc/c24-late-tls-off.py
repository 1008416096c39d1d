PROPERTY = 'C24'
NEEDS = 'a tls-opt off rule that depends on the EHLO'
BREAKS = 'tls-opt off is honoured only in rules that match at connect time'
EDITS = [
 ('sinksmtp.go',
  '\tcase "off":\n\t\tconvo.Config.TLSConfig = nil\n',
  '\tcase "off":\n\t\tif ph == pConnect {\n\t\t\tconvo.Config.TLSConfig = nil\n\t\t}\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
c, k = cert("server.example.org")
s = Server(b, rules="set-with helo notls.example.org with tls-opt off\n", args=["-nostdrules", "-c", c, "-k", k])
x = s.connect()
r = x.cmd("EHLO tls.example.org")
check("STARTTLS" in r[1], "offered")
x = s.connect()
r = x.cmd("EHLO notls.example.org")
check("STARTTLS" not in r[1], "not offered")
check(x.code("STARTTLS") >= 500, "STARTTLS must not work either")
'''

PROPERTY = 'C19'
NEEDS = 'a message with an empty body or without a header'
BREAKS = 'the body hash of a message whose body is empty is missing'
EDITS = [
 ('sinksmtp.go',
  '\tbodyhash = genHash(body)\n\treturn hash, bodyhash\n',
  '\tif len(body) == 0 {\n\t\treturn hash, "<cannot-parse-message>"\n\t}\n\tbodyhash = genHash(body)\n\treturn hash, bodyhash\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, args=["-nostdrules"])
c = s.connect()
c.ehlo()
check(c.message("a@b.com", "c@d.com", "Subject: x\n\n")[0] == 250, "message")
f = list(s.saved().values())[0]
check(b"\nbodyhash da39a3ee5e6b4b0d3255bfef95601890afd80709\n" in f, "%r" % f)
'''

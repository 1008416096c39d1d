PROPERTY = 'C15'
NEEDS = 'an included file that disappears while the server runs'
BREAKS = 'a missing included file is skipped silently'
EDITS = [
 ('rparse.go',
  '\tif err != nil {\n\t\treturn rules, p.lineError(fmt.Sprintf("while including',
  '\tif os.IsNotExist(err) && p.depth > 0 {\n\t\terr = nil\n\t}\n\tif err != nil {\n\t\treturn rules, p.lineError(fmt.Sprintf("while including'),
 ('rparse.go',
  '\t"net"\n',
  '\t"net"\n\t"os"\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, start=False)
i2 = s.file("inc2", "reject from a@b.com\n")
i1 = s.file("inc1", "include %s\n" % i2)
s.args += ["-r", s.file("rules", "include %s\n" % i1), "-nostdrules"]
s.start()
check(s.connect().ehlo() == 250, "good rules")
os.unlink(i2)
check(s.connect().ehlo() // 100 == 4, "a missing include must stall")
'''

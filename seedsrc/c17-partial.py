PROPERTY = 'C17'
NEEDS = 'a pattern file that cannot be read to its end (a directory, say)'
BREAKS = 'a pattern file that cannot be read is treated as holding one pattern that matches nothing'
EDITS = [
 ('sinksmtp.go',
  '\t\twarnonce("Problem loading addr list %s: %v\\n", fname, err)\n\t\treturn nil\n',
  '\t\twarnonce("Problem loading addr list %s: %v\\n", fname, err)\n\t\treturn append(alist, "")\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, start=False)
os.mkdir(s.dir + "/pats")
s.args += ["-r", s.file("rules", "reject not from %s/pats\n" % s.dir), "-nostdrules"]
s.start()
c = s.connect()
c.ehlo()
check(c.mail("c@d.com") == 250, "an unreadable file must disable its rule")
'''

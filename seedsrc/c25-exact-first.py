PROPERTY = 'C25'
NEEDS = 'a -conncfg file with a CIDR (or *) line before an exact line for the same address'
BREAKS = 'an exact -conncfg line wins over an earlier CIDR line'
EDITS = [
 ('conncfg.go',
  '\t\tif de.local == "*" || de.local == las {\n\t\t\treturn de\n\t\t}\n\t\tif ip.Equal(net.ParseIP(de.local)) {\n\t\t\treturn de\n\t\t}\n',
  '\t\tif de.local == las || ip.Equal(net.ParseIP(de.local)) {\n\t\t\treturn de\n\t\t}\n\t}\n\tfor _, de := range *d {\n\t\tif de.local == "*" {\n\t\t\treturn de\n\t\t}\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, start=False, args=["-nostdrules"])
f = s.file("conn", "127.0.0.0/8 hostname=block.example.org\n127.0.0.1 hostname=exact.example.org\n")
s.args += ["-conncfg", f]
s.start()
c = s.connect()
check(c.banner[1][0].split()[0] == "block.example.org", "banner %s" % (c.banner,))
'''

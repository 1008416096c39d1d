PROPERTY = 'C08'
NEEDS = 'an ip pattern file with a line that is no address before the one that matches'
BREAKS = 'an ip file is not looked at any further after a malformed line'
EDITS = [
 ('rnodes.go',
  '\tfor _, p := range plist {\n\t\tfor _, e := range m.getter(c) {\n\t\t\tif m.matcher(e, p) {\n\t\t\t\treturn true\n\t\t\t}\n\t\t}\n\t}\n\treturn false\n',
  '\tfor _, p := range plist {\n\t\tif m.what == "ip" && strings.Trim(p, "0123456789abcdef.:/") != "" {\n\t\t\tbreak\n\t\t}\n\t\tfor _, e := range m.getter(c) {\n\t\t\tif m.matcher(e, p) {\n\t\t\t\treturn true\n\t\t\t}\n\t\t}\n\t}\n\treturn false\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, start=False)
p = s.file("ips", "10.0.0.0/8\nlocalhost\n127.0.0.9\n")
s.args += ["-r", s.file("rules", "@helo reject ip %s\n" % p), "-nostdrules"]
s.start()
check(s.connect("127.0.0.9").ehlo() >= 500, "127.0.0.9 is in the file")
check(s.connect("127.0.0.8").ehlo() == 250, "127.0.0.8 is not")
'''

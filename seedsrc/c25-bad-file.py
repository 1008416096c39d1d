PROPERTY = 'C25'
NEEDS = 'a -conncfg file that stops being loadable after it had a matching line'
BREAKS = 'lines before the broken one still apply when a -conncfg file cannot be loaded'
EDITS = [
 ('conncfg.go',
  '\t\t\treturn nil, fmt.Errorf("too many fields in line %d", lnum)\n',
  '\t\t\treturn &d, fmt.Errorf("too many fields in line %d", lnum)\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, start=False, args=["-nostdrules", "-helo", "cmd.example.org"])
s.args += ["-conncfg", s.file("conn", "127.0.0.1 hostname=one.example.org\n")]
s.start()
check(s.connect().banner[1][0].split()[0] == "one.example.org", "loaded file")
s.file("conn", "127.0.0.1 hostname=one.example.org\n127.0.0.2 a=1 b=2 c=3 d=4\n")
check(s.connect().banner[1][0].split()[0] == "cmd.example.org", "an unloadable file must be ignored")
'''

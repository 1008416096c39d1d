PROPERTY = 'C16'
NEEDS = 'a comment line that ends in a backslash'
BREAKS = 'a comment that ends in a backslash swallows the next line'
EDITS = [
 ('rlex.go',
  "\tidx := strings.IndexByte(l.input[l.pos:], '\\n')\n\tif idx < 0 {\n\t\tidx = len(l.input) - l.pos\n\t}\n\tl.pos += idx\n",
  "\tidx := strings.IndexByte(l.input[l.pos:], '\\n')\n\tfor idx > 0 && l.input[l.pos+idx-1] == '\\\\' {\n\t\tn := strings.IndexByte(l.input[l.pos+idx+1:], '\\n')\n\t\tif n < 0 {\n\t\t\tidx = -1\n\t\t\tbreak\n\t\t}\n\t\tidx += n + 1\n\t}\n\tif idx < 0 {\n\t\tidx = len(l.input) - l.pos\n\t}\n\tl.pos += idx\n"),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, rules="# C:\\dir\\\nreject from a@b.com\naccept all\n", args=["-nostdrules"])
c = s.connect()
c.ehlo()
check(c.mail("a@b.com") >= 500, "the rule after the comment")
'''

PROPERTY = 'C17'
NEEDS = "a pattern file line with ' #' in the middle"
BREAKS = "text after ' #' inside a pattern line is taken as a comment"
EDITS = [
 ('sinksmtp.go',
  '\t\tline = strings.ToLower(line)\n\t\ta = append(a, line)',
  '\t\tif i := strings.Index(line, " #"); i > 0 {\n\t\t\tline = strings.TrimSpace(line[:i])\n\t\t}\n\t\tline = strings.ToLower(line)\n\t\ta = append(a, line)'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, rules="accept all\n", args=["-nostdrules"])
s.file("pats", "u@a.com # friend\n@b.com\n")
s.file("rules0", "@from reject from file:%s/pats\n" % s.dir)
c = s.connect()
c.ehlo()
check(c.mail("x@b.com") == 550, "plain pattern")
check(c.mail("u@a.com") == 250, "only lines starting with # are comments, so this line matches nothing")
'''

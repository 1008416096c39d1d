PROPERTY = 'C17'
NEEDS = 'a pattern file with an entry that starts with two slashes'
BREAKS = 'entries starting with // are skipped as if they were comments'
EDITS = [
 ('sinksmtp.go',
  '\t\tif line == "" || line[0] == \'#\' {\n\t\t\tcontinue\n\t\t}\n\n\t\tline = strings.ToLower(line)',
  '\t\tif line == "" || line[0] == \'#\' || strings.HasPrefix(line, "//") {\n\t\t\tcontinue\n\t\t}\n\n\t\tline = strings.ToLower(line)'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, rules="reject from file:plist\n", args=["-nostdrules"])
s.file("plist", "//odd@b.com\nz@b.com\n")
c = s.connect(); c.ehlo()
check(c.mail("z@b.com") >= 500, "z is listed")
check(c.mail("//odd@b.com") >= 500, "so is //odd")
'''

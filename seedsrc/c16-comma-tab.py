PROPERTY = 'C16'
NEEDS = 'a tab character after a comma in an option list'
BREAKS = 'an option list with a tab after a comma loads although the grammar forbids whitespace there'
EDITS = [
 ('rlex.go',
  "\t\tif n == ' ' || n == '\\t' || n == '\\n' || n == eof {\n",
  "\t\tif n == ' ' || n == '\\n' || n == eof {\n"),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, rules="accept all\n", args=["-nostdrules"])
check(s.connect().ehlo() == 250, "good rules")
s.file("rules0", "reject from-has bad,\troute\n")
check(400 <= s.connect().ehlo() < 500, "whitespace after a comma must not load")
'''

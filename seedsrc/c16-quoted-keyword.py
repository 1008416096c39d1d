PROPERTY = 'C16'
NEEDS = 'a quoted word that is spelled like a keyword, in the place of a keyword'
BREAKS = 'quoted words can be keywords'
EDITS = [
 ('rlex.go',
  '\tl.items <- item{itemValue, s, l.start}\n\tl.start = l.pos\n}',
  '\ttyp := itemValue\n\tif k := keywords[s]; k == itemAll || k == itemOn || k == itemOff {\n\t\ttyp = k\n\t}\n\tl.items <- item{typ, s, l.start}\n\tl.start = l.pos\n}'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, rules="accept all\n", args=["-nostdrules"])
check(s.connect().ehlo() == 250, "good rules")
s.file("rules0", 'accept "all"\n')
check(s.connect().ehlo() // 100 == 4, "a quoted word is no keyword")
'''

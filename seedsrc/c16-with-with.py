PROPERTY = 'C16'
NEEDS = "a rule with the word 'with' repeated among its options"
BREAKS = 'a rule file the grammar does not allow is loaded'
EDITS = [
 ('rparse.go',
  '\tcase itemMakeYakker:\n\t\t\tif _',
  '\tcase itemWith:\n\t\t\tif !gotone {\n\t\t\t\treturn gotone, nil\n\t\t\t}\n\t\t\tp.consume()\n\t\t\tcontinue\n\t\tcase itemMakeYakker:\n\t\t\tif _'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, rules="accept all\n", args=["-nostdrules"])
c = s.connect(); check(c.ehlo() == 250, "good rules"); c.quit()
s.file("rules0", "accept all with note a with message b\n")
c = s.connect(); check(c.ehlo() // 100 == 4, "bad rules"); c.quit()
'''

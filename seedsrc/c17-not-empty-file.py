PROPERTY = 'C17'
NEEDS = 'a negated match against a pattern file that is empty or missing'
BREAKS = "'not from FILE' with an empty FILE matches everybody instead of disabling the rule"
EDITS = [
 ('rnodes.go',
  "\t\tif c.rulemiss {\n\t\t\t// the results on a rulemiss don't matter, since\n\t\t\t// we're skipping this rule anyways.\n\t\t\treturn false\n\t\t}\n\t\tif !res {\n\t\t\tcontinue\n\t\t}\n",
  "\t\tif c.rulemiss && bool(!res) {\n\t\t\t// the results on a rulemiss don't matter, since\n\t\t\t// we're skipping this rule anyways.\n\t\t\treturn false\n\t\t}\n\t\tif !res {\n\t\t\tcontinue\n\t\t}\n\t\tc.rulemiss = false\n"),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, start=False)
p = s.file("pats", "# nothing\n")
s.args += ["-r", s.file("rules", "reject not from %s\n" % p), "-nostdrules"]
s.start()
c = s.connect()
c.ehlo()
check(c.mail("a@b.com") == 250, "an empty file must disable its rule")
'''

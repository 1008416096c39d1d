PROPERTY = 'C19'
NEEDS = 'the same recipient given twice'
BREAKS = 'a recipient that was given twice is listed once in the saved envelope'
EDITS = [
 ('sinksmtp.go',
  '\tfor _, a := range trans.rcptto {\n\t\tfmt.Fprintf(writer, "to <%s>\\n", a)\n\t}\n',
  '\tvar last string\n\tfor _, a := range trans.rcptto {\n\t\tif a != last {\n\t\t\tfmt.Fprintf(writer, "to <%s>\\n", a)\n\t\t}\n\t\tlast = a\n\t}\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, args=["-nostdrules"])
c = s.connect()
c.ehlo()
check(c.message("a@b.com", ["c@d.com", "c@d.com"])[0] == 250, "message")
f = list(s.saved().values())[0]
check(f.count(b"\nto <c@d.com>\n") + f.count(b"to <c@d.com>\nto <c@d.com>") >= 2 or f.count(b"to <c@d.com>\n") == 2, "recipients: %r" % f)
'''

PROPERTY = 'C22'
NEEDS = 'a received message with no body that parses, or one sent by the null sender'
BREAKS = 'the message log leaves out all but the first of several recipients when the sender is null'
EDITS = [
 ('sinksmtp.go',
  '\tfor _, a := range trans.rcptto {\n\t\tfmt.Fprintf(writer, " <%s>", a)\n\t}\n',
  '\tfor i, a := range trans.rcptto {\n\t\tif i > 0 && trans.from == "" {\n\t\t\tbreak\n\t\t}\n\t\tfmt.Fprintf(writer, " <%s>", a)\n\t}\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, args=["-nostdrules"])
c = s.connect()
c.ehlo()
check(c.message("", ["c@d.com", "e@f.com"])[0] == 250, "message")
c.quit()
check("<c@d.com> <e@f.com>" in s.loglines()[0], "log %s" % s.loglines())
'''

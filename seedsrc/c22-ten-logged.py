PROPERTY = 'C22'
NEEDS = 'a message to more than ten recipients'
BREAKS = 'the message log names only the first ten recipients'
EDITS = [
 ('sinksmtp.go',
  '\tfor _, a := range trans.rcptto {\n\t\tfmt.Fprintf(writer, " <%s>", a)\n\t}',
  '\tfor i, a := range trans.rcptto {\n\t\tif i >= 10 {\n\t\t\tbreak\n\t\t}\n\t\tfmt.Fprintf(writer, " <%s>", a)\n\t}'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, args=["-nostdrules"])
c = s.connect(); c.ehlo()
rs = ["r%d@b.com" % i for i in range(14)]
c.message("a@b.com", rs)
time.sleep(0.1)
l = s.loglines()[0]
check("to " + " ".join("<%s>" % r for r in rs) + ":" in l, "log line: %s" % l)
'''

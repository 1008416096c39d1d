PROPERTY = 'C19'
NEEDS = 'a message to more than 25 recipients'
BREAKS = 'the saved envelope of a message with many recipients leaves some out'
EDITS = [
 ('sinksmtp.go',
  '\tfor _, a := range trans.rcptto {\n\t\tfmt.Fprintf(writer, "to <%s>\\n", a)\n\t}',
  '\tfor i, a := range trans.rcptto {\n\t\tif i >= 25 {\n\t\t\tfmt.Fprintf(writer, "to ... and %d more\\n", len(trans.rcptto)-i)\n\t\t\tbreak\n\t\t}\n\t\tfmt.Fprintf(writer, "to <%s>\\n", a)\n\t}'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, args=["-nostdrules"])
c = s.connect(); c.ehlo()
rs = ["r%d@b.com" % i for i in range(30)]
c.mail("a@b.com")
for r in rs: c.rcpt(r)
c.cmd("DATA"); c.body("Subject: x\n\nhi\n")
t = list(s.saved().values())[0].decode()
check([l[4:-1] for l in t.split("body\n")[0].splitlines() if l.startswith("to <")] == rs, "recipients missing: %s" % t)
'''

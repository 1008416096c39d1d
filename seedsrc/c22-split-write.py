PROPERTY = 'C22'
NEEDS = 'sessions whose SMTP log lines are written at the same moment'
BREAKS = 'the session id and the text of an SMTP log line are written separately, so lines of concurrent sessions are torn'
EDITS = [
 ('sinksmtp.go',
  '\tbuf := make([]byte, 0, len(b)+len(log.prefix))\n\n\tbuf = append(buf, log.prefix...)\n\tbuf = append(buf, b...)\n\tn, err = log.writer.Write(buf)\n\tif err == nil {\n\t\terr = log.writer.Flush()\n\t}\n\treturn n, err\n',
  '\tn, err = log.writer.Write(log.prefix)\n\tif err == nil {\n\t\terr = log.writer.Flush()\n\t}\n\tif err == nil {\n\t\tn, err = log.writer.Write(b)\n\t}\n\tif err == nil {\n\t\terr = log.writer.Flush()\n\t}\n\treturn n, err\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
import re
s = Server(b, args=["-nostdrules"])
def go(i):
    for j in range(15):
        c = s.connect()
        c.ehlo()
        for k in range(40):
            c.send("NOOP\r\nRSET\r\n" * 10)
            for l in range(20):
                c.reply()
        c.quit()
ts = [threading.Thread(target=go, args=(i,)) for i in range(12)]
[t.start() for t in ts]
[t.join() for t in ts]
bad = [l for l in s.smtplines() if not re.match(r"\d+/\d+[rw#!] ", l) and not re.match(r"\d+/\d+ ?[rw#!]", l)]
bad += [l for l in s.smtplines() if len(re.findall(r"\b%d/\d+" % s.p.pid, l)) > 1]
check(not bad, "torn lines: %r" % bad[:5])
'''

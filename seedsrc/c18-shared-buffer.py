PROPERTY = 'C18'
NEEDS = 'two messages received at the same time'
BREAKS = 'messages are assembled in a buffer shared by all sessions, so simultaneous messages mix'
EDITS = [
 ('sinksmtp.go',
  '\tvar outbuf, outbuf2 bytes.Buffer\n\n\tfwrite',
  '\toutbuf, outbuf2 := &detailBuf, &detailBuf2\n\toutbuf.Reset()\n\toutbuf2.Reset()\n\n\tfwrite'),
 ('sinksmtp.go',
  '\tfwrite := bufio.NewWriter(&outbuf)\n',
  '\tfwrite := bufio.NewWriter(outbuf)\n'),
 ('sinksmtp.go',
  '\twriter := bufio.NewWriter(&outbuf2)\n',
  '\twriter := bufio.NewWriter(outbuf2)\n'),
 ('sinksmtp.go',
  '// return a block of bytes that records the message details,\n',
  '// reused to avoid allocating large buffers over and over.\nvar detailBuf, detailBuf2 bytes.Buffer\n\n// return a block of bytes that records the message details,\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, args=["-nostdrules"])
bad = []
def go(i):
    c = s.connect("127.0.0.%d" % (i + 2))
    c.ehlo()
    for j in range(30):
        m = "Subject: s%d-%d\n\n%s\n" % (i, j, ("line %d\n" % i) * 800)
        r = c.message("a%d@b.com" % i, "c%d@d.com" % i, m)
        if r[0] != 250:
            bad.append("reply %s" % (r,))
            return
        f = s.save + "/" + r[1][0].split()[-1]
        try:
            t = open(f).read()
        except OSError as e:
            bad.append(str(e))
            return
        if not t.endswith("\nbody\n" + m) or ("from <a%d@b.com>" % i) not in t:
            bad.append("wrong contents in %s" % f)
            return
ts = [threading.Thread(target=go, args=(i,)) for i in range(8)]
[t.start() for t in ts]
[t.join() for t in ts]
check(not bad and s.alive(), "mixed up: %s" % bad[:2])
'''

PROPERTY = 'C20'
NEEDS = 'two messages that differ in the order or number of recipients under -save-hash full'
BREAKS = "the recipients are not part of the 'full' hash"
EDITS = [
 ('sinksmtp.go',
  '\tmetahash := genHash(outbuf2.Bytes())\n\tfwrite.Write(outbuf2.Bytes())\n',
  '\tmetahash := genHash(bytes.Replace(outbuf2.Bytes(), []byte(fmt.Sprintf("to <%s>\\n", strings.Join(trans.rcptto, ">\\nto <"))), nil, 1))\n\tfwrite.Write(outbuf2.Bytes())\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, args=["-nostdrules"], hash="full")
c = s.connect()
c.ehlo()
check(c.message("a@b.com", "c@d.com")[0] == 250, "message")
check(c.message("a@b.com", "e@f.com")[0] == 250, "message")
check(len(s.saved()) == 2, "messages to different recipients must not share a file")
'''

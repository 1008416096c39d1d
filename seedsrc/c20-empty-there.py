PROPERTY = 'C20'
NEEDS = "a file of no length that already has the message's name"
BREAKS = 'a message whose file name is taken by an empty file is not handled normally'
EDITS = [
 ('sinksmtp.go',
  '\t\t\tif os.IsExist(err) {\n\t\t\t\terr = nil\n\t\t\t}',
  '\t\t\tif fi, serr := os.Stat(tgt); os.IsExist(err) && serr == nil && fi.Size() > 0 {\n\t\t\t\terr = nil\n\t\t\t}'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
import hashlib, os
s = Server(b, args=["-nostdrules"], hash="msg")
d = b"Subject: q\n\nq\n"
s.file("save/" + hashlib.sha1(d).hexdigest(), "")
c = s.connect(); c.ehlo()
c.mail("a@b.com"); c.rcpt("x@b.com"); c.cmd("DATA")
check(c.body(d.decode())[0] // 100 == 2, "the file is there, so the message is accepted")
'''

PROPERTY = 'C13'
NEEDS = 'a MAIL FROM:<> that a rule accepts, and a rule that refuses the recipient'
BREAKS = 'an accepting verdict on MAIL FROM:<> is carried over to the RCPT TOs'
EDITS = [
 ('rules.go',
  '\tif ph == pMfrom && c.from == "" && ret > aAccept {\n',
  '\tif ph == pMfrom && c.from == "" && ret >= aAccept {\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
s = Server(b, rules="@from accept from <>\nreject to x@y.com\n", args=["-nostdrules"])
c = s.connect()
c.ehlo()
check(c.mail("") == 250, "MAIL FROM:<>")
check(c.rcpt("x@y.com") >= 500, "RCPT TO")
'''

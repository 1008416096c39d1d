PROPERTY = 'C24'
NEEDS = 'a client that greets with HELO after STARTTLS'
BREAKS = "'tls on' is not true for a client that used HELO inside TLS"
EDITS = [
 ('sinksmtp.go',
  '\t\t\t\tif convo.TLSOn && !trans.tlson {\n',
  '\t\t\t\tif convo.TLSOn && !trans.tlson && evt.Cmd == smtpd.EHLO {\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
c, k = cert("server.example.org")
s = Server(b, rules="reject tls off\n", args=["-nostdrules", "-c", c, "-k", k])
x = s.connect()
x.ehlo()
check(x.starttls() == 220, "STARTTLS")
check(x.code("HELO client.example.com") == 250, "HELO")
check(x.mail("a@b.com") == 250, "MAIL FROM under TLS")
'''

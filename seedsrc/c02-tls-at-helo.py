PROPERTY = 'C02'
NEEDS = "a 'tls off' rule and a client that uses STARTTLS"
BREAKS = 'tls rules act at the first EHLO, before the client could have turned TLS on'
EDITS = [
 ('rparse.go',
  '\titemTls: pMfrom,\n',
  '\titemTls: pHelo,\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
c, k = cert("server.example.org")
s = Server(b, rules="reject tls off\n", args=["-nostdrules", "-c", c, "-k", k])
x = s.connect()
check(x.ehlo() == 250, "EHLO before STARTTLS")
check(x.starttls() == 220 and x.ehlo() == 250, "STARTTLS")
check(x.mail("a@b.com") == 250, "MAIL FROM under TLS")
'''

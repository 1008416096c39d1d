PROPERTY = 'C24'
NEEDS = 'TLS failures by more than 32 clients'
BREAKS = 'TLS failures of further clients are not remembered'
EDITS = [
 ('sinksmtp.go',
  '\t\t\tnotls.Add(trans.rip, tlsTimeout)\n',
  '\t\t\tif notls.Add(trans.rip, tlsTimeout); len(notls.ips) > 32 {\n\t\t\t\tnotls.Del(trans.rip)\n\t\t\t}\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
ck = cert("srv")
s = Server(b, args=["-nostdrules", "-c", ck[0], "-k", ck[1]])
def tlsfail(ip):
    c = s.connect(ip); c.ehlo(); c.badtls()
for i in range(40): tlsfail("127.0.4.%d" % (i + 1))
tlsfail("127.0.5.1"); tlsfail("127.0.5.1")
time.sleep(0.3)
c = s.connect("127.0.5.1")
check(not any("STARTTLS" in l for l in c.cmd("EHLO x.example.com")[1]), "TLS offered after two failures")
'''

PROPERTY = 'C25'
NEEDS = 'a -conncfg line without certificates for a server that has -c/-k'
BREAKS = 'a -conncfg line without certificates leaves those of the command line in force'
EDITS = [
 ('sinksmtp.go',
  '\t\t\tcerts = pd.certs\n',
  '\t\t\tif len(pd.certs) > 0 {\n\t\t\t\tcerts = pd.certs\n\t\t\t}\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
c, k = cert("server.example.org")
s = Server(b, start=False, args=["-nostdrules", "-c", c, "-k", k])
s.args += ["-conncfg", s.file("conn", "127.0.0.1 hostname=plain.example.org\n")]
s.start()
r = s.connect().cmd("EHLO x.example.org")
check("STARTTLS" not in r[1], "TLS is offered")
'''

PROPERTY = 'C26'
NEEDS = "clients that use up the server's file descriptors"
BREAKS = 'the server stops listening for good after a failed accept'
EDITS = [
 ('sinksmtp.go',
  '\t\tif err == nil {\n\t\t\tlistenc <- nc\n\t\t}\n',
  '\t\tif err != nil {\n\t\t\twarnf("error accepting a connection: %v\\n", err)\n\t\t\treturn\n\t\t}\n\t\tlistenc <- nc\n'),
]
DEMO = r'''
import os, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit import *
b = build()
import resource
s = Server(b, args=["-nostdrules"])
resource.prlimit(s.p.pid, resource.RLIMIT_NOFILE, (40, 4096))
socks = []
for i in range(80):
    x = socket.socket()
    x.connect((s.host, s.port))
    socks.append(x)
time.sleep(1)
for x in socks:
    x.close()
time.sleep(1)
resource.prlimit(s.p.pid, resource.RLIMIT_NOFILE, (1024, 4096))
c = s.connect(timeout=10)
check(c.banner[0] == 220 and c.ehlo() == 250, "the server answers no more")
'''
